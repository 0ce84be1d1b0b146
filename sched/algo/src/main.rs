//! C14: concurrent calls of the number-theory library.
#[path = "../../explore.rs"]
mod explore;
#[path = "../../../algo/src/ops.rs"]
#[allow(dead_code)]
mod ops;
#[path = "../../../algo/src/util.rs"]
#[allow(dead_code)]
mod util;
use explore::*;
use mc::{Explorer, Spec, Tier};
use ops::call;

fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    // two different calls of each function, alone on each side, twice, and after warming up
    let pairs: &[(&str, &str)] = &[
        ("power 2 5", "power 3 4"),
        ("power 2 3", "power -2 3"),
        ("egcd 12 18", "egcd 18 12"),
        ("coprime 12 19", "coprime 12 18"),
        ("inverse 3 7", "inverse 3 11"),
        ("inverse 3 7", "inverse 2 4"),
        ("division 4 2 6", "division 4 2 7"),
        ("division 1 2 4", "division 2 2 4"),
        ("crt 2,3 3,5", "crt 1,2 3,5"),
        ("crt 2,3 3,5", "crt 1,1 2,4"),
        ("fact 4", "fact 5"),
        ("factu 3", "factu 6"),
        ("fact -2", "fact 2"),
        ("fibf 5", "fibf 6"),
        ("fib 4", "fib -4"),
        ("fibs 4", "fibs 6"),
        ("fibf 4", "fibs 5"),
        ("psum64 5", "psum64 7"),
        ("psum128 4", "psum128 9"),
        ("psum 10", "psum 100"),
        ("psum 5", "psum -5"),
        ("psum 7", "psum64 3"),
        ("pcount 10", "pcount 100"),
        ("pcount 10", "pcount 11"),
    ];
    for (a, b) in pairs {
        v.push(Scenario::new(&[], &[&[a], &[b]]));
        v.push(Scenario::new(&[], &[&[a], &[a]]));
        v.push(Scenario::new(&[], &[&[a, b], &[b, a]]));
        v.push(Scenario::new(&[], &[&[a, a], &[b]]));
        v.push(Scenario::new(&[a], &[&[a], &[b]]));
        v.push(Scenario::new(&[a, b], &[&[a], &[b]]));
        if t == Tier::Thorough {
            v.push(Scenario::new(&[], &[&[a, b, a], &[b, a]]));
            v.push(Scenario::new(&[], &[&[a], &[b], &[a]]));
            v.push(Scenario::new(&[b], &[&[a, b], &[a, b]]));
        }
    }
    // wide operands and long loops
    let (f, g, h) = ("222232244629420445529739893505090668888", "4".repeat(150), format!("1{}7", "0".repeat(90)));
    let moduli = "2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71";
    let u = |k: u64| (0..20).map(|i| (i * k + 1).to_string()).collect::<Vec<_>>().join(",");
    let wide: Vec<(String, String)> = vec![
        ("power 7 300".into(), "power 11 280".into()),
        (format!("power -{f} 9"), format!("power {g} 3")),
        (format!("egcd {f} {g}"), format!("egcd {h} {g}")),
        (format!("coprime {f} {g}"), format!("coprime {h} {f}")),
        (format!("inverse {f} {h}"), format!("inverse {g} {h}")),
        (format!("division {f} {g} {h}"), format!("division {h} {f} {g}")),
        (format!("crt {} {moduli}", u(3)), format!("crt {} {moduli}", u(5))),
        ("fact 300".into(), "fact 310".into()),
        ("factu 1000".into(), "factu 990".into()),
        ("fib 3000".into(), "fib -2999".into()),
        ("fibf 5000".into(), "fibf 4999".into()),
        ("fibs 500".into(), "fibs 510".into()),
        ("psum64 2000".into(), "psum128 1500".into()),
        ("psum 1000000".into(), "psum 10000000000000000000000000".into()),
        ("pcount 1000000000000000000000000000".into(), "pcount 100000000000000000000000000".into()),
    ];
    for (a, b) in &wide {
        let (a, b) = (a.as_str(), b.as_str());
        for s in [Scenario::new(&[], &[&[a], &[b]]), Scenario::new(&[], &[&[a], &[a]]), Scenario::new(&[a], &[&[a], &[b]])] {
            v.push(Scenario { plain: 1, ..s });
        }
    }
    // three threads, and calls of different functions
    for t in [["power 2 3", "fact 3", "fibf 4"], ["inverse 3 7", "division 4 2 6", "crt 1,2 3,5"], ["psum64 3", "psum 5", "pcount 10"], ["fibf 4", "fibf 5", "fibf 3"], ["factu 3", "factu 2", "fact 4"], ["inverse 3 7", "inverse 2 7", "inverse 5 7"], ["psum64 4", "psum64 6", "psum64 5"]] {
        v.push(Scenario::new(&[], &[&[t[0]], &[t[1]], &[t[2]]]));
        v.push(Scenario::new(&[], &[&[t[0], t[1]], &[t[1], t[2]]]));
        v.push(Scenario::new(&[t[0]], &[&[t[1]], &[t[2]], &[t[0]]]));
    }
    // after as many calls as may fill a table
    for fam in FILL {
        for n in if t == Tier::Quick { &[3u64, 8, 64][..] } else { &[2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 63, 64, 100, 128, 256, 1000] } {
            let warm: Vec<String> = (0..*n).map(|i| nth(fam, i)).collect();
            let w: Vec<&str> = warm.iter().map(|s| s.as_str()).collect();
            let (a, b, c) = (nth(fam, *n), nth(fam, n + 1), nth(fam, n / 2));
            let mut add = |t: &[&[&str]]| {
                let mut s = Scenario::new(&w, t);
                s.name = format!("{n} calls of {fam} then {}", t.iter().map(|t| t.join("; ")).collect::<Vec<_>>().join(" || "));
                s.plain = 1;
                v.push(s);
            };
            add(&[&[&a], &[&b]]);
            add(&[&[&a], &[&a]]);
            add(&[&[&c], &[&b]]);
            if t == Tier::Thorough {
                add(&[&[&a, &c], &[&b, &a]]);
            }
        }
    }
    // a long way past the last call
    for fam in ["fact", "factu", "fib", "fibf", "fibs", "psum", "psum64", "psum128"] {
        for (w, a, b) in [(24u64, 40u64, 40u64), (24, 41, 33), (10, 12, 30), (33, 20, 66)] {
            let (w, a, b) = (format!("{fam} {w}"), format!("{fam} {a}"), format!("{fam} {b}"));
            for warm in [&[w.as_str()][..], &[]] {
                v.push(Scenario { plain: 1, ..Scenario::new(warm, &[&[&a], &[&b]]) });
            }
        }
    }
    v
}
const FILL: &[&str] = &["power", "egcd", "coprime", "inverse", "division", "crt", "fact", "factu", "fib", "fibf", "fibs", "psum", "psum64", "psum128"];
/// The n-th of the different calls of a function.
fn nth(fam: &str, n: u64) -> String {
    match fam {
        "power" => format!("power {} {}", n % 5 + 2, n / 5),
        "egcd" => format!("egcd {} {}", n + 2, 6),
        "coprime" => format!("coprime {} {}", n, n % 3 + 7),
        "inverse" => format!("inverse {} {}", n, n % 7 + 5),
        "division" => format!("division {} {} {}", n, n % 5 + 1, n % 3 + 7),
        "crt" => format!("crt {},{} {},{}", n % 3, n, n % 2 + 3, n + 8),
        f => format!("{f} {n}"),
    }
}

struct Concurrent;
fn oracle(f: &Fresh) -> impl Fn(&Scenario, &Run) -> Result<u64, String> + '_ {
    move |sc, r| {
        for (i, (t, a)) in sc.threads.iter().zip(&r.answers).enumerate() {
            if t.len() != a.len() {
                return Err(format!("thread {i} ended early"));
            }
            for (o, got) in t.iter().zip(a) {
                if f.0[o] != *got {
                    return Err(format!("thread {i}: {o} answered {}, alone it answers {}", mc::clip(got), mc::clip(&f.0[o])));
                }
            }
        }
        Ok(mc::hash(&format!("{:?}", r.answers)))
    }
}
impl Spec for Concurrent {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn explore(&self, x: &mut Explorer) {
        let scs = scenarios(x.tier);
        let f = Fresh::of(&scs, call);
        let o = oracle(&f);
        let q = x.quick();
        let mut s = Search { call, oracle: &o, bounds: Bounds { all: if q { 2 } else { 3 }, plain: 2, short: if q { 60 } else { 300 }, max_plain: if q { 400 } else { 4000 } }, uncontrolled: vec![], capped: 0, until: until(q), cut: 0 };
        for sc in &scs {
            s.scenario(x, sc);
        }
        x.remark("schedules that could not be controlled", s.uncontrolled.len() as u64);
        x.remark("scenarios with thinned statement points", s.capped);
        x.remark("cut: schedules passed over when time was up", s.cut);
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let scs = scenarios(Tier::Thorough);
        let f = Fresh::of(&scs, call);
        let o = oracle(&f);
        replay(&scs, c, call, &o)
    }
    fn case_limit(&self) -> u64 {
        120
    }
    fn bounds(&self, t: Tier) -> String {
        format!(
            "{} drivers of 2 or 3 threads with 1 to 3 calls each (some after warm-up calls); every schedule with at most {} preemptions, of which at most {} between plain statements (instrumentation level {})",
            scenarios(t).len(),
            if t == Tier::Quick { 2 } else { 3 },
            if t == Tier::Quick { "1 (2 when the driver is short)" } else { "2" },
            std::env::var("SCHED_LEVEL").unwrap_or_default()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["sequentially consistent memory; scheduling points are the operations of std::sync and the statements of the crate; code inside dependencies runs without a switch".into()]
    }
}
fn main() {
    mc::main(vec![Box::new(Concurrent)])
}
