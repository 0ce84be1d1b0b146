//! S11: concurrent calls of the playground, of separate sessions and of the parser.
#[path = "../../explore.rs"]
mod explore;
#[path = "../../../front/src/memory.rs"]
#[allow(dead_code)]
mod memory;
use explore::*;
use mc::{in_child, Explorer, Spec, Tier};
use sm_ast::{Runner, ToTex};
use std::collections::HashMap;

/// result X: the shared session; tex: its TeX; own X: a session of one's own; parse X.
fn call(op: &str) -> String {
    let (k, x) = op.split_once(' ').unwrap_or((op, ""));
    match k {
        "result" => sm_playground::result(x),
        "tex" => sm_playground::result_tex(),
        "own" => {
            let mut r = Runner::default();
            let a = r.evaluate(x).unwrap_or_else(|e| format!("{e:?}"));
            format!("{a} / {}", r.last().map(|o| o.to_tex()).unwrap_or_else(|e| format!("{e:?}")))
        }
        "parse" => format!("{:?}", sm_ast::parser::ParserSettings { file: "f".into(), refine: true }.parse(x)),
        _ => panic!("no such call {op}"),
    }
}

const GOOD: [&str; 5] = ["plus(1,2)", "fibonacci(9)", "power(2,5)", "\"s\"", "length({1,2})"];
const BAD: [&str; 2] = ["f(x)", "1 +"];

fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = vec![];
    let mut add = |warm: &[&str], threads: &[&[&str]], after: &[&str]| {
        let mut s = Scenario::new(warm, threads);
        s.after = after.iter().map(|x| x.to_string()).collect();
        if !s.after.is_empty() {
            s.name += &format!(" then {}", s.after.join("; "));
        }
        v.push(s)
    };
    let r: Vec<String> = GOOD.iter().chain(&BAD).map(|x| format!("result {x}")).collect();
    let own: Vec<String> = GOOD.iter().chain(&BAD).map(|x| format!("own {x}")).collect();
    let parse: Vec<String> = ["1+2*3", "a[1,2]", "1 +", "f(x).g"].iter().map(|x| format!("parse {x}")).collect();
    for i in 0..r.len() {
        let (a, b) = (r[i].as_str(), r[(i + 1) % r.len()].as_str());
        let c = r[(i + 3) % r.len()].as_str();
        add(&[], &[&[a], &[b]], &["tex"]);
        add(&[], &[&[a], &[a]], &["tex", "tex"]);
        add(&[], &[&[a, "tex"], &[b, "tex"]], &["tex"]);
        add(&[], &[&[a], &["tex"]], &["tex"]);
        add(&[a], &[&[b], &["tex", "tex"]], &["tex"]);
        add(&[a], &[&["tex"], &["tex"]], &["tex"]);
        add(&[a], &[&[b, c], &["tex"]], &["tex"]);
        let (p, q) = (own[i].as_str(), own[(i + 1) % own.len()].as_str());
        add(&[], &[&[p], &[q]], &[p, q]);
        add(&[], &[&[a], &[q]], &["tex"]);
        add(&[a], &[&[p, "tex"], &[q]], &["tex"]);
        if t == Tier::Thorough {
            add(&[], &[&[a], &[b], &[c]], &["tex"]);
            add(&[], &[&[a, "tex"], &[b, "tex"], &["tex"]], &["tex"]);
            add(&[a, b], &[&[c, "tex", a], &["tex", b]], &["tex"]);
            add(&[], &[&[p, q], &[q, p]], &[p, q]);
        }
    }
    add(&[], &[&["tex"], &["tex"]], &["tex"]);
    add(&[], &[&[&r[0]], &[&r[1]], &["tex"]], &["tex"]);
    // long inputs, long answers, long errors, and sessions that are already long
    let long = |c: &str| -> Vec<String> {
        vec![
            format!("result plus(1{},1)", c.repeat(20)),
            format!("result \"{}\"", c.repeat(70)),
            format!("result \"{}\"", c.repeat(5000)),
            format!("result {}{c}", " ".repeat(300)),
            format!("result plus({c},1) /// {}", c.repeat(90)),
            format!("result power({c},{})", 100),
            format!("result {}{c}", "g(".repeat(9)),
            format!("result f{}", format!("({c})").repeat(20)),
        ]
    };
    let (p, q) = (long("2"), long("3"));
    for i in 0..p.len() {
        add(&[], &[&[&p[i]], &[&q[i]]], &["tex"]);
        add(&[], &[&[&p[i], "tex"], &[&q[(i + 1) % q.len()]]], &["tex"]);
        add(&[], &[&[&p[i]], &[&r[i % r.len()], "tex"]], &["tex"]);
    }
    for n in [20usize, 70, 300] {
        let warm: Vec<&str> = (0..n).map(|i| r[i % r.len()].as_str()).collect();
        add(&warm, &[&[&r[0]], &[&r[1]]], &["tex"]);
        add(&warm, &[&[&r[2], "tex"], &[&q[1]]], &["tex"]);
    }
    for i in 0..parse.len() {
        let (p, q) = (parse[i].as_str(), parse[(i + 1) % parse.len()].as_str());
        add(&[], &[&[p], &[q]], &[p, q]);
        add(&[], &[&[p], &[p]], &[p]);
        add(&[p], &[&[q], &[&r[i]]], &["tex", p]);
        if t == Tier::Thorough {
            add(&[], &[&[p, q], &[q, p]], &[p, q]);
        }
    }
    v
}

/// What a call answers alone: `None` before any result, otherwise after the result named.
struct Alone(HashMap<(Option<String>, String), String>);
impl Alone {
    fn of(scs: &[Scenario]) -> Alone {
        let mut m = HashMap::new();
        let one = |before: Option<&str>, o: &str| {
            in_child(|| {
                if let Some(b) = before {
                    call(b);
                }
                call(o)
            })
            .unwrap_or_else(|e| e)
        };
        m.insert((None, "tex".to_string()), one(None, "tex"));
        for o in scs.iter().flat_map(|s| s.threads.iter().flatten().chain(&s.warm).chain(&s.after)) {
            m.entry((None, o.clone())).or_insert_with(|| one(None, o));
            if o.starts_with("result ") {
                m.entry((Some(o.clone()), "tex".to_string())).or_insert_with(|| one(Some(o), "tex"));
            }
        }
        Alone(m)
    }
    /// The answer of `o` in a session whose latest result call is `s`, and the latest afterwards.
    fn step<'a>(&'a self, s: &'a Option<String>, o: &str) -> (&'a str, Option<String>) {
        if o == "tex" {
            (&self.0[&(s.clone(), o.to_string())], s.clone())
        } else if o.starts_with("result ") {
            (&self.0[&(None, o.to_string())], Some(o.to_string()))
        } else {
            (&self.0[&(None, o.to_string())], s.clone())
        }
    }
    /// Is there one order of the calls, keeping each thread's own, that gives these answers?
    fn merge(&self, sc: &Scenario, r: &Run, at: &mut Vec<usize>, s: &Option<String>) -> bool {
        let mut done = true;
        for t in 0..sc.threads.len() {
            if at[t] < sc.threads[t].len() {
                done = false;
                let (want, n) = self.step(s, &sc.threads[t][at[t]]);
                if want == r.answers[t][at[t]] {
                    at[t] += 1;
                    let ok = self.merge(sc, r, at, &n);
                    at[t] -= 1;
                    if ok {
                        return true;
                    }
                }
            }
        }
        if !done {
            return false;
        }
        let mut s = s.clone();
        sc.after.iter().zip(&r.after).all(|(o, got)| {
            let (want, n) = self.step(&s, o);
            let ok = want == got;
            s = n;
            ok
        })
    }
    fn judge(&self, sc: &Scenario, r: &Run) -> Result<u64, String> {
        if sc.threads.iter().zip(&r.answers).any(|(t, a)| t.len() != a.len()) || r.answers.len() != sc.threads.len() || r.after.len() != sc.after.len() {
            return Err("a thread ended early".into());
        }
        let mut s = None;
        for w in &sc.warm {
            s = self.step(&s, w).1;
        }
        if self.merge(sc, r, &mut vec![0; sc.threads.len()], &s) {
            Ok(mc::hash(&format!("{:?}{:?}", r.answers, r.after)))
        } else {
            Err(format!("no order of the calls gives the answers {:?} and then {:?}", r.answers, r.after))
        }
    }
}

struct Play;
impl Spec for Play {
    fn id(&self) -> &'static str {
        "S11"
    }
    fn explore(&self, x: &mut Explorer) {
        let scs = scenarios(x.tier);
        let f = Alone::of(&scs);
        let o = |sc: &Scenario, r: &Run| f.judge(sc, r);
        let q = x.quick();
        let mut s = Search { call, oracle: &o, bounds: Bounds { all: if q { 2 } else { 3 }, plain: 2, short: if q { 40 } else { 120 }, max_plain: if q { 120 } else { 1500 } }, uncontrolled: vec![], capped: 0, until: until(q), cut: 0 };
        for sc in &scs {
            s.scenario(x, sc);
        }
        x.remark("schedules that could not be controlled", s.uncontrolled.len() as u64);
        x.remark("scenarios with thinned statement points", s.capped);
        x.remark("cut: schedules passed over when time was up", s.cut);
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let scs = scenarios(Tier::Thorough);
        let f = Alone::of(&scs);
        replay(&scs, c, call, &|sc, r| f.judge(sc, r))
    }
    fn case_limit(&self) -> u64 {
        120
    }
    fn bounds(&self, t: Tier) -> String {
        format!(
            "{} drivers of 2 or 3 threads with 1 to 3 calls each of result, result_tex, separate sessions and the parser, some after warm-up calls and all followed by sequential calls; every schedule with at most {} preemptions, of which at most {} between plain statements, those thinned to {} evenly spaced statements per driver (instrumentation level {})",
            scenarios(t).len(),
            if t == Tier::Quick { 2 } else { 3 },
            if t == Tier::Quick { "1" } else { "1 (2 when the driver is short)" },
            if t == Tier::Quick { 120 } else { 1500 },
            std::env::var("SCHED_LEVEL").unwrap_or_default()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["sequentially consistent memory; scheduling points are the operations of std::sync, the initialisation of lazy statics and the statements of sm_playground, sm_ast and sm_algorithm; code inside dependencies (the generated parser among them) runs without a switch".into()]
    }
}
/// An answer is never empty.
fn answer(op: &str) -> String {
    format!("<{}>", memory::call(op))
}
/// S22: every other entry point, from several threads at once.
struct Front;
fn fronts(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let pairs: &[(&str, &str)] = &[
        ("1", "2"),
        ("a", "b::c"),
        ("\"s\"", "\"t\""),
        ("1.5", "0xf"),
        ("a + b", "a * b"),
        ("-a!", "!b"),
        ("f(x)", "f(y)(z)"),
        ("f(k: 1)", "f(m: 2, 3)"),
        ("[1, 2]", "[3]"),
        ("v[1]", "v[2:3]"),
        ("2 x", "3 y"),
        ("a.f", "b.g(c)"),
        ("#1", "¶2"),
        ("true", "null"),
        ("1 +", "f("),
        ("", ";"),
        ("f(x)", "1 +"),
        ("plus(1, 2)", "plus(3, 4)"),
        ("times(2, 3)", "power(2, 3)"),
        ("factorial(4)", "fibonacci(5)"),
        ("length(\"ab\")", "first(\"xy\")"),
        ("plus(1, 2)", "f(1, 2)"),
        ("sin(x)", "List(1, 2)"),
        ("a * (b = c)", "a ^ (b == c)"),
        ("(a > b) % c", "(a ⊗ b) ⊙ c"),
        ("a ⋅ (b // c)", "2×3÷4"),
        ("arccot(x, y)", "sin(a + b)"),
        ("[a, [b]]", "List(1)(2)"),
        ("a∷b", "f(k：1，2)"),
        ("*a!!", "+a"),
        ("##a", "⁋⁋"),
    ];
    let kinds = ["read", "value", "print", "wolfram", "tex", "forward", "parts", "file", "read@g"];
    for (i, (p, q)) in pairs.iter().enumerate() {
        for (n, k) in kinds.iter().enumerate() {
            let (a, b) = (format!("{k} {p}"), format!("{k} {q}"));
            let (a, b) = (a.as_str(), b.as_str());
            v.push(Scenario::new(&[], &[&[a], &[b]]));
            if n == 0 || n == 1 + i % 8 || n == 1 + (i + 3) % 8 || t == Tier::Thorough {
                v.push(Scenario::new(&[a], &[&[a], &[b]]));
            }
            if n == 0 || t == Tier::Thorough {
                v.push(Scenario::new(&[], &[&[a], &[a]]));
                v.push(Scenario::new(&[], &[&[a, b], &[b, a]]));
                v.push(Scenario::new(&[b], &[&[a, b], &[a]]));
            }
        }
        // another call on the same text
        let k = kinds_of(i);
        let (a, b) = (format!("{} {p}", k.0), format!("{} {p}", k.1));
        v.push(Scenario::new(&[], &[&[&a], &[&b]]));
        if t == Tier::Thorough {
            v.push(Scenario::new(&[], &[&[&a], &[&b], &[&a]]));
        }
    }
    // large texts
    let large = |c: &str, d: &str| -> Vec<String> {
        let list = |n: usize, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(",");
        vec![
            c.repeat(300),
            format!("\"{}\"", d.repeat(3000)),
            (0..40).map(|i| format!("{d}{i}")).collect::<Vec<_>>().join("+"),
            format!("f({})", list(40, &|i| format!("{d}{i}"))),
            format!("f({})", list(20, &|i| format!("k{i}: {c}"))),
            (0..40).map(|i| format!("{d}{i}")).collect::<Vec<_>>().join(" "),
            format!("{}{d}{}", "f([".repeat(10), "])".repeat(10)),
            format!("{d}{}", ".g(1)[2]".repeat(10)),
        ]
    };
    for (a, b) in large("7", "a").iter().zip(&large("8", "bc")) {
        for k in kinds {
            let (a, b) = (format!("{k} {a}"), format!("{k} {b}"));
            v.push(Scenario { plain: 1, ..Scenario::new(&[], &[&[&a], &[&b]]) });
        }
    }
    // after as many calls as may fill a table
    for k in ["read", "value", "wolfram", "tex", "print"] {
        for fam in ["number", "call", "value", "string"] {
            for n in if t == Tier::Quick { &[8u64, 64][..] } else { &[2, 3, 4, 5, 8, 16, 31, 32, 64, 100, 128, 256, 1000] } {
                let of = |i: u64| format!("{k} {}", memory::nth(fam, i));
                let warm: Vec<String> = (0..*n).map(of).collect();
                let w: Vec<&str> = warm.iter().map(|s| s.as_str()).collect();
                let mut s = Scenario::new(&w, &[&[&of(*n)], &[&of(n / 2)]]);
                s.name = format!("{n} calls of {k} {fam} then {} || {}", of(*n), of(n / 2));
                s.plain = 1;
                v.push(s);
            }
        }
    }
    v
}
fn kinds_of(i: usize) -> (&'static str, &'static str) {
    [("read", "value"), ("print", "tex"), ("wolfram", "file"), ("read", "read@g"), ("value", "forward"), ("tex", "wolfram"), ("parts", "read")][i % 7]
}
fn alone(f: &Fresh) -> impl Fn(&Scenario, &Run) -> Result<u64, String> + '_ {
    move |sc, r| {
        for (i, (t, a)) in sc.threads.iter().zip(&r.answers).enumerate() {
            if t.len() != a.len() {
                return Err(format!("thread {i} ended early"));
            }
            for (o, got) in t.iter().zip(a) {
                if f.0[o] != *got {
                    return Err(format!("thread {i}: {o} answered {}, alone it answers {}", mc::clip(got), mc::clip(&f.0[o])));
                }
            }
        }
        Ok(mc::hash(&format!("{:?}", r.answers)))
    }
}
impl Spec for Front {
    fn id(&self) -> &'static str {
        "S22"
    }
    fn explore(&self, x: &mut Explorer) {
        let scs = fronts(x.tier);
        let f = Fresh::of(&scs, answer);
        let o = alone(&f);
        let q = x.quick();
        let mut s = Search { call: answer, oracle: &o, bounds: Bounds { all: if q { 2 } else { 3 }, plain: 2, short: if q { 45 } else { 200 }, max_plain: if q { 250 } else { 2000 } }, uncontrolled: vec![], capped: 0, until: until(q), cut: 0 };
        for sc in &scs {
            s.scenario(x, sc);
        }
        x.remark("schedules that could not be controlled", s.uncontrolled.len() as u64);
        x.remark("scenarios with thinned statement points", s.capped);
        x.remark("cut: schedules passed over when time was up", s.cut);
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let scs = fronts(Tier::Thorough).into_iter().chain(fronts(Tier::Quick)).collect::<Vec<_>>();
        let f = Fresh::of(&scs, answer);
        let o = alone(&f);
        replay(&scs, c, answer, &o)
    }
    fn case_limit(&self) -> u64 {
        120
    }
    fn bounds(&self, t: Tier) -> String {
        format!(
            "{} drivers of 2 or 3 threads with 1 or 2 calls each, some after as many as {} calls; every schedule with at most {} preemptions, of which at most 1 (2 when the driver is short) between plain statements, those thinned to {} evenly spaced statements per driver (instrumentation level {})",
            fronts(t).len(),
            if t == Tier::Quick { 64 } else { 1000 },
            if t == Tier::Quick { 2 } else { 3 },
            if t == Tier::Quick { 250 } else { 2000 },
            std::env::var("SCHED_LEVEL").unwrap_or_default()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        Play.assumptions()
    }
}
fn main() {
    mc::main(vec![Box::new(Play), Box::new(Front)])
}
