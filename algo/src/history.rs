//! C13: an answer does not depend on the calls made before it.
//!
//! The states are call histories.  Every history is run on the real library in a process of
//! its own (forked where the histories part), and each call is compared with what the same
//! call answers in a process that has made no other.
use crate::ops::{call, NARROW, WIDE};
use mc::{history::{self, Refs}, Explorer, Spec, Tier};
use num::BigInt;

fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
const FAMILIES: &[&str] = &["power", "powern", "egcd", "coprime", "inverse", "division", "crt", "fact", "factu", "fib", "fibneg", "fibf", "fibs", "psum", "psum64", "psum128", "pcount"];
fn nth(fam: &str, n: u64) -> String {
    match fam {
        "power" => format!("power {} {}", n % 17 + 2, n),
        "powern" => format!("power {} {}", n as i64 - 300, n % 13),
        "egcd" => format!("egcd {} {}", n * 6, 360 - n as i64),
        "coprime" => format!("coprime {} {}", n, n / 3 + 7),
        "inverse" => format!("inverse {} {}", n as i64 - 50, n % 29 + 1),
        "division" => format!("division {} {} {}", n, n % 12, n % 30 + 1),
        "crt" => format!("crt {},{},{} {},{},{}", n % 5, n % 7, n, n % 9 + 2, n % 4 + 5, n + 11),
        "fibneg" => format!("fib -{n}"),
        "pcount" => format!("pcount {}", if n < 28 { format!("1{}", "0".repeat(n as usize)) } else { n.to_string() }),
        f => format!("{f} {n}"),
    }
}
/// Calls that a memory of earlier calls may take for the same one: an operand that agrees in
/// its low bits, its absolute value, its digits, its neighbour, or in another order.
const BASES: &[&str] = &[
    "power 3 5", "power -7 12", "egcd 12 18", "egcd 35 64", "coprime 12 19", "coprime 12 18", "inverse 3 7", "inverse 2 4", "inverse 17 64", "division 4 2 6", "division 1 2 4", "division 12 5 30", "crt 2,3 3,5", "crt 1,1 2,4", "crt 2,3,2 3,5,7", "crt 12,3 13,5", "fact 5", "fact 23", "fact -3",
    "factu 6", "factu 34", "fib 7", "fib -8", "fib 120", "fibf 7", "fibf 95", "fibs 6", "fibs 99", "psum 10", "psum 200", "psum64 12", "psum64 330", "psum128 13", "psum128 400", "pcount 10", "pcount 12",
];
fn group(base: &str) -> Vec<String> {
    let f: Vec<&str> = base.split(' ').collect();
    let (fam, args) = (f[0], &f[1..]);
    // every number of the call, a list is several
    let nums: Vec<Vec<BigInt>> = args.iter().map(|a| a.split(',').map(crate::util::big).collect()).collect();
    let machine = matches!(fam, "factu" | "fibf" | "fibs" | "psum64" | "psum128");
    let small = matches!(fam, "fact" | "factu" | "fibs");
    let mut v = vec![base.to_string()];
    let mut add = |n: &Vec<Vec<BigInt>>| {
        // what cannot be asked, or takes long
        let bad = |i: usize, k: &BigInt| {
            (fam == "power" && i == 1 && (k < &BigInt::from(0) || (k > &BigInt::from(5000) && k.bits() < 40)))
                || (machine && k < &BigInt::from(0))
                || (small && k > &BigInt::from(1200) && (machine || k.bits() <= 64))
                || (fam == "fibf" && k > &BigInt::from(70_000))
                || (fam == "fib" && k.bits() > 17 && k.bits() <= 64)
                || (matches!(fam, "psum" | "psum64" | "psum128") && k > &BigInt::from(100_000) && (machine || k.bits() <= 64))
                || (matches!(fam, "inverse" | "division" | "crt") && i + 1 == n.len() && k <= &BigInt::from(0))
        };
        if !n.iter().enumerate().any(|(i, l)| l.iter().any(|k| bad(i, k))) {
            let s = format!("{fam} {}", n.iter().map(|l| l.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" "));
            if !v.contains(&s) {
                v.push(s);
            }
        }
    };
    for i in 0..nums.len() {
        for j in 0..nums[i].len() {
            let mut with = |k: BigInt| {
                let mut n = nums.clone();
                n[i][j] = k;
                add(&n);
            };
            let k = nums[i][j].clone();
            for b in [3usize, 4, 5, 6, 7, 8, 9, 10, 16, 32, 63, 64, 96, 128] {
                with(&k + (BigInt::from(1) << b));
            }
            with(&k + (BigInt::from(2) << 64usize));
            with(&k - (BigInt::from(1) << 64usize));
            with(-&k);
            with(&k + 1);
            with(&k - 1);
            with(&k * 10);
            with(k.to_string().chars().rev().collect::<String>().parse().unwrap_or_else(|_| BigInt::from(0)));
            with(BigInt::from(0));
        }
    }
    // the same numbers in another order
    for i in 0..nums.len() {
        for j in i + 1..nums.len() {
            let mut n = nums.clone();
            n.swap(i, j);
            add(&n);
        }
        let mut n = nums.clone();
        n[i].reverse();
        add(&n);
    }
    let mut n = nums.clone();
    n.iter_mut().for_each(|l| l.reverse());
    add(&n);
    // the same digits, parted elsewhere
    if nums.len() == 2 && nums[0].len() == 1 {
        let d = format!("{}{}", nums[0][0], nums[1][0]);
        for c in 1..d.len() {
            if let (Ok(a), Ok(b)) = (d[..c].parse(), d[c..].parse()) {
                add(&vec![vec![a], vec![b]]);
            }
        }
    }
    v
}
/// Long single histories: the orders in which a cache fills, evicts and is asked again.
fn sweep(name: &str) -> Vec<String> {
    let f: Vec<&str> = name.split(' ').collect();
    let n: u64 = f[2].parse().unwrap();
    let fam = f[1];
    match f[0] {
        "up-down-up" => (0..n).chain((0..n).rev()).chain(0..n).map(|i| nth(fam, i)).collect(),
        "down-up" => (0..n).rev().chain(0..n).map(|i| nth(fam, i)).collect(),
        "zigzag" => (0..n).flat_map(|i| [i, n - i, i / 2, i]).map(|i| nth(fam, i)).collect(),
        "stride" => [1u64, 7, 64, 256, 3].iter().flat_map(|s| (0..n).map(move |i| i * s % n)).map(|i| nth(fam, i)).collect(),
        "mixed" => (0..n).flat_map(|i| FAMILIES.iter().map(move |f| nth(f, i))).chain((0..n).rev().flat_map(|i| FAMILIES.iter().rev().map(move |f| nth(f, i)))).collect(),
        "again" => {
            // one call over and over
            let op = WIDE[fam.parse::<usize>().unwrap()].to_string();
            (0..n).map(|_| op.clone()).collect()
        }
        "refused" => {
            // a flood of refused calls
            let bad = ["power 0 0", "power 3 1099511627776", "inverse 2 4", "division 1 2 4", "crt 1,1 2,4", "crt 1 2,3", "fact -5", "fact 18446744073709551621", "fib 18446744073709551626", "psum -1", "psum 18446744073709551626", "pcount -1", "pcount 11"];
            (0..n as usize).map(|i| bad[i % bad.len()].to_string()).collect()
        }
        x => panic!("no such sweep: {x}"),
    }
}
fn sweeps(t: Tier) -> Vec<String> {
    let (n, rep, mix) = if t == Tier::Quick { (520, 300, 130) } else { (1500, 5000, 600) };
    let mut v = vec![];
    for f in FAMILIES {
        for k in ["up-down-up", "down-up", "zigzag", "stride"] {
            v.push(format!("{k} {f} {n}"));
        }
    }
    v.push(format!("mixed all {mix}"));
    v.push(format!("refused all {}", rep * 4));
    for i in 0..WIDE.len() {
        v.push(format!("again {i} {rep}"));
    }
    v
}

pub struct History;
impl Spec for History {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn explore(&self, x: &mut Explorer) {
        let mut refs = Refs::new(call);
        refs.warm(&strings(WIDE));
        refs.warm(&strings(NARROW));
        for r in refs.answers() {
            x.note(mc::hash(r));
        }
        let q = x.quick();
        let mut levels = vec![(strings(WIDE), if q { 2 } else { 3 }), (strings(NARROW), if q { 3 } else { 4 })];
        for b in BASES {
            let g = group(b);
            if !q {
                levels.push((g[..g.len().min(24)].to_vec(), 3));
            }
            levels.push((g, 2));
        }
        for (alphabet, depth) in levels {
            history::all(x, &mut refs, &alphabet, depth);
        }
        for s in sweeps(x.tier) {
            if s.starts_with("again") || s.starts_with("refused") {
                history::after(x, &mut refs, &s, &sweep(&s), &strings(WIDE));
            } else {
                history::long(x, &mut refs, &s, &sweep(&s));
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        history::replay(call, c, sweep)
    }
    fn case_limit(&self) -> u64 {
        60
    }
    fn bounds(&self, t: Tier) -> String {
        let (a, c, r) = if t == Tier::Quick { (2, 3, 300) } else { (3, 4, 5000) };
        format!("every history of {a} calls over {} colliding calls and of {c} calls over {} of them, each in a process of its own; every history of 2 calls (of 3, over the first {}) out of the 15 to 70 that agree with one of {} calls in some bits or digits of their operands; {} long histories (every family ascending, descending, zigzag, strided; one call {r} times, or a flood of refused ones, then each other call in a process of its own)", WIDE.len(), NARROW.len(), if c == 3 { 0 } else { 24 }, BASES.len(), sweeps(t).len())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a forked process that has made no call stands for a fresh one".into()]
    }
}
