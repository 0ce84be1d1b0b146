//! S01 and S02: every token list of the expression grammar to a length.
use crate::{grammar::*, tree::*};
use mc::{Explorer, Spec, Tier};

fn ops(s: &str) -> Vec<Op> {
    s.split(' ').map(infix).collect()
}
const ALL: &str = "= == > >= + - * ⋅ ⊗ / // % ⊙ ^";

pub struct Precedence;
impl Spec for Precedence {
    fn id(&self) -> &'static str {
        "S01"
    }
    fn explore(&self, x: &mut Explorer) {
        let q = x.quick();
        let mut judge = |x: &mut Explorer, v: &[Tok]| x.judge(format_args!("{}", encode(v)), || expect(&write(v), &meaning(v)));
        let (all, few, two) = (ops(ALL), ops("= == + - * ⊗ / // ^"), ops("= - * ^"));
        // every operator, flat
        Walk { ops: &all, pre: &[], suf: &[], groups: false, max: if q { 11 } else { 13 }, kinds: &[0] }.run(x, &mut judge);
        // every operator with brackets, prefixes and suffixes
        Walk { ops: &all, pre: &[0, 1, 2, 3], suf: &[0, 1], groups: true, max: if q { 7 } else { 8 }, kinds: &[0, 1] }.run(x, &mut judge);
        // one operator per level, longer
        Walk { ops: &few, pre: &[0], suf: &[0], groups: true, max: if q { 8 } else { 10 }, kinds: &[1, 0] }.run(x, &mut judge);
        // nesting, longer still
        Walk { ops: &two, pre: &[0], suf: &[], groups: true, max: if q { 11 } else { 13 }, kinds: &[0] }.run(x, &mut judge);
        // every kind of operand around every pair of operators
        let n = KINDS.len();
        for r in 0..n {
            let k = [KINDS[r], KINDS[(r + 3) % n], KINDS[(r + 7) % n], KINDS[(r + 1) % n]];
            Walk { ops: &all, pre: &[], suf: &[], groups: false, max: 5, kinds: &k }.run(x, &mut judge);
            Walk { ops: &two, pre: &[0, 2], suf: &[0, 1], groups: true, max: if q { 5 } else { 7 }, kinds: &k }.run(x, &mut judge);
        }
        // long chains
        for n in [20, 60, 200] {
            for a in &all {
                for b in &all {
                    if !x.mine() {
                        continue;
                    }
                    let mut v = vec![];
                    for i in 0..n {
                        if i > 0 {
                            v.push(Tok::Inf(if i % 3 == 0 { *b } else { *a }));
                        }
                        let (s, t) = leaf(i % 2, i);
                        v.push(Tok::Leaf(s, t));
                    }
                    x.state();
                    x.trans(n as u64);
                    judge(x, &v);
                }
            }
        }
        // every length of a chain
        for n in (2..if q { 140 } else { 420 }).chain([255, 256, 257, 300, 511, 512, 513, 1000]) {
            for a in &all {
                if !x.mine() {
                    continue;
                }
                for (j, b) in [*a, infix("+"), infix("*"), infix("^"), infix("=")].into_iter().enumerate() {
                    // the second at the end, in the middle, and every other time
                    for way in 0..if j == 0 { 1 } else { 3 } {
                        let mut v = vec![];
                        for i in 0..n {
                            if i > 0 {
                                v.push(Tok::Inf(if [i + 1 == n, i == n / 2, i % 2 == 0][way] { b } else { *a }));
                            }
                            let (s, t) = leaf(i % 2, i);
                            v.push(Tok::Leaf(s, t));
                        }
                        x.state();
                        x.trans(n as u64);
                        judge(x, &v);
                    }
                }
            }
        }
        // operands equal to each other, or special
        for k in SAME {
            Walk { ops: &all, pre: &[], suf: &[], groups: true, max: 7, kinds: k }.run(x, &mut judge);
            Walk { ops: &few, pre: &[0, 2], suf: &[0], groups: true, max: if q { 6 } else { 7 }, kinds: k }.run(x, &mut judge);
        }
        for k in 0..CONSTANTS.len() {
            Walk { ops: &all, pre: &[0], suf: &[0], groups: false, max: 4, kinds: &[100 + k] }.run(x, &mut judge);
            Walk { ops: &all, pre: &[0], suf: &[0], groups: false, max: 4, kinds: &[200 + k % 16, 1] }.run(x, &mut judge);
        }
        // long runs of prefixes and suffixes
        for n in 1..if q { 70 } else { 300 } {
            for a in 0..4 {
                for b in 0..4 {
                    if !x.mine() {
                        continue;
                    }
                    for (every, suf) in [(2, 0), (3, 1), (7, n % 5), (n, n), (1, 3)] {
                        for end in 0..2 {
                            let mut v: Vec<Tok> = (0..n).map(|i| Tok::Pre(if i % every == 0 { a } else { b })).collect();
                            let (s, t) = leaf(end, n);
                            v.push(Tok::Leaf(s, t));
                            v.extend((0..suf).map(|_| Tok::Suf(1)));
                            v.extend((0..end).map(|_| Tok::Suf(0)));
                            x.state();
                            x.trans(v.len() as u64);
                            judge(x, &v);
                            // and below an operator
                            let (s, t) = leaf(1 - end, n);
                            let mut w = vec![Tok::Leaf(s, t), Tok::Inf(all[n % all.len()])];
                            w.extend(v.iter().cloned());
                            judge(x, &w);
                            v.extend([Tok::Inf(all[n % all.len()]), w[0].clone()]);
                            judge(x, &v);
                        }
                    }
                }
            }
        }
        // one operand in many brackets
        for n in 1..if q { 60 } else { 300 } {
            if !x.mine() {
                continue;
            }
            for k in [0, 1, 4, 7] {
                let mut v: Vec<Tok> = (0..n).map(|_| Tok::Open).collect();
                let (s, t) = leaf(k, n);
                v.push(Tok::Leaf(s, t));
                v.extend((0..n).map(|_| Tok::Close));
                x.state();
                x.trans(n as u64);
                judge(x, &v);
            }
        }
        // deep brackets
        for n in 1..if q { 40 } else { 90 } {
            if !x.mine() {
                continue;
            }
            for o in &all {
                let mut v = vec![];
                for i in 0..n {
                    let (s, t) = leaf(0, i);
                    v.extend([Tok::Open, Tok::Leaf(s, t), Tok::Inf(*o)]);
                }
                let (s, t) = leaf(1, 0);
                v.push(Tok::Leaf(s, t));
                v.extend((0..n).map(|_| Tok::Close));
                x.state();
                x.trans(n as u64);
                judge(x, &v);
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let v = decode(c).ok_or("no such token list")?;
        expect(&write(&v), &meaning(&v)).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        let q = t == Tier::Quick;
        format!("every well-formed token list: 14 infix operators flat to {} tokens; with 4 prefixes, 2 suffixes and brackets to {} tokens; one operator per level to {} tokens; 4 operators with brackets to {} tokens; 18 kinds of operands around all operator pairs; operands that are equal, special numbers, or names of constants; runs of prefixes and suffixes and brackets around one operand to {}; chains of 200 operands over all operator pairs, of every length to {} and of some to 1000 over all operators with one other between; brackets nested to depth {}", if q { 11 } else { 13 }, if q { 7 } else { 8 }, if q { 8 } else { 10 }, if q { 11 } else { 13 }, if q { 59 } else { 299 }, if q { 139 } else { 419 }, if q { 39 } else { 89 })
    }
}

/// `a*b*c` and the implicit product `a b c` are the same product.
pub fn flat(t: &T) -> T {
    match t {
        T::Fun(h, ps) => {
            let mut ps: Vec<_> = ps.iter().map(|(a, k)| (a.iter().map(flat).collect::<Vec<_>>(), k.iter().map(|(k, v)| (flat(k), flat(v))).collect::<Vec<_>>())).collect();
            if h == "std::infix::times" && ps.len() == 1 {
                if let T::Fun(g, inner) = ps[0].0[0].clone() {
                    if g == *h && inner.len() == 1 {
                        ps[0].0.splice(0..1, inner[0].0.clone());
                    }
                }
            }
            T::Fun(h.clone(), ps)
        }
        _ => t.clone(),
    }
}
fn round(text: &str) -> Result<u64, String> {
    let a = parse(text)?;
    let shown = a.to_string();
    let b = parse(&shown).map_err(|e| format!("printed as {shown}, which is {e}"))?;
    let (p, q) = (flat(&view(&a)), flat(&view(&b)));
    if p != q {
        return Err(format!("printed as {shown}, which reads {}, but it was {}", q.show(), p.show()));
    }
    let again = b.to_string();
    if again != shown {
        return Err(format!("printed as {shown}, and that as {again}"));
    }
    Ok(mc::hash(&shown))
}
/// Operands of S02: the printer does not print calls, strings lose their quotes.
fn product(i: usize) -> (String, T) {
    let v = ["2 a", "a b", "2 a b", "a b c d", "1.5 x", "0x1F y"];
    let s = v[i % v.len()];
    (s.into(), T::Empty)
}
pub struct Printing;
impl Spec for Printing {
    fn id(&self) -> &'static str {
        "S02"
    }
    fn explore(&self, x: &mut Explorer) {
        let q = x.quick();
        let mut judge = |x: &mut Explorer, v: &[Tok]| x.judge(format_args!("{}", write(v)), || round(&write(v)));
        let (all, few, two) = (ops(ALL), ops("= == + - * / // ^"), ops("= - * ^"));
        Walk { ops: &all, pre: &[], suf: &[], groups: true, max: if q { 9 } else { 11 }, kinds: &[0] }.run(x, &mut judge);
        Walk { ops: &all, pre: &[0, 1, 2, 3], suf: &[0, 1], groups: true, max: if q { 7 } else { 8 }, kinds: &[0, 1] }.run(x, &mut judge);
        Walk { ops: &few, pre: &[0, 2], suf: &[0], groups: true, max: if q { 8 } else { 9 }, kinds: &[1, 0] }.run(x, &mut judge);
        Walk { ops: &two, pre: &[0], suf: &[0], groups: true, max: if q { 10 } else { 12 }, kinds: &[0] }.run(x, &mut judge);
        for r in [2, 3, 5, 6, 9, 10, 16, 17, 18, 19] {
            Walk { ops: &all, pre: &[0], suf: &[1], groups: true, max: 5, kinds: &[r, 0, 1] }.run(x, &mut judge);
        }
        // every operand of the pools, alone and under every operator
        for k in [16, 17, 18, 19] {
            for i in 0..130 {
                if !x.mine() {
                    continue;
                }
                x.state();
                let (l, t) = leaf(k, i);
                let at = || Tok::Leaf(l.clone(), t.clone());
                let a = || Tok::Leaf("a".into(), sym("a"));
                let mut seen: Vec<Vec<Tok>> = vec![vec![at()], vec![Tok::Pre(0), at()], vec![at(), Tok::Suf(0)], vec![Tok::Pre(1), Tok::Pre(0), at(), Tok::Suf(1)]];
                for o in &all {
                    let o = || Tok::Inf(*o);
                    seen.push(vec![at(), o(), a()]);
                    seen.push(vec![a(), o(), at()]);
                    seen.push(vec![Tok::Pre(0), at(), o(), at(), o(), a()]);
                    seen.push(vec![a(), o(), Tok::Open, at(), o(), a(), Tok::Close]);
                    seen.push(vec![Tok::Open, at(), o(), at(), Tok::Close, Tok::Suf(0)]);
                }
                for v in seen {
                    x.trans(1);
                    judge(x, &v);
                }
            }
        }
        // long chains, long products, runs of prefixes and brackets
        for n in (4..if q { 140 } else { 420 }).chain([255, 256, 257, 300]) {
            for (k, a) in all.iter().enumerate() {
                if !x.mine() {
                    continue;
                }
                let b = all[(k + n) % all.len()];
                for way in 0..6 {
                    let mut s = String::new();
                    for i in 0..if way == 4 { n.min(40) } else { n } {
                        let o = if [false, i + 1 == n, i % 2 == 0, i % 7 == 3, false, false][way] { b } else { *a };
                        let l = leaf([0, 1, 9][i % 3], i).0;
                        s += &match way {
                            4 => format!("{l} {} (", o.text),
                            5 if i == 0 => format!("({}{l})", "-".repeat(n)),
                            _ if i == 0 => l,
                            _ => format!(" {} {l}", o.text),
                        };
                    }
                    if way == 4 {
                        s += "z";
                        s += &")".repeat(n.min(40));
                    }
                    x.state();
                    x.trans(n as u64);
                    x.judge(format_args!("{s}"), || round(&s));
                }
            }
            if x.mine() {
                for k in [0, 1, 2, 9, 16, 19] {
                    let s = (0..n).map(|i| leaf(k, i).0).collect::<Vec<_>>().join(" ");
                    for s in [format!("{s}"), format!("1 + {s} - 2"), format!("-({s})!"), format!("{} + z", "+-!".chars().cycle().take(n).map(|c| format!("{c}(")).collect::<String>().replace('(', "") + "y")] {
                        x.state();
                        x.trans(n as u64);
                        x.judge(format_args!("{s}"), || round(&s));
                    }
                }
            }
        }
        // implicit products as operands
        let mut with = |x: &mut Explorer, v: &[Tok]| {
            for k in 0..v.iter().filter(|t| matches!(t, Tok::Leaf(..))).count() {
                for j in 0..6 {
                    let mut n = 0;
                    let w: Vec<Tok> = v
                        .iter()
                        .map(|t| match t {
                            Tok::Leaf(..) => {
                                n += 1;
                                if n - 1 == k {
                                    let (s, t) = product(j);
                                    Tok::Leaf(s, t)
                                } else {
                                    t.clone()
                                }
                            }
                            t => t.clone(),
                        })
                        .collect();
                    let s = write(&w);
                    x.judge(format_args!("{s}"), || round(&s));
                }
            }
        };
        Walk { ops: &all, pre: &[0, 2], suf: &[0], groups: true, max: if q { 5 } else { 6 }, kinds: &[0] }.run(x, &mut with);
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        round(c).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        let q = t == Tier::Quick;
        format!("every well-formed token list of 14 infix operators with brackets to {} tokens, with 4 prefixes and 2 suffixes to {}, a smaller alphabet to {}, 4 operators to {}; operands: symbols, integers, decimals, bytes, booleans, null, name spaces (45 names, 125 paths), numbers around the machine words, long decimals, implicit products of up to four factors; chains over each operator with another between, products and runs of prefixes of every length to {} and of some to 300, brackets nested to 40", if q { 9 } else { 11 }, if q { 7 } else { 8 }, if q { 8 } else { 9 }, if q { 10 } else { 12 }, if q { 139 } else { 419 })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["calls, lists, indexing are not printable (explicit unimplemented!), strings are printed for people without quotes; nested products are compared modulo grouping from the left".into()]
    }
}
