//! S23: trees as values: made by hand, compared, looked up, and put into one another.
use crate::{
    forms::{self, form, shapes, tight, wide, Alphabet},
    shapes::wl,
    tree::*,
};
use mc::{guarded, Explorer, Spec, Tier};
use num::BigInt;
use sm_ast::{internal, Context, ToTex, ToWolfram, AST};
use std::cmp::Ordering;

// ------------------------------------------------------------ made by hand
fn paths() -> Vec<String> {
    let mut v: Vec<String> = forms::POOL.iter().chain(forms::KEYPOOL).map(|s| s.to_string()).collect();
    for a in ["a", "_0", "étale", "p1", "函", "std"] {
        for b in ["b", "__c", "x", "List", "a"] {
            v.push(format!("{a}::{b}"));
            for c in ["d", "sin", "b"] {
                v.push(format!("{a}::{b}::{c}"));
                v.push(format!("{c}::{a}::{b}::{c}::{a}"));
            }
        }
    }
    v.retain(|s| s != "mod");
    v
}
fn integers() -> Vec<BigInt> {
    let mut v: Vec<BigInt> = (-30..200).map(BigInt::from).collect();
    for b in [7usize, 8, 15, 16, 31, 32, 53, 63, 64, 127, 128, 200, 1000] {
        for d in -2..=2 {
            v.push((BigInt::from(1) << b) + d);
            v.push(-(BigInt::from(1) << b) + d);
        }
    }
    v
}
const STRINGS: &[&str] = &["", "a", "ab", "1", "true", "a b", " a ", "é", "函数", "a::b", "a∷b", "(", "+", "%%%", "\u{301}", "null", "1.5", "a,b", "x;y", "-1"];
fn made(what: &str, text: &str) -> Result<u64, String> {
    let same = |a: &AST, t: T, written: &str| -> Result<u64, String> {
        if view(a) != t {
            return Err(format!("made as {}, expected {}", view(a).show(), t.show()));
        }
        let b = parse(written)?;
        if *a != b || b != *a || a.cmp(&b) != Ordering::Equal || a.clone() != *a {
            return Err(format!("made as {a:?}, which is not the tree {b:?} read from {written}"));
        }
        if a.to_string() != b.to_string() || a.to_wolfram() != b.to_wolfram() || a.to_tex() != b.to_tex() || internal::head(a) != internal::head(&b) {
            return Err("what is made by hand and what is read are shown differently".into());
        }
        if a.rewrite() != *a {
            return Err(format!("rewritten to {:?}", a.rewrite()));
        }
        Ok(mc::hash(&a.to_wolfram_string()))
    };
    match what {
        "path" => {
            let wide = text.replace("::", "∷");
            let mut first = String::new();
            for (i, c) in text.split("::").enumerate() {
                // every other separator in the other spelling
                first += if i == 0 { "" } else if i % 2 == 1 { "∷" } else { "::" };
                first += c;
            }
            for s in [text, &wide, &first] {
                same(&AST::symbol(s), sym(text), text)?;
                same(&AST::symbol(s.to_string()), sym(text), &wide)?;
                same(&AST::symbol(AST::symbol(s).to_string()), sym(text), text)?;
            }
            Ok(mc::hash(text))
        }
        "int" => {
            let n: BigInt = text.parse().unwrap();
            let a = AST::integer(n.clone());
            if let Ok(m) = text.parse::<i64>() {
                if AST::integer(m) != a {
                    return Err("made from a machine word is another".into());
                }
            }
            if a.to_string() != text || a.to_tex() != text || a.to_wolfram() != wl(&T::Int(n.clone())) {
                return Err(format!("shown as {a}, {}, {}", a.to_tex(), a.to_wolfram_string()));
            }
            if n >= BigInt::from(0) {
                return same(&a, T::Int(n), text);
            }
            if view(&a) != T::Int(n) {
                return Err("another number".into());
            }
            Ok(mc::hash(text))
        }
        "str" => {
            if AST::string(text.to_string()) != AST::string(text) {
                return Err("made from an owned string is another".into());
            }
            same(&AST::string(text), T::Str(text.into()), &format!("\"{text}\""))
        }
        // a program of the trees of these texts
        "program" => {
            let v: Vec<AST> = text.split(" | ").filter(|s| !s.is_empty()).map(parse).collect::<Result<_, _>>()?;
            let a = AST::Program(v.clone());
            let want = format!("{}", a.to_wolfram_string());
            let t = wl(&fun("compoundExpression", v.iter().map(view).collect()));
            if a.to_wolfram() != t || t.to_string() != want {
                return Err(format!("exported as {want}, expected {}", t.to_string()));
            }
            if a != AST::Program(v.clone()) || a.rewrite() != a || internal::head(&a) != AST::EmptyStatement {
                return Err("is not itself".into());
            }
            for k in 0..v.len() {
                let mut w = v.clone();
                w.swap(0, k);
                let other = v[0] != v[k];
                if (AST::Program(w) != a) != other {
                    return Err("equality of programs is not that of their parts".into());
                }
            }
            Ok(mc::hash(&want))
        }
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------ compared
/// Texts of different trees.
fn family(q: bool) -> Vec<String> {
    let mut v: Vec<String> = ["", "0", "1", "2", "10", "18446744073709551616", "1.5", "2.5", "true", "false", "null", "\"\"", "\"a\"", "\"b\"", "\"1\"", "a", "b", "A", "a::b", "b::a", "a::b::c", "a::x", "b::x", "x", "a::a::x", "a::b::x", "b::a::x", "std::constant::Null2", "a::true", "1.0", "2.0", "0.0", "10.0", "18446744073709551616.0", "18446744073709551617", "9007199254740993", "9007199254740992", "9007199254740992.0", "1.00000000000000000001", "é", "#1", "#2", "¶1", "¶2"].map(String::from).to_vec();
    let t = |s: &str| s.to_string();
    for (x, y) in [("a", "b"), ("b", "a"), ("1", "2"), ("a", "\"a\""), ("a", "a::b")] {
        for o in ["+", "-", "*", "^", "==", "="] {
            v.push(format!("{x} {o} {y}"));
        }
        v.extend([format!("f({x})"), format!("f({x}, {y})"), format!("f({x})({y})"), format!("f(k: {x})"), format!("f(k: {x}, l: {y})"), format!("f({x}, k: {y})"), format!("f(l: {x})"), format!("[{x}]"), format!("[{x}, {y}]"), format!("{x}[{y}]"), format!("-{x}"), format!("{x}!"), format!("{x}!!")]);
    }
    for n in [20usize, 41, 80, 300] {
        for e in ["1", "2", "12"] {
            v.push(format!("{}{e}", "7".repeat(n)));
            v.push(format!("0.{}{e}", "7".repeat(n)));
            v.push(format!("\"{}{e}\"", "7".repeat(n)));
            v.push(format!("a{}{e}", "7".repeat(n)));
            v.push(format!("f({}1, {e})", "a, ".repeat(n)));
        }
    }
    v.extend([t("f()"), t("f()()"), t("f(a, b, c)"), t("g(a)"), t("m::f(a)"), t("f"), t("m::f"), t("[]"), t("[[]]"), t("v[1:2]"), t("v[1:2:3]"), t("v[:2]"), t("f(k: 1)(k: 1)"), t("f(k: 1)(l: 1)")]);
    let a = Alphabet::full();
    let more: Vec<String> = shapes(&a, 1).iter().chain(&shapes(&Alphabet { inf: vec!["+", "^"], index: false, ..a }, 2)).map(|s| tight(&form(s, &[0, 1]))).collect();
    let step = if q { (more.len() / 200).max(1) } else { (more.len() / 500).max(1) };
    v.extend(more.into_iter().step_by(step));
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|s| seen.insert(guarded(|| read(s).map(|t| t.show())).unwrap_or_else(Err)));
    v
}
/// The trees of these texts; all of them can be read.
fn trees(v: &[String]) -> Result<Vec<AST>, String> {
    v.iter().map(|t| guarded(|| parse(t)).unwrap_or_else(Err).map_err(|e| format!("{t}: {e}"))).collect()
}
fn pair(i: usize, j: usize, ts: &[AST]) -> Result<(), String> {
    let (a, b) = (&ts[i], &ts[j]);
    let (ab, ba) = (a.cmp(b), b.cmp(a));
    let (eq, want) = (a == b, i == j);
    if eq != want || (a != b) == want || (b == a) != want {
        return Err(format!("equal is {eq} for {} and {}", view(a).show(), view(b).show()));
    }
    if (ab == Ordering::Equal) != want || ab != ba.reverse() || a.partial_cmp(b) != Some(ab) || (a < b) != (ab == Ordering::Less) || (a >= b) != (ab != Ordering::Less) {
        return Err(format!("the order of {} and {} is {ab:?} one way and {ba:?} the other", view(a).show(), view(b).show()));
    }
    Ok(())
}
fn row(i: usize, texts: &[String], ts: &[AST], again: &[AST]) -> Result<u64, String> {
    if ts[i] != again[i] || again[i] != ts[i].clone() || ts[i].cmp(&again[i]) != Ordering::Equal {
        return Err(format!("{} read twice is not the same tree", texts[i]));
    }
    for j in 0..ts.len() {
        pair(i, j, ts)?;
        // over both, every third
        if ts[i] < ts[j] {
            for k in 0..ts.len() {
                if ts[j] < ts[k] && !(ts[i] < ts[k]) {
                    return Err(format!("{} < {} < {}, but not the first before the last", texts[i], texts[j], texts[k]));
                }
            }
        }
    }
    Ok(ts.iter().filter(|t| **t < ts[i]).count() as u64)
}
/// Every keyword of a call is found by its name, and no other.
fn lookup(text: &str) -> Result<u64, String> {
    let a = parse(text)?;
    let t = view(&a);
    let (AST::Function(_, ps), T::Fun(_, want)) = (&a, &t) else { return Err("not a call".into()) };
    let mut n = 0;
    for (p, (_, kw)) in ps.iter().zip(want) {
        for k in forms::KEYPOOL {
            let have = p.options.get(&AST::symbol(*k)).map(view);
            let hope = kw.iter().find(|(x, _)| *x == sym(k)).map(|(_, v)| v.clone());
            if have != hope || p.options.contains_key(&AST::symbol(k.to_string())) != hope.is_some() {
                return Err(format!("keyword {k} found as {:?}, written {:?}", have.map(|t| t.show()), hope.map(|t| t.show())));
            }
            n += hope.is_some() as u64;
        }
        if !p.options.keys().zip(p.options.keys().skip(1)).all(|(a, b)| a < b) {
            return Err("keywords out of order".into());
        }
    }
    Ok(n)
}

// ------------------------------------------------------------ put into one another
const HOLE: &str = "hole";
const CONTEXTS: &[&str] = &[
    "hole", "hole + a", "a + hole", "hole - a", "a - hole", "hole * a", "a * hole", "hole / a", "a / hole", "hole // a", "a // hole", "hole ^ a", "a ^ hole", "hole = a", "a = hole", "hole == a", "a > hole", "a ⊗ hole", "hole % a", "-hole", "+hole", "!hole", "*hole", "hole!", "hole!!", "-hole!", "(hole!)!", "2 hole", "hole a", "a hole b", "f(hole)",
    "f(a, hole)", "f(k: hole)", "f(hole, k: hole)", "f(a)(hole)", "sin(hole)", "arccot(hole)", "sin(hole, a)", "[hole]", "[a, hole, hole]", "v[hole]", "v[hole:a]", "v[a:hole:2]", "hole[1]", "hole.f(a)", "plus(hole, 3)", "plus(3, hole)", "times(hole, hole)", "power(hole, 2)", "power(2, hole)", "factorial(hole)", "fibonacci(hole)", "length(hole)",
    "first(hole)", "a + (b - hole)", "(a = hole) ^ b", "(hole + a) * hole", "-(hole ^ a)", "f(-hole!, [hole])",
];
/// An operand of a product without sign, which takes no brackets.
fn juxtaposed(ctx: &str) -> bool {
    ["2 hole", "hole a", "a hole b"].iter().any(|c| ctx.contains(c))
}
fn put(a: &mut AST, h: &AST) {
    match a {
        AST::Function(_, ps) => {
            for p in ps {
                p.arguments.iter_mut().for_each(|x| put(x, h));
                p.options.values_mut().for_each(|x| put(x, h));
            }
        }
        AST::Symbol(s) if s.name == HOLE && s.name_space.is_empty() => *a = h.clone(),
        _ => {}
    }
}
/// A negative number is read as the negation of a positive one.
fn positive(t: &T) -> T {
    match t {
        T::Int(n) if *n < BigInt::from(0) => fun("std::prefix::minus", vec![T::Int(-n)]),
        T::Fun(h, ps) => T::Fun(h.clone(), ps.iter().map(|(a, k)| (a.iter().map(positive).collect(), k.iter().map(|(k, v)| (k.clone(), positive(v))).collect())).collect()),
        t => t.clone(),
    }
}
fn filled(ctx: &str, text: &str) -> Result<u64, String> {
    let show = |f: &dyn Fn() -> String| guarded(|| f()).map_err(|_| "unsupported".to_string()).unwrap_or_else(|e| e);
    let faces = |a: &AST| [show(&|| a.to_string()), show(&|| a.to_wolfram_string()), show(&|| a.to_tex()), show(&|| a.forward(&mut Context::default()).map(|t| view(&t).show()).unwrap_or_else(|_| "declined".into())), show(&|| format!("{:?}", internal::length(a).map(|t| view(&t))))];
    let negative = text.starts_with("int ");
    let h = if negative { AST::integer(text[4..].parse::<BigInt>().unwrap()) } else { parse(text)? };
    let before = view(&h);
    let mut a = parse(ctx)?;
    let shape = a.clone();
    put(&mut a, &h);
    if view(&h) != before || a.clone() != a || a.rewrite() != a {
        return Err("changed by being put, copied or rewritten".into());
    }
    let got = faces(&a);
    if negative {
        // exported as it is, and printed so that it reads back
        if a.to_wolfram() != wl(&view(&a)) {
            return Err(format!("exported as {}", got[1]));
        }
        if got[0] != "unsupported" {
            let t = read(&got[0]).map_err(|e| format!("printed as {}, which is {e}", got[0]))?;
            if crate::walks::flat(&t) != crate::walks::flat(&positive(&view(&a))) {
                return Err(format!("{} printed as {}, which reads {}", view(&a).show(), got[0], t.show()));
            }
        }
    } else {
        // as if it had been written there
        let whole = ctx.replace(HOLE, &format!("({text})"));
        // a name called, or a literal in a product, takes no brackets
        if let Ok(b) = parse(&whole) {
            if view(&b) == view(&a) {
                let want = faces(&b);
                for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                    if g != w {
                        return Err(format!("{} is {g} when put there and {w} when written there", ["print", "wolfram", "tex", "value", "length"][i]));
                    }
                }
            } else if !juxtaposed(ctx) {
                return Err(format!("{whole} reads {}, but filled it is {}", view(&b).show(), view(&a).show()));
            }
        }
    }
    // and out again
    if text != HOLE && (a == shape) {
        return Err("equal to the tree it was put into".into());
    }
    Ok(mc::hash(&got.join("\n")))
}
fn fillings(q: bool) -> Vec<String> {
    let a = Alphabet::full();
    let mut v: Vec<String> = shapes(&a, 1).iter().map(|s| tight(&form(s, &[0, 1]))).collect();
    if !q {
        v.extend(shapes(&Alphabet { index: false, ..a.clone() }, 2).iter().map(|s| tight(&form(s, &[1, 0]))));
    }
    v.extend(wide(&a).iter().step_by(if q { 9 } else { 2 }).map(|s| tight(&form(s, &[0]))));
    v.extend(["true", "null", "1.5", "\"ab\"", "\"\"", "0", "18446744073709551616", "m::x", "#1", "x y", "a - b", "a / b", "a = b", "a ⊙ b", "!a", "f(k: 1)", "f(a)(b)", "b!!", "sin(x)", "arcsinh(x)", "[[a]]", ""].map(String::from));
    v.extend(["-1", "-2", "-10", "-18446744073709551616", "3"].iter().map(|n| format!("int {n}")));
    v
}
fn calls(q: bool) -> Vec<String> {
    let k = forms::KEYPOOL;
    let mut v = vec![];
    for i in 0..k.len() {
        v.push(format!("f({}: {i})", k[i]));
        for j in 0..k.len() {
            if i != j {
                v.push(format!("f({}: {i}, {}: {j})", k[i], k[j]));
                v.push(format!("f(a, {}: {i})(b, {}: {j})", k[i], k[j]));
                for l in 0..k.len() {
                    if l != i && l != j && (!q || (i + j + l) % 3 == 0) {
                        v.push(format!("f({}: {i}, {}: {j}, {}: {l})", k[i], k[j], k[l]));
                    }
                }
            }
        }
    }
    v.push(format!("f({})", k.iter().enumerate().map(|(i, k)| format!("{k}: {i}")).collect::<Vec<_>>().join(", ")));
    v.push(format!("f({})", k.iter().rev().enumerate().map(|(i, k)| format!("{k}: {i}")).collect::<Vec<_>>().join(", ")));
    v
}
fn programs() -> Vec<String> {
    let parts = ["1", "a + b", "f(x)", "\"s\"", "factor(6)", "[1, k]", "f(k: 1)"];
    let mut v = vec![String::new()];
    for a in parts {
        v.push(a.into());
        for b in parts {
            v.push(format!("{a} | {b}"));
            for c in parts {
                v.push(format!("{a} | {b} | {c}"));
            }
        }
    }
    v
}
pub struct Values;
impl Spec for Values {
    fn id(&self) -> &'static str {
        "S23"
    }
    fn explore(&self, x: &mut Explorer) {
        let q = x.quick();
        let mut todo: Vec<(&str, String)> = vec![];
        todo.extend(paths().into_iter().map(|s| ("path", s)));
        todo.extend(integers().iter().map(|n| ("int", n.to_string())));
        todo.extend(STRINGS.iter().map(|s| ("str", s.to_string())));
        todo.extend(programs().into_iter().map(|s| ("program", s)));
        for (w, s) in todo {
            if x.mine() {
                x.state();
                x.trans(1);
                x.judge(format_args!("{w} {s}"), || made(w, &s));
            }
        }
        let texts = family(q);
        let (ts, again) = (trees(&texts), trees(&texts));
        for (i, t) in texts.iter().enumerate() {
            if x.mine() {
                x.state();
                x.trans(texts.len() as u64 * texts.len() as u64);
                x.judge(format_args!("order {t}"), || row(i, &texts, ts.as_ref().map_err(|e| e.clone())?, again.as_ref().map_err(|e| e.clone())?));
            }
        }
        for c in calls(q) {
            if x.mine() {
                x.state();
                x.trans(1);
                x.judge(format_args!("lookup {c}"), || lookup(&c));
            }
        }
        for f in fillings(q) {
            if !x.mine() {
                continue;
            }
            x.state();
            for c in CONTEXTS {
                x.trans(1);
                x.judge(format_args!("put {c} <- {f}"), || filled(c, &f));
                // one context inside another
                for d in CONTEXTS.iter().step_by(if q { 5 } else { 1 }) {
                    let n = c.matches(HOLE).count() * d.matches(HOLE).count();
                    if n == 1 && *d != HOLE && !juxtaposed(c) {
                        let c = c.replace(HOLE, &format!("({d})"));
                        x.trans(1);
                        x.judge(format_args!("put {c} <- {f}"), || filled(&c, &f));
                    }
                }
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let (w, s) = c.split_once(' ').unwrap();
        match w {
            "order" => {
                let texts = family(false);
                let mut texts: Vec<String> = family(true).into_iter().chain(texts).collect();
                texts.sort();
                texts.dedup();
                let mut seen = std::collections::BTreeSet::new();
                texts.sort_by_key(|t| t != s);
                texts.retain(|t| seen.insert(guarded(|| read(t).map(|t| t.show())).unwrap_or_else(Err)));
                row(0, &texts, &trees(&texts)?, &trees(&texts)?)
            }
            "lookup" => lookup(s),
            "put" => {
                let (c, f) = s.split_once(" <- ").unwrap_or((s.trim_end_matches(" <-"), ""));
                filled(c, f)
            }
            w => made(w, s),
        }
        .map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        let q = t == Tier::Quick;
        format!(
            "{} paths in both spellings of every separator, {} integers, {} strings, {} programs made by hand; every pair and every ordered triple of {} trees; every set of up to 3 of {} keywords; {} trees put into {} contexts and into contexts within contexts",
            paths().len(),
            integers().len(),
            STRINGS.len(),
            programs().len(),
            family(q).len(),
            forms::KEYPOOL.len(),
            fillings(q).len(),
            CONTEXTS.len()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["trees that differ only in their positions may be equal or not, but always consistently".into()]
    }
}
