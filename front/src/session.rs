//! S09 and S10: what the evaluator answers, and what a session remembers.
use crate::{
    grammar::*,
    literals::plain,
    totality::{long as long_text, LENGTHS, LONG},
    tree::*,
};
use mc::{Explorer, Spec, Tier};
use num::{pow::pow, BigInt, BigRational, One, Signed, ToPrimitive, Zero};
use sm_ast::{Runner, SMError, AST};

/// The value an expression denotes.
#[derive(Clone, Debug, PartialEq)]
enum V {
    Num(BigRational),
    Bool(bool),
    Str(String),
    /// stands for itself
    Name(String),
}
fn num(i: impl Into<BigInt>) -> V {
    V::Num(BigRational::from(i.into()))
}
fn fact(n: &BigInt, step: u64) -> Option<BigInt> {
    let n = n.to_u64().filter(|n| *n <= 5000)?;
    let mut r = BigInt::one();
    let mut i = n;
    while i > 1 {
        r *= i;
        i = i.saturating_sub(step);
    }
    Some(r)
}
fn fib(n: &BigInt) -> Option<BigInt> {
    let k = n.to_i64().filter(|n| n.abs() <= 20_000)?;
    let (mut a, mut b) = (BigInt::zero(), BigInt::one());
    for _ in 0..k.unsigned_abs() {
        let c = &a + &b;
        a = b;
        b = c;
    }
    Some(if k < 0 && k % 2 == 0 { -a } else { a })
}
/// `None`: no value, or none this oracle knows.
fn value(t: &T) -> Option<V> {
    Some(match t {
        T::Int(i) => num(i.clone()),
        T::Dec(d) => {
            let d = plain(d)?;
            let (a, b) = d.split_once('.').unwrap_or((&d, ""));
            V::Num(BigRational::new(format!("{a}{b}").parse().ok()?, pow(BigInt::from(10), b.len())))
        }
        T::Bool(b) => V::Bool(*b),
        T::Str(s) => V::Str(s.clone()),
        T::Sym(s) => V::Name(s.clone()),
        T::Empty => return None,
        T::Fun(h, ps) => {
            if ps.len() != 1 || !ps[0].1.is_empty() {
                return None;
            }
            let a = ps[0].0.iter().map(value).collect::<Option<Vec<V>>>()?;
            let h = h.as_str();
            match (h, a.as_slice()) {
                ("std::infix::add" | "plus" | "add", v) if v.len() > 1 => {
                    let mut r = BigRational::zero();
                    for x in v {
                        match x {
                            V::Num(x) => r += x,
                            _ => return None,
                        }
                    }
                    V::Num(r)
                }
                ("std::infix::subtract", [V::Num(a), V::Num(b)]) => V::Num(a - b),
                ("std::infix::times" | "times", v) if v.len() > 1 => {
                    let mut r = BigRational::one();
                    for x in v {
                        match x {
                            V::Num(x) => r *= x,
                            _ => return None,
                        }
                    }
                    V::Num(r)
                }
                ("std::infix::divide", [V::Num(a), V::Num(b)]) if !b.is_zero() => V::Num(a / b),
                ("std::infix::quotient", [V::Num(a), V::Num(b)]) if !b.is_zero() => V::Num((a / b).floor()),
                ("std::infix::%", [V::Num(a), V::Num(b)]) if !b.is_zero() => V::Num(a - (a / b).floor() * b),
                ("std::infix::power" | "power", [V::Num(a), V::Num(b)]) if b.is_integer() => {
                    let e = b.to_integer().to_i64().filter(|e| e.abs() <= if a.numer().bits() + a.denom().bits() < 8 { 70_000 } else { 5000 })?;
                    if a.is_zero() && e <= 0 {
                        return None;
                    }
                    let mut r = (BigInt::one(), BigInt::one());
                    for _ in 0..e.unsigned_abs() {
                        r.0 *= a.numer();
                        r.1 *= a.denom();
                    }
                    let r = if r.1.is_one() { BigRational::from(r.0) } else { BigRational::new(r.0, r.1) };
                    V::Num(if e < 0 { r.recip() } else { r })
                }
                ("std::infix::==", [V::Num(a), V::Num(b)]) => V::Bool(a == b),
                ("std::infix::>", [V::Num(a), V::Num(b)]) => V::Bool(a > b),
                ("std::infix::>=", [V::Num(a), V::Num(b)]) => V::Bool(a >= b),
                ("std::prefix::minus", [V::Num(a)]) => V::Num(-a),
                ("std::prefix::plus", [V::Num(a)]) => V::Num(a.clone()),
                ("std::prefix::not", [V::Bool(a)]) => V::Bool(!a),
                ("std::suffix::factorial" | "factorial", [V::Num(a)]) if a.is_integer() && !a.is_negative() => num(fact(&a.to_integer(), 1)?),
                ("std::suffix::factorial2", [V::Num(a)]) if a.is_integer() && !a.is_negative() => num(fact(&a.to_integer(), 2)?),
                ("fibonacci", [V::Num(a)]) if a.is_integer() => num(fib(&a.to_integer())?),
                ("first", [V::Str(s)]) => V::Str(s.chars().next()?.to_string()),
                ("last", [V::Str(s)]) => V::Str(s.chars().last()?.to_string()),
                ("length", [V::Str(s)]) => num(s.chars().count()),
                _ => return None,
            }
        }
    })
}
/// What the answer's text denotes; strings are shown without quotes.
fn shown(s: &str, want: &V) -> Option<V> {
    match want {
        V::Str(_) => Some(V::Str(s.into())),
        V::Name(_) => Some(V::Name(s.into())),
        _ => value(&read(s).ok()?),
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Duty {
    /// an answer is owed
    Must,
    May,
}
fn answer(text: &str, t: &T, duty: Duty) -> Result<u64, String> {
    let mut r = Runner::default();
    let got = r.evaluate(text);
    let want = value(t);
    match (&got, &want) {
        (Err(e), _) if duty == Duty::Must => return Err(format!("declined: {e:?}, owed {want:?}")),
        (Err(_), _) => {}
        (Ok(s), Some(w)) => {
            let g = shown(s, w);
            if g.as_ref() != Some(w) {
                return Err(format!("answered {s}, which denotes {g:?}, not {w:?}"));
            }
        }
        (Ok(s), None) => {
            // no value of its own: an answer may only give the expression back
            if read(s).ok().as_ref() != Some(t) {
                return Err(format!("answered {s}, where no value is known"));
            }
        }
    }
    // the session keeps what was answered
    match (&got, r.last()) {
        (Ok(s), Ok(a)) if a.to_string() == *s => {}
        (Err(_), Err(SMError::EmptyContainer(_))) => {}
        (_, l) => return Err(format!("the answer was {got:?}, the session keeps {l:?}")),
    }
    Ok(mc::hash(&got.unwrap_or_default()))
}

// ---------------------------------------------------------------- S09
pub struct Answers;
fn numbers(q: bool) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = (0..if q { 24 } else { 80 }).map(BigInt::from).collect();
    for b in [31usize, 32, 53, 63, 64, 65, 127, 128, 200] {
        for d in -1..=1 {
            v.push((BigInt::one() << b) + d);
        }
    }
    for e in [9, 10, 18, 19, 20, 38, 39] {
        v.push(pow(BigInt::from(10), e));
    }
    v
}
const FORMS: usize = 12;
fn binary(i: usize, a: &BigInt, b: &BigInt) -> (String, T, bool) {
    let t = |h: &str| fun(h, vec![T::Int(a.clone()), T::Int(b.clone())]);
    match i {
        0 => (format!("{a}+{b}"), t("std::infix::add"), true),
        1 => (format!("{a} * {b}"), t("std::infix::times"), true),
        2 => (format!("{a} {b}"), t("std::infix::times"), true),
        3 => (format!("plus({a},{b})"), t("plus"), true),
        4 => (format!("{a}.plus({b})"), t("plus"), true),
        5 => (format!("times({a},{b})"), t("times"), true),
        6 => (format!("({a}).times({b},)"), t("times"), true),
        7 => (format!("{a}×{b}"), t("std::infix::times"), true),
        8 => (format!("{a}-{b}"), t("std::infix::subtract"), false),
        9 => (format!("{a}/{b}"), t("std::infix::divide"), false),
        10 => (format!("{a}//{b}"), t("std::infix::quotient"), false),
        _ => (format!("{a}%{b}"), t("std::infix::%"), false),
    }
}
const ODD: &[&str] = &["x", "a::b", "2", "1.5", "\"s\"", "g(2)", "[1,2]", "3!", "(x+1)", "true", "#1"];
const NARY: usize = 8;
/// `n` operands under an operator or a function, one (two) of which is another.
fn nary(f: usize, n: usize, at: usize, two: Option<usize>, o: &str) -> String {
    let v: Vec<String> = (0..n).map(|i| if i == at || Some(i) == two { o.to_string() } else { (i % 7 + 2).to_string() }).collect();
    match f {
        0 => v.iter().map(|s| if s.starts_with('[') { format!("({s})") } else { s.clone() }).collect::<Vec<_>>().join(" "),
        1 => v.join("*"),
        2 => v.join("+"),
        3 => format!("plus({})", v.join(",")),
        4 => format!("times({})", v.join(",")),
        5 => format!("power({})", v.join(",")),
        6 => format!("({}).plus({})", v[0], v[1..].join(",")),
        _ => format!("add({})", v.join(",")),
    }
}
const LETTERS: &[&str] = &["a", "é", "0", "函", "😀", " ", "\u{301}"];
impl Spec for Answers {
    fn id(&self) -> &'static str {
        "S09"
    }
    fn explore(&self, x: &mut Explorer) {
        let q = x.quick();
        let ns = numbers(q);
        let go = |x: &mut Explorer, s: &str, must: bool| {
            x.trans(1);
            x.judge(format_args!("{} {s}", if must { "must" } else { "may" }), || {
                let t = read(s)?;
                answer(s, &t, if must { Duty::Must } else { Duty::May })
            });
        };
        // two numbers
        for a in &ns {
            for b in &ns {
                if !x.mine() {
                    continue;
                }
                x.state();
                for f in 0..FORMS {
                    let (s, t, must) = binary(f, a, b);
                    x.trans(1);
                    x.judge(format_args!("bin {f} {a} {b}"), || {
                        expect(&s, &t)?;
                        answer(&s, &t, if must { Duty::Must } else { Duty::May })
                    });
                }
                for o in ["==", ">", ">=", "⋅", "⊗", "⊙"] {
                    go(x, &format!("{a}{o}{b}"), false);
                }
            }
        }
        // powers
        for a in &ns {
            if !x.mine() {
                continue;
            }
            x.state();
            for e in (0..if q { 40u32 } else { 300 }).chain([63, 64, 65, 255, 256, 511, 1000]) {
                if a.is_zero() && e == 0 || e > 255 && a.bits() > 64 {
                    continue;
                }
                go(x, &format!("{a}^{e}"), true);
                go(x, &format!("power({a},{e})"), true);
                go(x, &format!("{a}.power({e})"), true);
            }
        }
        for e in (256..if q { 300 } else { 5000 }).chain([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5000, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538]) {
            if x.mine() {
                x.state();
                for a in ["2", "3", "10", "12"] {
                    go(x, &format!("{a}^{e}"), true);
                    go(x, &format!("power({a},{e})"), true);
                }
            }
        }
        // numbers of many digits
        for n in (20..if q { 140 } else { 620 }).chain([199, 200, 201, 255, 256, 257, 300, 307, 308, 309, 310, 511, 512, 513, 615, 616, 617, 618, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4096]) {
            if !x.mine() {
                continue;
            }
            x.state();
            let d = |f: usize, n: usize| (0..n).map(|i| char::from(b'0' + ((f + i * 7) % 9 + 1) as u8)).collect::<String>();
            for (a, b) in [(d(1, n), d(4, n)), (d(2, n), d(3, n / 2)), (d(5, n), "1".into()), ("7".into(), d(6, n)), ("9".repeat(n), "1".into()), ("9".repeat(n), "9".repeat(n)), (format!("1{}", "0".repeat(n)), d(3, n)), (d(8, n), "0".into())] {
                for s in [format!("{a}+{b}"), format!("{a}*{b}"), format!("{a} {b}"), format!("plus({a},{b})"), format!("{a}.times({b})"), format!("{a}^2"), format!("0x{a}"), a.clone()] {
                    go(x, &s, true);
                }
                for s in [format!("{a}-{b}"), format!("{a}=={b}"), format!("{a}>{b}"), format!("-{a}")] {
                    go(x, &s, false);
                }
            }
            // factorials and Fibonacci numbers of these sizes
            for m in [n, 3 * n] {
                if m <= 5000 {
                    go(x, &format!("{m}!"), true);
                    go(x, &format!("fibonacci({m})"), true);
                }
            }
            // long expressions
            for o in ["+", "*", "-", "^", "/", " "] {
                let s = (0..n.min(300)).map(|i| (i % 3 + 1).to_string()).collect::<Vec<_>>().join(if o == " " { " " } else { o });
                if o != "^" {
                    go(x, &s, false);
                }
                go(x, &format!("plus({})", vec!["1"; n.min(300)].join(",")), false);
            }
        }
        // the powers of 0 and 1 know no bound
        for b in [8u32, 16, 24, 31, 32, 33, 40, 48, 52, 53, 62, 63, 64] {
            for d in -1..=1i64 {
                let e = (BigInt::one() << b as usize) + d;
                if e.bits() <= 64 && x.mine() {
                    x.state();
                    for a in [0, 1] {
                        x.trans(1);
                        x.judge(format_args!("trivial {a} {e}"), || trivial(a, &e.to_string()));
                    }
                }
            }
        }
        // an exponent that does not fit a machine word
        for e in ["18446744073709551616", "340282366920938463463374607431768211456"] {
            for a in ["2", "3", "10"] {
                if x.mine() {
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("overflow {a}^{e}"), || overflow(&format!("{a}^{e}")));
                }
            }
        }
        // one number
        for n in 0..if q { 260 } else { 1200 } {
            if x.mine() {
                x.state();
                for s in [format!("{n}!"), format!("factorial({n})"), format!("{n}.factorial()"), format!("{n}.factorial"), format!("fibonacci({n})"), format!("{n}.fibonacci()"), format!("fibonacci ({n},)")] {
                    go(x, &s, true);
                }
                for s in [format!("{n}!!"), format!("-{n}"), format!("+{n}"), format!("!{n}"), format!("*{n}"), format!("{n}[1]"), format!("[{n}]"), format!("length({n})"), format!("first({n})"), format!("last({n})"), format!("-{n}!"), format!("fibonacci({n})!")] {
                    go(x, &s, false);
                }
            }
        }
        // many operands, one or two of them of another kind
        for n in (2usize..if q { 40 } else { 140 }).chain([50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]) {
            for at in (0..n.min(12)).chain(n.saturating_sub(3).max(12)..n) {
                if !x.mine() {
                    continue;
                }
                x.state();
                for o in ODD {
                    for f in 0..NARY {
                        for two in [None, Some(0), Some(n / 2), Some(n - 1)] {
                            go(x, &nary(f, n, at, two, o), false);
                        }
                    }
                }
            }
        }
        // operands stand for themselves
        for k in [0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 15, 16, 17, 18, 19] {
            for i in 0..130 {
                if x.mine() {
                    x.state();
                    go(x, &leaf(k, i).0, true);
                    go(x, &format!("( {} )", leaf(k, i).0), true);
                }
            }
        }
        for i in numbers(false) {
            if x.mine() {
                x.state();
                go(x, &i.to_string(), true);
                go(x, &format!("0x{i:x}"), true);
                go(x, &format!("0b{i:b}"), true);
            }
        }
        // strings
        let mut level = vec![String::new()];
        for _ in 0..if q { 5 } else { 7 } {
            for s in &level {
                if x.mine() {
                    x.state();
                    if s.is_empty() {
                        x.judge(format_args!("empty"), empty);
                        go(x, "\"\".length()", true);
                        continue;
                    }
                    for f in ["first", "last", "length"] {
                        go(x, &format!("{f}(\"{s}\")"), true);
                        go(x, &format!("\"{s}\".{f}()"), true);
                        go(x, &format!("\"{s}\".{f}"), true);
                    }
                    for f in ["factorial", "fibonacci"] {
                        go(x, &format!("{f}(\"{s}\")"), false);
                    }
                }
            }
            level = level.iter().flat_map(|s| LETTERS.iter().map(move |l| format!("{s}{l}"))).collect();
        }
        for n in LENGTHS {
            for k in 0..LONG.len() {
                for f in ["first", "last", "length"] {
                    if x.mine() {
                        x.state();
                        x.judge(format_args!("long {n} {k} {f}"), || wide(*n, k, f));
                    }
                }
            }
        }
        crate::literals::each(x, &[0, 1], &literal);
        // whole expressions: answered rightly or declined
        let all: Vec<Op> = INFIX.to_vec();
        let some: Vec<Op> = ["+", "-", "*", "/", "//", "%", "^"].iter().map(|o| infix(o)).collect();
        let mut judge = |x: &mut Explorer, v: &[Tok]| {
            let s = write(v);
            x.judge(format_args!("may {s}"), || answer(&s, &meaning(v), Duty::May));
        };
        for r in 0..3 {
            let k: &[usize] = [&[13, 13, 14][..], &[13, 4, 13], &[14, 13, 5, 13]][r];
            Walk { ops: &all, pre: &[0, 1, 2], suf: &[0, 1], groups: true, max: if q { 5 } else { 6 }, kinds: k }.run(x, &mut judge);
        }
        Walk { ops: &some, pre: &[0], suf: &[0], groups: true, max: if q { 6 } else { 8 }, kinds: &[13] }.run(x, &mut judge);
        Walk { ops: &some, pre: &[], suf: &[], groups: false, max: if q { 9 } else { 11 }, kinds: &[13] }.run(x, &mut judge);
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        if let Some((k, i, s)) = crate::literals::case(c) {
            return literal(k, i, s).map(|_| ());
        }
        let (k, s) = c.split_once(' ').unwrap_or((c, ""));
        match k {
            "empty" => empty(),
            "overflow" => overflow(s),
            "long" => {
                let v: Vec<&str> = s.split(' ').collect();
                wide(v[0].parse().unwrap(), v[1].parse().unwrap(), v[2])
            }
            "trivial" => {
                let (a, e) = s.split_once(' ').unwrap();
                trivial(a.parse().unwrap(), e)
            }
            "bin" => {
                let v: Vec<&str> = s.split(' ').collect();
                let (s, t, must) = binary(v[0].parse().unwrap(), &v[1].parse().unwrap(), &v[2].parse().unwrap());
                expect(&s, &t)?;
                answer(&s, &t, if must { Duty::Must } else { Duty::May })
            }
            _ => answer(s, &read(s)?, if k == "must" { Duty::Must } else { Duty::May }),
        }
        .map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        let q = t == Tier::Quick;
        format!(
            "{0}x{0} numbers around every machine-word size under 18 operator and call forms; powers to 1000 and, of four bases, to 65538, of 0 and 1 to 2^64-1; sums, products and squares of numbers of every number of digits to {4} and of some to 4096; sums, products and calls of every number of operands to {5} and of some to 257, one or two of them of another kind; factorial and fibonacci of 0..{1}; all strings of up to {2} of 7 characters, strings of up to 1100000; every literal of S03 (integers added to and multiplied by themselves, strings taken apart); every expression of up to {3} tokens",
            numbers(q).len(),
            if q { 260 } else { 1200 },
            if q { 4 } else { 6 },
            if q { 9 } else { 11 },
            if q { 139 } else { 619 },
            if q { 39 } else { 139 }
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["0^0 is not judged; extra and keyword arguments of the built-in functions are not judged".into()]
    }
}
fn trivial(a: u32, e: &str) -> Result<u64, String> {
    for s in [format!("{a}^{e}"), format!("power({a},{e})"), format!("{a}.power({e})")] {
        match Runner::default().evaluate(&s) {
            Ok(r) if r == a.to_string() => {}
            r => return Err(format!("{s} answered {r:?}")),
        }
    }
    Ok(a as u64)
}
/// Long strings, by call and by dot call.
fn wide(n: usize, k: usize, f: &str) -> Result<u64, String> {
    let (a, _, b) = LONG[k];
    let s = long_text(n, k);
    let want = match f {
        "first" => a.to_string(),
        "last" => b.to_string(),
        _ => n.to_string(),
    };
    for e in [format!("{f}({s})"), format!("{s}.{f}()"), format!("{s}.{f}")] {
        match Runner::default().evaluate(&e) {
            Ok(r) if r == want => {}
            r => return Err(format!("{f} of a string of {n} characters answered {r:?}")),
        }
    }
    match Runner::default().evaluate(&s) {
        Ok(r) if r == s[1..s.len() - 1] => Ok(n as u64),
        _ => Err(format!("a string of {n} characters does not answer itself")),
    }
}
/// A literal by itself, added to itself, and taken apart.
fn literal(k: &str, c: usize, s: &str) -> Result<u64, String> {
    let text = crate::literals::text(k, c, s).ok_or("not a literal")?;
    let own = matches!(k, "int" | "dec" | "byte" | "str" | "block" | "name" | "path" | "letter");
    let h = answer(&text, &read(&text)?, if own { Duty::Must } else { Duty::May })?;
    if matches!(k, "int" | "byte") {
        let t = format!("{s} + {s}");
        answer(&t, &read(&t)?, Duty::Must)?;
        let t = format!("{s} * {s}");
        answer(&t, &read(&t)?, Duty::Must)?;
    }
    if matches!(k, "str" | "block") && !matches!(read(s)?, T::Str(t) if t.is_empty()) {
        for f in ["first", "last", "length"] {
            let t = format!("{f}({s})");
            answer(&t, &read(&t)?, Duty::Must)?;
        }
    }
    Ok(h)
}
fn overflow(s: &str) -> Result<u64, String> {
    match Runner::default().evaluate(s) {
        Err(SMError::Overflow) => Ok(1),
        r => Err(format!("{r:?} instead of an overflow")),
    }
}
fn empty() -> Result<u64, String> {
    for f in ["first", "last"] {
        match Runner::default().evaluate(&format!("{f}(\"\")")) {
            Err(SMError::EmptyContainer(_)) => {}
            r => return Err(format!("{f} of an empty string: {r:?}")),
        }
    }
    Ok(0)
}

// ---------------------------------------------------------------- S10
pub struct Sessions;
/// Input, and the answer owed (`Err` = an error).
const INPUTS: &[(&str, Option<&str>)] = &[
    ("2+3", Some("5")),
    ("x", Some("x")),
    ("1/2", None),
    ("(", None),
    ("6!", Some("720")),
    ("\"abc\".first()", Some("a")),
    ("first(\"\")", None),
    ("fibonacci(90)", Some("2880067194370816120")),
    ("", Some("")),
    ("2^10", Some("1024")),
    ("x = 2", None),
    ("0x1F", Some("31")),
    ("¶", None),
    ("1+1;2", Some("2")),
];
/// What the session shows after an input.
fn owed(i: usize) -> Option<&'static str> {
    INPUTS[i].1
}
fn step(r: &mut Runner, i: usize) -> Result<(), String> {
    let got = r.evaluate(INPUTS[i].0);
    match (&got, owed(i)) {
        (Ok(s), Some(w)) if s == w => {}
        (Err(_), None) => {}
        (_, w) => return Err(format!("{:?} answered {got:?}, owed {w:?}", INPUTS[i].0)),
    }
    kept(r, Some(i))
}
fn kept(r: &Runner, i: Option<usize>) -> Result<(), String> {
    match (r.last(), i.and_then(owed)) {
        (Ok(a), Some(w)) if (a == AST::EmptyStatement && w.is_empty()) || a.to_string() == w => Ok(()),
        (Err(SMError::EmptyContainer(_)), None) => Ok(()),
        (l, w) => Err(format!("the last output is {l:?}, owed {w:?}")),
    }
}
fn dfs(x: &mut Explorer, r: &Runner, path: &mut Vec<usize>, depth: usize, n: usize) {
    if path.len() == 2 && !x.mine() {
        return;
    }
    if path.len() >= 2 || x.shard().0 == 0 {
        x.state();
    }
    if path.len() == depth {
        return;
    }
    for i in 0..n {
        let mut s = r.clone();
        path.push(i);
        if path.len() > 2 || x.shard().0 == 0 || path.len() == 2 {
            x.trans(1);
            x.judge(format_args!("one {}", dots(path)), || step(&mut s, i).map(|_| i as u64));
        } else {
            let _ = step(&mut s, i);
        }
        dfs(x, &s, path, depth, n);
        path.pop();
        // what was done to the copy is not seen here
        if path.len() >= 2 {
            let l = path.last().copied();
            x.judge(format_args!("copy {}.{i}", dots(path)), || kept(r, l).map(|_| 99));
        }
    }
}
fn dots(v: &[usize]) -> String {
    v.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(".")
}
fn pair(ops: &[usize], n: usize) -> Result<u64, String> {
    let mut r = [Runner::default(), Runner::default()];
    let mut l = [None, None];
    for o in ops {
        let (w, i) = (o / n, o % n);
        step(&mut r[w], i)?;
        l[w] = Some(i);
        kept(&r[1 - w], l[1 - w])?;
    }
    Ok(0)
}
fn long(k: usize, n: usize) -> Result<u64, String> {
    let mut r = Runner::default();
    for j in 0..n {
        step(&mut r, (k * j + j / 7) % INPUTS.len()).map_err(|e| format!("at input {j}: {e}"))?;
    }
    Ok(n as u64)
}
impl Spec for Sessions {
    fn id(&self) -> &'static str {
        "S10"
    }
    fn explore(&self, x: &mut Explorer) {
        let q = x.quick();
        if x.mine() {
            x.judge(format_args!("new"), || kept(&Runner::default(), None).map(|_| 0));
        }
        dfs(x, &Runner::default(), &mut vec![], if q { 4 } else { 5 }, INPUTS.len());
        dfs(x, &Runner::default(), &mut vec![], if q { 5 } else { 7 }, 8);
        // two sessions in one process
        let n = 6usize;
        for a in 0..2 * n {
            for b in 0..2 * n {
                if !x.mine() {
                    continue;
                }
                for c in 0..(2 * n).pow(if q { 2 } else { 3 }) {
                    x.state();
                    let v = [a, b, c % (2 * n), c / (2 * n) % (2 * n), c / (2 * n) / (2 * n)];
                    let v = &v[..if q { 4 } else { 5 }];
                    x.trans(v.len() as u64);
                    x.judge(format_args!("pair {}", dots(v)), || pair(v, n));
                }
            }
        }
        // long sessions
        for k in 0..INPUTS.len() * 2 {
            if x.mine() {
                let n = if k % 9 == 4 { 70_000 } else if q { 3000 } else { 30_000 };
                x.state();
                x.trans(n as u64);
                x.judge(format_args!("long {k} {n}"), || long(k, n));
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let (k, s) = c.split_once(' ').unwrap_or((c, ""));
        let l = |s: &str| s.split('.').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect::<Vec<usize>>();
        match k {
            "new" => kept(&Runner::default(), None),
            "one" => {
                let mut r = Runner::default();
                l(s).into_iter().try_for_each(|i| step(&mut r, i))
            }
            "copy" => {
                let v = l(s);
                let mut r = Runner::default();
                v[..v.len() - 1].iter().try_for_each(|i| step(&mut r, *i))?;
                // the whole subtree below the copy
                fn down(r: &Runner, d: usize) {
                    for i in 0..INPUTS.len() {
                        let mut s = r.clone();
                        let _ = step(&mut s, i);
                        if d > 0 {
                            down(&s, d - 1)
                        }
                    }
                }
                down(&r, 1);
                kept(&r, v.len().checked_sub(2).map(|i| v[i]))
            }
            "pair" => pair(&l(s), 6).map(|_| ()),
            _ => {
                let (k, n) = s.split_once(' ').unwrap();
                long(k.parse().unwrap(), n.parse().unwrap()).map(|_| ())
            }
        }
    }
    fn bounds(&self, t: Tier) -> String {
        let q = t == Tier::Quick;
        format!("every session of up to {} inputs out of 14 and of up to {} out of 8, copied before every input; every interleaving of two sessions of {} inputs out of 6; 28 sessions of {} inputs, three of 70000", if q { 4 } else { 5 }, if q { 5 } else { 7 }, if q { 4 } else { 5 }, if q { 3000 } else { 30_000 })
    }
}

