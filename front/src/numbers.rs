//! S20: number functions on trees, and the kinds of errors on their way up.
use crate::tree::*;
use mc::{Explorer, Spec, Tier};
use num::{BigInt, One, Zero};
use sm_ast::{internal, Runner, SMError, SMResult, AST};

#[derive(Debug, PartialEq, Clone)]
enum Want {
    Value(BigInt),
    Overflow,
    ComplexInfinity,
    Unimplemented,
}
fn got(r: SMResult<AST>) -> Result<Want, String> {
    Ok(match r {
        Ok(AST::Integer(i)) => Want::Value(i),
        Err(SMError::Overflow) => Want::Overflow,
        Err(SMError::ComplexInfinity) => Want::ComplexInfinity,
        Err(SMError::Unimplemented(_)) => Want::Unimplemented,
        r => return Err(format!("answered {r:?}")),
    })
}
const NAMES: &[&str] = &["factorial", "fibonacci"];
fn apply(f: usize, a: &AST) -> SMResult<AST> {
    if f == 0 { internal::factorial(a) } else { internal::fibonacci(a) }
}
/// The answer to an integer, `None` when it has too many digits to wait for.
fn value(f: usize, n: &BigInt) -> Option<Want> {
    let word = BigInt::one() << 63usize;
    let out = *n >= word || *n < -word.clone();
    if f == 0 {
        if out {
            return Some(Want::Overflow);
        }
        if *n < BigInt::zero() {
            return Some(Want::ComplexInfinity);
        }
    } else if out {
        return Some(Want::Overflow);
    }
    let k: i64 = n.to_string().parse().unwrap();
    if k.unsigned_abs() > 20_000 {
        return None;
    }
    let mut a = if f == 0 { BigInt::one() } else { BigInt::zero() };
    let mut b = BigInt::one();
    for i in 1..=k.abs() {
        if f == 0 {
            a *= i;
        } else {
            let c = &a + &b;
            a = std::mem::replace(&mut b, c);
        }
    }
    if k < 0 && k % 2 == 0 {
        a = -a;
    }
    Some(Want::Value(a))
}
/// One function on one integer: as a tree, and the three ways to write it in a session.
fn integer(f: usize, n: &BigInt) -> Result<u64, String> {
    let Some(want) = value(f, n) else { return Ok(0) };
    let tree = AST::integer(n.clone());
    let before = tree.clone();
    let g = got(apply(f, &tree))?;
    if g != want {
        return Err(format!("{} of the tree {n} is {g:?}, expected {want:?}", NAMES[f]));
    }
    if tree != before || got(apply(f, &tree))? != want {
        return Err(format!("{} of the tree {n} is another one the second time", NAMES[f]));
    }
    if *n < BigInt::zero() {
        return Ok(1); // has no literal
    }
    let mut texts = vec![format!("{}({n})", NAMES[f]), format!("{n}.{}", NAMES[f]), format!("{}({n}, 7)", NAMES[f])];
    if f == 0 {
        texts.push(format!("{n}!"));
    }
    for t in texts {
        let mut r = Runner::default();
        let e = r.evaluate(&t);
        let ok = match (&want, &e) {
            (Want::Value(v), Ok(s)) => *s == v.to_string() && matches!(r.last(), Ok(AST::Integer(l)) if l == *v),
            (Want::Overflow, Err(SMError::Overflow)) => true,
            (Want::ComplexInfinity, Err(SMError::ComplexInfinity)) => true,
            // more arguments than the function has
            (_, Err(SMError::Unimplemented(_))) if t.ends_with(", 7)") => true,
            _ => false,
        };
        if !ok {
            return Err(format!("{t} is {e:?}, expected {want:?}"));
        }
    }
    Ok(mc::hash(&format!("{want:?}")))
}
const OTHERS: &[&str] = &["", "a", "\"s\"", "\"\"", "\"12\"", "true", "false", "null", "1.5", "2.0", "[1,2]", "[5]", "[]", "f(3)", "3!", "-3", "1+2", "#1", "¶1", "a::b", "f(1)(2)", "f(k:3)", "a[1]", "0.0", "(a)", "2 a"];
fn other(f: usize, s: &str) -> Result<u64, String> {
    let tree = parse(s)?;
    match got(apply(f, &tree))? {
        Want::Unimplemented => Ok(2),
        r => Err(format!("{} of the tree {s} is {r:?}", NAMES[f])),
    }
}
/// What an error of the layer below has to become.
fn error(k: usize, text: &str) -> Result<u64, String> {
    use sm_algorithm::Error as A;
    let (e, ok): (SMError, fn(&SMError, &str) -> bool) = match k {
        0 => (A::OverFlow.into(), |e, _| matches!(e, SMError::Overflow)),
        1 => (A::ComplexInfinity.into(), |e, _| matches!(e, SMError::ComplexInfinity)),
        2 => (A::IOError(text.into()).into(), |e, t| matches!(e, SMError::IOError(s) if s == t)),
        3 => (A::Unimplemented.into(), |e, _| matches!(e, SMError::Unimplemented(_))),
        // there is no kind for these: they only must not pass for another one
        4 => (A::Indeterminate.into(), |e, _| matches!(e, SMError::Unknown)),
        5 => (A::Undefined(text.into()).into(), |e, _| matches!(e, SMError::Unknown)),
        _ => (std::io::Error::new(std::io::ErrorKind::Other, text.to_string()).into(), |e, t| matches!(e, SMError::IOError(s) if s.contains(t))),
    };
    if !ok(&e, text) {
        return Err(format!("error {k} with the text {text:?} becomes {e:?}"));
    }
    // and as it is shown by itself
    let (name, own) = match k {
        0 => ("OverFlow", A::OverFlow),
        1 => ("ComplexInfinity", A::ComplexInfinity),
        2 => ("IOError", A::IOError(text.into())),
        3 => ("Unimplemented", A::Unimplemented),
        4 => ("Indeterminate", A::Indeterminate),
        5 => ("Undefined", A::Undefined(text.into())),
        _ => return Ok(k as u64),
    };
    let (shown, with) = (format!("{own}"), k == 2 || k == 5);
    if !shown.starts_with(name) || (with && !shown[name.len()..].contains(text)) || (!with && shown != name) {
        return Err(format!("the error {name} with the text {text:?} is shown as {shown:?}"));
    }
    Ok(k as u64)
}
/// A refusal tells the place.
fn refusal(s: &str, line: usize, column: usize) -> Result<u64, String> {
    match sm_ast::parser::ParserSettings::default().parse(s) {
        Err(SMError::ParseError(e)) if e.contains(&format!("{line}:{column}")) => Ok(9),
        r => Err(format!("{s:?} read as {r:?}, expected a refusal at {line}:{column}")),
    }
}
/// Every text of up to a few characters of twelve, long ones, and the names of the errors.
fn texts(q: bool) -> Vec<String> {
    let mut v: Vec<String> = ["no such file", "é\n\"x\"", "OverFlow", "ComplexInfinity", "IOError", "Unimplemented", "Indeterminate", "Undefined", "Unknown", "overflow", "Permission denied (os error 13)", "entity not found"].map(String::from).to_vec();
    let mut last = vec![String::new()];
    v.push(String::new());
    for _ in 0..if q { 3 } else { 4 } {
        last = last.iter().flat_map(|n| ['a', 'Z', '0', ' ', '\n', '"', '\\', ':', '{', '}', 'é', '\0'].map(|c| format!("{n}{c}"))).collect();
        v.extend(last.iter().cloned());
    }
    for n in [15, 16, 31, 63, 64, 79, 80, 81, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 65536] {
        v.extend(["a".repeat(n), "é".repeat(n), format!("{}\n", "a b".repeat(n))]);
    }
    v
}
/// Every error number of the operating system, and every kind without one.
fn system(k: i32) -> Result<u64, String> {
    use std::io::{Error as E, ErrorKind as K};
    const KINDS: &[K] = &[K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::ConnectionAborted, K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::BrokenPipe, K::AlreadyExists, K::WouldBlock, K::InvalidInput, K::InvalidData, K::TimedOut, K::WriteZero, K::Interrupted, K::Unsupported, K::UnexpectedEof, K::OutOfMemory, K::Other];
    let make = || if k > 0 { E::from_raw_os_error(k) } else { KINDS.get((-k) as usize).map_or(E::other("x"), |k| E::from(*k)) };
    match SMError::from(make()) {
        SMError::IOError(s) if s.contains(&make().to_string()) => Ok(11),
        e => Err(format!("{:?} becomes {e:?}", make())),
    }
}
pub struct Numbers;
impl Numbers {
    fn range(q: bool) -> Vec<BigInt> {
        let mut v: Vec<BigInt> = (-600..=if q { 1500 } else { 6000 }).map(BigInt::from).collect();
        for b in [8usize, 10, 11, 12, 13, 15, 16, 31, 32, 33, 53, 62, 63, 64, 65, 127, 128, 129, 200] {
            for d in -3..=3 {
                for s in [1, -1] {
                    let n = ((BigInt::one() << b) + d) * s;
                    v.push(n);
                }
            }
        }
        v.extend(["9223372036854775807", "-9223372036854775808", "100000000000000000000", "-100000000000000000000", "10000", "-10000"].iter().map(|s| s.parse::<BigInt>().unwrap()));
        v.sort();
        v.dedup();
        v
    }
}
impl Spec for Numbers {
    fn id(&self) -> &'static str {
        "S20"
    }
    fn explore(&self, x: &mut Explorer) {
        let q = x.quick();
        for f in 0..NAMES.len() {
            for n in Self::range(q) {
                if x.mine() {
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("int {f} {n}"), || integer(f, &n));
                }
            }
            for (i, s) in OTHERS.iter().enumerate() {
                if x.mine() {
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("other {f} {i}"), || other(f, s));
                }
            }
        }
        for k in 0..7 {
            for (i, t) in texts(q).iter().enumerate() {
                if x.mine() {
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("error {k} {i}"), || error(k, t));
                }
            }
        }
        for k in -20..=200 {
            if x.mine() {
                x.state();
                x.trans(1);
                x.judge(format_args!("system {k}"), || system(k));
            }
        }
        let far: &[usize] = &[63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 1025];
        let reach = |n: usize| (0..n).chain(far.iter().copied().filter(move |f| *f >= n)).collect::<Vec<_>>();
        for lines in reach(if q { 12 } else { 40 }) {
            for columns in reach(if q { 40 } else { 200 }) {
                if x.mine() {
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("place {lines} {columns}"), || place(lines, columns));
                }
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let f: Vec<&str> = c.split(' ').collect();
        let n = |k: usize| f[k].parse::<usize>().unwrap();
        match f[0] {
            "int" => integer(n(1), &f[2].parse().unwrap()).map(|_| ()),
            "other" => other(n(1), OTHERS[n(2)]).map(|_| ()),
            "error" => error(n(1), texts(crate::tier() == Tier::Quick).get(n(2)).ok_or("no such text")?).map(|_| ()),
            "system" => system(f[1].parse().unwrap()).map(|_| ()),
            _ => place(n(1), n(2)).map(|_| ()),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("factorial and Fibonacci of every integer from -600 to {} and of the neighbours of 19 powers of two, as trees and in up to four spellings; of 26 other trees; seven kinds of errors with {} texts each, 200 error numbers and 20 kinds of the operating system; a refusal at every place of a text of up to {} lines, and at 17 more up to 1025 lines and columns", if tier == Tier::Quick { 1500 } else { 6000 }, texts(tier == Tier::Quick).len(), if tier == Tier::Quick { 12 } else { 40 })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["indices of more than 20000 that fit a machine word are left out: their values have too many digits".into()]
    }
}
/// A text that cannot be read beyond the given line and column.
fn place(lines: usize, columns: usize) -> Result<u64, String> {
    for stop in [")", "]", "}", "$"] {
        let mut s = "a;\n".repeat(lines);
        s += &"é".repeat(columns);
        s += stop;
        refusal(&s, lines + 1, columns + 1)?;
    }
    Ok(10)
}
