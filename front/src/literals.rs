//! S03 and S04: how operands are written, and how they stand beside each other.
use crate::tree::*;
use mc::{Explorer, Spec, Tier};
use num::{BigInt, Zero};

/// What a literal of the given kind means, read by hand from its text.
fn meaning(kind: &str, s: &str) -> Option<T> {
    let digits = |s: &str, base: u32| {
        let mut v = BigInt::zero();
        for c in s.chars().filter(|c| *c != '_') {
            v = v * base + c.to_digit(base)?;
        }
        Some(v)
    };
    Some(match kind {
        "int" => T::Int(digits(s, 10)?),
        "dec" => T::Dec(s.into()),
        "byte" => T::Int(digits(&s[2..], match s.as_bytes()[1] { b'b' | b'B' => 2, b'o' | b'O' => 8, _ => 16 })?),
        "str" => T::Str(s[1..s.len() - 1].into()),
        "block" => {
            let q = s.chars().take_while(|c| *c == '"').count();
            T::Str(s[q..s.len() - q].into())
        }
        "name" | "letter" => sym(s),
        "call" => fun(s.strip_suffix("(1)")?, vec![int(1)]),
        "path" => sym(&s.replace('∷', "::")),
        "const" => match s {
            "true" => T::Bool(true),
            "false" => T::Bool(false),
            _ => sym("std::constant::Null"),
        },
        "slot" => {
            let (h, r) = match s.strip_prefix("##") {
                Some(r) => ("std::core::slot_sequence", r),
                None => ("std::core::slot", &s[1..]),
            };
            let a = if r.is_empty() {
                vec![]
            } else if r.as_bytes()[0].is_ascii_digit() {
                vec![T::Int(digits(r, 10)?)]
            } else {
                vec![T::Str(r.into())]
            };
            fun(h, a)
        }
        "repl" => {
            let h = if s.starts_with('¶') { "std::repl::input" } else { "std::repl::output" };
            let r = s.trim_start_matches(['¶', '⁋']);
            fun(h, vec![if r.is_empty() { int(-(s.chars().count() as i64)) } else { T::Int(digits(r, 10)?) }])
        }
        _ => return None,
    })
}
const CONTEXTS: usize = 14;
/// A literal in a context: its text and the tree expected.
fn placed(ctx: usize, s: &str, t: &T) -> Option<(String, T)> {
    let c = |h: &str, v: Vec<T>| fun(h, v);
    let t = || t.clone();
    Some(match ctx {
        0 => (s.into(), t()),
        1 => (format!("({s})"), t()),
        2 => (format!("q({s})"), c("q", vec![t()])),
        3 => (format!("[{s},{s}]"), c("std::containers::List", vec![t(), t()])),
        4 => (format!("{s} + {s}"), c("std::infix::add", vec![t(), t()])),
        5 => (format!("q(k:{s},{s})"), T::Fun("q".into(), vec![(vec![t()], vec![(sym("k"), t())])])),
        6 => (format!("q[{s}]"), c("std::core::Index", vec![sym("q"), t()])),
        7 => (format!("-{s}"), c("std::prefix::minus", vec![t()])),
        8 => (format!("{s}!"), c("std::suffix::factorial", vec![t()])),
        9 => (format!("{s}^{s}"), c("std::infix::power", vec![t(), t()])),
        10 => (format!("q[{s}:{s}]"), c("std::core::Index", vec![sym("q"), c("std::core::Span", vec![t(), t(), int(1)])])),
        11 => (format!("{s}.q"), c("q", vec![t()])),
        12 => (format!(" {s} "), t()),
        13 => (format!("{s}={s}"), c("std::infix::=", vec![t(), t()])),
        _ => return None,
    })
}
/// Contexts only a name can stand in.
fn named(ctx: usize, s: &str, t: &T) -> Option<(String, T)> {
    let path = t.clone();
    let head = |a: Vec<T>| match &path {
        T::Sym(n) => fun(n, a),
        _ => unreachable!(),
    };
    let plain = !s.contains("::") && !s.contains('∷');
    Some(match ctx {
        0 => (format!("{s}(1)"), head(vec![int(1)])),
        1 => (format!("{s}()"), head(vec![])),
        2 => (format!("1 + {s} (q)"), fun("std::infix::add", vec![int(1), head(vec![sym("q")])])),
        3 => (format!("q.{s}"), head(vec![sym("q")])),
        4 => (format!("q.{s}(1)"), head(vec![sym("q"), int(1)])),
        5 => (format!("2{}{s}", if s.starts_with(['b', 'o', 'x', 'B', 'O', 'X']) { " " } else { "" }), fun("std::infix::times", vec![int(2), t.clone()])),
        6 => (format!("{s} 2"), fun("std::infix::times", vec![t.clone(), int(2)])),
        7 if plain => (format!("q({s}:1)"), T::Fun("q".into(), vec![(vec![], vec![(sym(s), int(1))])])),
        7 => return Some((format!("{s}(1)"), head(vec![int(1)]))),
        _ => return None,
    })
}
const PROPER: &[&str] = &["using", "class", "trait", "extends", "if", "for", "return", "break", "pass", "let", "def", "null", "true", "false"];
/// Every literal of the bounded family; `full` = in every context.
fn family(t: Tier, mine: &mut dyn FnMut() -> bool, out: &mut dyn FnMut(&'static str, &str, bool)) {
    let q = t == Tier::Quick;
    // integers: every one to a bound, powers and their neighbours
    for b in 0..if q { 400 } else { 10_000 } {
        if mine() {
            for i in b * 1000..(b + 1) * 1000 {
                out("int", &i.to_string(), i < 300);
            }
        }
    }
    for base in [2u32, 10, 16, 7] {
        let mut v = BigInt::from(1);
        for _ in 0..if q { 300 } else { 1500 } {
            v *= base;
            if mine() {
                for d in -1..=1 {
                    out("int", &(&v + BigInt::from(d)).to_string(), false);
                }
            }
        }
    }
    // decimals: whole part times every fraction
    for w in ["0", "1", "9", "10", "42", "18446744073709551616", "123456789012345678901234567890"] {
        for n in 1..=if q { 4 } else { 5 } {
            for hi in 0..10u32 {
                if !mine() {
                    continue;
                }
                let m = 10u32.pow(n - 1);
                for i in hi * m..(hi + 1) * m {
                    // the printed form of a tiny value is scientific
                    out("dec", &format!("{w}.{i:0n$}", n = n as usize), n == 1);
                }
            }
        }
    }
    // bytes
    let runs: &[(&[char], &[&str], usize)] = &[(&['0', '1'], &["0b", "0B"], if q { 7 } else { 10 }), (&['0', '1', '2', '7'], &["0o", "0O"], if q { 4 } else { 6 }), (&['0', '1', '9', 'a', 'F', 'b', 'e'], &["0x", "0X"], if q { 3 } else { 5 })];
    for (ds, ps, n) in runs {
        let mut level: Vec<String> = vec![String::new()];
        for k in 1..=*n {
            let mut next = vec![];
            for s in &level {
                for d in *ds {
                    next.push(format!("{s}{d}"));
                    next.push(format!("{s}_{d}"));
                }
            }
            for s in &next {
                if !mine() {
                    continue;
                }
                for p in *ps {
                    out("byte", &format!("{p}{s}"), k <= 2);
                }
            }
            level = next;
        }
    }
    // strings
    let letters: &[&str] = &["a", "é", "0", " ", "\n", "\r\n", "\r", "\t", "'", "(", ")", "]", "{", "/", "//", "*", "%", "#", "函", "😀", ";", ":", "::", "∷", "，", "：", "×", "÷", "；", "\u{3000}", "e\u{301}", "\u{0}", "_", "///", "%%%", "."];
    let short = ["a", "é", "\n", "///", " ", "\r\n", "%%%"];
    let mut level = vec![String::new()];
    for k in 0..=if q { 5 } else { 6 } {
        for s in &level {
            if mine() {
                out("str", &format!("\"{s}\""), k <= 1);
                if k > 0 {
                    out("block", &format!("\"\"\"{s}\"\"\""), k <= 1);
                    out("block", &format!("\"\"\"\"{s}\"\"\"\""), false);
                }
            }
        }
        // all letters to three (four), then a few
        let wide = if q { 3 } else { 4 };
        if k == wide {
            level.retain(|s| {
                let mut r = s.as_str();
                while let Some(l) = short.iter().find(|l| r.starts_with(**l)) {
                    r = &r[l.len()..];
                }
                r.is_empty()
            });
        }
        let with: &[&str] = if k < wide { letters } else { &short };
        level = level.iter().flat_map(|s| with.iter().map(move |l| format!("{s}{l}"))).collect();
    }
    // quotes inside blocks, fewer than end it
    for text in ["a\"b", "a\"\"b", "\n\"\n", "x\\y", "\\", "a\\\"b", "///c", "%%%"] {
        for n in 3..6 {
            if mine() {
                let d = "\"".repeat(n);
                out("block", &format!("{d}{text}{d}"), true);
            }
        }
    }
    for n in 4..9 {
        for k in 1..n {
            if mine() {
                let d = "\"".repeat(n);
                out("block", &format!("{d}a{}b{d}", "\"".repeat(k)), true);
            }
        }
    }
    // names
    let first: &[char] = &['a', 'Z', '_', 'é', '函', 'x', 'b', 'o', 'e'];
    let rest: &[char] = &['a', 'Z', '_', '0', '9', 'é', '函', 'x'];
    let mut level: Vec<String> = first.iter().map(|c| c.to_string()).collect();
    for k in 1..=if q { 4 } else { 5 } {
        for s in &level {
            if s != "_" && mine() {
                out("name", s, k <= 2);
            }
        }
        level = level.iter().flat_map(|s| rest.iter().map(move |c| format!("{s}{c}"))).collect();
    }
    // names that contain a word of the language
    lengthy(q, mine, out);
    characters(q, mine, out);
    let words: Vec<&str> = PROPER.iter().copied().chain(["block", "as", "in", "else", "while", "do", "std", "sin", "not", "and", "or", "e", "i", "b1", "x1", "o7", "import", "module"]).collect();
    for w in &words {
        if !PROPER.contains(w) && mine() {
            out("name", w, true);
        }
        for r in rest.iter().map(|c| c.to_string()).chain(words.iter().map(|w| w.to_string())).chain(["s", "r_1", "__", "t2t"].map(String::from)) {
            if mine() {
                out("name", &format!("{w}{r}"), true);
                if r != "_" && !r.as_bytes()[0].is_ascii_digit() {
                    out("name", &format!("{r}{w}"), !PROPER.contains(&format!("{r}{w}").as_str()));
                }
            }
        }
        // every prefix of a keyword, and a keyword in capitals
        for n in 1..w.len() {
            if !PROPER.contains(&&w[..n]) && mine() {
                out("name", &w[..n], true);
            }
        }
        if mine() {
            out("name", &w.to_uppercase(), true);
            out("name", &format!("_{w}"), true);
        }
    }
    for n in crate::forms::POOL.iter().chain(crate::forms::KEYPOOL) {
        if mine() {
            out(if n.contains("::") { "path" } else { "name" }, n, true);
        }
    }
    // paths
    let parts = ["a", "_b", "函", "lets", "x1", "std", "nullity"];
    for a in parts {
        for b in parts {
            for s in ["::", "∷"] {
                if !mine() {
                    continue;
                }
                out("path", &format!("{a}{s}{b}"), true);
                for c in parts {
                    for s2 in ["::", "∷"] {
                        out("path", &format!("{a}{s}{b}{s2}{c}"), false);
                        out("path", &format!("{a}{s}{b}{s2}{c}{s}{a}"), false);
                    }
                }
            }
        }
    }
    for s in ["null", "true", "false"] {
        if mine() {
            out("const", s, true);
        }
    }
    // slots and session references
    for h in ["#", "##", "¶", "⁋"] {
        if mine() {
            let k = if h.len() > 2 || h == "¶" { "repl" } else { "slot" };
            let k = if h.starts_with('#') { "slot" } else { k };
            out(k, h, true);
            for n in 1..if q { 3000u64 } else { 100_000 } {
                out(k, &format!("{h}{n}"), n < 200);
            }
            let mut v = BigInt::from(1);
            for _ in 0..40 {
                v *= 10;
                out(k, &format!("{h}{v}"), true);
            }
            // around every power of two
            for b in 1..200 {
                for d in -1..=1 {
                    let v: BigInt = (BigInt::from(1) << b) + BigInt::from(d);
                    out(k, &format!("{h}{v}"), b % 8 == 0);
                }
            }
            if h == "#" {
                out(k, "#0", true);
                for s in parts.iter().chain(words.iter()) {
                    out(k, &format!("#{s}"), true);
                }
            }
            if k == "repl" {
                for n in (2..if q { 140 } else { 600 }).chain(long()) {
                    out(k, &h.repeat(n), n < 40 || n == 300);
                }
            }
        }
    }
}
/// Lengths at which a counter or a buffer may end.
fn long() -> impl Iterator<Item = usize> {
    [139, 140, 199, 200, 201, 254, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097].into_iter()
}
/// Everything that can be long, at every length.
fn lengthy(q: bool, mine: &mut dyn FnMut() -> bool, out: &mut dyn FnMut(&'static str, &str, bool)) {
    for n in (1..if q { 200 } else { 1200 }).chain(long()) {
        if !mine() {
            continue;
        }
        let full = n % 16 == 0 || n % 64 == 1;
        let digits = |from: usize| (0..n).map(|i| char::from(b'0' + ((from + i * 7) % 10) as u8)).collect::<String>();
        for d in 1..10 {
            // without a leading zero
            out("int", &format!("{d}{}", digits(d)), full);
        }
        out("int", &format!("1{}", "0".repeat(n)), full);
        out("int", &"9".repeat(n), full);
        for d in 0..3 {
            out("dec", &format!("0.{}{}", digits(d), d + 1), full);
            out("dec", &format!("{}{}.5", d + 1, digits(d)), full);
            out("dec", &format!("{}{}.{}{}", d + 1, digits(d), digits(d + 3), d + 1), full);
        }
        out("dec", &format!("0.{}1", "0".repeat(n)), full);
        out("dec", &format!("1.{}", "0".repeat(n)), full);
        for p in ["0x", "0b", "0o", "0X", "0B", "0O"] {
            let radix = match p.as_bytes()[1] { b'b' | b'B' => 2, b'o' | b'O' => 8, _ => 16 };
            let run = |under: usize| {
                (0..n)
                    .map(|i| {
                        let c = char::from_digit((1 + i as u32 * 7) % radix, radix).unwrap();
                        if under > 0 && i > 0 && i % under == 0 { format!("_{c}") } else { c.to_string() }
                    })
                    .collect::<String>()
            };
            for u in [0, 1, 4] {
                out("byte", &format!("{p}{}", run(u)), full);
            }
            out("byte", &format!("{p}{}1", "0".repeat(n)), false);
            out("byte", &format!("{p}1{}", "0".repeat(n)), false);
        }
        for c in ["a", "é", "\n", "%", "\\", " "] {
            out("str", &format!("\"x{}y\"", c.repeat(n)), full);
            if c != "\\" {
                out("str", &format!("\"{}\"", c.repeat(n)), full);
                out("block", &format!("\"\"\"{}\"\"\"", c.repeat(n)), full);
            }
        }
        // long fences
        if n >= 3 {
            let f = "\"".repeat(n);
            out("block", &format!("{f}a{f}"), full);
            out("block", &format!("{f}a\"\"b\n{f}"), full);
            if n > 3 {
                out("block", &format!("{f}a{}b{f}", "\"".repeat(n - 1)), full);
            }
        }
        for (a, b) in [("a", "a"), ("函", "函"), ("_", "x"), ("x", "_"), ("let", "s"), ("e", "9"), ("é", "_1")] {
            out("name", &format!("{a}{}", b.repeat(n)), full);
            out("slot", &format!("#{a}{}", b.repeat(n)), full);
            out("path", &format!("{a}{}::q", b.repeat(n)), full);
            out("path", &format!("q∷{a}{}", b.repeat(n)), full);
        }
        for s in ["::", "∷"] {
            out("path", &format!("a{}", format!("{s}b").repeat(n)), full);
            out("path", &format!("a{}", (0..n).map(|i| format!("{s}p{i}")).collect::<String>()), full);
        }
        for h in ["#", "##", "¶", "⁋"] {
            let k = if h.starts_with('#') { "slot" } else { "repl" };
            out(k, &format!("{h}1{}", digits(3)), full);
            out(k, &format!("{h}{}", "9".repeat(n)), full);
        }
    }
}
/// Every character there is, in strings and, where it may stand there (S18), in names.
fn characters(q: bool, mine: &mut dyn FnMut() -> bool, out: &mut dyn FnMut(&'static str, &str, bool)) {
    for block in 0..0x1100u32 {
        let some = q && !(block < 0x400 || (0xe00..0xe02).contains(&block) || block % 0x100 == 0xff);
        if some || !mine() {
            continue;
        }
        for c in (block * 256..block * 256 + 256).filter_map(char::from_u32) {
            if c != '"' {
                if c != '\\' {
                    out("str", &format!("\"{c}\""), false);
                }
                out("str", &format!("\"a{c}b\""), false);
                out("block", &format!("\"\"\"{c}\"\"\""), false);
            }
            if c.is_alphanumeric() && !c.is_ascii() {
                for s in [format!("{c}"), format!("x{c}"), format!("q::{c}y")] {
                    if parse(&s).is_ok() {
                        out("letter", &s, false);
                        out("call", &format!("{s}(1)"), false);
                    }
                }
            }
        }
    }
}
/// A literal of the family in a context, for the other properties.
pub fn text(kind: &str, ctx: usize, s: &str) -> Option<String> {
    let t = meaning(kind, s)?;
    if ctx < CONTEXTS { placed(ctx, s, &t).map(|p| p.0) } else { named(ctx - CONTEXTS, s, &t).map(|p| p.0) }
}
/// Judges every literal of the family, those for which `full` in all of the contexts, the others in the first.
pub fn each(x: &mut Explorer, contexts: &[usize], f: &dyn Fn(&str, usize, &str) -> Result<u64, String>) {
    let t = x.tier;
    let x = std::cell::RefCell::new(x);
    family(t, &mut || x.borrow_mut().mine(), &mut |k, s, full| {
        let mut x = x.borrow_mut();
        x.state();
        for c in &contexts[..if full { contexts.len() } else { 1 }] {
            x.trans(1);
            x.judge(format_args!("lit {k} {c} {s}"), || f(k, *c, s));
        }
    });
}
/// The parts of such a case.
pub fn case(c: &str) -> Option<(&str, usize, &str)> {
    let mut v = c.strip_prefix("lit ")?.splitn(3, ' ');
    Some((v.next()?, v.next()?.parse().ok()?, v.next()?))
}
fn judge(kind: &str, ctx: usize, s: &str) -> Result<u64, String> {
    let t = meaning(kind, s).ok_or("not a literal")?;
    let place = if ctx < CONTEXTS { placed(ctx, s, &t) } else { named(ctx - CONTEXTS, s, &t) };
    let (text, want) = place.ok_or("no such context")?;
    if kind == "dec" {
        // by value and by digits, whatever way it prints
        let sub = |t: T| map(&t, &|t| match t {
            T::Dec(d) => T::Dec(plain(d).unwrap_or_else(|| d.clone())),
            t => t.clone(),
        });
        let got = sub(read(&text)?);
        let want = sub(want);
        return if got == want { Ok(mc::hash(&got.show())) } else { Err(format!("read as {}, expected {}", got.show(), want.show())) };
    }
    expect(&text, &want)
}
fn map(t: &T, f: &dyn Fn(&T) -> T) -> T {
    match f(t) {
        T::Fun(h, ps) => T::Fun(h, ps.iter().map(|(a, k)| (a.iter().map(|t| map(t, f)).collect(), k.iter().map(|(k, v)| (map(k, f), map(v, f))).collect())).collect()),
        t => t,
    }
}
/// A decimal text without exponent and closing zeros.
pub fn plain(s: &str) -> Option<String> {
    let (m, e) = match s.split_once(['e', 'E']) {
        Some((m, e)) => (m, e.parse::<i64>().ok()?),
        None => (s, 0),
    };
    let (neg, m) = match m.strip_prefix('-') {
        Some(m) => (true, m),
        None => (false, m),
    };
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    let ds: String = format!("{a}{b}");
    if !ds.bytes().all(|c| c.is_ascii_digit()) || ds.is_empty() || e.abs() > 10_000 {
        return None;
    }
    let point = a.len() as i64 + e;
    let (w, f) = if point <= 0 {
        ("0".to_string(), "0".repeat((-point) as usize) + &ds)
    } else if point as usize >= ds.len() {
        (ds.clone() + &"0".repeat(point as usize - ds.len()), String::new())
    } else {
        (ds[..point as usize].to_string(), ds[point as usize..].to_string())
    };
    let w = w.trim_start_matches('0');
    let f = f.trim_end_matches('0');
    let w = if w.is_empty() { "0" } else { w };
    let s = if f.is_empty() { w.to_string() } else { format!("{w}.{f}") };
    Some(if neg && s != "0" { format!("-{s}") } else { s })
}

pub struct Literals;
impl Spec for Literals {
    fn id(&self) -> &'static str {
        "S03"
    }
    fn explore(&self, x: &mut Explorer) {
        let t = x.tier;
        let x = std::cell::RefCell::new(x);
        family(t, &mut || x.borrow_mut().mine(), &mut |k, s, full| {
            let mut x = x.borrow_mut();
            x.state();
            for c in 0..if full { CONTEXTS } else { 1 } {
                // `a::b:c` and `#k:` would read on
                x.trans(1);
                x.judge(format_args!("{k} {c} {s}"), || judge(k, c, s));
            }
            if full && (k == "name" || k == "path") {
                for c in 0..8 {
                    x.trans(1);
                    let c = c + CONTEXTS;
                    x.judge(format_args!("{k} {c} {s}"), || judge(k, c, s));
                }
            }
        });
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let v: Vec<&str> = c.splitn(3, ' ').collect();
        judge(v[0], v[1].parse().unwrap(), v[2]).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        let q = t == Tier::Quick;
        format!(
            "every integer below {}, powers of 2, 7, 10, 16 and neighbours; every fraction of up to {} digits behind 7 whole parts; every byte literal with single underscores of up to {} digits; every string of up to {} of 36 pieces (letters of every script, line ends, comment and operator signs) and of up to {} of 7, in both quotings; strings and names with every character of Unicode{}; every name of up to {} letters of an alphabet, and every word of the language glued to others; paths of 2 to 4 parts; slots and session references; the short ones in 14 contexts (22 for names)",
            if q { "400000" } else { "10000000" },
            if q { 4 } else { 5 },
            if q { "7 binary, 4 octal, 3 hexadecimal" } else { "10 binary, 6 octal, 5 hexadecimal" },
            if q { 3 } else { 4 },
            if q { 5 } else { 6 },
            if q { " (of the planes in use)" } else { "" },
            if q { 4 } else { 5 }
        )
    }
}

// ---------------------------------------------------------------- S04
pub struct Products;
/// The operands of an implicit product: text, meaning, and how it ends.
fn factors() -> Vec<(&'static str, T)> {
    let c = |s: &str, a| fun(s, a);
    vec![
        ("2", int(2)),
        ("x", sym("x")),
        ("f(1)", c("f", vec![int(1)])),
        ("1.5", T::Dec("1.5".into())),
        ("0x1F", int(31)),
        ("p::y", sym("p::y")),
        ("0", int(0)),
        ("bar", sym("bar")),
        ("g(a)(b)", T::Fun("g".into(), vec![(vec![sym("a")], vec![]), (vec![sym("b")], vec![])])),
        ("lets", sym("lets")),
        ("h(u v)", c("h", vec![c("std::infix::times", vec![sym("u"), sym("v")])])),
        ("0b10", int(2)),
        ("x1", sym("x1")),
        ("10000000000000000000000000", T::Int("10000000000000000000000000".parse().unwrap())),
        ("函", sym("函")),
        ("h(-u)", c("h", vec![c("std::prefix::minus", vec![sym("u")])])),
        ("n (k:1)", T::Fun("n".into(), vec![(vec![], vec![(sym("k"), int(1))])])),
        ("nullity", sym("nullity")),
        ("1", int(1)),
        ("1.0", T::Dec("1.0".into())),
        ("_u(2)(3)(4)", T::Fun("_u".into(), vec![(vec![int(2)], vec![]), (vec![int(3)], vec![]), (vec![int(4)], vec![])])),
        ("a::a::b", sym("a::a::b")),
        ("9223372036854775808", T::Int("9223372036854775808".parse().unwrap())),
        ("X()", T::Fun("X".into(), vec![(vec![], vec![])])),
        ("100", int(100)),
        ("123456", int(123456)),
        ("1000", int(1000)),
        ("pi", sym("pi")),
        ("e5", sym("e5")),
        ("e(2)", c("e", vec![int(2)])),
    ]
}
const BETWEEN: &[&str] = &["", " ", "\t", "   ", "\u{3000}"];
fn merges(a: &str, b: &str) -> bool {
    let n = b.chars().next().unwrap();
    let digit = n.is_ascii_digit();
    if a.ends_with(')') {
        return false;
    }
    if a.starts_with("0x") || a.starts_with("0b") || a.starts_with("0o") {
        return true;
    }
    if a.as_bytes()[0].is_ascii_digit() {
        return digit || (a == "0" && matches!(n.to_ascii_lowercase(), 'b' | 'o' | 'x'));
    }
    true
}
const AROUND: usize = 16;
fn around(i: usize, s: &str, t: &T) -> (String, T) {
    let c = |h: &str, v: Vec<T>| fun(h, v);
    let t = || t.clone();
    match i {
        0 => (s.into(), t()),
        1 => (format!("({s})"), t()),
        2 => (format!("q({s})"), c("q", vec![t()])),
        3 => (format!("[{s},{s}]"), c("std::containers::List", vec![t(), t()])),
        4 => (format!("{s}^2"), c("std::infix::power", vec![t(), int(2)])),
        5 => (format!("2^{s}"), c("std::infix::power", vec![int(2), t()])),
        6 => (format!("1+{s}+1"), c("std::infix::add", vec![c("std::infix::add", vec![int(1), t()]), int(1)])),
        7 => (format!("1/{s}"), c("std::infix::divide", vec![int(1), t()])),
        8 => (format!("{s}!"), c("std::suffix::factorial", vec![t()])),
        9 => (format!("-{s}"), c("std::prefix::minus", vec![t()])),
        10 => (format!("{s}.q"), c("q", vec![t()])),
        11 => (format!("{s}[1]"), c("std::core::Index", vec![t(), int(1)])),
        12 => (format!("q(k: {s})"), T::Fun("q".into(), vec![(vec![], vec![(sym("k"), t())])])),
        13 => (format!("q[{s}:{s}]"), c("std::core::Index", vec![sym("q"), c("std::core::Span", vec![t(), t(), int(1)])])),
        14 => (format!("{s} = {s}"), c("std::infix::=", vec![t(), t()])),
        _ => (format!("{s} * {s}"), c("std::infix::times", vec![t(), t()])),
    }
}
/// A product as operand numbers and gaps, `0 1 2` with gap numbers between.
fn product(ops: &[usize], gaps: &[usize], ctx: usize) -> Option<(String, T)> {
    let f = factors();
    let mut s = String::new();
    for (i, o) in ops.iter().enumerate() {
        if i > 0 {
            let g = BETWEEN[gaps[i - 1]];
            if g.is_empty() && merges(f[ops[i - 1]].0, f[*o].0) {
                return None;
            }
            s += g;
        }
        s += f[*o].0;
    }
    let t = fun("std::infix::times", ops.iter().map(|o| f[*o].1.clone()).collect());
    Some(around(ctx, &s, &t))
}
impl Spec for Products {
    fn id(&self) -> &'static str {
        "S04"
    }
    fn explore(&self, x: &mut Explorer) {
        let n = factors().len();
        let (q, m) = (x.quick(), 8);
        let go = |x: &mut Explorer, ops: &[usize], gaps: &[usize], ctx: usize| {
            if let Some((s, t)) = product(ops, gaps, ctx) {
                x.trans(1);
                x.judge(format_args!("{}/{}/{ctx}: {s}", list(ops), list(gaps)), || expect(&s, &t));
            }
        };
        for a in 0..n {
            for b in 0..n {
                if !x.mine() {
                    continue;
                }
                x.state();
                for g in 0..BETWEEN.len() {
                    for c in 0..AROUND {
                        go(x, &[a, b], &[g], c);
                    }
                }
                for d in 0..n {
                    x.state();
                    for g in 0..BETWEEN.len() {
                        for h in 0..BETWEEN.len() {
                            for c in 0..if q && (d > 9 || g > 1 || h > 1) { 2 } else { AROUND } {
                                go(x, &[a, b, d], &[g, h], c);
                            }
                        }
                    }
                    if a < m && b < m && d < m || !q {
                        for e in 0..if q { m } else { n } {
                            x.state();
                            for gs in 0..8 {
                                for c in 0..if q { 2 } else { 6 } {
                                    go(x, &[a, b, d, e], &[gs & 1, gs >> 1 & 1, gs >> 2 & 1], c);
                                }
                            }
                        }
                    }
                }
            }
        }
        // every sequence of a few, repeated factors included
        let few = [0, 1, 2, 18, 7, 6];
        for k in 4..=if q { 6 } else { 8 } {
            let all = few.len().pow(k as u32);
            for m in 0..all {
                if !x.mine_key(m as u64 / 64) {
                    continue;
                }
                x.state();
                let mut r = m;
                let ops: Vec<usize> = (0..k)
                    .map(|_| {
                        let d = few[r % few.len()];
                        r /= few.len();
                        d
                    })
                    .collect();
                for c in [0, 4, 9] {
                    go(x, &ops, &vec![1; k - 1], c);
                }
            }
        }
        // long ones
        for k in (5..if q { 40 } else { 120 }).chain([63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 130]).chain(long().filter(|n| *n < 1100)) {
            for a in 0..n {
                if !x.mine() {
                    continue;
                }
                x.state();
                let ops: Vec<usize> = (0..k).map(|i| (a + i * (1 + a % 5)) % n).collect();
                for g in 1..if k < 131 { BETWEEN.len() } else { 2 } {
                    for c in (0..AROUND).step_by(if k < 131 { 1 } else { 5 }) {
                        go(x, &ops, &vec![g; k - 1], c);
                    }
                }
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let v: Vec<&str> = c.split(": ").next().unwrap().split('/').collect();
        let l = |s: &str| s.split('.').map(|s| s.parse().unwrap()).collect::<Vec<usize>>();
        let (s, t) = product(&l(v[0]), &l(v[1]), v[2].parse().unwrap()).ok_or("no such product")?;
        expect(&s, &t).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every product of 2 and 3 operands out of 30 (numbers of every notation, names, calls), with 5 separations each, the short ones in 16 contexts; products of 4 operands {}; every product of up to {} operands out of 6; chains of up to {} operands, and of 2^k and 10^k ones (and neighbours) to 1100", if t == Tier::Quick { "out of 8" } else { "out of 30" }, if t == Tier::Quick { 6 } else { 8 }, if t == Tier::Quick { 40 } else { 120 })
    }
}
fn list(v: &[usize]) -> String {
    v.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(".")
}
