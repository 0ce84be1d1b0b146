//! S16: every text is read or refused. S17: order of arguments. S15: parts of a tree.
use crate::{forms::*, grammar::KINDS, tree::*};
use mc::{Explorer, Spec, Tier};
use sm_ast::{parser::ParserSettings, Runner, SMError, ToWolfram, AST};

pub struct Total;
/// Reads a text, and does with it whatever can be done with every text.
fn total(s: &str) -> Result<u64, String> {
    let a = ParserSettings::default().parse(s);
    let b = ParserSettings { file: "f".into(), refine: false }.parse(s);
    match (&a, &b) {
        (Ok(a), Ok(b)) if view(a) == view(b) => {
            // the text of an export takes its time when the tree is thousands of levels deep
            if s.len() < 1000 {
                a.to_wolfram_string();
            }
        }
        (Err(SMError::ParseError(a)), Err(SMError::ParseError(b))) | (Err(SMError::Unimplemented(a)), Err(SMError::Unimplemented(b))) if a == b => {}
        _ => return Err(format!("read as {a:?}, read again as {b:?}")),
    }
    if a.is_ok() {
        // nothing is left unread
        if !balanced(s) {
            return Err(format!("read as {a:?}, with brackets that do not match"));
        }
        for t in [format!("{s}\n)"), format!("{s}\n]"), format!(")\n{s}")] {
            match ParserSettings::default().parse(&t) {
                Err(SMError::ParseError(_)) => {}
                r => return Err(format!("with a bracket too many, {t:?}, read as {r:?}")),
            }
        }
    }
    // a large factorial or power takes its time
    if matches!(&a, Ok(a) if large(&view(a))) {
        return Ok(1);
    }
    let e = Runner::default().evaluate(s);
    match (&a, &e) {
        (Ok(_), Ok(_)) => {}
        // evaluation of what was read may fail, but not as a refusal of the text
        (Ok(_), Err(e)) if !matches!(e, SMError::ParseError(_)) => {}
        (Err(SMError::ParseError(a)), Err(SMError::ParseError(b))) | (Err(SMError::Unimplemented(a)), Err(SMError::Unimplemented(b))) if a == b => {}
        _ => return Err(format!("read as {a:?}, evaluated as {e:?}")),
    }
    Ok(match a {
        Ok(a) => mc::hash(&view(&a).show()),
        Err(_) => 0,
    })
}
/// Brackets match, as far as this can be told without knowing strings and comments.
fn balanced(s: &str) -> bool {
    if ["\"", "%%%", "///", "//!", "//?", "//*"].iter().any(|c| s.contains(c)) {
        return true;
    }
    let mut open = vec![];
    for c in s.chars() {
        match c {
            '(' => open.push(')'),
            '[' => open.push(']'),
            '{' => open.push('}'),
            ')' | ']' | '}' if open.pop() != Some(c) => return false,
            _ => {}
        }
    }
    open.is_empty()
}
fn large(t: &T) -> bool {
    match t {
        T::Int(i) => i.bits() > 11,
        T::Fun(_, ps) => ps.iter().any(|p| p.0.iter().any(large)),
        _ => false,
    }
}
const CHARS: &[&str] = &["a", "1", "0", "x", "+", "-", "*", "/", "^", "!", "(", ")", "[", "]", ",", ":", ".", "\"", " ", "\n", "=", "#", ";", "%", ">", "'", "?", "{", "}", "_", "\\", "¶", "é", "@", "&", "|", "$", "\u{0}", "⊗", "\r", "<", "~"];
const WORDS: &[&str] = &["a", "1", "f(", "(", ")", "[", "]", "{", "}", ",", ":", ".", "\"s\"", "let ", "def ", "class ", "if ", "for ", "in ", "return ", "using ", "true", "null", "=", "+", "^", "!", "'", "?", ";", "%%%", "///", "\n", "::", "#", "1.5", "extends ", "trait ", "with ", "as ", "@", "\"\"\"", "break ", "2 ", "-", "then ", "else ", "std::core::Index("];
const OPENERS: &[(&str, &str)] = &[("(", ")"), ("f(", ")"), ("[", "]"), ("a[", "]"), ("a[1:", "]"), ("a[:1:", "]"), ("f(k:", ")"), ("2 f(", ")"), ("f()(", ")"), ("a.g(", ")"), ("-(", ")"), ("1+", ""), ("1^", ""), ("-", ""), ("f(1,", ")"), ("[1,", "]"), ("a b c(", ")"), ("(", ")!"), ("(", ")[1]"), ("{a:", "}"), ("a'(", ")"), ("(", ").g"), ("let a=", ""), ("if a{", "}"), ("a=", ""), ("%%%", "%%%"), ("[", ",1]"), ("[", ",]"), ("f(", ",1)"), ("f(", ",k:1)"), ("f(", ")(1)"), ("a[", ",1]"), ("a[", ":2]"), ("a[", ":2:3]"), ("a[", "][1]"), ("(", ")^2"), ("(", ").1"), ("(", ")=1"), ("(", ")'"), ("f(", ") b"), ("{a:", ",b:1}"), ("if(", "){1}"), ("if(a){", "}"), ("if(a){1,", "}"), ("if(a)then{", "}"), ("if(a)then{1}else{", "}"), ("for i in ", "{1}"), ("for i in a{", "}"), ("def f(){", "}"), ("def f(a=", "){1}"), ("def f(a)=", ""), ("class A{", "}"), ("class A{f(){", "}}"), ("extends A{", "}"), ("let a{", "}"), ("@a ", ""), ("@(", ")a"), ("@[", "]a"), ("return ", ""), ("#", ""), ("\"", "\""), ("///", "\n")];
fn nest(v: &[usize], n: usize, end: usize) -> String {
    let mut s = String::new();
    let mut close = String::new();
    for i in 0..n {
        let o = OPENERS[v[i % v.len()]];
        s += o.0;
        close.insert_str(0, o.1);
    }
    match end {
        0 => s + "1" + &close,
        1 => s + "1",
        2 => s,
        // one closer is wrong
        _ => s + "1" + &close[..close.len().saturating_sub(1)] + "~",
    }
}
/// Parts of long texts, `@` a number that grows.
const UNITS: &[&str] = &["1", "x", "x@", "k@: 1", "\"s\"", "\"\"", "1.5", "f(x)", "[1]", "a::b", "(x)", "-1", "x!", "x.f", "x[1]", "1:2", "x = 1", "let x = 1", "using a", "if x {y}", "%%% c %%%", "///c", "", "#1", "@", "x.f(1)", "\"\"\"a\"\"\"", "#a x", "f()", "1 2"];
const JOINS: &[&str] = &[",", ", ", " ", "\n", ";", " + ", "^", " = ", ".", "::", "!", "", ":", ")(", "][", "\r\n", "，", " - ", "//"];
const WRAPS: &[(&str, &str)] = &[("", ""), ("[", "]"), ("f(", ")"), ("{", "}"), ("(", ")"), ("x[", "]"), ("[", ""), ("", ")"), ("f(k: 1, ", ",)"), ("\"", "\"")];
fn flat(u: &str, j: &str, (a, b): (&str, &str), n: usize) -> String {
    let v: Vec<String> = (0..n).map(|i| u.replace('@', &i.to_string())).collect();
    format!("{a}{}{b}", v.join(j))
}
impl Spec for Total {
    fn id(&self) -> &'static str {
        "S16"
    }
    fn case_limit(&self) -> u64 {
        8
    }
    fn explore(&self, x: &mut Explorer) {
        let q = x.quick();
        let go = |x: &mut Explorer, s: &str| {
            x.state();
            x.trans(1);
            x.judge(format_args!("{s}"), || total(s));
        };
        // every text to a length
        fn texts(x: &mut Explorer, al: &[&str], s: &mut String, left: usize, depth: usize, f: &dyn Fn(&mut Explorer, &str)) {
            if depth == 2 && !x.mine() {
                return;
            }
            if depth >= 2 || x.shard().0 == 0 {
                f(x, s);
            }
            if left == 0 {
                return;
            }
            for c in al {
                let n = s.len();
                s.push_str(c);
                texts(x, al, s, left - 1, depth + 1, f);
                s.truncate(n);
            }
        }
        texts(x, &CHARS[..22], &mut String::new(), if q { 4 } else { 5 }, 0, &go);
        texts(x, CHARS, &mut String::new(), if q { 3 } else { 4 }, 0, &go);
        texts(x, WORDS, &mut String::new(), if q { 3 } else { 4 }, 0, &go);
        // every form with one character lost, doubled or put in
        let a = Alphabet { inf: vec!["+", "//"], pre: vec![0], suf: vec![0], ..Alphabet::full() };
        for (i, s) in shapes(&a, if q { 1 } else { 2 }).iter().enumerate() {
            if !x.mine() {
                continue;
            }
            for k in [vec![0], vec![KINDS[i % 16], KINDS[(i + 5) % 16]], vec![KINDS[(i + 8) % 16], KINDS[(i + 3) % 16]]] {
                let t = tight(&form(s, &k));
                let at: Vec<usize> = t.char_indices().map(|c| c.0).chain([t.len()]).collect();
                for w in at.windows(2) {
                    go(x, &format!("{}{}", &t[..w[0]], &t[w[1]..]));
                    go(x, &format!("{}{}", &t[..w[1]], &t[w[0]..]));
                    go(x, &t[..w[1]]);
                    go(x, &t[w[0]..]);
                }
                for p in &at {
                    for c in CHARS {
                        go(x, &format!("{}{c}{}", &t[..*p], &t[*p..]));
                    }
                }
            }
        }
        // long texts that are not nested
        for (i, u) in UNITS.iter().enumerate() {
            for (j, p) in JOINS.iter().enumerate() {
                if !x.mine() {
                    continue;
                }
                for w in 0..WRAPS.len() {
                    for n in if q { &[150, 800][..] } else { &[50, 150, 500, 800, 1500] } {
                        // in the quick tier the longer ones for a part only
                        if !q || *n < 500 || (i + 2 * j + 3 * w) % 7 == 0 || i * j * w == 0 {
                            go(x, &flat(u, p, WRAPS[w], *n));
                        }
                    }
                }
            }
        }
        // deep nesting
        let m = OPENERS.len();
        for a in 0..m {
            for b in 0..m {
                if !x.mine() {
                    continue;
                }
                for n in [8, 25, 60] {
                    for e in 0..4 {
                        if a == b {
                            go(x, &nest(&[a], n, e));
                        } else {
                            go(x, &nest(&[a, b], n, e));
                        }
                        if n == 25 && (!q || e == 0) {
                            for c in 0..m {
                                go(x, &nest(&[a, b, c], n, e));
                            }
                        }
                    }
                }
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        total(c).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        let q = t == Tier::Quick;
        format!("every text of up to {} of 22 characters, of up to {} of 42 characters and of up to {} of 47 words of the language; every form with up to {} nodes with one character lost, doubled, put in, or cut off; every cycle of up to 3 of {} brackets, operators and statements nested 60 deep, closed and unclosed; {} long texts of up to {} parts; 8 s each", if q { 4 } else { 5 }, if q { 3 } else { 4 }, if q { 3 } else { 4 }, if q { 1 } else { 2 }, OPENERS.len(), UNITS.len() * JOINS.len() * WRAPS.len(), if q { 800 } else { 1500 })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["nesting beyond 60 levels is not explored".into()]
    }
}

// ---------------------------------------------------------------- S17
pub struct Order;
/// Arguments of one bracket in an order: `0..p` positional, the others keywords.
fn call(perm: &[usize], p: usize, second: bool, rot: usize) -> (String, T) {
    let key = |i: usize| if rot == 0 { ["k", "ab", "z_1", "函", "lets"][i] } else { KEYPOOL[(i + rot - 1) % KEYPOOL.len()] };
    let (mut pos, mut kw, mut out) = (vec![], vec![], vec![]);
    for i in perm {
        let (text, t) = match i {
            0 => ("u".to_string(), sym("u")),
            1 => ("1+2".to_string(), fun("std::infix::add", vec![int(1), int(2)])),
            2 => ("h(k: v)".to_string(), T::Fun("h".into(), vec![(vec![], vec![(sym("k"), sym("v"))])])),
            3 => ("[7]".to_string(), fun("std::containers::List", vec![int(7)])),
            i => (format!("{}", 90 + i), int(90 + *i as i64)),
        };
        if *i < p {
            out.push(text);
            pos.push(t);
        } else {
            let k = key(i - p);
            out.push(format!("{k}:{text}"));
            kw.push((sym(k), t));
        }
    }
    kw.sort();
    let b = out.join(", ");
    if second {
        (format!("f(0)({b})"), T::Fun("f".into(), vec![(vec![int(0)], vec![]), (pos, kw)]))
    } else {
        (format!("f({b})"), T::Fun("f".into(), vec![(pos, kw)]))
    }
}
fn perms(n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(v: &mut Vec<usize>, n: usize, f: &mut dyn FnMut(&[usize])) {
        if v.len() == n {
            return f(v);
        }
        for i in 0..n {
            if !v.contains(&i) {
                v.push(i);
                go(v, n, f);
                v.pop();
            }
        }
    }
    go(&mut vec![], n, f)
}
fn exports(text: &str, want: &T) -> Result<u64, String> {
    expect(text, want)?;
    // every argument reaches the export once
    let w = parse(text)?.to_wolfram_string();
    let T::Fun(_, ps) = want else { unreachable!() };
    let (a, k) = ps.last().unwrap();
    let mut parts: Vec<String> = a.iter().map(|t| export(t)).collect();
    let mut rules: Vec<String> = k.iter().map(|(k, v)| format!("Rule[{},{}]", export(k), export(v))).collect();
    parts.append(&mut rules);
    let head = if ps.len() == 2 { "F[0]" } else { "F" };
    let full = format!("{head}[{}]", parts.join(","));
    let same = |s: &str| {
        let mut v: Vec<char> = s.chars().collect();
        v.sort();
        v
    };
    let n = a.iter().map(|t| export(t)).collect::<Vec<_>>().join(",");
    if same(&w) != same(&full) || !w.starts_with(&format!("{head}[{n}")) {
        return Err(format!("exported as {w}, expected {full}"));
    }
    Ok(mc::hash(&w))
}
fn export(t: &T) -> String {
    match t {
        T::Int(i) => i.to_string(),
        T::Sym(s) => s.clone(),
        T::Fun(h, ps) => {
            let (a, k) = &ps[0];
            let mut v: Vec<String> = a.iter().map(export).collect();
            v.extend(k.iter().map(|(k, x)| format!("Rule[{},{}]", export(k), export(x))));
            match h.as_str() {
                "std::containers::List" => format!("{{{}}}", v.join(",")),
                "std::infix::add" => format!("Add[{}]", v.join(",")),
                _ => format!("H[{}]", v.join(",")),
            }
        }
        _ => String::new(),
    }
}
const WAYS: usize = 10;
/// Many arguments, mixed in different ways.
fn many(n: usize, way: usize, second: bool) -> Result<u64, String> {
    let (mut pos, mut kw, mut out) = (vec![], vec![], vec![]);
    for i in 0..n {
        // which are keywords, and in which order they stand
        let (key, rank) = match way {
            0 => (true, i),
            1 => (true, n - i),
            2 => (true, i * 7919 % 10007),
            3 => (i % 2 == 0, i),
            4 => (i % 2 == 1, n - i),
            5 => (i < n / 2, n - i),
            6 => (i >= n / 2, i * 31 % 10007),
            7 => (i % 3 == 0, i * 7919 % 10007),
            8 => (i + 1 == n || i == 0, n - i),
            _ => (i + 1 == n / 2, i),
        };
        if key {
            let k = if rank % 2 == 0 { format!("k{rank}") } else { format!("函_{rank:05}") };
            out.push(format!("{k}: {}", 90 + i));
            kw.push((sym(&k), int(90 + i as i64)));
        } else {
            let (s, t) = if i % 5 == 3 { (format!("[u{i}]"), fun("std::containers::List", vec![sym(&format!("u{i}"))])) } else { (format!("u{i}"), sym(&format!("u{i}"))) };
            out.push(s);
            pos.push(t);
        }
    }
    kw.sort();
    let b = out.join(", ");
    let (text, t) = if second { (format!("f(0)({b},)"), T::Fun("f".into(), vec![(vec![int(0)], vec![]), (pos, kw)])) } else { (format!("f({b})"), T::Fun("f".into(), vec![(pos, kw)])) };
    exports(&text, &t)
}
/// Keywords of the pool (the last may be that before it, which says two), around a positional argument.
fn keys(v: &[usize]) -> Result<u64, String> {
    let v = if v[1] == v[2] { &v[..2] } else { v };
    let mut w: Vec<String> = v.iter().enumerate().map(|(i, k)| format!("{}: {}", KEYPOOL[*k], 80 + i)).collect();
    w.insert(1, "u".into());
    let mut kw: Vec<(T, T)> = v.iter().enumerate().map(|(i, k)| (sym(KEYPOOL[*k]), int(80 + i as i64))).collect();
    kw.sort();
    exports(&format!("f({})", w.join(", ")), &T::Fun("f".into(), vec![(vec![sym("u")], kw)]))
}
/// Values that a bracket may take for something of its own.
fn given() -> Vec<(String, T)> {
    use crate::grammar::{leaf, CONSTANTS};
    let mut v: Vec<(String, T)> = (0..16).map(|i| leaf(26, i)).collect();
    v.extend([leaf(0, 0), leaf(2, 0), leaf(4, 2), leaf(7, 0), leaf(7, 1), leaf(8, 0), leaf(10, 0), leaf(9, 1)]);
    v.extend(["k", "j", "None", "Null", "default"].iter().map(|s| (s.to_string(), sym(s))));
    v.push((CONSTANTS[0].into(), sym(CONSTANTS[0])));
    v.push(("[]".into(), fun("std::containers::List", vec![])));
    v.push(("g()".into(), fun("g", vec![])));
    v.push(("g(k: 1)".into(), T::Fun("g".into(), vec![(vec![], vec![(sym("k"), int(1))])])));
    v.push(("f(1, k: 1)".into(), T::Fun("f".into(), vec![(vec![int(1)], vec![(sym("k"), int(1))])])));
    v.push(("1 == 1".into(), fun("std::infix::==", vec![int(1), int(1)])));
    v.push(("-1".into(), fun("std::prefix::minus", vec![int(1)])));
    v.dedup();
    v
}
/// Values of positional and keyword arguments in one bracket.
fn values(v: &[usize], second: bool) -> Result<u64, String> {
    let g = given();
    let (a, b, c) = (&g[v[0]], &g[v[1]], &g[v[2]]);
    let text = format!("{}({}, k: {}, {}, j: {}, {})", if second { "f(1)" } else { "f" }, a.0, b.0, c.0, a.0, b.0);
    let mut ps = vec![(vec![a.1.clone(), c.1.clone(), b.1.clone()], vec![(sym("j"), a.1.clone()), (sym("k"), b.1.clone())])];
    if second {
        ps.insert(0, (vec![int(1)], vec![]));
    }
    let want = T::Fun("f".into(), ps);
    expect(&text, &want)?;
    use wolfram_wxf::WolframValue as W;
    let (W::Function(_, got), W::Function(_, full)) = (parse(&text)?.to_wolfram(), crate::shapes::wl(&want)) else { return Err("not exported as a call".into()) };
    let key = |v: &[W]| {
        let mut v: Vec<String> = v.iter().map(|w| w.to_string()).collect();
        v.sort();
        v
    };
    if got.len() != 5 || got[..3] != full[..3] || key(&got[3..]) != key(&full[3..]) {
        return Err(format!("exported as {}", parse(&text)?.to_wolfram_string()));
    }
    Ok(mc::hash(&text))
}
impl Spec for Order {
    fn id(&self) -> &'static str {
        "S17"
    }
    fn explore(&self, x: &mut Explorer) {
        for n in 0usize..if x.quick() { 7 } else { 8 } {
            for p in n.saturating_sub(5)..=n {
                perms(n, &mut |v| {
                    if !x.mine() {
                        return;
                    }
                    x.state();
                    for second in [false, true] {
                        x.trans(1);
                        // in the order written first or last, with every run of keywords
                        let rots = if n - p > 0 && n < 5 { KEYPOOL.len() } else { 0 };
                        for rot in 0..=rots {
                            let (s, t) = call(v, p, second, rot);
                            let name: Vec<String> = v.iter().map(|i| i.to_string()).collect();
                            x.judge(format_args!("{}/{p}/{second}/{rot}", name.join(".")), || exports(&s, &t));
                        }
                    }
                });
            }
        }
        // many arguments
        let most = if x.quick() { 140 } else { 600 };
        for n in (7..most).chain([199, 200, 201, 254, 255, 256, 257, 258, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4096, 4097].into_iter().filter(|n| *n >= most)) {
            if !x.mine() {
                continue;
            }
            x.state();
            for way in 0..WAYS {
                for second in [false, true] {
                    x.trans(1);
                    x.judge(format_args!("many/{n}.{way}/{second}"), || many(n, way, second));
                }
            }
        }
        // every three values
        let n = given().len();
        for a in 0..n {
            for b in 0..n {
                if !x.mine() {
                    continue;
                }
                for c in 0..n {
                    x.state();
                    for second in [false, true] {
                        x.trans(1);
                        x.judge(format_args!("values/{a}.{b}.{c}/{second}"), || values(&[a, b, c], second));
                    }
                }
            }
        }
        // every two and three keywords
        for a in 0..KEYPOOL.len() {
            for b in 0..KEYPOOL.len() {
                if a == b || !x.mine() {
                    continue;
                }
                for c in 0..KEYPOOL.len() {
                    if c == a {
                        continue;
                    }
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("keys/{a}.{b}.{c}"), || keys(&[a, b, c]));
                }
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let v: Vec<&str> = c.split('/').collect();
        if v[0] == "values" {
            return values(&v[1].split('.').map(|s| s.parse().unwrap()).collect::<Vec<_>>(), v[2] == "true").map(|_| ());
        }
        if v[0] == "many" {
            let w: Vec<usize> = v[1].split('.').map(|s| s.parse().unwrap()).collect();
            return many(w[0], w[1], v[2] == "true").map(|_| ());
        }
        if v[0] == "keys" {
            return keys(&v[1].split('.').map(|s| s.parse().unwrap()).collect::<Vec<_>>()).map(|_| ());
        }
        let perm: Vec<usize> = v[0].split('.').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let (s, t) = call(&perm, v[1].parse().unwrap(), v[2] == "true", v[3].parse().unwrap());
        exports(&s, &t).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every order of every mix of positional and up to 5 keyword arguments, up to {} in all, in the first and in a later bracket; every two and three keywords out of 21; {WAYS} mixes of every number of arguments to {}, and of some to 4097; every three of {} values as positional and keyword arguments", if t == Tier::Quick { 6 } else { 7 }, if t == Tier::Quick { 139 } else { 599 }, given().len())
    }
}

// ---------------------------------------------------------------- S15
pub struct Parts;
fn all(t: Tier) -> Vec<S> {
    let a = Alphabet { inf: vec!["+", "^"], pre: vec![0], suf: vec![0], ..Alphabet::full() };
    let mut v = wide(&a);
    v.extend(shapes(&a, if t == Tier::Quick { 2 } else { 3 }));
    v.extend(sized(&a, if t == Tier::Quick { &[7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300, 1000] } else { &[7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 24, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1024] }));
    v
}
/// Lengths around those at which a counter or a buffer may end.
pub const LENGTHS: &[usize] = &[3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131072, 131073, 1100000];
pub const LONG: &[(char, char, char)] = &[('x', 'a', 'y'), ('é', '函', '😀'), ('😀', 'é', 'z'), ('a', '😀', '\u{301}')];
/// A string of that many characters, as it is written.
pub fn long(n: usize, k: usize) -> String {
    let (a, m, b) = LONG[k];
    format!("\"{a}{}{b}\"", m.to_string().repeat(n - 2))
}
fn parts(text: &str) -> Result<u64, String> {
    parts_of(parse(text)?)
}
/// A string that is made by hand, with this character in four places.
fn character(n: u32) -> Result<u64, String> {
    let c = char::from_u32(n).ok_or("no character")?;
    for s in [format!("{c}"), format!("{c}a"), format!("a{c}"), format!("a{c}{c}"), format!("{c}\n"), format!("\r{c}"), format!("{c}{c}a")] {
        parts_of(AST::string(s.as_str()))?;
        match AST::string(s.as_str()) {
            AST::String(t) if t == s => (),
            t => return Err(format!("the string {s:?} is {t:?}")),
        }
    }
    Ok(12)
}
/// Two of these beside each other, in all places of a string.
const ODD: &[char] = &['\r', '\n', '\t', '\0', ' ', '"', '\'', '\\', '\u{b}', '\u{c}', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', '\u{300}', '\u{301}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{200e}', '\u{200f}', '\u{2028}', '\u{2029}', '\u{202e}', '\u{2060}', '\u{20e3}', '\u{fe0e}', '\u{fe0f}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{1100}', '\u{1161}', '\u{11a8}', '가', '\u{1f1e9}', '\u{1f1ea}', '👩', '💻', '\u{1f3fb}', '\u{e0041}', '\u{e007f}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '0', '%', '/', '{', '}', '$', '#', '_', 'A', 'ß', 'ﬁ', 'é', 'İ'];
fn odd(s: &str) -> Result<u64, String> {
    parts_of(AST::string(s))
}
fn parts_of(a: AST) -> Result<u64, String> {
    use sm_ast::internal::{first, head, last, length};
    let before = format!("{a:?}");
    let h = head(&a);
    let want = match &a {
        AST::Boolean(_) => sym("std::core::Boolean"),
        AST::Integer(_) => sym("std::core::Integer"),
        AST::Decimal(_) => sym("std::core::Decimal"),
        AST::Symbol(_) => sym("std::core::Symbol"),
        AST::String(_) => sym("std::core::String"),
        AST::Function(..) => match view(&a) {
            T::Fun(h, ps) if ps.len() == 1 => T::Sym(h),
            T::Fun(h, ps) => T::Fun(h, ps[..ps.len() - 1].to_vec()),
            _ => unreachable!(),
        },
        _ => return Err("no such tree".into()),
    };
    if view(&h) != want {
        return Err(format!("the head is {}, expected {}", view(&h).show(), want.show()));
    }
    if let AST::Function(_, ps) = &a {
        // the head applied to the last bracket is the whole
        let back = match h {
            AST::Symbol(s) => AST::Function(s, ps.clone()),
            AST::Function(s, mut p) => {
                p.push(ps.last().unwrap().clone());
                AST::Function(s, p)
            }
            _ => return Err("the head of a call is no function".into()),
        };
        if back != a {
            return Err(format!("the head and the last bracket make {}", view(&back).show()));
        }
        if ps.len() > 1 && head(&head(&a)) != head(&AST::Function(match &a { AST::Function(s, _) => s.clone(), _ => unreachable!() }, ps[..ps.len() - 1].to_vec())) {
            return Err("heads of heads differ".into());
        }
    }
    match &a {
        AST::String(s) => {
            let c: Vec<char> = s.chars().collect();
            let one = |r: Result<AST, SMError>, w: Option<&char>| match (r, w) {
                (Ok(AST::String(s)), Some(c)) => s == c.to_string(),
                (Err(SMError::EmptyContainer(_)), None) => true,
                _ => false,
            };
            if !one(first(&a), c.first()) || !one(last(&a), c.last()) || !matches!(length(&a), Ok(AST::Integer(n)) if n == c.len().into()) {
                return Err(format!("first {:?}, last {:?}, length {:?}", first(&a), last(&a), length(&a)));
            }
        }
        _ => {
            for (n, r) in [("first", first(&a)), ("last", last(&a)), ("length", length(&a))] {
                if !matches!(r, Err(SMError::Unimplemented(_))) && !matches!(&a, AST::Function(..)) {
                    return Err(format!("{n} answered {r:?}"));
                }
            }
        }
    }
    if format!("{a:?}") != before {
        return Err("the tree was changed".into());
    }
    Ok(mc::hash(&want.show()))
}
impl Spec for Parts {
    fn id(&self) -> &'static str {
        "S15"
    }
    fn explore(&self, x: &mut Explorer) {
        for (i, s) in all(x.tier).iter().enumerate() {
            if !x.mine() {
                continue;
            }
            x.state();
            for (j, k) in KINDS.iter().enumerate() {
                let t = tight(&form_at(s, &[*k, KINDS[(j + i) % KINDS.len()]], if j % 2 == 0 { 0 } else { 1 + (i + j) % POOL.len() }));
                x.trans(1);
                x.judge(format_args!("{t}"), || parts(&t));
            }
        }
        // strings
        let mut level = vec![String::new()];
        for _ in 0..if x.quick() { 6 } else { 8 } {
            for s in &level {
                if x.mine() {
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("\"{s}\""), || parts(&format!("\"{s}\"")));
                }
            }
            level = level.iter().flat_map(|s| ["a", "é", "函", "😀", "e\u{301}", "\n", "\u{301}"].iter().map(move |l| format!("{s}{l}"))).collect();
        }
        for n in 0..0x110000u32 {
            if x.mine_key(n as u64 / 256) && char::from_u32(n).is_some() {
                x.state();
                x.trans(1);
                x.judge(format_args!("{{char}} {n}"), || character(n));
            }
        }
        let mut level = vec![String::new()];
        for _ in 0..if x.quick() { 3 } else { 4 } {
            for s in &level {
                if x.mine() {
                    x.state();
                    for l in ODD {
                        let s = format!("{s}{l}");
                        x.trans(1);
                        x.judge(format_args!("{{odd}} {s}"), || odd(&s));
                    }
                }
            }
            level = level.iter().flat_map(|s| ODD.iter().map(move |l| format!("{s}{l}"))).collect();
        }
        for n in LENGTHS {
            for k in 0..LONG.len() {
                if x.mine() {
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("{{long}} {n} {k}"), || parts(&long(*n, k)));
                }
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let v: Vec<&str> = c.split(' ').collect();
        if v[0] == "{long}" {
            return parts(&long(v[1].parse().unwrap(), v[2].parse().unwrap())).map(|_| ());
        }
        if v[0] == "{char}" {
            return character(v[1].parse().unwrap()).map(|_| ());
        }
        if let Some(s) = c.strip_prefix("{odd} ") {
            return odd(s).map(|_| ());
        }
        parts(c).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!("{} shapes with 16 operand assignments; every string of up to {} of 7 letters, of up to {} of 59 odd characters (line ends, joiners, marks, surrogate neighbours), every character of Unicode in seven places, and strings of 3 to 1100000 characters of 1 to 4 bytes", all(t).len(), if t == Tier::Quick { 5 } else { 7 }, if t == Tier::Quick { 3 } else { 4 })
    }
}
