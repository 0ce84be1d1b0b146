//! S19: a program is read statement by statement.
use crate::tree::*;
use mc::{Explorer, Spec, Tier};
use sm_ast::{parser::ParserSettings, Runner, SMError};
use sm_parser::{Pair, Parser as _, Rule, SMParser};

/// A statement, written out.
#[derive(Clone, Debug)]
struct St {
    text: String,
    kind: &'static str,
    /// its names and values in the order in which they stand
    words: Vec<String>,
    /// the kinds of the statements directly within it, in order
    inner: Vec<&'static str>,
}
const KINDS: &[&str] = &["importStatement", "classStatement", "traitStatement", "extendStatement", "if_statement", "for_statement", "re_control", "assignStatement", "defineStatement", "annotation", "expression"];
const PLAIN: &[(&str, &[&str])] = &[
    ("1", &["1"]),
    ("a", &["a"]),
    ("f(x)", &["f", "x"]),
    ("\"s\"", &["\"s\""]),
    ("[1, b]", &["1", "b"]),
    ("-a", &["a"]),
    ("a+1", &["a", "1"]),
    ("1.5", &["1", "5"]),
    ("2 x", &["2", "x"]),
    ("a[1:2]", &["a", "1", "2"]),
    ("true", &["true"]),
    ("(c)", &["c"]),
    ("x^2!", &["x", "2"]),
    ("n::m", &["n", "m"]),
    ("f(k: 1)(y)", &["f", "k", "1", "y"]),
    ("a.g", &["a", "g"]),
    ("letter", &["letter"]),
    ("a = 3", &["a", "3"]),
    ("#1", &["1"]),
    ("iff", &["iff"]),
];
fn st(kind: &'static str, parts: &[&dyn std::fmt::Display], words: &[&str], inner: &[&'static str]) -> St {
    St { text: parts.iter().map(|p| p.to_string()).collect(), kind, words: words.iter().map(|w| w.to_string()).collect(), inner: inner.to_vec() }
}
fn plain() -> Vec<St> {
    PLAIN.iter().map(|(t, w)| st("expression", &[t], w, &[])).collect()
}
/// Statements without statements inside.
fn flat() -> Vec<St> {
    let mut o = vec![];
    // paths of a module
    for dots in ["", ".", "...", ".."] {
        for (p, w) in [("m", vec!["m"]), ("m.n", vec!["m", "n"]), ("m::n", vec!["m", "n"]), ("m∷n.k", vec!["m", "n", "k"])] {
            for (t, v) in [("", vec![]), (".*", vec![]), ("::*", vec![]), (" as q", vec!["q"]), (".{u}", vec!["u"]), (".{u, v}", vec!["u", "v"]), (".{u as w, v.z, i.*}", vec!["u", "w", "v", "z", "i"]), ("::{u; v,}", vec!["u", "v"]), (".{u.{v as w, x}, y}", vec!["u", "v", "w", "x", "y"])] {
                o.push(st("importStatement", &[&"using ", &dots, &p, &t], &[w.clone(), v].concat(), &[]));
            }
        }
        o.push(st("importStatement", &[&"using ", &dots, &"\"d/e\" as q"], &["\"d/e\"", "q"], &[]));
    }
    for (k, kind) in [("class", "classStatement"), ("trait", "traitStatement")] {
        for (n, w) in [("A", vec!["A"]), ("A::B", vec!["A", "B"]), ("classy", vec!["classy"])] {
            o.push(st(kind, &[&k, &" ", &n], &w, &[]));
            o.push(st(kind, &[&k, &" ", &n, &" {}"], &w, &[]));
            o.push(st(kind, &[&k, &" ", &n, &" { x y: T; let z }"], &[w.clone(), vec!["x", "y", "T", "z"]].concat(), &[]));
            o.push(st(kind, &[&k, &" ", &n, &"{let x: T; f(y: S|T) def g(): T; @b h()}"], &[w.clone(), vec!["x", "T", "f", "y", "S", "T", "g", "T", "b", "h"]].concat(), &[]));
        }
    }
    for (w, v) in [("", vec![]), (" with T", vec!["T"]), (" with S::T", vec!["S", "T"])] {
        o.push(st("extendStatement", &[&"extends A", &w, &" {}"], &[vec!["A"], v.clone()].concat(), &[]));
        o.push(st("extendStatement", &[&"extends A::B", &w, &" { x: T; def f(y) }"], &[vec!["A", "B"], v, vec!["x", "T", "f", "y"]].concat(), &[]));
    }
    for (n, w) in NAMES {
        for (h, v) in HINTS {
            o.push(st("assignStatement", &[&"let ", n, h], &[*w, *v].concat(), &[]));
        }
    }
    for (p, w) in PARAMETERS {
        for (h, v) in HINTS {
            o.push(st("defineStatement", &[&"def f", p, h], &[&["f"], *w, *v].concat(), &[]));
        }
    }
    o.push(st("re_control", &[&"break"], &[], &[]));
    o.push(st("re_control", &[&"pass"], &[], &[]));
    for (t, w) in PLAIN {
        o.push(st("re_control", &[&"return ", t], w, &[]));
    }
    o
}
const ITEMS: &[(&str, &[&str])] = &[("u", &["u"]), ("v.w", &["v", "w"]), ("x as y", &["x", "y"]), ("\"s\" as z", &["\"s\"", "z"]), ("k::{l}", &["k", "l"]), ("i.*", &["i"]), ("a::b as c", &["a", "b", "c"])];
const NAMES: &[(&str, &[&str])] = &[("x", &["x"]), ("x, y", &["x", "y"]), ("(x)", &["x"]), ("(x, y, z)", &["x", "y", "z"]), ("x::y", &["x", "y"]), ("(x, y,)", &["x", "y"]), ("letter", &["letter"])];
const HINTS: &[(&str, &[&str])] = &[("", &[]), (": T", &["T"]), (": S|T", &["S", "T"]), ("：L(T)", &["L", "T"])];
const PARAMETERS: &[(&str, &[&str])] = &[("()", &[]), ("(x)", &["x"]), ("(x, y)", &["x", "y"]), ("(x: T)", &["x", "T"]), ("(x = 1)", &["x", "1"]), ("(x: T = 1, y,)", &["x", "T", "1", "y"]), ("(x, y: S|T, z = f(1)，w)", &["x", "y", "S", "T", "z", "f", "1", "w"])];
/// Imports of several names.
fn blocks() -> Vec<St> {
    let mut o = vec![];
    // every way to part and to close the names of a block
    for n in 1..4 {
        for part in [", ", "; ", " ", "，", ",", ";\n"] {
            for close in ["", ",", ";", " ; ", "，", "；"] {
                for (i, item) in ITEMS.iter().enumerate() {
                    let v: Vec<&(&str, &[&str])> = (0..n).map(|k| if k == 0 { item } else { &ITEMS[(i + k) % ITEMS.len()] }).collect();
                    let t = v.iter().map(|v| v.0).collect::<Vec<_>>().join(part);
                    o.push(st("importStatement", &[&"using m.{", &t, &close, &"}"], &[&["m"], &v.iter().flat_map(|v| v.1.to_vec()).collect::<Vec<_>>()[..]].concat(), &[]));
                }
            }
        }
    }
    o
}
/// Every compound statement around the given one.
fn around(s: &St) -> Vec<St> {
    let mut o = vec![];
    let mut push = |kind: &'static str, before: &str, w: &[&str], after: &str, v: &[&str], inner: &[&'static str]| {
        let mut words: Vec<String> = w.iter().map(|x| x.to_string()).collect();
        words.extend(s.words.iter().cloned());
        words.extend(v.iter().map(|x| x.to_string()));
        o.push(St { text: format!("{before}{}{after}", s.text), kind, words, inner: inner.to_vec() });
    };
    let k = s.kind;
    push("assignStatement", "let x = ", &["x"], "", &[], &[k]);
    push("assignStatement", "let (x, y): T = ", &["x", "y", "T"], "", &[], &[k]);
    push("assignStatement", "let x {", &["x"], "}", &[], &[k]);
    push("assignStatement", "let x: T { 1; ", &["x", "T", "1"], "; 2 }", &["2"], &["expression", k, "expression"]);
    push("defineStatement", "def f() = ", &["f"], "", &[], &[k]);
    push("defineStatement", "def f(x): T {", &["f", "x", "T"], "; x}", &["x"], &[k, "expression"]);
    push("classStatement", "class A { x = ", &["A", "x"], "; def f() = 1 }", &["f", "1"], &[k, "expression"]);
    push("traitStatement", "trait A { def f(y) {", &["A", "f", "y"], "; 1} }", &["1"], &[k, "expression"]);
    push("extendStatement", "extends A with T { let x = ", &["A", "T", "x"], " }", &[], &[k]);
    push("if_statement", "if c {", &["c"], "}", &[], &[k]);
    push("if_statement", "if (c) {1, ", &["c", "1"], "}", &[], &["expression", k]);
    push("if_statement", "if f(c) {1, ", &["f", "c", "1"], "; , 3,}", &["3"], &["expression", k, "expression"]);
    push("if_statement", "if (c) then {1;", &["c", "1"], "} else {2} otherwise {3}", &["2", "3"], &["expression", k, "expression", "expression"]);
    push("if_statement", "if (c) then {1} else {", &["c", "1"], "}", &[], &["expression", k]);
    push("if_statement", "if (c) then {1} otherwise {2 ; ", &["c", "1", "2"], "}", &[], &["expression", "expression", k]);
    push("for_statement", "for i in l {", &["i", "l"], "}", &[], &[k]);
    push("for_statement", "for i in f(l) { 1;\n", &["i", "f", "l", "1"], "; 2}", &["2"], &["expression", k, "expression"]);
    // a bracket or list at once after the name would belong to the expression
    push("annotation", "@a ", &["a"], "", &[], &[k]);
    push("annotation", "@a::b @[1, c] ", &["a", "b", "1", "c"], "", &[], &[k]);
    o
}
const LARGE: usize = 14;
/// A statement with that many parts.
fn large(n: usize, k: usize) -> St {
    let each = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
    let words = |first: &[&str], f: &dyn Fn(usize) -> Vec<String>, last: &[&str]| first.iter().map(|s| s.to_string()).chain((0..n).flat_map(f)).chain(last.iter().map(|s| s.to_string())).collect::<Vec<String>>();
    let name = |i: usize| format!("n{i}");
    let one = |i: usize| vec![format!("n{i}")];
    let two = |i: usize| vec![format!("n{i}"), format!("{i}")];
    let (kind, text, words, inner) = match k {
        0 => ("importStatement", format!("using {}", each(&name, ".")), words(&[], &one, &[]), vec![]),
        1 => ("importStatement", format!("using {}m", ".".repeat(n)), vec!["m".to_string()], vec![]),
        2 => ("importStatement", format!("using m.{{{}}}", each(&name, ", ")), words(&["m"], &one, &[]), vec![]),
        3 => ("importStatement", format!("using m::{{{};}}", each(&|i| format!("n{i} as w"), "; ")), words(&["m"], &|i| vec![name(i), "w".into()], &[]), vec![]),
        4 => ("assignStatement", format!("let ({}) = 1", each(&name, ", ")), words(&[], &one, &["1"]), vec!["expression"]),
        5 => ("assignStatement", format!("let x: {}", each(&name, "|")), words(&["x"], &one, &[]), vec![]),
        6 => ("defineStatement", format!("def f({})", each(&name, ", ")), words(&["f"], &one, &[]), vec![]),
        7 => ("defineStatement", format!("def f({}) {{ 1 }}", each(&|i| format!("n{i}: T = {i}"), ", ")), words(&["f"], &|i| vec![name(i), "T".into(), i.to_string()], &["1"]), vec!["expression"]),
        8 => ("classStatement", format!("class A {{ {} }}", each(&|i| format!("n{i}: T"), "; ")), words(&["A"], &|i| vec![name(i), "T".into()], &[]), vec![]),
        9 => ("traitStatement", format!("trait A {{ {} }}", each(&|i| format!("def n{i}() = {i}"), "; ")), words(&["A"], &two, &[]), vec!["expression"; n]),
        10 => ("if_statement", format!("if (c) then {{{}}}", each(&name, "; ")), words(&["c"], &one, &[]), vec!["expression"; n]),
        11 => ("for_statement", format!("for i in l {{{}}}", each(&|i| format!("let n{i} = {i}"), "; ")), words(&["i", "l"], &two, &[]), vec!["assignStatement"; n]),
        12 => ("annotation", format!("{}1", each(&|i| format!("@n{i} "), "")), words(&[], &one, &["1"]), vec!["expression"]),
        _ => ("annotation", format!("@[{}] 1", each(&name, ", ")), words(&[], &one, &["1"]), vec!["expression"]),
    };
    St { text, kind, words, inner }
}
fn seq(v: &[&St], sep: &str) -> String {
    v.iter().map(|s| s.text.as_str()).collect::<Vec<_>>().join(sep)
}

fn words(p: Pair<Rule>, o: &mut Vec<String>) {
    let t = p.as_str().trim().to_string();
    let name = format!("{:?}", p.as_rule());
    let mut parts = p.into_inner().peekable();
    if parts.peek().is_none() {
        let keyword = name != "SYMBOL" && ["as", "return", "break", "pass", "using"].contains(&t.as_str());
        if !keyword && t.chars().any(|c| c.is_alphanumeric() || c == '"') {
            match t.strip_prefix('#') {
                Some(r) => o.push(r.into()),
                None => o.push(t),
            }
        }
        return;
    }
    let begin = o.len();
    for i in parts {
        words(i, o)
    }
    // a decimal is written with two numbers, of which one is a token
    if name == "Decimal" {
        o.truncate(begin);
        o.extend(t.split('.').map(String::from));
    }
}
fn inner(p: Pair<Rule>, o: &mut Vec<String>) {
    for i in p.into_inner() {
        let n = format!("{:?}", i.as_rule());
        if KINDS.contains(&n.as_str()) { o.push(n) } else { inner(i, o) }
    }
}
/// What stands for no statement.
const EMPTY: &[&str] = &[";", "; ", "；", ";\n", "%%%c%%%;", ";///c\n", "\n", " ", "%%%c%%%", "///c\n", "\t;"];
/// A statement behind that many of them is read and evaluated as by itself.
fn behind(s: &St, n: usize, e: usize) -> Result<u64, String> {
    let text = EMPTY[e].repeat(n) + &s.text;
    let kinds = |t: &str| -> Result<Vec<(String, Vec<String>)>, String> {
        let mut v = vec![];
        for p in SMParser::parse(Rule::program, t).map_err(|e| format!("refused: {}", format!("{e}").replace('\n', " ")))? {
            let k = format!("{:?}", p.as_rule());
            if k != "EOI" && k != "eos" && k != "emptyStatement" {
                let mut w = vec![];
                words(p, &mut w);
                v.push((k, w));
            }
        }
        Ok(v)
    };
    let (a, b) = (kinds(&text)?, kinds(&s.text)?);
    if a != b {
        return Err(format!("{:?} behind {n} of {:?} read as {a:?} instead of {b:?}", s.text, EMPTY[e]));
    }
    let read = |t: &str| match ParserSettings::default().parse(t) {
        Ok(a) => view(&a).show(),
        Err(e) => format!("{e:?}"),
    };
    if read(&text) != read(&s.text) {
        return Err(format!("{:?} behind {n} of {:?} means {} instead of {}", s.text, EMPTY[e], read(&text), read(&s.text)));
    }
    let value = |t: &str| format!("{:?}", Runner::default().evaluate(t));
    if value(&text) != value(&s.text) {
        return Err(format!("{:?} behind {n} of {:?} is {} instead of {}", s.text, EMPTY[e], value(&text), value(&s.text)));
    }
    Ok(mc::hash(&format!("{a:?}")))
}
/// Reads the program and compares it with its statements.
fn holds(v: &[&St], sep: &str, end: &str) -> Result<u64, String> {
    let text = format!("{}{end}", seq(v, sep));
    let tokens = SMParser::parse(Rule::program, &text).map_err(|e| format!("refused: {}", format!("{e}").replace('\n', " ")))?;
    let mut found = vec![];
    for p in tokens {
        let name = format!("{:?}", p.as_rule());
        if name == "EOI" || name == "eos" || name == "emptyStatement" {
            continue;
        }
        found.push((name, p));
    }
    let shown = || found.iter().map(|(n, p)| format!("{n}:{:?}", p.as_str().trim())).collect::<Vec<_>>().join(" ");
    if found.len() != v.len() {
        return Err(format!("read as {} statements instead of {}: {}", found.len(), v.len(), shown()));
    }
    let mut h = 0;
    for ((n, p), s) in found.iter().zip(v) {
        if n != s.kind {
            return Err(format!("{:?} read as {n}, expected {}", s.text, s.kind));
        }
        // what follows the statement in its token may only be blanks, comments and its end
        let mut rest = match p.as_str().strip_prefix(s.text.as_str()) {
            Some(r) => r.to_string(),
            None => p.as_str().to_string(),
        };
        for c in ["%%%c%%%", "%%% c %%%", "%%%x%%%", "///c", "///x"] {
            rest = rest.replace(c, "");
        }
        if !rest.trim_matches([';', '；', ' ', '\n']).is_empty() {
            return Err(format!("{:?} read from the text {:?}", s.text, p.as_str()));
        }
        let mut w = vec![];
        words(p.clone(), &mut w);
        if w != s.words {
            return Err(format!("{:?} read with the names and values {w:?}, expected {:?}", s.text, s.words));
        }
        let mut k = vec![];
        inner(p.clone(), &mut k);
        if k != s.inner {
            return Err(format!("{:?} read with the statements {k:?} inside, expected {:?}", s.text, s.inner));
        }
        h = mc::hash(&format!("{h} {n} {}", w.len()));
    }
    // the first statement that is not empty decides what the program means
    let got = ParserSettings::default().parse(&text);
    let Some(first) = v.first() else {
        return match got {
            Ok(a) if view(&a) == T::Empty => Ok(1),
            r => Err(format!("an empty program read as {r:?}")),
        };
    };
    if first.kind == "expression" {
        let alone = read(&first.text)?;
        match got {
            Ok(a) if view(&a) == alone => {}
            r => return Err(format!("read as {r:?}, expected the first statement, {}", alone.show())),
        }
        let (a, b) = (Runner::default().evaluate(&text), Runner::default().evaluate(&first.text));
        if format!("{a:?}") != format!("{b:?}") {
            return Err(format!("evaluated to {a:?}, its first statement alone to {b:?}"));
        }
    } else {
        match got {
            Err(SMError::Unimplemented(_)) => {}
            r => return Err(format!("a program that begins with {} read as {r:?}", first.kind)),
        }
        match Runner::default().evaluate(&text) {
            Err(SMError::Unimplemented(_)) => {}
            r => return Err(format!("a program that begins with {} evaluated to {r:?}", first.kind)),
        }
    }
    Ok(h)
}
/// Everything the exploration names by number.
struct Pool {
    all: Vec<St>,
    flat: usize,
    nested: usize,
}
impl Pool {
    fn new() -> Pool {
        let mut all = plain();
        all.extend(flat());
        let flat = all.len();
        let v: Vec<St> = all.iter().flat_map(around).collect();
        all.extend(v);
        let nested = all.len();
        let v: Vec<St> = all[flat..].iter().flat_map(around).collect();
        all.extend(v);
        all.extend(blocks());
        // an annotation of an annotated statement is one annotation
        all.retain(|s| !(s.kind == "annotation" && s.inner == ["annotation"]));
        Pool { all, flat, nested }
    }
    /// Statements of every shape, about n of them.
    fn few(&self, n: usize) -> Vec<usize> {
        let mut o: Vec<usize> = (0..self.flat).step_by((2 * self.flat / n).max(1)).collect();
        // a stride without a common factor with the number of shapes
        let step = (2 * (self.nested - self.flat) / n).max(1);
        let step = (step..).find(|s| s % 19 != 0 && (s % 19) * 3 % 19 != 0).unwrap();
        o.extend((self.flat..self.nested).step_by(step));
        o
    }
}
const SEP: &[&str] = &["; ", ";\n", "\n", "\n;\n", " ;;\n", "；", ";%%% c %%%", ";///c\n", "\n%%%c%%%\n"];
const END: &[&str] = &["", ";", "\n", " ; ;", ";%%%x%%%", "；", "\n///x"];
pub struct Programs;
impl Programs {
    fn one(&self, x: &mut Explorer, p: &Pool, v: &[usize], sep: &str, end: &str) {
        let s: Vec<&St> = v.iter().map(|i| &p.all[*i]).collect();
        // after a line end a sign is taken as an operator
        if !sep.contains([';', '；']) && s.iter().skip(1).any(|s| s.text.starts_with('-')) {
            return;
        }
        x.state();
        x.trans(1);
        x.judge(format_args!("{}\t{}\t{}\t{}", v.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","), sep, end, seq(&s, sep)), || holds(&s, sep, end));
    }
}
impl Spec for Programs {
    fn id(&self) -> &'static str {
        "S19"
    }
    fn explore(&self, x: &mut Explorer) {
        let p = Pool::new();
        let quick = x.quick();
        x.remark("statements", p.all.len() as u64);
        for e in ["", " ", ";", ";;", "; ;", "；", "\n;\n;\n", "%%%c%%%", "///c", ";///c\n;"] {
            for f in END {
                self.one(x, &p, &[], "", &format!("{e}{f}"));
            }
        }
        for i in 0..p.all.len() {
            if !x.mine() {
                continue;
            }
            for e in if i < p.nested || !quick { END } else { &END[..2] } {
                self.one(x, &p, &[i], "", e);
            }
        }
        for (n, seps) in [(if quick { 200 } else { 700 }, &SEP[..3]), (if quick { 60 } else { 200 }, SEP)] {
            let v = p.few(n);
            for a in &v {
                if !x.mine() {
                    continue;
                }
                for b in &v {
                    for s in seps {
                        self.one(x, &p, &[*a, *b], s, "");
                    }
                }
            }
        }
        // many statements
        let v = p.few(if quick { 60 } else { 200 });
        for n in (4..if quick { 70 } else { 300 }).chain([100, 127, 128, 129, 255, 256, 257, 300, 512, 513, 1000]) {
            for (k, s) in SEP.iter().enumerate() {
                if !x.mine() {
                    continue;
                }
                for (from, step) in [(k, 0), (n % v.len(), 1), (n * 7 % v.len(), 3)] {
                    let w: Vec<usize> = (0..n).map(|i| v[(from + i * step) % v.len()]).collect();
                    self.one(x, &p, &w, s, END[n % END.len()]);
                }
                // many empty ones behind the last
                self.one(x, &p, &[v[n % v.len()]], s, &[";", "\n", " ; ", "；"][k % 4].repeat(n));
            }
            // and before the first
            for e in 0..EMPTY.len() {
                for (k, i) in v.iter().enumerate() {
                    if (!quick || (k + n + e) % 3 == 0) && x.mine() {
                        x.state();
                        x.trans(1);
                        x.judge(format_args!("behind\t{n}\t{e}\t{i}"), || behind(&p.all[*i], n, e));
                    }
                }
            }
            if x.mine() {
                x.state();
                x.trans(1);
                for k in 0..LARGE {
                    x.judge(format_args!("large\t{n}\t{k}\t"), || {
                        let s = large(n, k);
                        holds(&[&s, &p.all[0]], "; ", "")
                    });
                }
            }
        }
        let v = p.few(if quick { 40 } else { 90 });
        for a in &v {
            for b in &v {
                if !x.mine() {
                    continue;
                }
                for c in &v {
                    for s in &SEP[..3] {
                        self.one(x, &p, &[*a, *b, *c], s, END[c % END.len()]);
                    }
                }
            }
        }
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        let f: Vec<&str> = case.splitn(4, '\t').collect();
        let p = Pool::new();
        if f[0] == "large" {
            let s = large(f[1].parse().unwrap(), f[2].parse().unwrap());
            return holds(&[&s, &p.all[0]], "; ", "").map(|_| ());
        }
        if f[0] == "behind" {
            return behind(&p.all[f[3].parse::<usize>().unwrap()], f[1].parse().unwrap(), f[2].parse().unwrap()).map(|_| ());
        }
        let v: Vec<&St> = f[0].split(',').filter(|s| !s.is_empty()).map(|s| &p.all[s.parse::<usize>().unwrap()]).collect();
        holds(&v, f[1], f[2]).map(|_| ())
    }
    fn bounds(&self, tier: Tier) -> String {
        let q = tier == Tier::Quick;
        format!(
            "all statements of 11 kinds built from 20 expressions, paths, lists of names, hints and parameters, those around them and those around these, alone with seven ends; all pairs of ~{} with three separators and of ~{} with nine; all triples of ~{}; {} kinds of long programs of every number of statements to {} and of some to 1000, each statement behind up to 1000 empty ones of 11 kinds; and {LARGE} kinds of statements with as many parts",
            if q { 200 } else { 700 },
            if q { 60 } else { 200 },
            if q { 40 } else { 90 },
            4 * SEP.len(),
            if q { 69 } else { 299 }
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["`then` follows a condition in brackets: after a bare one it is read as a factor of it".into()]
    }
}
