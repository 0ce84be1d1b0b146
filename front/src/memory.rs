//! S21: reading, printing, exporting and evaluating remember nothing.
//!
//! The states are call histories over all entry points of the front end; each runs on the real
//! code in processes forked where histories part, see `mc::history`.
use mc::{
    guarded,
    history::{self, Refs},
    Explorer, Spec, Tier,
};
use sm_ast::{internal, parser::ParserSettings, Context, Runner, ToTex, ToWolfram, AST};

const KINDS: &[&str] = &["read", "read@g", "print", "wolfram", "tex", "value", "forward", "parts", "file"];
/// The call a line names: its kind, and the text it is given.
pub fn call(op: &str) -> String {
    let (kind, text) = op.split_once(' ').unwrap_or((op, ""));
    let parse = || ParserSettings::default().parse(text);
    let of = |f: &dyn Fn(AST) -> String| parse().map(f).unwrap_or_else(|e| format!("{e:?}"));
    guarded(|| match kind {
        "read" => format!("{:?}", parse()),
        "read@g" => format!("{:?}", ParserSettings { file: "g".into(), refine: false }.parse(text)),
        "print" => of(&|a| a.to_string()),
        "wolfram" => of(&|a| format!("{} {:?}", a.to_wolfram_string(), a.to_wolfram_bytes())),
        "tex" => of(&|a| a.to_tex()),
        "value" => {
            let mut r = Runner::default();
            format!("{:?} {:?}", r.evaluate(text), r.last())
        }
        "forward" => of(&|a| format!("{:?}", a.forward(&mut Context::default()))),
        "parts" => of(&|a| {
            let f = |g: &dyn Fn(&AST) -> String| guarded(|| g(&a)).unwrap_or_else(|e| e);
            [
                f(&|a| format!("{:?}", internal::head(a))),
                f(&|a| format!("{:?}", internal::first(a))),
                f(&|a| format!("{:?}", internal::last(a))),
                f(&|a| format!("{:?}", internal::length(a))),
                f(&|a| format!("{:?}", internal::factorial(a))),
                f(&|a| format!("{:?}", internal::fibonacci(a))),
            ]
            .join(" / ")
        }),
        "file" => {
            // the same place for every call of a thread
            let me = format!("{:?}", std::thread::current().id());
            let d = mc::scratch_root().join(format!("front-s21-{}-{}", std::process::id(), me.replace(|c: char| !c.is_ascii_digit(), "")));
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir(&d).expect("scratch");
            let (a, b) = (d.join("a"), d.join("b"));
            std::fs::write(&a, text).expect("scratch");
            let r = guarded(|| ParserSettings::default().parse_file(a.to_str().unwrap(), b.to_str().unwrap()));
            let o = format!("{:?} {:?}", r, std::fs::read(&b).ok());
            let _ = std::fs::remove_dir_all(&d);
            o
        }
        x => panic!("no such call: {x}"),
    })
    .unwrap_or_else(|e| e)
}
const TEXTS: &[&str] = &[
    "1", "12", "a", "\"ab\"", "1.5", "plus(1, 2)", "plus(2, 1)", "times(2, 3)", "power(2, 5)", "factorial(5)", "1 + 2", "a + b * c", "f(x)(y)", "[1, 2]", "x[1:2, a]", "f(k: 1, 2)", "2 x y", "a::b", "true", "-a!", "#1", "¶2", "", "a;b", "1 +", "f(", ")", "0xff", "sin(x)", "a.f(y)", "2×3", "6÷2", "a∷b", "f(k：1，2)", "é + 函", "a = (b = c)", "(a = b) ^ c", "a >= b", "f(1, 2, 3, 4, 5, 6, 7, 8, 9)",
];
const FEW: &[&str] = &["1", "2", "a", "\"ab\"", "plus(1, 2)", "plus(1, 3)", "a + b", "f(x)", "[1, 2]", "1 +", "f(k: 1)"];
/// Texts whose neighbours are tried in every order.
const BASES: &[&str] = &[
    "abc∷bcd", "a::bc∷de", "p∷q∷r(x)", "f(k：1，m：2)", "12×3÷4×5", "éa函 + ñ漢z", "\"é函😀z\"", "%%% ab %%% xy", "a； b；", "using a::b::c", "if ab {cd}", "let f = 12", "a.b.c.d", "x[1][2]", "12!!", "#ab", "##2", "{a: 1, b: 2}",
    "1234", "-12.5", "alpha", "a::beta", "\"string\"", "\"\"\"block \"s\" \"\"\"", "0x1f", "0b101", "true", "plus(12, 30)", "times(3, 4)", "power(2, 10)", "fibonacci(12)", "length(\"abc\")", "first(\"xyz\")", "a + b - c", "a * b / c", "x ^ y ^ z", "a = b = c", "f(x, y)", "f(k: 1, m: 2)", "g(x)(y)",
    "a.f(x)", "v[1, 2]", "v[1:2:3]", "[a, b, c]", "3 x y", "-a!", "#2", "¶3", "sin(x)", "a >= b", "f(x", "a b ]", "a; b", "let x = 1", "{a: 1}", "alpha + alpha + alpha + alpha + alpha + alpha + alpha + alpha + omega", "\"a long string that goes on beyond sixty-four bytes, as strings sometimes do, and ends here\"",
];
/// The text, and those that a memory may take for it.
fn near(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let mut v = vec![t.to_string()];
    let s = |c: &[char]| c.iter().collect::<String>();
    for i in 0..c.len() {
        // one character for another, of the same sum as well
        let mut d = c.clone();
        d[i] = match c[i] {
            '0'..='8' | 'a'..='y' | 'A'..='Y' => (c[i] as u8 + 1) as char,
            '+' => '*',
            '*' => '×',
            '/' => '÷',
            ':' => '：',
            '×' => '*',
            ',' => ' ',
            ' ' => '\n',
            '(' => '[',
            x => x,
        };
        v.push(s(&d));
        if i + 1 < c.len() {
            if matches!(c[i + 1], '1'..='9' | 'b'..='z') {
                d[i + 1] = (c[i + 1] as u8 - 1) as char;
                v.push(s(&d));
            }
            let mut d = c.clone();
            d.swap(i, i + 1);
            v.push(s(&d));
        }
        // case
        let mut d = c.clone();
        d[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
        v.push(s(&d));
    }
    for x in [" ", ";", "\n", "%%%c%%%", "!", "1"] {
        v.push(format!("{t}{x}"));
        v.push(format!("{x}{t}"));
    }
    v.push(c[..c.len() - 1].iter().collect());
    v.push(c[1..].iter().collect());
    v.push(c.iter().rev().collect());
    v.push(t.replace(' ', ""));
    v.push(t.replace(", ", ","));
    v.push(t.replace(", ", "， "));
    v.push(format!("({t})"));
    v.push(format!("{t}\u{0}"));
    // what does not differ, and what takes long
    let mut o: Vec<String> = vec![];
    for t in v {
        let long = t.contains("fibonacci") || t.contains("power") || t.contains("factorial");
        let digits = t.chars().filter(|c| c.is_ascii_digit()).count();
        if !o.contains(&t) && !(long && digits > 5) {
            o.push(t);
        }
    }
    o
}
fn group(t: &str, quick: bool) -> Vec<String> {
    let mut v: Vec<String> = KINDS.iter().map(|k| format!("{k} {t}")).collect();
    let n = near(t);
    // near the ends and the middle of long texts
    let step = if quick { (n.len() / 28).max(1) } else { (n.len() / 120).max(1) };
    for (i, x) in n.iter().enumerate().skip(1).filter(|x| x.0 % step == 0 || x.0 + 14 > n.len()) {
        v.push(format!("{} {x}", ["read", "value", "print", "wolfram", "tex"][i % 5]));
        v.push(format!("{} {x}", ["value", "read", "wolfram", "tex", "read@g"][i % 5]));
    }
    v
}
const FAMILIES: &[&str] = &["number", "name", "string", "sum", "call", "keyword", "list", "index", "bad", "path", "value", "product", "slot"];
pub fn nth(fam: &str, n: u64) -> String {
    match fam {
        "number" => n.to_string(),
        "name" => format!("n{n}"),
        "string" => format!("\"{n} {}\"", n % 7),
        "sum" => format!("a{} + {n}", n % 5),
        "call" => format!("f{}({n})", n % 9),
        "keyword" => format!("f(k{n}: {n}, m: {})", n % 3),
        "list" => format!("[{n}, {}]", n % 4),
        "index" => format!("v[{n}:{}]", n + 1),
        "bad" => format!("f({n}"),
        "path" => format!("a{}::b{n}", n % 3),
        "value" => ["plus", "times", "power"][n as usize % 3].to_string() + &format!("({}, {n})", n % 11),
        "product" => format!("{n} x{}", n % 6),
        "slot" => format!("#{n}"),
        _ => unreachable!(),
    }
}
fn sweep(title: &str) -> Vec<String> {
    let f: Vec<&str> = title.split(' ').collect();
    let n: u64 = f[3].parse().unwrap();
    let op = |i: u64| format!("{} {}", f[1], nth(f[2], i));
    match f[0] {
        "up-down-up" => (0..n).chain((0..n).rev()).chain(0..n).map(op).collect(),
        "stride" => [1u64, 7, 64, 256, 3].iter().flat_map(|s| (0..n).map(move |i| i * s % n)).map(op).collect(),
        "mixed" => (0..n).chain((0..n).rev()).flat_map(|i| FAMILIES.iter().flat_map(move |f| ["read", "print", "wolfram", "value", "tex"].map(|k| format!("{k} {}", nth(f, i))))).collect(),
        // refused, or of one kind, many times
        "run" => (0..n).map(|i| format!("{} {}", f[1], RUNS[f[2].parse::<usize>().unwrap()].replace('@', &i.to_string()))).collect(),
        // one call over and over, then the others
        "again" => {
            let one = everything()[f[2].parse::<usize>().unwrap()].clone();
            (0..n).map(|_| one.clone()).chain(everything()).chain([one.clone()]).collect()
        }
        x => panic!("no such sweep: {x}"),
    }
}
fn everything() -> Vec<String> {
    KINDS.iter().flat_map(|k| TEXTS.iter().map(move |t| format!("{k} {t}"))).collect()
}
fn sweeps(quick: bool) -> Vec<String> {
    let (n, mix, rep) = if quick { (300, 60, 100) } else { (1500, 300, 3000) };
    let mut v = vec![];
    for f in FAMILIES {
        for k in ["read", "print", "wolfram", "value", "tex"] {
            for o in ["up-down-up", "stride"] {
                v.push(format!("{o} {k} {f} {n}"));
            }
        }
    }
    v.push(format!("mixed all all {mix}"));
    for i in (0..everything().len()).step_by(if quick { 3 } else { 1 }) {
        v.push(format!("again all {i} {rep}"));
    }
    v
}
/// `@` = how many came before.
const RUNS: &[&str] = &["f(", "f(@", ")", "@ @@ )", "a = ", "é(", "let x = @", "{@: 1}", "factorial(-@)", "first(\"\")", "power(2, 18446744073709551616@)", "m@", "@", "\"@é\"", "f@(@)", "a@ + @", "plus(@, @)", "f(k@: @)", "[@, @]", ""];
fn runs(quick: bool) -> Vec<String> {
    let mut v = vec![];
    for i in 0..RUNS.len() {
        for k in ["read", "value", "print", "tex", "wolfram", "file"] {
            for n in if quick { &[70u32, 300][..] } else { &[10, 40, 70, 140, 270, 600, 1100, 5000] } {
                if k == "file" && *n > 300 || quick && (i + k.len() + *n as usize) % 3 > 0 {
                    continue;
                }
                v.push(format!("run {k} {i} {n}"));
            }
        }
    }
    v
}
pub struct Memory;
impl Spec for Memory {
    fn id(&self) -> &'static str {
        "S21"
    }
    fn explore(&self, x: &mut Explorer) {
        let q = x.quick();
        let mut refs = Refs::new(call);
        let all = everything();
        refs.warm(&all);
        for r in refs.answers() {
            x.note(mc::hash(r));
        }
        history::all(x, &mut refs, &all, 2);
        let few: Vec<String> = FEW.iter().flat_map(|t| ["read", "value", "wolfram", "tex", "print"].map(|k| format!("{k} {t}"))).collect();
        if q {
            history::all(x, &mut refs, &few.iter().step_by(3).chain(few.iter().skip(1).step_by(6)).cloned().collect::<Vec<_>>(), 3);
        } else {
            history::all(x, &mut refs, &few, 3);
            history::all(x, &mut refs, &few.into_iter().step_by(3).collect::<Vec<_>>(), 4);
        }
        for b in BASES {
            history::all(x, &mut refs, &group(b, q), 2);
        }
        let next: Vec<String> = if q { all.iter().step_by(2).cloned().collect() } else { all.clone() };
        for s in runs(q) {
            history::after(x, &mut refs, &s, &sweep(&s), &next);
        }
        for s in sweeps(q) {
            history::long(x, &mut refs, &s, &sweep(&s));
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        history::replay(call, c, sweep)
    }
    fn case_limit(&self) -> u64 {
        60
    }
    fn bounds(&self, t: Tier) -> String {
        let q = t == Tier::Quick;
        format!(
            "every history of 2 of {} calls (9 entry points on {} texts) and of 3 of {} calls; for {} texts, every history of 2 of the calls on it and on up to {} of its neighbours; {} long histories; {} runs of one kind of call, each followed by each of {} calls",
            everything().len(),
            TEXTS.len(),
            if q { 28 } else { 55 },
            BASES.len(),
            if q { 42 } else { 134 },
            sweeps(q).len(),
            runs(q).len(),
            everything().len() / if q { 2 } else { 1 }
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a forked process that has made no call stands for a fresh one".into()]
    }
}
