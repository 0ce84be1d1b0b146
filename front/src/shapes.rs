//! Properties decided over every shape of the surface syntax to a size.
use crate::{forms::*, grammar::{leaf, CONSTANTS, INFIX, KINDS, SAME}, tree::*};
use mc::{Explorer, Spec, Tier};
use sm_ast::{ToTex, ToWolfram, AST};
use std::sync::OnceLock;
use wolfram_wxf::WolframValue as W;

/// One enumerated family of shapes, and the operand kinds it is written with.
struct Family {
    shapes: Vec<S>,
    kinds: Vec<Vec<usize>>,
    /// where in the pool of names to begin, 0 = plain names
    rots: Vec<usize>,
}
fn fam(shapes: Vec<S>, kinds: Vec<Vec<usize>>) -> Family {
    Family { shapes, kinds, rots: vec![0] }
}
fn pooled(shapes: Vec<S>, kinds: Vec<Vec<usize>>, step: usize) -> Family {
    Family { shapes, kinds, rots: (1..=POOL.len()).step_by(step).collect() }
}
fn all_kinds(step: usize) -> Vec<Vec<usize>> {
    let n = KINDS.len();
    (0..n).step_by(step).map(|r| [0, 4, 7, 2, 11].iter().map(|d| KINDS[(r + d) % n]).collect()).collect()
}
/// Operands that are equal to each other, or that a shortcut may take for something else.
fn same() -> Vec<Vec<usize>> {
    SAME.iter().map(|k| k.to_vec()).collect()
}
/// Every name of the list, and every special value, at every operand.
fn constants() -> Vec<Vec<usize>> {
    (0..CONSTANTS.len()).map(|j| vec![100 + j]).collect()
}
fn specials() -> Vec<Vec<usize>> {
    constants().into_iter().chain((0..16).map(|j| vec![200 + j])).collect()
}
/// Operands of big forms.
fn big() -> Vec<Vec<usize>> {
    vec![vec![0, 1], vec![15, 2, 9, 0], vec![11, 12]]
}
/// Sizes for which only a few things are tried.
const HUGE: &[usize] = &[32767, 32768, 65534, 65535, 65536, 65537, 70000];
const SIZED: &[usize] = &[7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000];
const BIG: &[usize] = &[9, 16, 17, 33, 64, 65, 100, 128, 256, 257];
type Families = fn(Tier) -> Vec<Family>;
static BUILT: OnceLock<Vec<Family>> = OnceLock::new();
/// Visits every form; a form is named by family, shape and kinds.
fn every(x: &mut Explorer, fams: Families, mut f: impl FnMut(&mut Explorer, &str, &Form)) {
    let t = x.tier;
    let fams = BUILT.get_or_init(|| fams(t));
    for (a, fam) in fams.iter().enumerate() {
        for (i, s) in fam.shapes.iter().enumerate() {
            if !x.mine() {
                continue;
            }
            x.state();
            for (k, kinds) in fam.kinds.iter().enumerate() {
                for r in &fam.rots {
                    x.trans(1);
                    let form = form_at(s, kinds, *r);
                    f(x, &format!("{a}.{i}.{k}.{r}"), &form);
                }
            }
        }
    }
}
fn named(fams: Families, name: &str) -> Option<Form> {
    let v: Vec<usize> = name.split('.').map(|s| s.parse().unwrap()).collect();
    // the thorough families begin with the quick ones' shapes only by chance: try both
    for t in [crate::tier()] {
        let fams = fams(t);
        if let Some(f) = fams.get(v[0]) {
            return Some(form_at(f.shapes.get(v[1])?, f.kinds.get(v[2])?, v[3]));
        }
    }
    None
}
fn count(f: Families, t: Tier) -> String {
    f(t).iter().map(|f| format!("{} shapes x {} operand assignments x {} assignments of names", f.shapes.len(), f.kinds.len(), f.rots.len())).collect::<Vec<_>>().join(", ")
}

// ---------------------------------------------------------------- S05
pub struct Sugar;
fn sugar(t: Tier) -> Vec<Family> {
    let q = t == Tier::Quick;
    let post = Alphabet { pre: vec![0], suf: vec![0], inf: vec![], product: false, ..Alphabet::full() };
    let mixed = Alphabet { inf: vec!["+", "^"], pre: vec![0], suf: vec![0], ..Alphabet::full() };
    vec![
        fam(shapes(&post, 3), if q { vec![vec![0, 1], vec![2, 9, 0]] } else { all_kinds(2) }),
        fam(shapes(&mixed, 2), all_kinds(1)),
        fam(shapes(&Alphabet { kw: false, group: false, pre: vec![], list: false, ..post }, if q { 3 } else { 4 }), vec![vec![0]]),
        fam(wide(&mixed), all_kinds(2)),
        pooled(shapes(&mixed, 1), all_kinds(if q { 4 } else { 1 }), 1),
        pooled(wide(&mixed), vec![vec![0, 1]], if q { 5 } else { 1 }),
        fam(shapes(&mixed, 2), same()),
        fam(wide(&mixed), same()),
        fam(shapes(&mixed, 1), specials()),
        fam(sized(&mixed, &sizes(q)), big()),
        Family { shapes: sized(&mixed, BIG), kinds: vec![vec![12, 19]], rots: vec![3] },
        fam(sized(&mixed, &[4097]), vec![vec![11, 12]]),
        fam(HUGE.iter().map(|n| S::Product(vec![false; *n])).collect(), vec![vec![0]]),
    ]
}
impl Spec for Sugar {
    fn id(&self) -> &'static str {
        "S05"
    }
    fn explore(&self, x: &mut Explorer) {
        every(x, sugar, |x, n, f| {
            let s = tight(f);
            x.judge(format_args!("{n}: {s}"), || expect(&s, &f.tree));
        });
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let f = named(sugar, c.split(": ").next().unwrap()).ok_or("no such form")?;
        expect(&tight(&f), &f.tree).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every shape of dot calls, calls with several brackets and keywords, indexing, spans, lists, prefixes, suffixes and brackets with up to 3 nodes (4 without keywords in the thorough tier): {}", count(sugar, t))
    }
}

// ---------------------------------------------------------------- S06
pub struct Spelling;
fn spelling(t: Tier) -> Vec<Family> {
    let a = Alphabet { pre: vec![0], suf: vec![0], inf: vec!["*", "/", "=", "-"], ..Alphabet::full() };
    vec![
        fam(shapes(&a, if t == Tier::Quick { 2 } else { 3 }), if t == Tier::Quick { vec![vec![0], vec![9, 1], vec![9]] } else { vec![vec![0], vec![9, 1]] }),
        fam(wide(&a), vec![vec![19, 0, 15]]),
        pooled(shapes(&a, 1), vec![vec![19], vec![16, 15, 19, 2]], 1),
        fam(shapes(&a, 1), same()),
        fam(shapes(&a, 2), vec![vec![23], vec![26]]),
        fam(sized(&a, if t == Tier::Quick { BIG } else { SIZED }), vec![vec![0, 19], vec![11, 1]]),
    ]
}
fn respell(s: &str) -> Option<String> {
    match s {
        "," => Some("，".into()),
        ":" => Some("：".into()),
        "*" => Some("×".into()),
        "/" => Some("÷".into()),
        _ if s.contains("::") => Some(s.replace("::", "∷")),
        _ => None,
    }
}
fn spelled(f: &Form, mask: u64) -> String {
    let (mut s, mut i) = (String::new(), 0);
    // in big forms the bits repeat
    let tokens = f.pieces.iter().filter(|p| matches!(p, Piece::Tok(t) if respell(t).is_some())).count();
    let period = if tokens > 40 { 5 } else { 60 };
    for p in &f.pieces {
        match p {
            Piece::Tok(t) => {
                match respell(t) {
                    Some(n) => {
                        s += if mask >> (i % period) & 1 == 1 { &n } else { t };
                        i += 1;
                    }
                    None => s += t,
                };
            }
            Piece::Gap(Gap::Need) => s.push(' '),
            _ => {}
        }
    }
    match mask >> 60 & 3 {
        1 => s.push(';'),
        2 => s.push('；'),
        _ => {}
    }
    s
}
/// A name of n + 1 parts in one of five places, bit i of the mask for the spelling of its separator i.
fn long_path(n: usize, mask: u64, at: usize) -> (String, T) {
    let part = |i: usize| ["a", "std", "_b", "é", "x1"][i % 5];
    let (mut s, mut t) = (String::new(), String::new());
    for i in 0..=n {
        if i > 0 {
            s += if mask >> ((i - 1) % 40) & 1 == 1 { "∷" } else { "::" };
            t += "::";
        }
        s += part(i);
        t += part(i);
    }
    match at {
        0 => (s, sym(&t)),
        1 => (format!("{s}(1)"), fun(&t, vec![int(1)])),
        2 => (format!("1+{s}"), fun("std::infix::add", vec![int(1), sym(&t)])),
        3 => (format!("2 {s}"), fun("std::infix::times", vec![int(2), sym(&t)])),
        _ => (format!("b.{s}(1)"), fun(&t, vec![sym("b"), int(1)])),
    }
}
impl Spec for Spelling {
    fn id(&self) -> &'static str {
        "S06"
    }
    fn explore(&self, x: &mut Explorer) {
        every(x, spelling, |x, n, f| {
            let k = f.pieces.iter().filter(|p| matches!(p, Piece::Tok(t) if respell(t).is_some())).count();
            let k = if k > 40 { 5 } else { k.min(10) };
            for m in 0..1u64 << k {
                for e in 0..3u64 {
                    if e > 0 && m != 0 && m != (1 << k) - 1 {
                        continue;
                    }
                    let m = m | e << 60;
                    let s = spelled(f, m);
                    x.trans(1);
                    x.judge(format_args!("{n}/{m}: {s}"), || expect(&s, &f.tree));
                }
            }
        });
        // names of many parts, every choice of separators
        for n in (1..=(if x.quick() { 10 } else { 13 })).chain([16, 17, 31, 32, 33, 39, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 600, 1025]) {
            for at in 0..5 {
                if !x.mine() {
                    continue;
                }
                let dense = n < 14;
                for k in 0..1u64 << (if dense { n } else { 5 }) {
                    let m = if dense { k } else { (0..8).fold(0, |m, i| m | k << (5 * i)) };
                    let (s, t) = long_path(n, m, at);
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("path {n} {m} {at}: {s}"), || expect(&s, &t));
                }
            }
        }
        // an operand of every kind on both sides of every operator, in every spelling
        for o in INFIX {
            for a in KINDS.iter().copied() {
                for b in KINDS.iter().copied() {
                    if !x.mine() {
                        continue;
                    }
                    x.state();
                    for sp in [Some(o.text.to_string()), respell(o.text)].into_iter().flatten() {
                        for g in ["", " "] {
                            let (l, r) = (leaf(a, 0), leaf(b, 1));
                            let s = format!("{}{g}{sp}{g}{}", l.0, r.0);
                            let t = fun(o.head, vec![l.1, r.1]);
                            x.trans(1);
                            x.judge(format_args!("{a} {} {b}/{s}", o.text), || expect(&s, &t));
                        }
                    }
                }
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        if let Some(c) = c.strip_prefix("path ") {
            let v: Vec<u64> = c.split(':').next().unwrap().split(' ').map(|n| n.parse().unwrap()).collect();
            let (s, t) = long_path(v[0] as usize, v[1], v[2] as usize);
            return expect(&s, &t).map(|_| ());
        }
        if let Some((n, m)) = c.split(": ").next().unwrap().split_once('/') {
            if let Ok(m) = m.parse() {
                let f = named(spelling, n).ok_or("no such form")?;
                return expect(&spelled(&f, m), &f.tree).map(|_| ());
            }
        }
        let (h, s) = c.split_once('/').unwrap();
        let h: Vec<&str> = h.split(' ').collect();
        // `//` and `/` contain the separator
        let (op, s) = if c.splitn(3, ' ').nth(1).unwrap().starts_with('/') {
            let op = c.splitn(3, ' ').nth(1).unwrap();
            (op, c.splitn(3, ' ').nth(2).unwrap().split_once('/').unwrap().1)
        } else {
            (h[1], s)
        };
        let b = c.splitn(3, ' ').nth(2).unwrap().split('/').next().unwrap().parse().unwrap();
        let t = fun(crate::grammar::infix(op).head, vec![leaf(h[0].parse().unwrap(), 0).1, leaf(b, 1).1]);
        expect(s, &t).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every subset of respelled tokens (, : * / :: and the closing ;) in {} (of the first 10 where there are more, every pattern of period 5 where there are more than 40); names of up to 11 (thorough 14) parts with every choice of separators in 5 places, some of up to 1026 parts; 14 operators x 16 x 16 kinds of operands", count(spelling, t))
    }
}

// ---------------------------------------------------------------- S07
pub struct Wolfram;
fn export(t: Tier) -> Vec<Family> {
    let q = t == Tier::Quick;
    let a = Alphabet::full();
    let b = a.clone();
    vec![
        fam(shapes(&a, 2), all_kinds(if q { 2 } else { 1 })),
        fam(shapes(&Alphabet { inf: vec!["+"], pre: vec![0], suf: vec![0], index: false, ..a }, 3), if q { vec![vec![0, 1, 4]] } else { all_kinds(4) }),
        fam(wide(&b), all_kinds(if q { 4 } else { 1 })),
        pooled(shapes(&b, 1), all_kinds(if q { 4 } else { 1 }), 1),
        pooled(wide(&b), vec![vec![0, 1]], if q { 5 } else { 1 }),
        fam(shapes(&b, 2), if q { vec![vec![23], vec![26], vec![28, 23]] } else { same() }),
        fam(wide(&b), same()),
        fam(shapes(&b, 1), specials()),
        fam(sized(&b, &sizes(q)), big()),
        fam(sized(&b, &[4097]), vec![vec![11, 12]]),
        fam(HUGE.iter().map(|n| S::Product(vec![false; *n])).collect(), vec![vec![0]]),
    ]
}
fn last(s: &str) -> &str {
    s.rsplit("::").next().unwrap()
}
pub fn wl(t: &T) -> W {
    match t {
        T::Empty => W::Skip,
        T::Bool(b) => W::Symbol(if *b { "True" } else { "False" }.into()),
        T::Int(i) => W::BigInteger(i.clone()),
        T::Dec(d) => W::BigDecimal(d.as_str().into()),
        T::Sym(s) => W::Symbol(last(s).into()),
        T::Str(s) => W::String(s.as_str().into()),
        T::Fun(h, ps) => {
            let n = last(h);
            let n = if n == "factor" {
                "FactorInteger".to_string()
            } else {
                let mut c = n.chars();
                c.next().map_or(String::new(), |f| f.to_uppercase().chain(c).collect())
            };
            let mut head = W::Symbol(n.into());
            for (a, k) in ps {
                let mut v: Vec<W> = a.iter().map(wl).collect();
                v.extend(k.iter().map(|(k, x)| W::Function(Box::new(W::Symbol("Rule".into())), vec![wl(k), wl(x)])));
                head = W::Function(Box::new(head), v);
            }
            head
        }
    }
}
fn exported(f: &Form) -> Result<u64, String> {
    exported_text(&tight(f))
}
fn exported_literal(k: &str, c: usize, s: &str) -> Result<u64, String> {
    exported_text(&crate::literals::text(k, c, s).ok_or("not a literal")?)
}
fn exported_text(text: &str) -> Result<u64, String> {
    let a = parse(text)?;
    // whatever the parser read is what must be exported
    let (got, want) = (a.to_wolfram(), wl(&view(&a)));
    if got != want {
        return Err(format!("exported as {}, expected {}", got.to_string(), want.to_string()));
    }
    if a.to_wolfram_string() != want.to_string() || a.to_wolfram_bytes() != want.to_string().into_bytes() {
        return Err("string or bytes differ from the exported value".into());
    }
    Ok(mc::hash(&got.to_string()))
}
impl Spec for Wolfram {
    fn id(&self) -> &'static str {
        "S07"
    }
    fn explore(&self, x: &mut Explorer) {
        every(x, export, |x, n, f| x.judge(format_args!("{n}: {}", tight(f)), || exported(f)));
        crate::literals::each(x, &[0, 2, 3, 4, 5, 6, 7, 8, 10], &exported_literal);
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        if let Some((k, i, s)) = crate::literals::case(c) {
            return exported_literal(k, i, s).map(|_| ());
        }
        exported(&named(export, c.split(": ").next().unwrap()).ok_or("no such form")?).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!("{}; every literal of S03, the short ones in 9 contexts", count(export, t))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the wolfram_wxf crate is replaced by a stand-in with the same value type; its own serialisation is not judged".into()]
    }
}

// ---------------------------------------------------------------- S08
pub struct Tex;
const TEX_NAMES: &[&str] = &["qf0", "sin", "arccot", "qf1", "tan", "arcsinh", "qf2", "cos", "arctan", "qf3", "csc"];
fn tex_family(t: Tier) -> Vec<Family> {
    // a call below an infix operator, a product included, has no TeX
    let base = Alphabet { pre: vec![], suf: vec![], inf: vec![], kw: false, product: false, ..Alphabet::full() };
    let ops: Vec<&'static str> = INFIX.iter().map(|o| o.text).collect();
    let inner = Alphabet { inf: ops, dot: false, index: false, call: false, list: false, product: false, ..base.clone() };
    let n = if t == Tier::Quick { 2 } else { 3 };
    let infix: Vec<S> = shapes(&inner, n);
    // infix expressions and products as arguments
    let mut under = vec![];
    for s in shapes(&inner, 1).into_iter().chain([S::Product(vec![false, false]), S::Product(vec![false, false, false])]) {
        let l = || S::Leaf;
        let s = || s.clone();
        under.extend([
            S::Call(vec![Args { pos: vec![s()], ..Args::default() }]),
            S::Call(vec![Args { pos: vec![l(), s()], ..Args::default() }]),
            S::Call(vec![Args { pos: vec![s(), l(), s()], ..Args::default() }]),
            S::Call(vec![Args { pos: vec![l()], ..Args::default() }, Args { pos: vec![s(), l()], ..Args::default() }]),
            S::List(vec![s(), l(), s()]),
            S::List(vec![S::List(vec![s()]), s()]),
            S::Dot(Box::new(s()), Rhs::Call(vec![Args { pos: vec![s()], ..Args::default() }])),
            S::Index(Box::new(l()), vec![Ix::Span(Some(s()), None, Some(Some(s())))]),
            s(),
        ]);
    }
    let kinds = vec![vec![11], vec![12], vec![11, 12], vec![12, 12, 11]];
    let more = vec![vec![20], vec![21, 11], vec![22, 20, 12, 21]];
    vec![
        fam(shapes(&base, n), kinds.clone()),
        fam(infix, kinds.clone()),
        fam(under.clone(), kinds.clone()),
        fam(shapes(&base, 1).into_iter().chain(shapes(&inner, 1)).chain(under.clone()).collect(), more),
        fam(wide(&base), kinds.clone()),
        pooled(shapes(&base, 1).into_iter().chain(under).collect(), vec![vec![12]], 1),
        pooled(wide(&base), vec![vec![12]], if t == Tier::Quick { 5 } else { 1 }),
        fam(shapes(&base, n.min(2)).into_iter().chain(shapes(&inner, 2)).collect(), vec![vec![23], vec![23, 12], vec![12, 23], vec![27, 12], vec![12, 12, 27]]),
        fam(wide(&base), vec![vec![23], vec![27], vec![23, 12]]),
        fam(shapes(&base, 1).into_iter().chain(shapes(&inner, 1)).collect(), constants()),
        fam(sized(&base, &sizes(t == Tier::Quick)), vec![vec![11], vec![12, 20]]),
    ]
}
/// The operands and names of the tree in the order TeX must show them.
fn order(t: &T, out: &mut Vec<String>) {
    match t {
        T::Sym(s) => out.push(last(s).into()),
        T::Int(i) => out.push(i.to_string()),
        T::Dec(s) | T::Str(s) => out.push(s.clone()),
        T::Bool(b) => out.push(b.to_string()),
        T::Empty => {}
        T::Fun(h, ps) => {
            // a call of List is a list
            if !h.starts_with("std::core") && !h.starts_with("std::infix") && !(last(h) == "List" && ps.len() == 1) {
                out.push(last(h).into());
            }
            for (a, _) in ps {
                a.iter().for_each(|x| order(x, out));
            }
        }
    }
}
fn words(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut w = String::new();
    for c in s.chars().chain(" ".chars()) {
        if c.is_alphanumeric() || c == '.' || c == '_' {
            w.push(c)
        } else if !w.is_empty() {
            v.push(std::mem::take(&mut w))
        }
    }
    v
}
fn tex_form(s: &S, kinds: &[usize], rot: usize) -> Form {
    if rot == 0 { form_with(s, kinds, TEX_NAMES) } else { form_at(s, kinds, rot) }
}
fn tex(s: &S, kinds: &[usize], rot: usize) -> Result<u64, String> {
    tex_text(&tight(&tex_form(s, kinds, rot)))
}
fn tex_literal(k: &str, c: usize, s: &str) -> Result<u64, String> {
    // strings and such hold anything, also what looks like TeX
    if !matches!(k, "int" | "dec" | "byte" | "name" | "letter") {
        return Ok(0);
    }
    tex_text(&crate::literals::text(k, c, s).ok_or("not a literal")?)
}
fn tex_text(text: &str) -> Result<u64, String> {
    let a = parse(text)?;
    let t = a.to_tex();
    let mut want = vec![];
    order(&view(&a), &mut want);
    // indices, spans and operators are shown by these names, which a user's function may have as well
    want.retain(|w| !matches!(w.as_str(), "Index" | "Span" | "All" | "index" | "slot" | "add" | "power" | "minus" | "factorial" | "input"));
    let got: Vec<String> = words(&t).into_iter().filter(|w| want.contains(w)).collect();
    if got != want {
        return Err(format!("TeX {t} shows {got:?}, the operands are {want:?}"));
    }
    let pair = |a: &str, b: &str| t.matches(a).count() == t.matches(b).count();
    if !pair("{", "}") || !pair("\\left", "\\right") || !pair("(", ")") {
        return Err(format!("TeX {t} is not balanced"));
    }
    Ok(mc::hash(&t))
}
impl Spec for Tex {
    fn id(&self) -> &'static str {
        "S08"
    }
    fn explore(&self, x: &mut Explorer) {
        let fams = tex_family(x.tier);
        for (a, fam) in fams.iter().enumerate() {
            for (i, s) in fam.shapes.iter().enumerate() {
                if !x.mine() {
                    continue;
                }
                x.state();
                for (k, kinds) in fam.kinds.iter().enumerate() {
                    for r in &fam.rots {
                        x.trans(1);
                        x.judge(format_args!("{a}.{i}.{k}.{r}: {}", tight(&tex_form(s, kinds, *r))), || tex(s, kinds, *r));
                    }
                }
            }
        }
        crate::literals::each(x, &[0, 2, 3], &tex_literal);
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        if let Some((k, i, s)) = crate::literals::case(c) {
            return tex_literal(k, i, s).map(|_| ());
        }
        let v: Vec<usize> = c.split(": ").next().unwrap().split('.').map(|s| s.parse().unwrap()).collect();
        let f = tex_family(crate::tier());
        let f = f.get(v[0]).ok_or("no such family")?;
        tex(f.shapes.get(v[1]).ok_or("no such shape")?, &f.kinds[v[2]], v[3]).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!("{}; every number and name of S03, the short ones in 3 contexts", count(tex_family, t))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["prefixes, suffixes and calls below an infix operator have no TeX yet (explicit unimplemented!); brackets and keyword arguments are left out of TeX by design of the current tests".into()]
    }
}

// ---------------------------------------------------------------- S12
pub struct Blanks;
fn blanks(t: Tier) -> Vec<Family> {
    let a = Alphabet { pre: vec![0], suf: vec![0], inf: vec!["+", "/", "//", "*", "=", "^"], ..Alphabet::full() };
    vec![
        fam(shapes(&a, 1), all_kinds(2)),
        fam(shapes(&a, 2), if t == Tier::Quick { vec![vec![0, 1]] } else { vec![vec![0, 1], vec![2, 9, 4], vec![7, 8, 3]] }),
        fam(wide(&a), if t == Tier::Quick { vec![vec![0, 15]] } else { all_kinds(2) }),
        pooled(shapes(&a, 1), vec![vec![16, 19, 15, 18]], if t == Tier::Quick { 5 } else { 1 }),
        fam(shapes(&a, 1), same()),
        fam(sized(&a, if t == Tier::Quick { BIG } else { SIZED }).into_iter().filter(|s| t != Tier::Quick || gaps(&form(s, &[0])) > 120).collect(), vec![vec![0, 15]]),
    ]
}
fn gaps(f: &Form) -> usize {
    f.pieces.iter().filter(|p| matches!(p, Piece::Gap(_))).count()
}
/// How long the longest blanks and comments are.
const FAR: &[usize] = &[41, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 32767, 32768, 65535, 65536, 65537];
const FARS: usize = 12;
/// A filling of that length.
fn far(k: usize, n: usize) -> String {
    match k {
        0 => " ".repeat(n),
        1 => "\t".repeat(n),
        2 => "\n".repeat(n),
        3 => "\r\n".repeat(n),
        4 => "\u{3000}".repeat(n),
        5 => format!(" ///{}\n", "c".repeat(n)),
        6 => format!("%%%{}%%%", "é".repeat(n)),
        7 => format!("%%%{}%%%", "\n".repeat(n)),
        8 => " ///c\n".repeat(n),
        9 => "%%%c%%%".repeat(n),
        10 => format!(" //{}\n", "/".repeat(n)),
        _ => format!(" //*{}\n", "\"( ".repeat(n)),
    }
}
fn farther(f: &Form, at: usize, k: usize, n: usize) -> String {
    let long = far(k, n);
    let line = if k < 2 || k == 4 { long.as_str() } else { " " };
    let (mut s, mut i) = (String::new(), 0);
    for p in &f.pieces {
        match p {
            Piece::Tok(t) => s += t,
            Piece::Gap(g) => {
                s += match (i == at, g) {
                    (true, Gap::Free) => &long,
                    (true, _) => line,
                    (_, Gap::Need) => " ",
                    _ => "",
                };
                i += 1;
            }
        }
    }
    s
}
const FREE: &[&str] = &[
    "", " ", "\t", "\n", "\r\n", "\u{3000}", " ///c\n", " //? c = \"\n", "\n//!c)\n", " //*c\n ", " \n \n", "%%%c%%%", " %%%\n\")///%%% ",
    // from here on: only alone and everywhere
    "%%%%%%", "%%% %% % %%%", "%%%a%b%%c%%%", "%%%///%%%", "%%%\r\n%%%", "%%%a%%%%%%b%%%", " ///c\r\n", " ///\n", " //*\r\n", " //? %%%\n", " /// /// //!\n", "\n///é函😀\n", "\n///a\n///b\n///c\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}",
    "\u{1680}", "\u{2003}", "\u{2028}", "\u{2029}", "\u{205f}", "\r", "\n\r", "                                        ", "\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n", " \t\u{3000}\r\n\u{a0}",
];
/// How many of them are tried in pairs.
const PAIRED: usize = 13;
/// Blanks within a line, parallel to the ones above.
const LINE: &[&str] = &[
    "", " ", "\t", "\u{3000}", "   ", "\u{a0} ", " ", " ", " ", " ", "\t ", "  ", " \t",
    " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", "\u{a0}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2003}", "\u{202f}", "\u{205f}", "\u{2009}", "\u{200a}", " ", "  ", "                              ", "\t\t\t", " \t\u{3000}\u{a0}",
];
/// Every kind of comment with every kind of content and end.
fn comments() -> &'static [&'static str] {
    static V: OnceLock<Vec<&'static str>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<&'static str> = vec![];
        let inside = ["", "c", " ", "é函😀", "\"", "\"\"\"", ")", "](", "%%%", "%", "///", "//*", "/", "*", "!", "?", ";", ":", "::", ",", "f(1)", "1 + ", "null", "\\", "\u{0}", "\u{3000}", "\t", "a b c d e f g h i j k l m n o p q r s t u v w x y z 0 1 2 3 4 5 6 7 8 9"];
        for m in ["///", "//?", "//!", "//*"] {
            for c in inside {
                for e in ["\n", "\r\n"] {
                    v.push(format!(" {m}{c}{e}").leak());
                }
                v.push(format!("\n{m}{c}\n{m}{c}\n").leak());
            }
        }
        for c in inside.iter().chain(&["\n", "\r\n", "\n\n///\n", "a\nb"]) {
            if !c.contains('%') {
                v.push(format!("%%%{c}%%%").leak());
                v.push(format!(" %%%{c}%%%%%%{c}%%%\n").leak());
            }
        }
        v
    })
}
fn filled(f: &Form, at: &[(usize, usize)], all: usize) -> String {
    fill(f, &|i, g| {
        let k = at.iter().find(|a| a.0 == i).map_or(all, |a| a.1);
        match g {
            Gap::Free if k >= FREE.len() => comments()[k - FREE.len()],
            Gap::Free => FREE[k],
            Gap::Line => LINE[k % LINE.len()],
            Gap::Need if k % LINE.len() == 0 => " ",
            Gap::Need => LINE[k % LINE.len()],
        }
    })
}
impl Spec for Blanks {
    fn id(&self) -> &'static str {
        "S12"
    }
    fn explore(&self, x: &mut Explorer) {
        let pairs = if x.quick() { 6 } else { 14 };
        every(x, blanks, |x, n, f| {
            let gaps = f.pieces.iter().filter(|p| matches!(p, Piece::Gap(_))).count();
            let go = |x: &mut Explorer, at: &[(usize, usize)], all: usize| {
                let s = filled(f, at, all);
                x.trans(1);
                let name: String = at.iter().map(|(a, b)| format!("{a}={b};")).collect();
                x.judge(format_args!("{n}/{all}/{name}: {s}"), || expect(&s, &f.tree));
            };
            for all in 0..FREE.len() {
                go(x, &[], all);
            }
            if gaps > 120 {
                // a big form: every filling at the ends, in the middle, and where a counter may end
                for g in [0, 1, gaps / 2, gaps - 2, gaps - 1, 15, 16, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257].into_iter().filter(|g| *g < gaps) {
                    for k in 1..PAIRED {
                        go(x, &[(g, k)], 0);
                        go(x, &[(g, 0)], k);
                    }
                }
                return;
            }
            for g in 0..gaps {
                for k in 1..FREE.len() {
                    go(x, &[(g, k)], 0);
                    if k < PAIRED || !x.quick() {
                        go(x, &[(g, 0)], k);
                    }
                }
            }
            // the comments: alone in short forms, everywhere in all
            for k in FREE.len()..FREE.len() + comments().len() {
                go(x, &[], k);
                if gaps <= 7 {
                    for g in 0..gaps {
                        go(x, &[(g, k)], 0);
                    }
                }
            }
            // long fillings in short forms
            let every_far = if x.quick() { 4 } else { 1 };
            if let Some(i) = n.strip_prefix("0.").and_then(|r| r.split_once(".0.0").filter(|r| r.1.is_empty())).map(|r| r.0.parse::<usize>().unwrap()) {
                for g in 0..gaps {
                    for k in 0..FARS {
                        for l in FAR.iter().filter(|l| **l < 3000 || (g + k + i) % every_far == 0) {
                            x.trans(1);
                            x.judge(format_args!("{n}/far/{g}={k}={l}: "), || expect(&farther(f, g, k, *l), &f.tree));
                        }
                    }
                }
            }
            if gaps <= pairs {
                for g in 0..gaps {
                    for h in g + 1..gaps {
                        for k in 1..PAIRED {
                            for l in 1..PAIRED {
                                go(x, &[(g, k), (h, l)], 0);
                            }
                        }
                    }
                }
            }
        });
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let c: Vec<&str> = c.split(": ").next().unwrap().split('/').collect();
        let at: Vec<(usize, usize)> = c[2].split(';').filter(|s| !s.is_empty()).map(|s| s.split_once('=').unwrap()).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect();
        let f = named(blanks, c[0]).ok_or("no such form")?;
        if c[1] == "far" {
            let v: Vec<usize> = c[2].split('=').map(|s| s.parse().unwrap()).collect();
            return expect(&farther(&f, v[0], v[1], v[2]), &f.tree).map(|_| ());
        }
        expect(&filled(&f, &at, c[1].parse().unwrap()), &f.tree).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!("{} fillings (blanks, line ends, the four line comments, block comments) of every gap alone, of all gaps, and of all gaps but one (13 of them in the quick tier), and {PAIRED} of them in every pair of gaps of forms with few gaps; {} comments of every kind, content and end in all gaps, and alone in forms with few gaps; {FARS} kinds of blanks, line ends and comments of {} lengths up to 65537 in every gap of the forms with one node (every fourth of the long ones in the quick tier); {}", FREE.len(), comments().len(), FAR.len(), count(blanks, t))
    }
}

// ---------------------------------------------------------------- S13
pub struct Positions;
fn placed(t: Tier) -> Vec<Family> {
    let a = Alphabet { inf: vec!["+", "^"], ..Alphabet::full() };
    let q = t == Tier::Quick;
    vec![
        fam(shapes(&a, 2), if q { vec![vec![0, 1], vec![4, 7, 8], vec![15, 16]] } else { all_kinds(1) }),
        fam(wide(&a), if q { vec![vec![0, 15, 19]] } else { all_kinds(2) }),
        pooled(shapes(&a, 1), vec![vec![16, 19, 15, 18]], if q { 5 } else { 1 }),
        fam(shapes(&a, 1), same()),
        fam(sized(&a, if q { BIG } else { SIZED }), vec![vec![0, 15]]),
    ]
}
type Place = ((usize, usize), (usize, usize));
fn offset(text: &str, at: (usize, usize)) -> Option<usize> {
    let (mut line, mut col) = (1, 1);
    for (i, c) in text.char_indices() {
        if (line, col) == at {
            return Some(i);
        }
        if c == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    ((line, col) == at).then_some(text.len())
}
/// Every position of the tree, outermost first, with what it must cover.
fn places(a: &AST, out: &mut Vec<(Place, AST, usize, String)>) {
    if let AST::Function(_, ps) = a {
        for (i, p) in ps.iter().enumerate() {
            out.push(((p.position.start, p.position.end), a.clone(), i, p.position.file.clone()));
            for x in &p.arguments {
                places(x, out);
            }
            for v in p.options.values() {
                places(v, out);
            }
        }
    }
}
/// What a prefix applies to stands behind it, what a suffix applies to before it, and
/// an operator's expression holds the ones of its operands.
fn nested(a: &AST) -> Result<(), String> {
    let AST::Function(h, ps) = a else { return Ok(()) };
    let head = h.name_space.iter().map(|s| s.as_str()).chain([h.name.as_str()]).collect::<Vec<_>>().join("::");
    for p in ps {
        let own = (p.position.start, p.position.end);
        for x in p.arguments.iter().chain(p.options.values()) {
            nested(x)?;
            // their own operands have been compared with them
            let AST::Function(g, qs) = x else { continue };
            // the position of a dot call is the whole term it stands in
            if !matches!(g.name_space.get(1).map(|s| s.as_str()), Some("prefix" | "suffix")) {
                continue;
            }
            for q in qs {
                let r = (q.position.start, q.position.end);
                let ok = if head.starts_with("std::prefix") {
                    own.1 <= r.0
                } else if head.starts_with("std::suffix") {
                    r.1 <= own.0
                } else if head.starts_with("std::infix") {
                    own.0 <= r.0 && r.1 <= own.1
                } else {
                    true
                };
                if !ok {
                    return Err(format!("{head} has the position {own:?}, its operand {r:?}"));
                }
            }
        }
    }
    Ok(())
}
fn position(text: &str) -> Result<u64, String> {
    let a = parse(text)?;
    nested(&a)?;
    let mut v = vec![];
    places(&a, &mut v);
    for (p, node, bracket, file) in &v {
        if file != "anonymous" {
            return Err(format!("file {file:?}"));
        }
        let (s, e) = match (offset(text, p.0), offset(text, p.1)) {
            (Some(s), Some(e)) if s <= e => (s, e),
            _ => return Err(format!("position {p:?} does not lie in the text")),
        };
        let part = &text[s..e];
        let t = view(node);
        let T::Fun(h, ps) = &t else { unreachable!() };
        let bad = |what: &str| Err(format!("the position of {} covers {part:?}: {what}", t.show()));
        let same = |text: String, want: &T| read(&text).map_or(false, |r| r == *want);
        // a call by name, of whatever name
        let k = &ps[*bracket];
        let tail = || (k.0[1.min(k.0.len())..].to_vec(), k.1.clone());
        let bracketed = part.starts_with('(') && part.ends_with(')') && matches!(read(&format!("q{part}")), Ok(T::Fun(_, r)) if r[0] == *k || (*bracket == 0 && r[0] == tail()));
        let dotted = || read(part).map_or(false, |r| contains(&r, &t));
        if bracketed || (part.contains(h.rsplit("::").next().unwrap()) && dotted()) {
            continue;
        }
        if let Some(o) = crate::grammar::PREFIX.iter().find(|o| o.1 == h) {
            if part != o.0 {
                return bad("not the prefix");
            }
        } else if let Some(o) = crate::grammar::SUFFIX.iter().find(|o| o.1 == h) {
            if part != o.0 {
                return bad("not the suffix");
            }
        } else if h == "std::core::Index" {
            if !part.starts_with('[') || !same(format!("q{part}"), &fun(h, std::iter::once(sym("q")).chain(ps[0].0[1..].iter().cloned()).collect())) {
                return bad("not the index bracket");
            }
        } else if h == "std::containers::List" || h.starts_with("std::repl") || h.starts_with("std::core::slot") {
            if !same(part.to_string(), &t) {
                return bad("not the operand");
            }
        } else if h == "std::core::Span" {
            if !same(format!("q[{part}]"), &fun("std::core::Index", vec![sym("q"), t.clone()])) {
                return bad("not the span");
            }
        } else if h.starts_with("std::infix") {
            // the position of an operator is its whole expression
            let Ok(r) = read(part) else { return bad("not an expression") };
            if !contains(&r, &t) {
                return bad("not an expression with this operator");
            }
        } else {
            // a dot call without brackets: its whole expression (which may begin and end with some)
            let Ok(r) = read(part) else { return bad("not an expression") };
            if !contains(&r, &t) {
                return bad("not an expression with this call");
            }
        }
    }
    // the same under another name, by the same settings or others
    for name in ["é 函/a b.sm", "", "anonymous2"] {
        let b = sm_ast::parser::ParserSettings { file: name.into(), ..Default::default() }.parse(text).map_err(|e| format!("refused in {name:?}: {e:?}"))?;
        let mut w = vec![];
        places(&b, &mut w);
        if w.len() != v.len() || v.iter().zip(&w).any(|(a, b)| a.0 != b.0 || b.3 != name) || view(&b) != view(&a) {
            return Err(format!("as {name:?} the tree or its positions differ"));
        }
    }
    // moving the text moves every position with it
    for (pre, lines, cols) in [("\n\n", 2, 0), ("   ", 0, 3), ("///é\n \n ", 2, 1), ("\u{3000}", 0, 1), ("\t", 0, 1), ("\n\t \t", 1, 3), ("\r\n", 1, 0), ("%%%é\n函%%%", 1, 4)] {
        let b = parse(&format!("{pre}{text}"))?;
        let mut w = vec![];
        places(&b, &mut w);
        let mv = |p: (usize, usize)| (p.0 + lines, if p.0 == 1 { p.1 + cols } else { p.1 });
        if w.len() != v.len() || v.iter().zip(&w).any(|(a, b)| (mv(a.0 .0), mv(a.0 .1)) != b.0) {
            return Err(format!("after {pre:?} the positions do not move along"));
        }
    }
    Ok(mc::hash(&format!("{:?}", v.iter().map(|v| v.0).collect::<Vec<_>>())))
}
/// The text behind that many lines and columns, and those within it.
fn distant(text: &str, wide: &str, lines: usize, cols: usize) -> Result<u64, String> {
    let v = {
        let mut v = vec![];
        places(&parse(text)?, &mut v);
        v
    };
    for (pre, c) in [("\n".repeat(lines) + &" ".repeat(cols), cols), ("\r\n".repeat(lines) + &"\u{3000}".repeat(cols), cols), (format!("%%%{}{}%%%", "é\n".repeat(lines), "函".repeat(cols)), cols + 3 + if lines == 0 { 3 } else { 0 })] {
        let mut w = vec![];
        places(&parse(&format!("{pre}{text}"))?, &mut w);
        let mv = |p: (usize, usize)| (p.0 + lines, if p.0 == 1 { p.1 + c } else { p.1 });
        if w.len() != v.len() || v.iter().zip(&w).any(|(a, b)| (mv(a.0 .0), mv(a.0 .1)) != b.0) {
            return Err(format!("behind {lines} lines and {c} columns the positions are {:?} instead of {:?} moved", w.iter().map(|w| w.0).collect::<Vec<_>>(), v.iter().map(|v| v.0).collect::<Vec<_>>()));
        }
    }
    // and with them between its parts
    position(&wide.replace('\n', &("\n".repeat(lines) + &" ".repeat(cols))))
}
/// Every name of a file of up to a few characters, and long ones.
fn names(t: Tier) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..if t == Tier::Quick { 3 } else { 4 } {
        last = last.iter().flat_map(|n| ['a', 'B', '.', '/', '\\', ':', ' ', '~', 'é', '\n', '0', '%', '"', '\0', '-'].map(|c| format!("{n}{c}"))).collect();
        v.extend(last.iter().cloned());
    }
    for n in [4usize, 8, 15, 16, 22, 23, 24, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536] {
        v.extend([".a".repeat(n), "é".repeat(n), "a/".repeat(n), format!("{}.sm", "d/".repeat(n))]);
    }
    v.extend(["anonymous", "Anonymous", "<anonymous>", "stdin", "/a/../b.sm", "./a.sm", "file:///a.sm", "C:\\a.sm", "a.sm\n", "main.sm", "a.SM"].map(String::from));
    v
}
/// A character within a string and a comment is one column.
fn behind(n: u32) -> Result<u64, String> {
    let c = char::from_u32(n).ok_or("no character")?;
    for (i, k) in [1usize, 2, 3].into_iter().enumerate() {
        let of = |c: char| {
            let s = c.to_string().repeat(k);
            [format!("\"{s}\" + f(x)"), format!("%%%{s}%%% f(x)[1]"), format!("a ///{s}\n + b(2)")][i].clone()
        };
        let (mut v, mut w) = (vec![], vec![]);
        places(&parse(&of('a'))?, &mut v);
        places(&parse(&of(c))?, &mut w);
        if v.is_empty() || v.len() != w.len() || v.iter().zip(&w).any(|(a, b)| a.0 != b.0) {
            return Err(format!("{:?}: the positions are {:?} instead of {:?}", of(c), w.iter().map(|w| w.0).collect::<Vec<_>>(), v.iter().map(|w| w.0).collect::<Vec<_>>()));
        }
    }
    Ok(7)
}
/// A text with every kind of node, read under that name.
fn in_file(name: &str) -> Result<u64, String> {
    const TEXT: &str = "f(1, k: a)\nx.g(y)[1:2] + -2.5! \"s\"\n{a: b c, d: e = h}";
    let plain = parse(TEXT)?;
    let b = sm_ast::parser::ParserSettings { file: name.into(), ..Default::default() }.parse(TEXT).map_err(|e| format!("refused in {name:?}: {e:?}"))?;
    let (mut v, mut w) = (vec![], vec![]);
    places(&plain, &mut v);
    places(&b, &mut w);
    if w.is_empty() || w.len() != v.len() || v.iter().zip(&w).any(|(a, b)| a.0 != b.0 || b.3 != name) {
        return Err(format!("as {name:?} the positions differ, or name {:?}", w.iter().find(|w| w.3 != name).map(|w| w.3.clone())));
    }
    Ok(mc::hash(name))
}
fn contains(t: &T, x: &T) -> bool {
    t == x
        || match t {
            T::Fun(_, ps) => ps.iter().any(|(a, k)| a.iter().any(|t| contains(t, x)) || k.iter().any(|(_, v)| contains(v, x))),
            _ => false,
        }
}
fn placements(f: &Form) -> Vec<String> {
    (0..PAIRED).map(|k| filled(f, &[], k)).chain([0, 3, 4, 8].iter().map(|k| filled(f, &[(0, 2)], *k))).collect()
}
/// Forms that are moved far away.
fn distances(t: Tier) -> Vec<(usize, Form)> {
    let a = Alphabet { inf: vec!["+", "^"], ..Alphabet::full() };
    let v = shapes(&a, 1);
    let step = if t == Tier::Quick { 5 } else { 1 };
    v.iter().enumerate().step_by(step).map(|(i, s)| (i, form(s, &[0, 15]))).collect()
}
impl Spec for Positions {
    fn id(&self) -> &'static str {
        "S13"
    }
    fn explore(&self, x: &mut Explorer) {
        every(x, placed, |x, n, f| {
            for s in placements(f) {
                x.trans(1);
                x.judge(format_args!("{n}: {s}"), || position(&s));
            }
        });
        // every expression of a few tokens, with more than one prefix and suffix
        let q = x.quick();
        let ops: Vec<crate::grammar::Op> = ["+", "^", "="].iter().map(|o| crate::grammar::infix(o)).collect();
        let mut judge = |x: &mut Explorer, v: &[crate::grammar::Tok]| {
            let s = crate::grammar::write(v);
            x.judge(format_args!("walk: {s}"), || position(&s));
        };
        crate::grammar::Walk { ops: &ops, pre: &[0, 1, 2, 3], suf: &[0, 1], groups: true, max: if q { 5 } else { 6 }, kinds: &[0, 1] }.run(x, &mut judge);
        crate::grammar::Walk { ops: &ops[..1], pre: &[0, 2], suf: &[0], groups: true, max: if q { 7 } else { 9 }, kinds: &[0, 1] }.run(x, &mut judge);
        // behind every character
        for n in 0..0x110000u32 {
            if x.mine_key(n as u64 / 256) && char::from_u32(n).is_some_and(|c| !"\n\"\\%".contains(c)) && !(q && (0x40000..0xe0000).contains(&n) && n % 256 != 255) {
                x.state();
                x.trans(1);
                x.judge(format_args!("char/{n}: "), || behind(n));
            }
        }
        // every name of a file
        for (i, n) in names(x.tier).iter().enumerate() {
            if !x.mine() {
                continue;
            }
            x.state();
            x.trans(1);
            x.judge(format_args!("name/{i}: "), || in_file(n));
        }
        for (k, f) in distances(x.tier) {
            let texts: (String, String) = (tight(&f), filled(&f, &[(2, 3)], 0));
            for (i, n) in FAR.iter().enumerate() {
                if !x.mine() {
                    continue;
                }
                x.state();
                for (l, c) in [(0, *n), (*n, 0), (*n, 3), (3, *n), (*n, FAR[(i + k) % FAR.len()])] {
                    x.trans(1);
                    x.judge(format_args!("far/{k}/{l}/{c}: "), || distant(&texts.0, &texts.1, l, c));
                }
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        if let Some(c) = c.strip_prefix("far/") {
            let v: Vec<usize> = c.split(": ").next().unwrap().split('/').map(|s| s.parse().unwrap()).collect();
            let (_, f) = distances(crate::tier()).into_iter().find(|d| d.0 == v[0]).ok_or("no such form")?;
            return distant(&tight(&f), &filled(&f, &[(2, 3)], 0), v[1], v[2]).map(|_| ());
        }
        if let Some(c) = c.strip_prefix("char/") {
            return behind(c.split(':').next().unwrap().parse().unwrap()).map(|_| ());
        }
        if let Some(c) = c.strip_prefix("name/") {
            let i: usize = c.split(':').next().unwrap().parse().unwrap();
            return in_file(names(crate::tier()).get(i).ok_or("no such name")?).map(|_| ());
        }
        position(c.split_once(": ").unwrap().1).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!("{}, each in 17 layouts (one line, blanks, tabs, several lines, comments) and behind 8 leading texts; {} forms with one node behind and around up to 65537 lines and columns, {} of each; every expression of up to {} tokens over + ^ =, four prefixes, two suffixes and brackets, and of up to {} over +, two prefixes and a suffix; every character of Unicode in a string and two kinds of comments before and between; {} names of the file (every name of up to {} characters of 15, and long ones)", count(placed, t), distances(t).len(), FAR.len(), if t == Tier::Quick { 5 } else { 6 }, if t == Tier::Quick { 7 } else { 9 }, names(t).len(), if t == Tier::Quick { 3 } else { 4 })
    }
}
