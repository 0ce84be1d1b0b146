//! Every shape of the surface syntax to a size: how it is written, and what it means.
use crate::{grammar::{infix, leaf, PREFIX, SUFFIX}, tree::*};

#[derive(Clone, Debug)]
pub enum S {
    Leaf,
    List(Vec<S>),
    /// name, then per bracket the positional arguments and the keyword ones, `true` = trailing comma
    Call(Vec<Args>),
    /// receiver, then what follows the dot
    Dot(Box<S>, Rhs),
    Index(Box<S>, Vec<Ix>),
    Pre(usize, Box<S>),
    Suf(usize, Box<S>),
    Inf(&'static str, Box<S>, Box<S>),
    /// operands of an implicit product: true = a call of the operand's name
    Product(Vec<bool>),
    Group(Box<S>),
}
#[derive(Clone, Debug, Default)]
pub struct Args {
    pub pos: Vec<S>,
    /// keyword, and before which positional argument it stands
    pub kw: Vec<(usize, S)>,
    pub trailing: bool,
}
#[derive(Clone, Debug)]
pub enum Rhs {
    Name,
    Call(Vec<Args>),
    Int,
}
#[derive(Clone, Debug)]
pub enum Ix {
    One(S),
    /// start, end, step: None = colon absent (step) or empty
    Span(Option<S>, Option<S>, Option<Option<S>>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Gap {
    /// blanks, line ends, comments
    Free,
    /// blanks without a line end
    Line,
    /// as Line, and never empty
    Need,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    Tok(String),
    Gap(Gap),
}
pub struct Form {
    pub pieces: Vec<Piece>,
    pub tree: T,
    pub leaves: Vec<(String, T)>,
}
struct Writer<'a> {
    out: Vec<Piece>,
    kinds: &'a [usize],
    names: &'a [&'a str],
    keys: &'a [&'a str],
    /// where in the names and keywords to begin
    rot: usize,
    n: usize,
    leaves: Vec<(String, T)>,
}
const NAMES: &[&str] = &["f", "g", "h", "sin", "k_1", "factor", "函", "up"];
const KEYS: &[&str] = &["ka", "kb", "kc", "kd", "ke", "kf", "kg", "kh"];
/// Names of every make: case, script, underscores, digits, words of the language, name spaces.
pub const POOL: &[&str] = &[
    "f", "G", "_p", "__q2", "x1", "e", "éa", "Éa", "жх", "ßa", "σ", "函数", "sin_", "List", "Plus", "plus", "Rule", "first", "null_", "True", "nullity", "lets", "define", "ifx", "trueish", "in", "then", "b1", "O0", "std::sin", "a::a::b", "p::q::r::s", "factor", "Factor", "math::factor", "函::数", "p::P", "a__b", "k_", "arcsin", "std::in::g", "e2e", "ﬁn", "x٣", "aB", "Index", "Span", "Power", "Times", "N", "D", "All", "length", "sum", "prime_sum", "slot", "std::core::index", "a::List", "FactorInteger", "mod", "std::core::Index", "std::infix::add", "std::suffix::factorial", "std::core::Span", "std::containers::List", "std::prefix::minus", "std::repl::input", "std::infix::power",
];
/// Keywords, some of them near one another.
pub const KEYPOOL: &[&str] = &["ka", "_ka", "__ka", "kA", "k", "é", "É", "lets", "函", "x1", "x01", "std", "k_", "Ka", "b0", "nulls", "first", "ka1", "KA", "ſ", "s"];
impl<'a> Writer<'a> {
    fn t(&mut self, s: &str) {
        self.out.push(Piece::Tok(s.into()))
    }
    fn free(&mut self) {
        self.out.push(Piece::Gap(Gap::Free))
    }
    fn line(&mut self) {
        self.out.push(Piece::Gap(Gap::Line))
    }
    fn leaf(&mut self) -> T {
        let k = self.kinds[self.n % self.kinds.len()];
        self.leaf_of(k)
    }
    fn leaf_of(&mut self, k: usize) -> T {
        let (s, t) = leaf(k, self.n);
        self.n += 1;
        self.t(&s);
        self.leaves.push((s, t.clone()));
        t
    }
    fn name(&mut self) -> String {
        let s = self.names[(self.n + self.rot) % self.names.len()];
        self.n += 1;
        self.t(s);
        self.leaves.push((s.into(), sym(s)));
        s.into()
    }
    fn grouped(&mut self, s: &S) -> T {
        self.t("(");
        self.free();
        let t = self.go(s);
        self.free();
        self.t(")");
        t
    }
    /// what may stand before a postfix, after a prefix
    fn operand(&mut self, s: &S) -> T {
        match s {
            S::Leaf | S::List(_) | S::Call(_) | S::Suf(..) | S::Index(..) | S::Group(_) => {
                if let S::Suf(..) = s {
                    return self.grouped(s);
                }
                self.go(s)
            }
            _ => self.grouped(s),
        }
    }
    fn args(&mut self, a: &Args) -> (Vec<T>, Vec<(T, T)>) {
        let (mut pos, mut kw) = (vec![], vec![]);
        self.t("(");
        self.free();
        let mut first = true;
        for i in 0..=a.pos.len() {
            for (_, s) in a.kw.iter().filter(|k| k.0 == i) {
                if !first {
                    self.free();
                    self.t(",");
                    self.free();
                }
                first = false;
                let k = self.keys[(kw.len() + self.rot) % self.keys.len()];
                // when they run out: others, all different
                let k = if kw.len() < self.keys.len() { k.to_string() } else { format!("{k}_z{}", kw.len() / self.keys.len()) };
                self.t(&k);
                self.free();
                self.t(":");
                self.free();
                kw.push((sym(&k), self.go(s)));
            }
            if let Some(s) = a.pos.get(i) {
                if !first {
                    self.free();
                    self.t(",");
                    self.free();
                }
                first = false;
                pos.push(self.go(s));
            }
        }
        if a.trailing && !first {
            self.free();
            self.t(",");
        }
        self.free();
        self.t(")");
        kw.sort();
        (pos, kw)
    }
    fn call(&mut self, v: &[Args], tight: bool) -> (String, Vec<(Vec<T>, Vec<(T, T)>)>) {
        let n = self.name();
        let mut ps = vec![];
        for a in v {
            if !tight {
                self.line();
            }
            ps.push(self.args(a));
        }
        (n, ps)
    }
    fn go(&mut self, s: &S) -> T {
        match s {
            S::Leaf => self.leaf(),
            S::Group(s) => self.grouped(s),
            S::List(v) => {
                self.t("[");
                self.free();
                let mut a = vec![];
                for (i, s) in v.iter().enumerate() {
                    if i > 0 {
                        self.free();
                        self.t(",");
                        self.free();
                    }
                    a.push(self.go(s));
                }
                self.free();
                self.t("]");
                fun("std::containers::List", a)
            }
            S::Call(v) => {
                let (n, ps) = self.call(v, false);
                T::Fun(n, ps)
            }
            S::Dot(l, r) => {
                let a = match **l {
                    S::Dot(_, Rhs::Int) if matches!(r, Rhs::Int) => self.grouped(l),
                    S::Leaf if matches!(r, Rhs::Int) => self.grouped(l),
                    S::Dot(..) | S::Leaf | S::List(_) | S::Call(_) | S::Index(..) | S::Suf(..) | S::Group(_) => self.go(l),
                    _ => self.grouped(l),
                };
                self.free();
                self.t(".");
                self.free();
                match r {
                    Rhs::Name => fun(&self.name(), vec![a]),
                    Rhs::Call(v) => {
                        let (n, mut ps) = self.call(v, false);
                        ps[0].0.insert(0, a);
                        T::Fun(n, ps)
                    }
                    Rhs::Int => {
                        let i = self.leaf_of(1);
                        fun("std::core::index", vec![a, i])
                    }
                }
            }
            S::Index(b, v) => {
                let mut all = vec![match **b {
                    S::Dot(..) => self.go(b),
                    _ => self.operand(b),
                }];
                self.line();
                self.t("[");
                self.free();
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.free();
                        self.t(",");
                        self.free();
                    }
                    match x {
                        Ix::One(s) => all.push(self.go(s)),
                        Ix::Span(a, b, c) => {
                            let a = a.as_ref().map(|s| {
                                let t = self.go(s);
                                self.free();
                                t
                            });
                            self.t(":");
                            if a.is_some() && b.is_none() && matches!(c, Some(Some(_))) {
                                // `x::y` is one name
                                self.t(" ");
                            }
                            let b = b.as_ref().map(|s| {
                                self.free();
                                self.go(s)
                            });
                            let c = c.as_ref().and_then(|s| {
                                self.free();
                                self.t(":");
                                s.as_ref().map(|s| {
                                    self.free();
                                    self.go(s)
                                })
                            });
                            all.push(fun("std::core::Span", vec![a.unwrap_or(int(1)), b.unwrap_or(sym("std::core::All")), c.unwrap_or(int(1))]));
                        }
                    }
                }
                self.free();
                self.t("]");
                fun("std::core::Index", all)
            }
            S::Pre(p, s) => {
                self.t(PREFIX[*p].0);
                let t = match **s {
                    S::Pre(..) => self.go(s),
                    // a prefix binds tighter than the dot
                    S::Suf(..) | S::Index(..) if dotted(s) => self.grouped(s),
                    S::Suf(..) => self.go(s),
                    _ => self.operand(s),
                };
                fun(PREFIX[*p].1, vec![t])
            }
            S::Suf(k, s) => {
                let t = match **s {
                    S::Dot(..) => self.go(s),
                    _ => self.operand(s),
                };
                self.t(SUFFIX[*k].0);
                fun(SUFFIX[*k].1, vec![t])
            }
            S::Inf(o, a, b) => {
                let side = |w: &mut Self, s: &S| match s {
                    S::Inf(..) => w.grouped(s),
                    S::Dot(..) | S::Pre(..) | S::Product(_) => w.go(s),
                    S::Suf(..) => w.grouped(s),
                    s => w.go(s),
                };
                let l = side(self, a);
                self.free();
                self.t(o);
                // `//!` and `//*` begin a comment
                if *o == "//" && matches!(**b, S::Pre(p, _) if matches!(PREFIX[p].0, "!" | "*")) {
                    self.t(" ");
                }
                self.free();
                let r = side(self, b);
                fun(infix(o).head, vec![l, r])
            }
            S::Product(v) => {
                let mut a = vec![];
                for (i, call) in v.iter().enumerate() {
                    if i > 0 {
                        self.out.push(Piece::Gap(Gap::Need));
                    }
                    if *call {
                        let n = self.name();
                        self.line();
                        let (p, k) = self.args(&Args { pos: vec![S::Leaf], ..Args::default() });
                        a.push(T::Fun(n, vec![(p, k)]));
                    } else {
                        let k = [0, 1, 2, 3, 9][(self.n + self.kinds.len()) % 5];
                        a.push(self.leaf_of(k));
                    }
                }
                fun("std::infix::times", a)
            }
        }
    }
}
/// Whether what the postfixes stand behind is a dot call.
fn dotted(s: &S) -> bool {
    match s {
        S::Suf(_, s) | S::Index(s, _) => matches!(**s, S::Dot(..)) || matches!(**s, S::Index(..)) && dotted(s),
        _ => false,
    }
}
pub fn form(s: &S, kinds: &[usize]) -> Form {
    form_with(s, kinds, NAMES)
}
pub fn form_with(s: &S, kinds: &[usize], names: &[&str]) -> Form {
    written(s, kinds, names, KEYS, 0)
}
/// As `form`, with names and keywords out of the pools, from the `rot`-th on.
pub fn form_at(s: &S, kinds: &[usize], rot: usize) -> Form {
    if rot == 0 {
        return form(s, kinds);
    }
    written(s, kinds, POOL, KEYPOOL, rot - 1)
}
fn written(s: &S, kinds: &[usize], names: &[&str], keys: &[&str], rot: usize) -> Form {
    let mut w = Writer { out: vec![], kinds, names, keys, rot, n: 0, leaves: vec![] };
    w.free();
    let tree = w.go(s);
    w.free();
    Form { pieces: w.out, tree, leaves: w.leaves }
}
/// Writes a form with nothing in its gaps but what it needs.
pub fn tight(f: &Form) -> String {
    fill(f, &|_, g| if g == Gap::Need { " " } else { "" })
}
pub fn fill(f: &Form, gap: &dyn Fn(usize, Gap) -> &'static str) -> String {
    let mut s = String::new();
    let mut i = 0;
    for p in &f.pieces {
        match p {
            Piece::Tok(t) => s += t,
            Piece::Gap(g) => {
                s += gap(i, *g);
                i += 1;
            }
        }
    }
    s
}

/// The alphabet from which shapes are built.
#[derive(Clone)]
pub struct Alphabet {
    pub pre: Vec<usize>,
    pub suf: Vec<usize>,
    pub inf: Vec<&'static str>,
    pub dot: bool,
    pub index: bool,
    pub call: bool,
    pub kw: bool,
    pub list: bool,
    pub product: bool,
    pub group: bool,
}
impl Alphabet {
    pub fn full() -> Alphabet {
        Alphabet { pre: vec![0, 2], suf: vec![0, 1], inf: vec!["+", "*", "^", "="], dot: true, index: true, call: true, kw: true, list: true, product: true, group: true }
    }
}
/// Few nodes with many parts: brackets, arguments, keywords, indices, long and deep chains.
pub fn wide(a: &Alphabet) -> Vec<S> {
    let mut v = vec![];
    let leaves = |n: usize| vec![S::Leaf; n];
    let args = |n: usize| Args { pos: leaves(n), ..Args::default() };
    let b = |s: &S| Box::new(s.clone());
    let mut calls: Vec<Vec<Args>> = vec![];
    if a.call {
        for n in 1..=6usize {
            for p in 0..5 {
                let v: Vec<Args> = (0..n).map(|i| args([0, 1, 2, i, n - 1 - i][p])).collect();
                if a.kw {
                    for j in 0..n {
                        let mut w = v.clone();
                        w[j].kw = vec![(0, S::Leaf)];
                        calls.push(w.clone());
                        w[j].kw = vec![(w[j].pos.len(), S::Leaf), (w[j].pos.len(), S::Leaf)];
                        calls.push(w);
                    }
                }
                calls.push(v);
            }
        }
        for n in 3..=12 {
            calls.push(vec![args(n)]);
            calls.push(vec![Args { trailing: true, ..args(n) }]);
        }
        if a.kw {
            for k in 1..=8 {
                for p in 0..4usize {
                    calls.push(vec![Args { kw: (0..k).map(|i| (i.min(p), S::Leaf)).collect(), ..args(p) }]);
                    calls.push(vec![Args { kw: (0..k).map(|i| (p.saturating_sub(i), S::Leaf)).collect(), trailing: true, ..args(p) }]);
                }
            }
        }
    }
    for c in &calls {
        v.push(S::Call(c.clone()));
        if a.dot {
            v.push(S::Dot(Box::new(S::Leaf), Rhs::Call(c.clone())));
        }
    }
    // what has three brackets, inside and below everything else
    let three = [S::Call(vec![args(1), args(0), args(2)]), S::Call(vec![args(0), args(2), args(1), args(1)])];
    for t in three.iter().filter(|_| a.call) {
        for p in &a.pre {
            v.push(S::Pre(*p, b(t)));
        }
        for p in &a.suf {
            v.push(S::Suf(*p, b(t)));
        }
        for o in &a.inf {
            v.push(S::Inf(o, b(t), b(t)));
        }
        if a.list {
            v.push(S::List(vec![S::Leaf, t.clone(), t.clone()]));
        }
        v.push(S::Call(vec![Args { pos: vec![t.clone(), S::Leaf], ..Args::default() }, Args { pos: vec![t.clone()], ..Args::default() }, args(1)]));
        if a.dot {
            v.push(S::Dot(b(t), Rhs::Name));
            v.push(S::Dot(b(t), Rhs::Call(vec![args(1), args(0), args(1)])));
        }
        if a.index {
            v.push(S::Index(b(t), vec![Ix::One(t.clone())]));
        }
    }
    if a.list {
        for n in 2..=12 {
            v.push(S::List(leaves(n)));
        }
    }
    if a.index {
        for n in 2..=6 {
            v.push(S::Index(Box::new(S::Leaf), (0..n).map(|_| Ix::One(S::Leaf)).collect()));
        }
        let l = || Some(S::Leaf);
        let kinds = [
            Ix::One(S::Leaf),
            Ix::Span(None, None, None),
            Ix::Span(l(), None, None),
            Ix::Span(None, l(), None),
            Ix::Span(l(), l(), None),
            Ix::Span(l(), l(), Some(None)),
            Ix::Span(None, None, Some(l())),
            Ix::Span(l(), None, Some(l())),
            Ix::Span(None, l(), Some(l())),
            Ix::Span(l(), l(), Some(l())),
            Ix::Span(None, None, Some(None)),
            Ix::Span(l(), None, Some(None)),
            Ix::Span(None, l(), Some(None)),
        ];
        for i in &kinds {
            for j in &kinds {
                v.push(S::Index(Box::new(S::Leaf), vec![i.clone(), j.clone()]));
                v.push(S::Index(Box::new(S::Leaf), vec![j.clone(), i.clone(), j.clone()]));
            }
        }
    }
    if a.product {
        for n in 4..=6 {
            for m in 0..1 << n {
                v.push(S::Product((0..n).map(|i| m >> i & 1 == 1).collect()));
            }
        }
    }
    // long and deep chains
    type Wrap = fn(S) -> S;
    let mut wraps: Vec<Wrap> = vec![];
    if a.dot {
        wraps.push(|s| S::Dot(Box::new(s), Rhs::Name));
        wraps.push(|s| S::Dot(Box::new(s), Rhs::Call(vec![Args::default(), Args { pos: vec![S::Leaf], ..Args::default() }])));
        wraps.push(|s| S::Dot(Box::new(s), Rhs::Int));
        wraps.push(|s| S::Dot(Box::new(S::Leaf), Rhs::Call(vec![Args { pos: vec![s], ..Args::default() }])));
    }
    if a.index {
        wraps.push(|s| S::Index(Box::new(s), vec![Ix::One(S::Leaf)]));
        wraps.push(|s| S::Index(Box::new(S::Leaf), vec![Ix::One(s)]));
        wraps.push(|s| S::Index(Box::new(S::Leaf), vec![Ix::Span(Some(S::Leaf), Some(s), None)]));
    }
    if a.list {
        wraps.push(|s| S::List(vec![s]));
        wraps.push(|s| S::List(vec![S::Leaf, s, S::Leaf]));
    }
    if a.call {
        wraps.push(|s| S::Call(vec![Args { pos: vec![s], ..Args::default() }]));
        wraps.push(|s| S::Call(vec![Args::default(), Args { pos: vec![S::Leaf, s], ..Args::default() }, Args::default()]));
        if a.kw {
            wraps.push(|s| S::Call(vec![Args { kw: vec![(0, s)], ..Args::default() }]));
        }
    }
    if a.group {
        wraps.push(|s| S::Group(Box::new(s)));
    }
    if a.pre.contains(&0) {
        wraps.push(|s| S::Pre(0, Box::new(s)));
    }
    if a.suf.contains(&0) {
        wraps.push(|s| S::Suf(0, Box::new(s)));
    }
    for p in &wraps {
        for q in &wraps {
            for n in 3..=6 {
                let mut s = S::Leaf;
                for i in 0..n {
                    s = if i % 2 == 0 { p(s) } else { q(s) };
                }
                v.push(s);
            }
        }
    }
    v
}
/// How many parts the big forms have.
pub fn sizes(q: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (7..=if q { 40 } else { 300 }).collect();
    v.extend([50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 258, 300, 301, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]);
    v.sort();
    v.dedup();
    v
}
/// One node with that many parts, of every kind, and chains of that many nodes.
pub fn sized(a: &Alphabet, sizes: &[usize]) -> Vec<S> {
    let mut v = vec![];
    let leaves = |n: usize| vec![S::Leaf; n];
    let args = |n: usize| Args { pos: leaves(n), ..Args::default() };
    // a part that is a node itself, where the alphabet has one
    let node = if a.list {
        S::List(vec![S::Leaf])
    } else if a.call {
        S::Call(vec![Args { pos: vec![S::Leaf], ..Args::default() }])
    } else {
        S::Leaf
    };
    let ends = |n: usize| (0..n).map(|i| if i == 0 || i + 1 == n || i % 64 == 0 { node.clone() } else { S::Leaf }).collect::<Vec<S>>();
    let dot = |c: Vec<Args>| S::Dot(Box::new(S::Leaf), Rhs::Call(c));
    for &n in sizes {
        if a.list {
            v.push(S::List(leaves(n)));
            v.push(S::List(ends(n)));
            v.push(S::List(vec![S::List(leaves(n)), S::Leaf, S::List(leaves(n))]));
        }
        if a.call {
            v.push(S::Call(vec![args(n)]));
            v.push(S::Call(vec![Args { trailing: true, pos: ends(n), ..Args::default() }]));
            v.push(S::Call(vec![args(1), args(n)]));
            v.push(S::Call(vec![args(n), args(0), args(n)]));
            if n <= 300 {
                // many brackets
                v.push(S::Call((0..n).map(|i| args(i % 3)).collect()));
                v.push(S::Call(vec![args(0); n]));
            }
            if a.dot {
                v.push(dot(vec![args(n)]));
                v.push(dot(vec![args(1), args(n)]));
            }
            if a.kw {
                let kw = |f: &dyn Fn(usize) -> usize, p: usize, t: bool| Args { kw: (0..n).map(|i| (f(i), if i % 64 == 63 { node.clone() } else { S::Leaf })).collect(), trailing: t, ..args(p) };
                v.push(S::Call(vec![kw(&|_| 0, 0, false)]));
                v.push(S::Call(vec![kw(&|i| i, n, true)]));
                v.push(S::Call(vec![kw(&|_| 2, 2, false), kw(&|i| n - i, n, false)]));
                if a.dot {
                    v.push(dot(vec![kw(&|i| i.min(3), 3, false)]));
                }
            }
        }
        if a.index {
            let l = || Some(S::Leaf);
            v.push(S::Index(Box::new(S::Leaf), (0..n).map(|_| Ix::One(S::Leaf)).collect()));
            v.push(S::Index(Box::new(S::Leaf), (0..n).map(|_| Ix::Span(None, None, None)).collect()));
            v.push(S::Index(Box::new(S::Leaf), (0..n).map(|i| [Ix::Span(l(), l(), Some(l())), Ix::One(S::Leaf), Ix::Span(None, l(), None), Ix::Span(l(), None, None)][i % 4].clone()).collect()));
        }
        if a.product {
            v.push(S::Product(vec![false; n]));
            v.push(S::Product((0..n).map(|i| i % 3 == 1).collect()));
        }
        // flat to write, deep as a tree
        if n <= 300 {
            let mut chains: Vec<fn(usize, S) -> S> = vec![];
            if a.dot {
                chains.push(|_, s| S::Dot(Box::new(s), Rhs::Name));
                chains.push(|i, s| S::Dot(Box::new(s), Rhs::Call(vec![Args { pos: vec![S::Leaf; i % 3], ..Args::default() }])));
                chains.push(|i, s| S::Dot(Box::new(s), if i % 2 == 0 { Rhs::Name } else { Rhs::Int }));
            }
            if a.index {
                chains.push(|_, s| S::Index(Box::new(s), vec![Ix::One(S::Leaf)]));
            }
            if a.index && a.dot {
                chains.push(|i, s| if i % 2 == 0 { S::Index(Box::new(s), vec![Ix::One(S::Leaf)]) } else { S::Dot(Box::new(s), Rhs::Name) });
            }
            if a.pre.contains(&0) {
                chains.push(|_, s| S::Pre(0, Box::new(s)));
            }
            for c in &chains {
                let mut s = S::Leaf;
                for i in 0..n {
                    s = c(i, s);
                }
                v.push(s);
            }
        }
        // deep to write as well
        if n <= 40 {
            let mut nests: Vec<fn(usize, S) -> S> = vec![];
            if a.list {
                nests.push(|_, s| S::List(vec![s]));
                nests.push(|i, s| S::List(if i % 2 == 0 { vec![S::Leaf, s] } else { vec![s, S::Leaf, S::Leaf] }));
            }
            if a.call {
                nests.push(|_, s| S::Call(vec![Args { pos: vec![s], ..Args::default() }]));
                nests.push(|i, s| S::Call(vec![Args { pos: vec![S::Leaf; i % 2], ..Args::default() }, Args { pos: vec![S::Leaf, s], ..Args::default() }]));
                if a.kw {
                    nests.push(|_, s| S::Call(vec![Args { kw: vec![(0, s)], ..Args::default() }]));
                }
            }
            if a.index {
                nests.push(|_, s| S::Index(Box::new(S::Leaf), vec![Ix::One(s)]));
            }
            if a.group {
                nests.push(|_, s| S::Group(Box::new(s)));
            }
            for c in &nests {
                let mut s = S::Leaf;
                for i in 0..n {
                    s = c(i, s);
                }
                v.push(s);
            }
        }
    }
    v
}
/// All shapes with at most `n` inner nodes.
pub fn shapes(a: &Alphabet, n: usize) -> Vec<S> {
    let mut by: Vec<Vec<S>> = vec![vec![S::Leaf]];
    for k in 1..=n {
        let mut v = vec![];
        let sub = |m: usize| by[m].clone();
        // one inner node above one shape of size k-1
        for s in sub(k - 1) {
            let b = || Box::new(s.clone());
            for p in &a.pre {
                v.push(S::Pre(*p, b()));
            }
            for p in &a.suf {
                v.push(S::Suf(*p, b()));
            }
            if a.group {
                v.push(S::Group(b()));
            }
            if a.list {
                v.push(S::List(vec![s.clone()]));
            }
            if a.dot {
                v.push(S::Dot(b(), Rhs::Name));
                v.push(S::Dot(b(), Rhs::Int));
                v.push(S::Dot(b(), Rhs::Call(vec![Args::default()])));
                v.push(S::Dot(b(), Rhs::Call(vec![Args { pos: vec![S::Leaf, S::Leaf], ..Args::default() }, Args { pos: vec![S::Leaf], trailing: true, ..Args::default() }])));
                v.push(S::Dot(Box::new(S::Leaf), Rhs::Call(vec![Args { pos: vec![s.clone()], ..Args::default() }])));
                if a.kw {
                    v.push(S::Dot(b(), Rhs::Call(vec![Args { pos: vec![S::Leaf], kw: vec![(0, S::Leaf), (1, S::Leaf)], ..Args::default() }])));
                }
            }
            if a.call {
                v.push(S::Call(vec![Args { pos: vec![s.clone()], ..Args::default() }]));
                v.push(S::Call(vec![Args { pos: vec![s.clone()], ..Args::default() }, Args { pos: vec![S::Leaf, S::Leaf], ..Args::default() }]));
                v.push(S::Call(vec![Args::default(), Args { pos: vec![s.clone(), S::Leaf], trailing: true, ..Args::default() }]));
                if a.kw {
                    v.push(S::Call(vec![Args { kw: vec![(0, s.clone())], ..Args::default() }]));
                    v.push(S::Call(vec![Args { pos: vec![S::Leaf, S::Leaf], kw: vec![(1, s.clone()), (2, S::Leaf)], trailing: true }]));
                }
            }
            if a.index {
                let o = || Some(s.clone());
                let l = || Some(S::Leaf);
                v.push(S::Index(b(), vec![Ix::One(S::Leaf)]));
                v.push(S::Index(b(), vec![Ix::Span(None, None, None)]));
                v.push(S::Index(Box::new(S::Leaf), vec![Ix::One(s.clone()), Ix::One(S::Leaf)]));
                for x in [
                    Ix::Span(o(), None, None),
                    Ix::Span(None, o(), None),
                    Ix::Span(l(), o(), None),
                    Ix::Span(o(), l(), Some(None)),
                    Ix::Span(None, None, Some(o())),
                    Ix::Span(o(), None, Some(l())),
                    Ix::Span(None, o(), Some(l())),
                    Ix::Span(l(), l(), Some(o())),
                    Ix::Span(None, None, Some(None)),
                ] {
                    v.push(S::Index(Box::new(S::Leaf), vec![x.clone()]));
                    if k == 1 {
                        v.push(S::Index(Box::new(S::Leaf), vec![x.clone(), Ix::One(S::Leaf)]));
                        v.push(S::Index(Box::new(S::Leaf), vec![Ix::One(S::Leaf), x]));
                    }
                }
            }
        }
        if k == 1 {
            if a.list {
                v.push(S::List(vec![]));
                v.push(S::List(vec![S::Leaf, S::Leaf, S::Leaf]));
            }
            if a.call {
                v.push(S::Call(vec![Args::default()]));
                v.push(S::Call(vec![Args::default(), Args::default()]));
                v.push(S::Call(vec![Args { pos: vec![S::Leaf, S::Leaf, S::Leaf], ..Args::default() }]));
            }
            if a.product {
                for n in 2..=3 {
                    for m in 0..1 << n {
                        v.push(S::Product((0..n).map(|i| m >> i & 1 == 1).collect()));
                    }
                }
            }
        }
        // two subtrees
        for m in 0..k {
            let r = k - 1 - m;
            if r >= by.len() || m >= by.len() {
                continue;
            }
            for l in sub(m) {
                for q in sub(r) {
                    for o in &a.inf {
                        v.push(S::Inf(o, Box::new(l.clone()), Box::new(q.clone())));
                    }
                    if a.list && m > 0 && r > 0 {
                        v.push(S::List(vec![l.clone(), q.clone()]));
                    }
                    if a.call && m > 0 && r > 0 {
                        v.push(S::Call(vec![Args { pos: vec![l.clone(), q.clone()], ..Args::default() }]));
                    }
                    if a.index && m > 0 && r > 0 {
                        v.push(S::Index(Box::new(l.clone()), vec![Ix::One(q.clone())]));
                    }
                }
            }
        }
        by.push(v);
    }
    by.into_iter().flatten().collect()
}
