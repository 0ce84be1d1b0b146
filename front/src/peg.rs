//! S18: the grammar file as an executable model of the parser.
//!
//! Reads `simple-math.pest`, interprets it as a parsing expression grammar with the documented
//! meaning of pest's operators, and compares what it recognises with what the parser recognises.
use mc::{Explorer, Spec, Tier};
use sm_parser::{Parser as _, Rule, SMParser};
use std::{collections::{BTreeSet, HashMap, HashSet}, sync::OnceLock};
include!(concat!(env!("OUT_DIR"), "/rules.rs"));

#[derive(Clone, Debug)]
pub enum E {
    Str(String),
    Insens(String),
    Range(char, char),
    Rule(usize),
    Builtin(String),
    Seq(Vec<E>),
    Alt(Vec<E>),
    Opt(Box<E>),
    Star(Box<E>),
    Pos(Box<E>),
    Neg(Box<E>),
    Push(Box<E>),
    Peek,
    Pop,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Normal,
    Silent,
    Atomic,
    Compound,
    NonAtomic,
}
struct R {
    name: String,
    kind: Kind,
    body: E,
}
pub struct Grammar {
    rules: Vec<R>,
    white: Option<usize>,
    comment: Option<usize>,
}

// ---------------------------------------------------------------- the grammar file
struct Reader<'a> {
    s: &'a [char],
    i: usize,
    names: &'a HashMap<String, usize>,
}
impl<'a> Reader<'a> {
    fn blank(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_whitespace() {
                self.i += 1
            }
            if self.s[self.i..].starts_with(&['/', '/']) {
                while self.i < self.s.len() && self.s[self.i] != '\n' {
                    self.i += 1
                }
            } else if self.s[self.i..].starts_with(&['/', '*']) {
                while self.i < self.s.len() && !self.s[self.i..].starts_with(&['*', '/']) {
                    self.i += 1
                }
                self.i += 2;
            } else {
                return;
            }
        }
    }
    fn is(&mut self, c: char) -> bool {
        self.blank();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            return true;
        }
        false
    }
    fn need(&mut self, c: char) {
        if !self.is(c) {
            panic!("grammar file: expected {c:?} at character {}", self.i)
        }
    }
    fn word(&mut self) -> String {
        self.blank();
        let b = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_alphanumeric() || self.s[self.i] == '_') {
            self.i += 1
        }
        self.s[b..self.i].iter().collect()
    }
    fn quoted(&mut self, q: char) -> String {
        self.need(q);
        let mut o = String::new();
        while self.s[self.i] != q {
            if self.s[self.i] == '\\' {
                self.i += 1;
                match self.s[self.i] {
                    'n' => o.push('\n'),
                    'r' => o.push('\r'),
                    't' => o.push('\t'),
                    '0' => o.push('\0'),
                    'x' => {
                        let h: String = self.s[self.i + 1..self.i + 3].iter().collect();
                        o.push(u8::from_str_radix(&h, 16).unwrap() as char);
                        self.i += 2;
                    }
                    'u' => {
                        let e = self.s[self.i..].iter().position(|c| *c == '}').unwrap() + self.i;
                        let h: String = self.s[self.i + 2..e].iter().collect();
                        o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                        self.i = e;
                    }
                    c => o.push(c),
                }
            } else {
                o.push(self.s[self.i])
            }
            self.i += 1;
        }
        self.i += 1;
        o
    }
    fn expr(&mut self) -> E {
        self.is('|');
        let mut v = vec![self.seq()];
        while self.is('|') {
            v.push(self.seq())
        }
        if v.len() == 1 { v.remove(0) } else { E::Alt(v) }
    }
    fn seq(&mut self) -> E {
        let mut v = vec![self.term()];
        while self.is('~') {
            v.push(self.term())
        }
        if v.len() == 1 { v.remove(0) } else { E::Seq(v) }
    }
    fn term(&mut self) -> E {
        if self.is('&') {
            return E::Pos(Box::new(self.term()));
        }
        if self.is('!') {
            return E::Neg(Box::new(self.term()));
        }
        self.blank();
        let mut e = match self.s[self.i] {
            '(' => {
                self.i += 1;
                let e = self.expr();
                self.need(')');
                e
            }
            '"' => E::Str(self.quoted('"')),
            '^' => {
                self.i += 1;
                E::Insens(self.quoted('"'))
            }
            '\'' => {
                let a = self.quoted('\'');
                self.need('.');
                self.need('.');
                let b = self.quoted('\'');
                E::Range(a.chars().next().unwrap(), b.chars().next().unwrap())
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "" => panic!("grammar file: unexpected {:?} at character {}", self.s[self.i], self.i),
                    "PUSH" => {
                        self.need('(');
                        let e = self.expr();
                        self.need(')');
                        E::Push(Box::new(e))
                    }
                    "PEEK" => E::Peek,
                    "POP" => E::Pop,
                    _ => match self.names.get(&w) {
                        Some(i) => E::Rule(*i),
                        None => E::Builtin(w),
                    },
                }
            }
        };
        loop {
            if self.is('?') {
                e = E::Opt(Box::new(e))
            } else if self.is('*') {
                e = E::Star(Box::new(e))
            } else if self.is('+') {
                e = E::Seq(vec![e.clone(), E::Star(Box::new(e))])
            } else if self.is('{') {
                let a = self.word();
                let comma = self.is(',');
                let b = self.word();
                self.need('}');
                let lo: usize = a.parse().unwrap_or(0);
                let mut v = vec![e.clone(); lo];
                if comma {
                    match b.parse::<usize>() {
                        Ok(hi) => v.extend(vec![E::Opt(Box::new(e)); hi - lo]),
                        Err(_) => v.push(E::Star(Box::new(e))),
                    }
                }
                e = E::Seq(v);
            } else {
                return e;
            }
        }
    }
}
impl Grammar {
    pub fn read(text: &str) -> Grammar {
        let s: Vec<char> = text.chars().collect();
        // once for the names, once for the bodies
        let mut names = HashMap::new();
        let mut rules = vec![];
        for round in 0..2 {
            let known = names.clone();
            let mut r = Reader { s: &s, i: 0, names: &known };
            loop {
                r.blank();
                if r.i >= s.len() {
                    break;
                }
                let name = r.word();
                assert!(!name.is_empty(), "grammar file: expected a rule at character {}", r.i);
                r.need('=');
                r.blank();
                let kind = match s[r.i] {
                    '_' => Kind::Silent,
                    '@' => Kind::Atomic,
                    '$' => Kind::Compound,
                    '!' => Kind::NonAtomic,
                    _ => Kind::Normal,
                };
                if kind != Kind::Normal {
                    r.i += 1
                }
                r.need('{');
                let body = r.expr();
                r.need('}');
                if round == 0 {
                    let n = names.len();
                    names.insert(name, n);
                } else {
                    rules.push(R { name, kind, body });
                }
            }
        }
        Grammar { white: names.get("WHITESPACE").copied(), comment: names.get("COMMENT").copied(), rules }
    }
    fn reach(&self, r: usize, o: &mut BTreeSet<usize>) {
        fn walk(g: &Grammar, e: &E, o: &mut BTreeSet<usize>) {
            match e {
                E::Rule(r) => g.reach(*r, o),
                E::Seq(v) | E::Alt(v) => v.iter().for_each(|e| walk(g, e, o)),
                E::Opt(e) | E::Star(e) | E::Pos(e) | E::Neg(e) | E::Push(e) => walk(g, e, o),
                _ => {}
            }
        }
        if o.insert(r) {
            walk(self, &self.rules[r].body, o)
        }
    }
    /// Whether what the rule takes from the stack was put there by it.
    fn closed(&self, r: usize) -> bool {
        let mut all = BTreeSet::new();
        self.reach(r, &mut all);
        let has = |f: &dyn Fn(&E) -> bool| {
            fn any(e: &E, f: &dyn Fn(&E) -> bool) -> bool {
                f(e) || match e {
                    E::Seq(v) | E::Alt(v) => v.iter().any(|e| any(e, f)),
                    E::Opt(e) | E::Star(e) | E::Pos(e) | E::Neg(e) | E::Push(e) => any(e, f),
                    _ => false,
                }
            }
            all.iter().any(|r| any(&self.rules[*r].body, f))
        };
        !has(&|e| matches!(e, E::Peek | E::Pop)) || has(&|e| matches!(e, E::Push(_)))
    }
    pub fn rule(&self, name: &str) -> Option<usize> {
        self.rules.iter().position(|r| r.name == name)
    }
}
pub fn grammar() -> &'static Grammar {
    static G: OnceLock<Grammar> = OnceLock::new();
    G.get_or_init(|| Grammar::read(&std::fs::read_to_string("/repo/projects/sm-parser/simple-math.pest").expect("grammar file")))
}

// ---------------------------------------------------------------- the model
/// A token: depth, name, begin, end.
pub type Token = (u32, String, usize, usize);
const EOI: usize = usize::MAX;
struct M<'a> {
    g: &'a Grammar,
    s: &'a str,
    i: usize,
    /// (rule, begin, end, depth), end filled in when known
    q: Vec<(usize, usize, usize, u32)>,
    depth: u32,
    atomicity: Kind,
    look: bool,
    stack: Vec<String>,
    fuel: u64,
}
impl<'a> M<'a> {
    fn lit(&mut self, t: &str) -> bool {
        let ok = self.s[self.i..].starts_with(t);
        if ok {
            self.i += t.len()
        }
        ok
    }
    fn char(&mut self, f: impl Fn(char) -> bool) -> bool {
        match self.s[self.i..].chars().next() {
            Some(c) if f(c) => {
                self.i += c.len_utf8();
                true
            }
            _ => false,
        }
    }
    fn skip(&mut self) {
        if self.atomicity != Kind::NonAtomic {
            return;
        }
        let g = self.g;
        loop {
            while g.white.is_some_and(|w| self.sub(w)) {}
            if !g.comment.is_some_and(|c| self.sub(c)) {
                return;
            }
        }
    }
    fn sub(&mut self, r: usize) -> bool {
        let (a, i) = (std::mem::replace(&mut self.atomicity, Kind::Atomic), self.i);
        let ok = self.run(&E::Rule(r));
        self.atomicity = a;
        ok && self.i > i
    }
    fn run(&mut self, e: &E) -> bool {
        if self.fuel == 0 {
            return false;
        }
        self.fuel -= 1;
        match e {
            E::Str(t) => self.lit(t),
            E::Insens(t) => {
                let ok = self.s.as_bytes()[self.i..].get(..t.len()).is_some_and(|b| b.eq_ignore_ascii_case(t.as_bytes()));
                if ok {
                    self.i += t.len()
                }
                ok
            }
            E::Range(a, b) => self.char(|c| *a <= c && c <= *b),
            E::Rule(r) => self.rule(*r),
            E::Builtin(n) => self.builtin(n),
            E::Seq(v) => {
                let (i, q, st) = (self.i, self.q.len(), self.stack.clone());
                for (k, e) in v.iter().enumerate() {
                    if k > 0 {
                        self.skip()
                    }
                    if !self.run(e) {
                        self.i = i;
                        self.q.truncate(q);
                        self.stack = st;
                        return false;
                    }
                }
                true
            }
            E::Alt(v) => v.iter().any(|e| self.run(e)),
            E::Opt(e) => {
                self.run(e);
                true
            }
            E::Star(e) => {
                if self.run(e) {
                    loop {
                        let (i, q) = (self.i, self.q.len());
                        self.skip();
                        if !self.run(e) {
                            self.i = i;
                            self.q.truncate(q);
                            break;
                        }
                        if self.i == i {
                            break;
                        }
                    }
                }
                true
            }
            E::Pos(b) | E::Neg(b) => {
                let (i, q, st, l) = (self.i, self.q.len(), self.stack.clone(), self.look);
                self.look = true;
                let ok = self.run(b);
                self.look = l;
                self.i = i;
                self.q.truncate(q);
                self.stack = st;
                ok == matches!(e, E::Pos(_))
            }
            E::Push(e) => {
                let i = self.i;
                let ok = self.run(e);
                if ok {
                    self.stack.push(self.s[i..self.i].into())
                }
                ok
            }
            E::Peek | E::Pop => {
                let Some(t) = self.stack.last().cloned() else { return false };
                let ok = self.lit(&t);
                if ok && matches!(e, E::Pop) {
                    self.stack.pop();
                }
                ok
            }
        }
    }
    fn builtin(&mut self, n: &str) -> bool {
        match n {
            "SOI" => self.i == 0,
            "EOI" => {
                let ok = self.i == self.s.len();
                if ok && !self.look && self.atomicity != Kind::Atomic {
                    self.q.push((EOI, self.i, self.i, self.depth))
                }
                ok
            }
            "ANY" => self.char(|_| true),
            "NEWLINE" => self.lit("\n") || self.lit("\r\n") || self.lit("\r"),
            "ASCII_DIGIT" => self.char(|c| c.is_ascii_digit()),
            "ASCII_NONZERO_DIGIT" => self.char(|c| ('1'..='9').contains(&c)),
            "ASCII_BIN_DIGIT" => self.char(|c| c == '0' || c == '1'),
            "ASCII_OCT_DIGIT" => self.char(|c| ('0'..='7').contains(&c)),
            "ASCII_HEX_DIGIT" => self.char(|c| c.is_ascii_hexdigit()),
            "ASCII_ALPHA" => self.char(|c| c.is_ascii_alphabetic()),
            "ASCII_ALPHA_LOWER" => self.char(|c| c.is_ascii_lowercase()),
            "ASCII_ALPHA_UPPER" => self.char(|c| c.is_ascii_uppercase()),
            "ASCII_ALPHANUMERIC" => self.char(|c| c.is_ascii_alphanumeric()),
            "ASCII" => self.char(|c| c.is_ascii()),
            "WHITE_SPACE" => self.char(|c| pest::unicode::WHITE_SPACE(c)),
            "XID_START" => self.char(|c| pest::unicode::XID_START(c)),
            "XID_CONTINUE" => self.char(|c| pest::unicode::XID_CONTINUE(c)),
            _ => panic!("grammar file: {n} is not modelled"),
        }
    }
    fn rule(&mut self, r: usize) -> bool {
        let g = self.g;
        let rule = &g.rules[r];
        let outer = self.atomicity;
        let inner = match rule.kind {
            Kind::Normal | Kind::Silent if g.white == Some(r) || g.comment == Some(r) => Kind::Atomic,
            Kind::Normal | Kind::Silent => outer,
            k => k,
        };
        let (i, q, st) = (self.i, self.q.len(), self.stack.clone());
        // the token of a compound or non-atomic rule stands even within an atomic one
        let seen = match rule.kind {
            Kind::Silent => false,
            Kind::Normal | Kind::Atomic => outer != Kind::Atomic,
            _ => true,
        } && !self.look;
        if seen {
            self.q.push((r, i, 0, self.depth));
            self.depth += 1;
        }
        self.atomicity = inner;
        let ok = self.run(&rule.body);
        self.atomicity = outer;
        if seen {
            self.depth -= 1;
        }
        if !ok {
            self.i = i;
            self.q.truncate(q);
            self.stack = st;
        } else if seen {
            self.q[q].2 = self.i;
        }
        ok
    }
}
/// What the grammar makes of a text: `None` when it has no answer within the step limit.
pub fn model(g: &Grammar, start: usize, s: &str) -> Option<Option<Vec<Token>>> {
    let mut m = M { g, s, i: 0, q: vec![], depth: 0, atomicity: Kind::NonAtomic, look: false, stack: vec![], fuel: 3_000_000 };
    let ok = m.rule(start);
    if m.fuel == 0 {
        return None;
    }
    Some(ok.then(|| m.q.iter().map(|(r, a, b, d)| (*d, if *r == EOI { "EOI".into() } else { g.rules[*r].name.clone() }, *a, *b)).collect()))
}

// ---------------------------------------------------------------- the parser
fn flatten(p: sm_parser::Pair<Rule>, d: u32, o: &mut Vec<Token>) {
    let sp = p.as_span();
    o.push((d, format!("{:?}", p.as_rule()), sp.start(), sp.end()));
    for i in p.into_inner() {
        flatten(i, d + 1, o)
    }
}
pub fn actual(r: Rule, s: &str) -> Option<Vec<Token>> {
    let pairs = SMParser::parse(r, s).ok()?;
    let mut o = vec![];
    for p in pairs {
        flatten(p, 0, &mut o)
    }
    Some(o)
}
fn show(t: &Option<Vec<Token>>, s: &str) -> String {
    match t {
        None => "refused".into(),
        Some(t) => t.iter().map(|(d, n, a, b)| format!("{}{n}:{:?}", ".".repeat(*d as usize), s.get(*a..*b).unwrap_or("?"))).collect::<Vec<_>>().join(" "),
    }
}
pub fn dump(s: &str) -> String {
    show(&actual(Rule::program, s), s)
}
/// Compares the grammar and the parser on one text. `Ok(0)`: no answer within the limit.
fn compare(r: Rule, s: &str) -> Result<u64, String> {
    let g = grammar();
    let name = format!("{r:?}");
    let Some(i) = g.rule(&name) else { return Ok(0) };
    let Some(want) = model(g, i, s) else { return Ok(0) };
    let got = actual(r, s);
    let same = match (&want, &got) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(x, y)| {
                    // blanks after the last part may count as part of it or not
                    (x.0, &x.1, x.2) == (y.0, &y.1, y.2) && (x.3 == y.3 || blank(g, s, x.3.min(y.3), x.3.max(y.3)))
                })
        }
        _ => false,
    };
    if !same {
        return Err(format!("as {name}: the grammar says {}, the parser says {}", show(&want, s), show(&got, s)));
    }
    Ok(match want {
        None => 1,
        Some(w) => {
            let mut h = 7u64;
            for (d, n, _, _) in w {
                h = (h ^ d as u64 ^ mc::hash(&n)).wrapping_mul(0x100000001b3)
            }
            h
        }
    })
}
fn blank(g: &Grammar, s: &str, a: usize, b: usize) -> bool {
    let mut m = M { g, s, i: a, q: vec![], depth: 0, atomicity: Kind::NonAtomic, look: true, stack: vec![], fuel: 100_000 };
    m.skip();
    m.i == b
}

// ---------------------------------------------------------------- the texts
const GAP: char = '\u{1}';
struct Gen<'a> {
    g: &'a Grammar,
    short: Vec<Option<String>>,
    memo: HashMap<(usize, bool, u32), std::rc::Rc<Vec<String>>>,
}
fn samples(n: &str) -> &'static [&'static str] {
    match n {
        "SOI" | "EOI" => &[""],
        "ANY" => &["a", "\"", "é", "\n"],
        "NEWLINE" => &["\n", "\r\n", "\r"],
        "WHITE_SPACE" => &[" ", "\t", "\u{3000}"],
        "XID_START" => &["a", "Z", "é", "中"],
        "XID_CONTINUE" => &["b", "1", "_", "é"],
        "ASCII_DIGIT" => &["0", "9"],
        "ASCII_NONZERO_DIGIT" => &["1", "9"],
        "ASCII_BIN_DIGIT" => &["1", "0"],
        "ASCII_OCT_DIGIT" => &["7", "0"],
        "ASCII_HEX_DIGIT" => &["f", "A", "0"],
        _ => &["a"],
    }
}
impl<'a> Gen<'a> {
    fn new(g: &'a Grammar) -> Self {
        let mut x = Gen { g, short: vec![None; g.rules.len()], memo: HashMap::new() };
        loop {
            let mut change = false;
            for r in 0..g.rules.len() {
                let k = g.rules[r].kind;
                if let Some(s) = x.shortest(&g.rules[r].body, matches!(k, Kind::Atomic | Kind::Compound)) {
                    if x.short[r].as_ref().is_none_or(|o| s.len() < o.len()) {
                        x.short[r] = Some(s);
                        change = true;
                    }
                }
            }
            if !change {
                return x;
            }
        }
    }
    fn shortest(&self, e: &E, atomic: bool) -> Option<String> {
        Some(match e {
            E::Str(s) | E::Insens(s) => s.clone(),
            E::Range(a, _) => a.to_string(),
            E::Rule(r) => self.short[*r].clone()?,
            E::Builtin(n) => samples(n)[0].into(),
            E::Seq(v) => {
                let mut o = String::new();
                for (i, e) in v.iter().enumerate() {
                    if i > 0 && !atomic {
                        o.push(GAP)
                    }
                    o += &self.shortest(e, atomic)?;
                }
                o
            }
            E::Alt(v) => v.iter().filter_map(|e| self.shortest(e, atomic)).min_by_key(|s| s.len())?,
            E::Push(e) => self.shortest(e, atomic)?,
            E::Opt(_) | E::Star(_) | E::Pos(_) | E::Neg(_) | E::Peek | E::Pop => String::new(),
        })
    }
    /// Every sentence that differs from the shortest one along a single path of choices.
    fn all(&mut self, e: &E, atomic: bool, d: u32) -> Vec<String> {
        let mut o: Vec<String> = match e {
            E::Str(s) => vec![s.clone()],
            E::Insens(s) => vec![s.clone(), s.to_uppercase()],
            E::Range(a, b) => vec![a.to_string(), b.to_string()],
            E::Builtin(n) => samples(n).iter().map(|s| s.to_string()).collect(),
            E::Rule(r) => {
                let k = self.g.rules[*r].kind;
                let atomic = match k {
                    Kind::Atomic | Kind::Compound => true,
                    Kind::NonAtomic => false,
                    _ => atomic,
                };
                if d == 0 {
                    return self.short[*r].iter().cloned().collect();
                }
                if let Some(m) = self.memo.get(&(*r, atomic, d)) {
                    return m.to_vec();
                }
                let g = self.g;
                let m = self.all(&g.rules[*r].body, atomic, d - 1);
                self.memo.insert((*r, atomic, d), std::rc::Rc::new(m.clone()));
                return m;
            }
            E::Seq(v) => {
                let base: Vec<Option<String>> = v.iter().map(|e| self.shortest(e, atomic)).collect();
                if base.iter().any(|b| b.is_none()) {
                    return vec![];
                }
                let mut o = vec![];
                for i in 0..v.len() {
                    for s in self.all(&v[i], atomic, d) {
                        let mut t = String::new();
                        for j in 0..v.len() {
                            if j > 0 && !atomic {
                                t.push(GAP)
                            }
                            t += if j == i { &s } else { base[j].as_ref().unwrap() };
                        }
                        o.push(t);
                    }
                }
                o
            }
            E::Alt(v) => v.iter().flat_map(|e| self.all(e, atomic, d)).collect(),
            E::Opt(e) => {
                let mut o = vec![String::new()];
                o.extend(self.all(e, atomic, d));
                o
            }
            E::Star(e) => {
                let mut o = vec![String::new()];
                let one = self.all(e, atomic, d);
                let b = self.shortest(e, atomic).unwrap_or_default();
                let gap = if atomic { String::new() } else { GAP.to_string() };
                for s in &one {
                    o.push(s.clone());
                    o.push(format!("{s}{gap}{b}"));
                    o.push(format!("{b}{gap}{s}"));
                }
                if let Some(s) = one.last() {
                    o.push(format!("{s}{gap}{b}{gap}{s}"));
                }
                o
            }
            E::Push(e) => self.all(e, atomic, d),
            E::Pos(_) | E::Neg(_) | E::Peek | E::Pop => vec![String::new()],
        };
        let mut seen = HashSet::new();
        o.retain(|s| seen.insert(s.clone()));
        o
    }
}

fn literals(e: &E, o: &mut BTreeSet<String>) {
    match e {
        E::Str(s) | E::Insens(s) => {
            o.insert(s.clone());
        }
        E::Seq(v) | E::Alt(v) => v.iter().for_each(|e| literals(e, o)),
        E::Opt(e) | E::Star(e) | E::Pos(e) | E::Neg(e) | E::Push(e) => literals(e, o),
        _ => {}
    }
}
/// Every literal of the grammar, and names, numbers, strings, blanks and strangers.
fn alphabet(g: &Grammar) -> Vec<String> {
    let mut o = BTreeSet::new();
    g.rules.iter().for_each(|r| literals(&r.body, &mut o));
    o.extend(["a", "f", "x1", "_a", "0", "7", "10", "1.5", "0x1F", "0b1", "\"\"", "\"s\"", " ", "\n", "%%%c%%%", "///c\n", "é", "$", "\u{3000}", "\r\n", "##1", "a::b", "~"].map(String::from));
    o.into_iter().collect()
}
const CORE: &[&str] = &["a", "f", "1", "0", "1.5", "(", ")", "[", "]", "{", "}", ",", ":", ".", "=", "+", "-", "*", "/", "^", "!", "'", "?", "#", "¶", "\"", "\"s\"", " ", "\n", ";", "::", "%", "@", "let", "def", "class", "trait", "extends", "with", "if", "then", "else", "for", "in", "return", "break", "using", "as", "true", "null"];
const FILL: &[&str] = &["", " ", "\n", "%%%c%%%", "///c\n", " \t\r\n "];
fn gaps(s: &str) -> usize {
    s.chars().filter(|c| *c == GAP).count()
}
/// The sentence with `one` in gap number `at` and `rest` in every other gap.
fn render(s: &str, at: usize, one: &str, rest: &str) -> String {
    let mut o = String::new();
    let mut n = 0;
    for c in s.chars() {
        if c == GAP {
            o += if n == at { one } else { rest };
            n += 1;
        } else {
            o.push(c)
        }
    }
    o
}
const AROUND: &[(&str, &str)] = &[("", ""), ("a", ""), ("", "a"), ("1", "2"), ("f(a", "b)"), ("[a", "b]"), ("v[1", "2]"), ("a", "b"), ("\"", "\""), ("a.b", "(c)"), ("f(k", "1)"), ("#", ""), ("let a", "1"), ("f", "a)"), ("0x", "1"), ("1.", "5"), ("a:", "b"), ("-", "!"), ("%", "%%c%%%"), ("if (a)", "b}"), ("use", "ing a"), ("¶", "")];
const MANY: [usize; 8] = [4, 8, 9, 17, 33, 65, 129, 257];
const MORE: [usize; 24] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 64, 65, 101, 128, 129, 256, 257];
pub struct Conform;
impl Conform {
    fn look(&self, x: &mut Explorer, r: Rule, s: &str) {
        x.state();
        x.judge(format_args!("{r:?}\n{s}"), || compare(r, s));
    }
}
impl Spec for Conform {
    fn id(&self) -> &'static str {
        "S18"
    }
    fn explore(&self, x: &mut Explorer) {
        let g = grammar();
        let quick = x.quick();
        let rules: Vec<(Rule, usize)> = RULES.iter().filter_map(|r| g.rule(&format!("{r:?}")).map(|i| (*r, i))).collect();
        // the parts of a comment are only ever read within one
        let (mut inside, mut top) = (BTreeSet::new(), BTreeSet::new());
        g.comment.iter().for_each(|c| g.reach(*c, &mut inside));
        g.rule("program").iter().for_each(|c| g.reach(*c, &mut top));
        let rules: Vec<(Rule, usize)> = rules.into_iter().filter(|r| Some(r.1) == g.comment || top.contains(&r.1) || !inside.contains(&r.1)).filter(|r| g.closed(r.1)).collect();
        x.remark("start rules", rules.len() as u64);
        let mut gen = Gen::new(g);
        let letters = alphabet(g);
        // sentences of every rule, their spacing, and their neighbours
        for (r, i) in &rules {
            let big = matches!(format!("{r:?}").as_str(), "program" | "statement");
            let deep = if big { if quick { 7 } else { 9 } } else if quick { 4 } else { 6 };
            let near = if big { 3 } else { 2 };
            let v = gen.all(&E::Rule(*i), false, deep);
            for s in &v {
                x.trans(1);
                if !x.mine() {
                    continue;
                }
                let n = gaps(s);
                for f in &FILL[..if big { 3 } else { FILL.len() }] {
                    self.look(x, *r, &render(s, 0, f, f));
                }
                if n > 12 || big && s.len() > 40 {
                    continue;
                }
                for at in 0..n {
                    for f in FILL {
                        for rest in ["", " "] {
                            if f != &rest {
                                self.look(x, *r, &render(s, at, f, rest));
                            }
                        }
                    }
                }
            }
            // any one or two parts many times
            let v = gen.all(&E::Rule(*i), false, near);
            for s in &v {
                x.trans(1);
                if !x.mine() {
                    continue;
                }
                let parts: Vec<&str> = s.split(GAP).collect();
                if parts.len() > 12 {
                    continue;
                }
                for k in 0..parts.len() {
                    for l in k + 1..=(k + 2).min(parts.len()) {
                        for n in if quick { &MANY[..] } else { &MORE[..] } {
                            for sep in ["", " "] {
                                let mut w: Vec<&str> = parts[..k].to_vec();
                                for _ in 0..*n {
                                    w.extend(&parts[k..l]);
                                }
                                w.extend(&parts[l..]);
                                self.look(x, *r, &w.join(sep));
                            }
                        }
                    }
                }
            }
            let v = gen.all(&E::Rule(*i), false, if quick { near + 1 } else { near + 2 });
            for s in &v {
                x.trans(1);
                if !x.mine() {
                    continue;
                }
                let parts: Vec<&str> = s.split(GAP).collect();
                if parts.len() > 12 {
                    continue;
                }
                for k in 0..parts.len() {
                    let (a, b) = (&parts[..k], &parts[k + 1..]);
                    let put = |m: &[&str]| [a, m, b].concat().join(" ");
                    self.look(x, *r, &put(&[]));
                    self.look(x, *r, &put(&[parts[k], parts[k]]));
                    if k + 1 < parts.len() {
                        self.look(x, *r, &[a, &[parts[k + 1], parts[k]], &parts[k + 2..]].concat().join(" "));
                    }
                    for l in &letters {
                        self.look(x, *r, &put(&[l]));
                        self.look(x, *r, &put(&[l, parts[k]]));
                        if k + 1 == parts.len() {
                            self.look(x, *r, &put(&[parts[k], l]));
                        }
                    }
                }
            }
        }
        // short texts over the whole alphabet from every rule
        for (r, _) in &rules {
            for a in &letters {
                x.trans(1);
                if !x.mine() {
                    continue;
                }
                self.look(x, *r, a);
                for b in &letters {
                    self.look(x, *r, &format!("{a}{b}"));
                    x.trans(1);
                }
            }
        }
        // every character of Unicode at every kind of place
        for n in (0u32..0x40000).chain(0xe0000..0xe0200).chain([0xf0000, 0xfffff, 0x100000, 0x10ffff]) {
            let Some(c) = char::from_u32(n) else { continue };
            if n % 64 == 0 {
                x.trans(64);
            }
            if !x.mine_key(n as u64 / 64) {
                continue;
            }
            for (before, after) in AROUND {
                let s = format!("{before}{c}{after}");
                self.look(x, Rule::program, &s);
                if !quick || n < 0x3100 || n >= 0xff00 && n < 0x10000 {
                    self.look(x, Rule::program, &format!("{before}{c}{c}{after}"));
                    self.look(x, Rule::program, &format!("{before} {c} {after}"));
                }
            }
        }
        // longer ones from the top
        let top: Vec<Rule> = rules.iter().filter(|r| matches!(format!("{:?}", r.0).as_str(), "program")).map(|r| r.0).collect();
        for r in &top {
            for a in &letters {
                for b in &letters {
                    if x.mine() {
                        for c in &letters {
                            self.look(x, *r, &format!("{a}{b}{c}"));
                        }
                    }
                }
            }
            for a in CORE {
                for b in CORE {
                    if x.mine() {
                        for c in CORE {
                            for d in if quick { &CORE[..26] } else { CORE } {
                                self.look(x, *r, &format!("{a} {b} {c} {d}"));
                                if !quick {
                                    for e in &CORE[..30] {
                                        self.look(x, *r, &format!("{a}{b} {c}{d} {e}"));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        let (n, s) = case.split_once('\n').ok_or("no such case")?;
        let r = RULES.iter().find(|r| format!("{r:?}") == n).ok_or("no such rule")?;
        compare(*r, s).map(|_| ())
    }
    fn bounds(&self, tier: Tier) -> String {
        let q = tier == Tier::Quick;
        format!(
            "every rule as a start rule: its sentences along every single path of choices ({} rules deep, {} from program) with every gap filled six ways; those of {} rules deep with each part dropped, doubled, swapped, and replaced or preceded by each of ~130 letters; those a rule less deep with any one or two neighbouring parts repeated up to 257 times ({} numbers of times); every text of up to two letters; from program every text of three letters and {} core letters, and every character of Unicode at 22 places",
            if q { 4 } else { 6 },
            if q { 7 } else { 9 },
            if q { "3 to 4" } else { "4 to 5" },
            if q { MANY.len() } else { MORE.len() },
            if q { "four" } else { "five" }
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "pest's operators mean what its documentation says; the Unicode classes are those of the pest crate".into(),
            "blanks after the last part of a token may belong to it or not".into(),
        ]
    }
}
