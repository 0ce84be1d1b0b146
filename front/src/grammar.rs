//! The reference grammar: operators, their precedence, and a reader of token lists that shares
//! nothing with the parser under test.
use crate::tree::*;
use num::BigInt;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op {
    pub text: &'static str,
    pub head: &'static str,
    pub level: u8,
    pub right: bool,
}
const fn op(text: &'static str, head: &'static str, level: u8, right: bool) -> Op {
    Op { text, head, level, right }
}
/// From loose to tight, as documented in the table of the language.
pub const INFIX: &[Op] = &[
    op("=", "std::infix::=", 1, true),
    op("==", "std::infix::==", 2, false),
    op(">", "std::infix::>", 2, false),
    op(">=", "std::infix::>=", 2, false),
    op("+", "std::infix::add", 3, false),
    op("-", "std::infix::subtract", 3, false),
    op("*", "std::infix::times", 4, false),
    op("⋅", "std::infix::⋅", 5, false),
    op("⊗", "std::infix::⊗", 6, false),
    op("/", "std::infix::divide", 7, false),
    op("//", "std::infix::quotient", 7, false),
    op("%", "std::infix::%", 7, false),
    op("⊙", "std::infix::⊙", 8, false),
    op("^", "std::infix::power", 9, true),
];
pub const PREFIX: &[(&str, &str)] = &[("-", "std::prefix::minus"), ("+", "std::prefix::plus"), ("!", "std::prefix::not"), ("*", "std::prefix::unpack")];
pub const SUFFIX: &[(&str, &str)] = &[("!", "std::suffix::factorial"), ("!!", "std::suffix::factorial2")];
pub fn infix(t: &str) -> Op {
    *INFIX.iter().find(|o| o.text == t).unwrap()
}

#[derive(Clone, Debug)]
pub enum Tok {
    /// an operand: its text and what it reads as
    Leaf(String, T),
    Pre(usize),
    Suf(usize),
    Inf(Op),
    Open,
    Close,
}
impl Tok {
    pub fn text(&self) -> &str {
        match self {
            Tok::Leaf(s, _) => s,
            Tok::Pre(i) => PREFIX[*i].0,
            Tok::Suf(i) => SUFFIX[*i].0,
            Tok::Inf(o) => o.text,
            Tok::Open => "(",
            Tok::Close => ")",
        }
    }
}
/// Writes the tokens without blanks, except where two would run together.
pub fn write(v: &[Tok]) -> String {
    let mut s = String::new();
    for (i, t) in v.iter().enumerate() {
        if i > 0 {
            match (&v[i - 1], t) {
                // `//!` and `//*` begin a comment, `!=` is not an operator of this language
                (Tok::Inf(o), Tok::Pre(p)) if o.text == "//" && (PREFIX[*p].0 == "!" || PREFIX[*p].0 == "*") => s.push(' '),
                (Tok::Suf(_), Tok::Inf(o)) if o.text.starts_with('=') => s.push(' '),
                _ => {}
            }
        }
        s += t.text();
    }
    s
}

struct Reader<'a> {
    v: &'a [Tok],
    i: usize,
}
impl<'a> Reader<'a> {
    fn expr(&mut self, min: u8) -> T {
        let mut l = self.term();
        while let Some(Tok::Inf(o)) = self.v.get(self.i) {
            if o.level < min {
                break;
            }
            self.i += 1;
            let r = self.expr(if o.right { o.level } else { o.level + 1 });
            l = fun(o.head, vec![l, r]);
        }
        l
    }
    fn term(&mut self) -> T {
        if let Some(Tok::Pre(p)) = self.v.get(self.i) {
            self.i += 1;
            let x = self.term();
            return fun(PREFIX[*p].1, vec![x]);
        }
        let mut x = match &self.v[self.i] {
            Tok::Leaf(_, t) => {
                self.i += 1;
                t.clone()
            }
            Tok::Open => {
                self.i += 1;
                let x = self.expr(0);
                assert!(matches!(self.v[self.i], Tok::Close));
                self.i += 1;
                x
            }
            _ => unreachable!(),
        };
        while let Some(Tok::Suf(s)) = self.v.get(self.i) {
            self.i += 1;
            x = fun(SUFFIX[*s].1, vec![x]);
        }
        x
    }
}
pub fn meaning(v: &[Tok]) -> T {
    let mut r = Reader { v, i: 0 };
    let t = r.expr(0);
    assert!(r.i == v.len());
    t
}

/// The i-th operand of the given kind, different for each i.
pub fn leaf(kind: usize, i: usize) -> (String, T) {
    const N: &[&str] = &["a", "b", "c", "d", "e1", "f_2", "_g", "变", "i", "j", "k", "l", "m"];
    let n = N[i % N.len()];
    match kind {
        0 => (n.into(), sym(n)),
        1 => {
            let v = [2i64, 0, 13, 7, 100, 5, 1, 94, 6, 18446744073][i % 10];
            (v.to_string(), int(v))
        }
        2 => {
            let v = ["1.5", "0.25", "20.05", "3.0", "0.001", "7.75"][i % 6];
            (v.into(), T::Dec(v.into()))
        }
        3 => {
            let (s, v) = [("0x1F", 31), ("0b10_1", 5), ("0o17", 15), ("0XaB", 171), ("0B1", 1)][i % 5];
            (s.into(), int(v))
        }
        4 => {
            let s = ["s", "", "x y", "é", "1+2", "(", "]"][i % 7];
            (format!("\"{s}\""), T::Str(s.into()))
        }
        5 => (["true", "false"][i % 2].into(), T::Bool(i % 2 == 0)),
        6 => ("null".into(), sym("std::constant::Null")),
        7 => match i % 4 {
            0 => (format!("#{}", i + 1), fun("std::core::slot", vec![int(i as i64 + 1)])),
            1 => ("#".into(), fun("std::core::slot", vec![])),
            2 => (format!("##{}", i + 1), fun("std::core::slot_sequence", vec![int(i as i64 + 1)])),
            _ => (format!("#{n}"), fun("std::core::slot", vec![T::Str(n.into())])),
        },
        8 => match i % 4 {
            0 => ("¶".into(), fun("std::repl::input", vec![int(-1)])),
            1 => (format!("¶{}", i + 2), fun("std::repl::input", vec![int(i as i64 + 2)])),
            2 => ("⁋⁋".into(), fun("std::repl::output", vec![int(-2)])),
            _ => (format!("⁋{}", i + 2), fun("std::repl::output", vec![int(i as i64 + 2)])),
        },
        9 => (format!("p::{n}"), T::Sym(format!("p::{n}"))),
        10 => {
            let v = "10000000000000000000000000".parse::<BigInt>().unwrap() + BigInt::from(i);
            (v.to_string(), T::Int(v))
        }
        11 => (format!("qz{i}"), sym(&format!("qz{i}"))),
        12 => (format!("{}", 9000 + i), int(9000 + i as i64)),
        13 => {
            let v = [3i64, 2, 7, 0, 5, 1, 4, 12][i % 8];
            (v.to_string(), int(v))
        }
        14 => {
            let v = [0i64, 1, 10, 2, 6][i % 5];
            (v.to_string(), int(v))
        }
        15 => {
            let s = ["a\r\nb", "///c", "a\n/// b\nc", "\tx", "%%%c%%%", "×", "a::b", "a∷b", "，", "：", "÷", "；", ";", "//", " pad  ", "0x1F", "true", "#1", "😀", "e\u{301}", "'", "\u{3000}", "\r", "a\tb", "1_000", "\n", "a,b", "é", "(", "\\n", "{x}"][i % 31];
            (format!("\"{s}\""), T::Str(s.into()))
        }
        16 => {
            let s = crate::forms::POOL[i % crate::forms::POOL.len()];
            (s.into(), sym(s))
        }
        17 => {
            let b = [7usize, 8, 15, 16, 31, 32, 52, 53, 62, 63, 64, 65, 127, 128][i / 3 % 14];
            let v = (BigInt::from(1) << b) + BigInt::from(i as i64 % 3 - 1);
            (v.to_string(), T::Int(v))
        }
        18 => {
            let v = ["0.1", "3.14159265358979323846", "18446744073709551616.5", "0.000000000001", "9007199254740993.0", "1.10", "100.0", "0.30000000000000004", "123456789.987654321012345678901"][i % 9];
            (v.into(), T::Dec(v.into()))
        }
        19 => {
            let n = ["std", "a", "_p", "函", "lets"];
            let s = format!("{}::{}::{}", n[i % 5], n[i / 5 % 5], n[i / 25 % 5]);
            (s.clone(), sym(&s))
        }
        // words, each of its own
        20 => (format!("{}.25", 300 + i), T::Dec(format!("{}.25", 300 + i))),
        21 => (format!("\"st{i}\""), T::Str(format!("st{i}"))),
        22 => (format!("0x{:X}", 70_000 + i), int(70_000 + i as i64)),
        // the same one everywhere
        23 => ("1".into(), int(1)),
        24 => ("a".into(), sym("a")),
        25 => ("\"s\"".into(), T::Str("s".into())),
        // what a shortcut may take for something of its own
        26 => match i % 16 {
            k @ 0..=8 => {
                let v = ["0", "1", "2", "10", "100", "1000", "2", "1", "0"][k];
                (v.into(), int(v.parse::<i64>().unwrap()))
            }
            9 => ("\"\"".into(), T::Str("".into())),
            10 => ("null".into(), sym("std::constant::Null")),
            11 => ("true".into(), T::Bool(true)),
            12 => ("false".into(), T::Bool(false)),
            13 => ("0.0".into(), T::Dec("0.0".into())),
            14 => ("1.0".into(), T::Dec("1.0".into())),
            _ => ("p::p".into(), sym("p::p")),
        },
        27 => ("0".into(), int(0)),
        28 => ("null".into(), sym("std::constant::Null")),
        // names that could be meant as constants or as something built in
        29 => {
            let s = CONSTANTS[i % CONSTANTS.len()];
            (s.into(), sym(s))
        }
        // the last two kinds, beginning elsewhere
        100..=199 => leaf(29, i + kind - 100),
        200..=299 => leaf(26, i + kind - 200),
        _ => unreachable!(),
    }
}
/// The kinds of operands that can stand anywhere.
pub const KINDS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 19, 26, 29];
/// Assignments in which every operand is the same, or one of a few.
pub const SAME: &[&[usize]] = &[&[23], &[24], &[25], &[27], &[28], &[26], &[29], &[23, 27], &[24, 24, 23]];
pub const CONSTANTS: &[&str] = &[
    "pi", "Pi", "π", "e", "E", "i", "I", "inf", "infinity", "Infinity", "ComplexInfinity", "nan", "Indeterminate", "Nothing", "None", "Null", "NULL", "nil", "undefined", "True", "False", "yes", "no", "on", "off", "All", "all", "Span", "Index", "index", "slot",
    "Sequence", "phi", "degree", "golden_ratio", "catalan", "self", "this", "it", "ans", "last", "out", "input", "output", "_1", "_0", "N", "D", "C", "O", "K", "t", "x", "y", "n", "_n", "__", "___", "std::constant::Pi", "std::core::All", "std::constant::Null",
];

/// Every well-formed token list over the alphabet, shortest first along each branch.
pub struct Walk<'a> {
    pub ops: &'a [Op],
    pub pre: &'a [usize],
    pub suf: &'a [usize],
    pub groups: bool,
    pub max: usize,
    /// operand kinds, taken in turn
    pub kinds: &'a [usize],
}
impl<'a> Walk<'a> {
    pub fn run(&self, x: &mut mc::Explorer, visit: &mut dyn FnMut(&mut mc::Explorer, &[Tok])) {
        let mut v = vec![];
        self.go(x, &mut v, 0, true, 0, visit);
    }
    fn go(&self, x: &mut mc::Explorer, v: &mut Vec<Tok>, open: usize, operand: bool, leaves: usize, visit: &mut dyn FnMut(&mut mc::Explorer, &[Tok])) {
        // the subtrees below the third token are shared out
        const SPLIT: usize = 3;
        if v.len() == SPLIT && !x.mine() {
            return;
        }
        if v.len() >= SPLIT || x.shard().0 == 0 {
            x.state();
            x.trans((!v.is_empty()) as u64);
            if !operand && open == 0 {
                visit(x, v);
            }
        }
        let left = self.max - v.len();
        let step = |x: &mut mc::Explorer, v: &mut Vec<Tok>, t: Tok, open: usize, operand: bool, leaves: usize, visit: &mut dyn FnMut(&mut mc::Explorer, &[Tok])| {
            // what it takes to finish: an operand, and the closing brackets
            if left >= 1 + operand as usize + open {
                v.push(t);
                self.go(x, v, open, operand, leaves, visit);
                v.pop();
            }
        };
        if operand {
            let (s, t) = leaf(self.kinds[leaves % self.kinds.len()], leaves);
            step(x, v, Tok::Leaf(s, t), open, false, leaves + 1, visit);
            for p in self.pre {
                step(x, v, Tok::Pre(*p), open, true, leaves, visit);
            }
            if self.groups {
                step(x, v, Tok::Open, open + 1, true, leaves, visit);
            }
        } else {
            for o in self.ops {
                step(x, v, Tok::Inf(*o), open, true, leaves, visit);
            }
            for s in self.suf {
                // a `!` right after another one reads as `!!`
                if !matches!(v.last(), Some(Tok::Suf(0))) {
                    step(x, v, Tok::Suf(*s), open, false, leaves, visit);
                }
            }
            if open > 0 {
                step(x, v, Tok::Close, open - 1, false, leaves, visit);
            }
        }
    }
}
/// The tokens as a case name, and back.
pub fn encode(v: &[Tok]) -> String {
    v.iter().map(|t| t.text()).collect::<Vec<_>>().join("␟")
}
pub fn decode(s: &str) -> Option<Vec<Tok>> {
    let mut v: Vec<Tok> = vec![];
    for w in s.split('␟') {
        let t = if matches!(v.last(), Some(Tok::Leaf(..) | Tok::Suf(_) | Tok::Close)) {
            if w == ")" {
                Tok::Close
            } else if let Some(o) = INFIX.iter().find(|o| o.text == w) {
                Tok::Inf(*o)
            } else {
                Tok::Suf(SUFFIX.iter().position(|s| s.0 == w)?)
            }
        } else if w == "(" {
            Tok::Open
        } else if let Some(p) = PREFIX.iter().position(|s| s.0 == w) {
            Tok::Pre(p)
        } else {
            let (a, b) = KINDS.iter().flat_map(|k| (0..130).map(move |i| leaf(*k, i))).find(|l| l.0 == w)?;
            Tok::Leaf(a, b)
        };
        v.push(t);
    }
    Some(v)
}
