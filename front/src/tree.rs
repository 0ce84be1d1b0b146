//! The syntax tree as the properties see it: no positions, no attributes, no operator spelling.
use num::BigInt;
use sm_ast::AST;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum T {
    Empty,
    Bool(bool),
    Int(BigInt),
    /// the printed decimal
    Dec(String),
    Sym(String),
    Str(String),
    /// head (with its name space), one argument list per bracket: positional, keyword
    Fun(String, Vec<(Vec<T>, Vec<(T, T)>)>),
}
pub fn int(n: i64) -> T {
    T::Int(BigInt::from(n))
}
pub fn sym(s: &str) -> T {
    T::Sym(s.into())
}
pub fn fun(h: &str, a: Vec<T>) -> T {
    T::Fun(h.into(), vec![(a, vec![])])
}
fn name(ns: &[String], n: &str) -> String {
    // a part that was not taken apart must not look like several
    let part = |s: &str| if s.contains("::") || s.contains('∷') { format!("<{}>", s.replace("::", "|").replace('∷', "|")) } else { s.to_string() };
    ns.iter().map(|s| part(s)).chain(std::iter::once(part(n))).collect::<Vec<_>>().join("::")
}
pub fn view(a: &AST) -> T {
    match a {
        AST::EmptyStatement => T::Empty,
        AST::Boolean(b) => T::Bool(*b),
        AST::Integer(i) => T::Int(i.clone()),
        AST::Decimal(d) => T::Dec(d.to_string()),
        AST::Symbol(s) => T::Sym(name(&s.name_space, &s.name)),
        AST::String(s) => T::Str(s.clone()),
        AST::Program(v) => fun("program", v.iter().map(view).collect()),
        AST::Function(s, ps) => T::Fun(
            name(&s.name_space, &s.name),
            ps.iter().map(|p| (p.arguments.iter().map(view).collect(), p.options.iter().map(|(k, v)| (view(k), view(v))).collect())).collect(),
        ),
    }
}
impl T {
    pub fn show(&self) -> String {
        match self {
            T::Empty => "<empty>".into(),
            T::Bool(b) => b.to_string(),
            T::Int(i) => i.to_string(),
            T::Dec(d) => d.clone(),
            T::Sym(s) => s.clone(),
            T::Str(s) => format!("{s:?}"),
            T::Fun(h, ps) => {
                let mut o = h.clone();
                for (a, k) in ps {
                    let mut v: Vec<String> = a.iter().map(|x| x.show()).collect();
                    v.extend(k.iter().map(|(k, x)| format!("{}: {}", k.show(), x.show())));
                    o += &format!("({})", v.join(", "));
                }
                o
            }
        }
    }
}
pub fn parse(s: &str) -> Result<AST, String> {
    sm_ast::parser::ParserSettings::default().parse(s).map_err(|e| format!("refused: {}", format!("{e:?}").replace('\n', " ")))
}
/// What the parser reads, seen as a tree.
pub fn read(s: &str) -> Result<T, String> {
    parse(s).map(|a| view(&a))
}
pub fn expect(text: &str, want: &T) -> Result<u64, String> {
    let got = read(text).map_err(|e| format!("{e}, expected {}", want.show()))?;
    if got != *want {
        return Err(format!("read as {}, expected {}", got.show(), want.show()));
    }
    Ok(mc::hash(&got.show()))
}
