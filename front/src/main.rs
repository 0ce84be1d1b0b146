//! Explorers of the language front end: parser, printer, exporters, evaluator, session.
mod files;
mod forms;
mod grammar;
mod literals;
mod memory;
mod numbers;
mod peg;
mod programs;
mod session;
mod shapes;
mod totality;
mod tree;
mod values;
mod walks;
pub fn tier() -> mc::Tier {
    mc::tier()
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("probe") {
        use sm_ast::{ToTex, ToWolfram};
        std::panic::set_hook(Box::new(|_| {}));
        for l in std::io::stdin().lines() {
            let l = mc::unesc(&l.unwrap());
            let g = |f: &dyn Fn() -> String| mc::guarded(f).unwrap_or_else(|_| "PANIC".into());
            match mc::guarded(|| tree::parse(&l)) {
                Err(_) => println!("{l:24} PANIC"),
                Ok(Err(e)) => println!("{l:24} {}", &e[..e.len().min(60)]),
                Ok(Ok(a)) => println!("{l:24} {}  | disp {} | wl {} | tex {} | ev {}", tree::view(&a).show(), g(&|| a.to_string()), g(&|| a.to_wolfram_string()), g(&|| a.to_tex()), g(&|| format!("{:?}", sm_ast::Runner::default().evaluate(&l)))),
            }
        }
        return;
    }
    if std::env::args().nth(1).as_deref() == Some("tokens") {
        for l in std::io::stdin().lines() {
            let l = mc::unesc(&l.unwrap());
            println!("{l}\n    {}", peg::dump(&l));
        }
        return;
    }
    mc::main(vec![
        Box::new(walks::Precedence),
        Box::new(walks::Printing),
        Box::new(literals::Literals),
        Box::new(literals::Products),
        Box::new(session::Answers),
        Box::new(session::Sessions),
        Box::new(shapes::Sugar),
        Box::new(shapes::Spelling),
        Box::new(shapes::Wolfram),
        Box::new(shapes::Tex),
        Box::new(totality::Total),
        Box::new(totality::Order),
        Box::new(totality::Parts),
        Box::new(files::Files),
        Box::new(shapes::Blanks),
        Box::new(shapes::Positions),
        Box::new(peg::Conform),
        Box::new(programs::Programs),
        Box::new(numbers::Numbers),
        Box::new(memory::Memory),
        Box::new(values::Values),
    ])
}
