//! instrument SRC DST LEVEL [SKIP...]: copies the crate sources in SRC to DST.
//! Level 1 makes `std` resolve to mystd; level 2 also puts a scheduling point before every
//! statement and splits the updates of `static mut` variables into a read and a write.
//! Files named in SKIP are copied as they are.
use quote::quote;
use std::collections::BTreeSet;
use std::path::Path;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Points {
    statics: BTreeSet<String>,
    n: usize,
}
fn static_name(e: &Expr, s: &BTreeSet<String>) -> bool {
    matches!(e, Expr::Path(p) if p.path.segments.last().map_or(false, |x| s.contains(&x.ident.to_string())))
}
impl VisitMut for Points {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            if !matches!(s, Stmt::Item(_)) {
                out.push(parse_quote!(::mystd::point();));
                self.n += 1;
            }
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::Assign(a) if static_name(&a.left, &self.statics) => {
                let (l, r) = (&a.left, &a.right);
                Some(parse_quote!({ let __value = #r; ::mystd::point(); #l = __value; }))
            }
            Expr::Binary(b) if static_name(&b.left, &self.statics) => {
                let (l, r) = (&b.left, &b.right);
                let op = match b.op {
                    BinOp::AddAssign(_) => quote!(+),
                    BinOp::SubAssign(_) => quote!(-),
                    BinOp::MulAssign(_) => quote!(*),
                    BinOp::DivAssign(_) => quote!(/),
                    BinOp::RemAssign(_) => quote!(%),
                    BinOp::BitXorAssign(_) => quote!(^),
                    BinOp::BitAndAssign(_) => quote!(&),
                    BinOp::BitOrAssign(_) => quote!(|),
                    _ => return,
                };
                Some(parse_quote!({ let __value = #l #op (#r); ::mystd::point(); #l = __value; }))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n
        }
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if f.sig.constness.is_none() {
            visit_mut::visit_item_fn_mut(self, f)
        }
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        if f.sig.constness.is_none() {
            visit_mut::visit_impl_item_fn_mut(self, f)
        }
    }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_impl_item_const_mut(&mut self, _: &mut ImplItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_expr_const_mut(&mut self, _: &mut ExprConst) {}
    fn visit_expr_repeat_mut(&mut self, _: &mut ExprRepeat) {}
}
struct Statics(BTreeSet<String>);
impl VisitMut for Statics {
    fn visit_item_static_mut(&mut self, i: &mut ItemStatic) {
        if matches!(i.mutability, StaticMutability::Mut(_)) {
            self.0.insert(i.ident.to_string());
        }
    }
}
fn files(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(d).expect("source folder") {
        let p = e.unwrap().path();
        if p.is_dir() {
            files(&p, out)
        } else {
            out.push(p)
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, dst, level) = (Path::new(&a[1]), Path::new(&a[2]), a[3].parse::<u8>().unwrap());
    let mut fs = vec![];
    files(src, &mut fs);
    fs.sort();
    let mut st = Statics(BTreeSet::new());
    for f in &fs {
        if f.extension().map_or(false, |x| x == "rs") && !a[4..].iter().any(|s| f.ends_with(s)) {
            if let Ok(mut t) = parse_file(&std::fs::read_to_string(f).unwrap()) {
                st.visit_file_mut(&mut t);
            }
        }
    }
    let mut v = Points { statics: st.0, n: 0 };
    for f in &fs {
        let rel = f.strip_prefix(src).unwrap();
        let to = dst.join(rel);
        std::fs::create_dir_all(to.parent().unwrap()).unwrap();
        let root = rel == Path::new("lib.rs");
        if f.extension().map_or(true, |x| x != "rs") || (a[4..].iter().any(|s| f.ends_with(s)) && !root) {
            std::fs::copy(f, &to).unwrap();
            continue;
        }
        let text = std::fs::read_to_string(f).unwrap();
        let mut t = match parse_file(&text) {
            Ok(t) => t,
            Err(_) => {
                std::fs::write(&to, text).unwrap();
                continue;
            }
        };
        if level >= 2 {
            v.visit_file_mut(&mut t);
        }
        if root {
            t.attrs.push(parse_quote!(#![feature(prelude_import)]));
            t.attrs.push(parse_quote!(#![no_std]));
            t.items.insert(0, parse_quote!(#[macro_use] extern crate mystd as std;));
            t.items.insert(1, parse_quote!(#[prelude_import] #[allow(unused_imports)] use std::prelude::rust_2018::*;));
        }
        std::fs::write(&to, quote!(#t).to_string()).unwrap();
    }
    println!("{} points, {} mutable statics", v.n, v.statics.len());
}
