//! The specification as an executable oracle: the very text the verifier
//! proves the code against, with `int` as i64 and sequences as shared slices.
use quote::quote;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Own;
impl Own {
    fn value(&mut self, e: &mut Expr) {
        match e {
            Expr::Path(p) if p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() => {
                let n = p.path.segments[0].ident.to_string();
                if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { *e = parse_quote!(#e.clone()); }
            }
            Expr::Field(_) | Expr::Index(_) => { self.place(e); *e = parse_quote!(#e.clone()); }
            _ => self.go(e),
        }
    }
    /// an expression used through a reference
    fn place(&mut self, e: &mut Expr) {
        match e {
            Expr::Path(_) => {}
            Expr::Field(f) => self.place(&mut f.base),
            Expr::Index(i) => { self.place(&mut i.expr); self.value(&mut i.index); }
            _ => self.value(e),
        }
    }
    fn go(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) => { self.place(&mut m.receiver); for a in m.args.iter_mut() { self.value(a); } }
            Expr::Call(c) => { if !matches!(&*c.func, Expr::Path(_)) { self.value(&mut c.func); } for a in c.args.iter_mut() { self.value(a); } }
            Expr::Macro(m) if m.mac.path.is_ident("seq") => {
                let mut p: Punctuated<Expr, Token![,]> = m.mac.parse_body_with(Punctuated::parse_terminated).expect("seq!");
                for a in p.iter_mut() { self.value(a); }
                m.mac.tokens = quote!(#p);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
impl VisitMut for Own {
    fn visit_expr_mut(&mut self, e: &mut Expr) { self.value(e); }
}

pub fn run(out: &str, files: &[String]) {
    let mut text = String::from("// generated by vx --exec; do not edit\n");
    for f in files {
        let src = std::fs::read_to_string(f).unwrap_or_else(|e| crate::die(&format!("{f}: {e}")));
        let mut plain = String::new();
        for l in src.lines() {
            let t = l.trim_start();
            if t.starts_with("decreases ") || t.starts_with("#[verifier") || t.starts_with("recommends ") { continue; }
            plain += &l.replace("pub open spec fn", "pub fn").replace("pub closed spec fn", "pub fn");
            plain.push('\n');
        }
        let mut file = syn::parse_file(&plain).unwrap_or_else(|e| crate::die(&format!("{f}: {e}")));
        for it in &mut file.items {
            match it {
                Item::Fn(f) => Own.visit_block_mut(&mut f.block),
                Item::Enum(e) => e.attrs.push(parse_quote!(#[derive(Clone, PartialEq, Debug)])),
                Item::Struct(e) => e.attrs.push(parse_quote!(#[derive(Clone, PartialEq, Debug)])),
                _ => {}
            }
            text += &quote!(#it).to_string();
            text.push('\n');
        }
    }
    std::fs::write(out, text).unwrap();
}
