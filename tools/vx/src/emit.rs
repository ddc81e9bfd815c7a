//! Output: tokens to text, splicing ghost text at the markers.
use crate::contracts::FnContract;
use crate::rewrite::Rewritten;
use crate::Found;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::*;

pub static CANARY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Emitter { out: String, line: usize, pub map: Vec<(String, usize, usize, String)>, depth: usize }

impl Emitter {
    pub fn new() -> Self { Emitter { out: String::new(), line: 1, map: vec![], depth: 0 } }
    fn put(&mut self, s: &str) { self.line += s.matches('\n').count(); self.out.push_str(s); }
    pub fn raw(&mut self, s: &str, name: &str) {
        let a = self.line;
        self.put(s);
        self.put("\n");
        self.map.push((name.to_string(), a, self.line, "ghost".into()));
    }
    pub fn open_module(&mut self, m: &str, text: &str) {
        self.put("verus! {\n");
        if !m.is_empty() {
            for seg in m.split("::") { self.put(&format!("pub mod {seg} {{\n")); self.depth += 1; }
        }
        self.put(text);
        self.put("\n");
    }
    pub fn close_module(&mut self, m: &str) {
        if !m.is_empty() { for _ in m.split("::") { self.put("}\n"); } }
        self.put("} // verus!\n");
    }
    pub fn item(&mut self, it: &Item, opts: &BTreeMap<String, String>) {
        if let Some(d) = opts.get("derive") { self.put(&format!("#[derive({})]\n", d.replace(',', ", "))); }
        if let Some(d) = opts.get("attr") { self.put(&format!("#[{d}]\n")); }
        let mut p = Printer::new(&[], "");
        p.stream(it.to_token_stream());
        let s = p.done();
        self.put(&s);
        self.put("\n");
    }
    pub fn function(&mut self, found: &Found, r: Rewritten, c: &FnContract, stub: bool) {
        let a = self.line;
        let mut f = r.func;
        if stub { f.block = parse_quote!({ unimplemented!() }); }
        else if CANARY.load(std::sync::atomic::Ordering::SeqCst) {
            let at = f.block.stmts.iter().take_while(|s| matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("vx_ghost"))).count();
            f.block.stmts.insert(at, parse_quote!(assert(false);));
        }
        let attr = if stub { "#[verifier::external_body]\n" } else { "" };
        let extra = c.opts.get("fnattr").map(|s| format!("#[{}]\n", s.replace('~', " "))).unwrap_or_default();
        let sig = f.sig.to_token_stream();
        let block = f.block.to_token_stream();
        let vis = &f.vis;
        let trait_impl = found.trait_name.is_some() && !(c.opts.contains_key("free") || c.opts.contains_key("inst"));
        let mut p = Printer::new(&r.ghosts, &r.spec);
        match (&found.impl_item, (c.opts.contains_key("free") || c.opts.contains_key("inst"))) {
            (Some(im), false) => {
                let mut gen = im.generics.clone();
                if let Some(m) = c.opts.get("mono") {
                    let names: Vec<&str> = m.split(';').filter_map(|kv| kv.split_once(':').map(|x| x.0)).collect();
                    let n = gen.params.len();
                    gen.params = gen.params.into_iter().filter(|p| match p { GenericParam::Type(t) => !names.contains(&t.ident.to_string().as_str()), _ => true }).collect();
                    if gen.params.len() != n { gen.where_clause = None; }
                }
                // #[derive(Clone)] bounds each parameter; items are cloned by contract
                for q in gen.params.iter_mut() {
                    if let GenericParam::Type(t) = q {
                        t.bounds = std::mem::take(&mut t.bounds).into_iter().filter(|b| !matches!(b, TypeParamBound::Trait(b) if b.path.segments.last().is_some_and(|s| s.ident == "Clone"))).collect();
                        if t.bounds.is_empty() { t.colon_token = None; }
                    }
                }
                let (g, _, w) = gen.split_for_impl();
                let ty = &im.self_ty;
                if c.opts.contains_key("keeptrait") {
                    let (_, tp, _) = im.trait_.as_ref().unwrap();
                    p.stream(quote!(impl #g #tp for #ty #w));
                } else {
                    p.stream(quote!(impl #g #ty #w));
                }
                p.text(" {\n");
            }
            // a default method of a trait, for one implementing type
            (None, _) if c.opts.contains_key("for") => p.text(&format!("impl {} {{\n", c.opts["for"])),
            _ => {}
        }
        p.text(attr);
        if !stub && !c.loops.is_empty() && !c.opts.contains_key("isolate") { p.text("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n"); }
        p.text(&extra);
        if !(trait_impl && c.opts.contains_key("keeptrait")) { p.stream(quote!(#vis)); }
        p.stream(sig);
        p.text("\n");
        p.text(&r.spec);
        p.stream(block);
        if c.opts.contains_key("for") || found.impl_item.is_some() && !(c.opts.contains_key("free") || c.opts.contains_key("inst")) { p.text("\n}\n"); }
        let s = p.done();
        self.put(&s);
        self.put("\n");
        self.map.push((c.id(), a, self.line, if stub { "stub".into() } else { "verify".into() }));
    }
    pub fn finish(&self) -> String {
        format!("{}\nfn main() {{}}\n", self.out)
    }
}

struct Printer<'a> { out: String, ghosts: &'a [String], indent: usize, nl: bool, joint: bool }
impl<'a> Printer<'a> {
    fn new(ghosts: &'a [String], _spec: &str) -> Self { Printer { out: String::new(), ghosts, indent: 1, nl: true, joint: false } }
    fn done(self) -> String { self.out }
    fn text(&mut self, s: &str) { self.out.push_str(s); self.nl = s.ends_with('\n'); self.joint = false; }
    fn newline(&mut self) { if !self.nl { self.out.push('\n'); } self.nl = true; }
    fn tok(&mut self, s: &str) {
        if self.nl { for _ in 0..self.indent { self.out.push_str("    "); } } else if !self.joint { self.out.push(' '); }
        self.out.push_str(s);
        self.nl = false;
        self.joint = false;
    }
    fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // marker macros: name ! ( N ) ;
            if let (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
                if p.as_char() == '!' && (id == "vx_ghost" || id == "vx_loop") {
                    let n: usize = g.stream().to_string().trim_end_matches("usize").trim().parse().unwrap();
                    if id == "vx_ghost" { self.newline(); let t = self.ghosts[n].clone(); self.text(&t); self.newline(); }
                    i += 3;
                    if let Some(TokenTree::Punct(p)) = v.get(i) { if p.as_char() == ';' { i += 1; } }
                    continue;
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                    if g.delimiter() == Delimiter::Brace {
                        // loop spec?
                        let inner: Vec<TokenTree> = g.stream().into_iter().take(3).collect();
                        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(gg))) = (inner.first(), inner.get(2)) {
                            if id == "vx_loop" {
                                let n: usize = gg.stream().to_string().trim_end_matches("usize").trim().parse().unwrap();
                                self.newline();
                                let t = self.ghosts[n].clone();
                                self.text(&t);
                                self.newline();
                            }
                        }
                        self.tok(o);
                        self.newline();
                        self.indent += 1;
                        self.stream(g.stream());
                        self.newline();
                        self.indent -= 1;
                        self.tok(c);
                        let cont = matches!(v.get(i + 1), Some(TokenTree::Ident(x)) if x == "else") || matches!(v.get(i + 1), Some(TokenTree::Punct(_)));
                        if !cont { self.newline(); }
                    } else {
                        self.tok(o);
                        self.joint = true;
                        self.stream(g.stream());
                        self.joint = true;
                        self.tok(c);
                    }
                }
                TokenTree::Punct(p) => {
                    let glue = matches!(p.as_char(), ';' | ',' | '.' | '?');
                    if glue { self.joint = true; }
                    self.tok(&p.as_char().to_string());
                    self.joint = p.spacing() == Spacing::Joint || matches!(p.as_char(), '.' | '&' | '\'' );
                    if p.as_char() == '&' && p.spacing() == Spacing::Alone { self.joint = true; }
                    if p.as_char() == ';' { self.newline(); }
                    if p.as_char() == ',' && self.indent > 1 && matches!(v.get(i.wrapping_sub(1)), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace) { self.newline(); }
                }
                TokenTree::Ident(x) => { let s = x.to_string(); self.tok(&s); }
                TokenTree::Literal(x) => { let s = x.to_string(); self.tok(&s); }
            }
            i += 1;
        }
    }
}
