//! Inlining of helpers that carry no contract, so that extracting a helper
//! from a function under contract does not change what is verified.
use quote::format_ident;
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Scan { ret: bool, loops: bool, name: String, rec: bool }
impl<'a> Visit<'a> for Scan {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) { self.ret = true; visit::visit_expr_return(self, r); }
    fn visit_expr_try(&mut self, r: &'a ExprTry) { self.ret = true; visit::visit_expr_try(self, r); }
    fn visit_expr_while(&mut self, r: &'a ExprWhile) { self.loops = true; visit::visit_expr_while(self, r); }
    fn visit_expr_loop(&mut self, r: &'a ExprLoop) { self.loops = true; visit::visit_expr_loop(self, r); }
    fn visit_expr_for_loop(&mut self, r: &'a ExprForLoop) { self.loops = true; visit::visit_expr_for_loop(self, r); }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_path(&mut self, p: &'a ExprPath) { if p.path.is_ident(&self.name) { self.rec = true; } }
}

fn params(h: &ItemFn) -> std::result::Result<Vec<(Pat, Type)>, String> {
    let mut v = vec![];
    for a in &h.sig.inputs {
        match a {
            FnArg::Typed(t) => v.push(((*t.pat).clone(), (*t.ty).clone())),
            FnArg::Receiver(_) => {}
        }
    }
    Ok(v)
}

struct Inl<'a> { h: &'a ItemFn, ps: Vec<(Pat, Type)>, ret: bool, err: Option<String>, depth: usize, n: usize, caller_ret: ReturnType }

impl Inl<'_> {
    fn body(&mut self, args: Vec<Expr>, tail: bool) -> Option<Expr> {
        if self.ret && !tail { return None; }
        let mut stmts: Vec<Stmt> = vec![];
        // bind arguments first (fresh names), then parameters, to avoid capture
        let mut tmp = vec![];
        for a in args {
            self.n += 1;
            let id = format_ident!("vx_a{}", self.n);
            stmts.push(parse_quote!(let #id = #a;));
            tmp.push(id);
        }
        for ((p, _t), id) in self.ps.clone().into_iter().zip(tmp) {
            stmts.push(parse_quote!(let #p = #id;));
        }
        stmts.extend(self.h.block.stmts.clone());
        let b = Block { brace_token: Default::default(), stmts };
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }))
    }
}

impl VisitMut for Inl<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // return helper(..)  with early exits: the helper's returns become ours
        if let Expr::Return(r) = e {
            if let Some(Expr::Call(c)) = r.expr.as_deref() {
                if let Expr::Path(p) = &*c.func {
                    if p.path.is_ident(&self.h.sig.ident) {
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        if let Some(b) = self.body(args, true) { *e = parse_quote!(return #b); }
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(&self.h.sig.ident) {
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    match self.body(args, false) {
                        Some(b) => *e = b,
                        None => self.err = Some("early return inside the helper".into()),
                    }
                }
            }
        }
    }
}

pub fn inline_calls(f: &mut ItemFn, h: &ItemFn) -> std::result::Result<(), String> {
    let mut s = Scan { ret: false, loops: false, name: h.sig.ident.to_string(), rec: false };
    s.visit_block(&h.block);
    if s.rec { return Err("recursive".into()); }
    let mut v = Inl { h, ps: params(h)?, ret: s.ret, err: None, depth: 0, n: 0, caller_ret: f.sig.output.clone() };
    let _ = (&v.depth, &v.caller_ret);
    // tail position call
    if let Some(Stmt::Expr(Expr::Call(c), None)) = f.block.stmts.last().cloned() {
        if let Expr::Path(p) = &*c.func {
            if p.path.is_ident(&h.sig.ident) {
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if let Some(b) = v.body(args, true) { *f.block.stmts.last_mut().unwrap() = Stmt::Expr(b, None); }
            }
        }
    }
    v.visit_block_mut(&mut f.block);
    match v.err { Some(e) => Err(e), None => Ok(()) }
}

struct InlM<'a> { ms: &'a BTreeMap<String, &'a ItemFn>, hit: bool, err: Option<String>, n: usize }
impl VisitMut for InlM<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let (name, args): (String, Vec<Expr>) = match e {
            Expr::MethodCall(m) => match &*m.receiver {
                Expr::Path(p) if p.path.is_ident("self") => (m.method.to_string(), m.args.iter().cloned().collect()),
                _ => return,
            },
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" => (p.path.segments[1].ident.to_string(), c.args.iter().cloned().collect()),
                _ => return,
            },
            _ => return,
        };
        let Some(h) = self.ms.get(&name) else { return };
        let mut s = Scan { ret: false, loops: false, name: name.clone(), rec: false };
        s.visit_block(&h.block);
        if s.ret || s.loops { self.err = Some(format!("calls `{name}`, which has no contract and cannot be inlined")); return; }
        let mut stmts: Vec<Stmt> = vec![];
        let mut tmp = vec![];
        for a in args {
            self.n += 1;
            let id = format_ident!("vx_b{}", self.n);
            stmts.push(parse_quote!(let #id = #a;));
            tmp.push(id);
        }
        for ((p, _), id) in params(h).unwrap().into_iter().zip(tmp) { stmts.push(parse_quote!(let #p = #id;)); }
        stmts.extend(h.block.stmts.clone());
        *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } });
        self.hit = true;
    }
}
pub fn inline_methods(f: &mut ItemFn, ms: &BTreeMap<String, &ItemFn>) -> std::result::Result<bool, String> {
    if ms.is_empty() { return Ok(false); }
    let mut v = InlM { ms, hit: false, err: None, n: 0 };
    v.visit_block_mut(&mut f.block);
    match v.err { Some(e) => Err(e), None => Ok(v.hit) }
}
