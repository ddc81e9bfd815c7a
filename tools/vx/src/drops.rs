//! Drop elaboration (option `drops`): what goes out of scope is handed to
//! `v_end`, whose precondition says what may be dropped there. Values leave at
//! the end of their block, at `break`, `continue` and `return`, when a live
//! variable is assigned, and as the unused result of a statement. A variable
//! moved on one path only, closures and `?` are refused.
//! Temporaries inside an expression and fields left behind by a move out of a
//! structure are not looked at.
use quote::format_ident;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::*;

type R<T> = std::result::Result<T, String>;
type State = BTreeMap<usize, bool>; // variable -> still holds a value

struct Loop { depth: usize, label: Option<String>, entry: State, breaks: Vec<State> }

pub struct Drops<'a> {
    moving: &'a BTreeSet<String>,
    scopes: Vec<Vec<(String, usize)>>,
    live: State,
    loops: Vec<Loop>,
    next: usize,
}

fn bound(p: &Pat) -> Vec<String> {
    struct B(Vec<String>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let n = p.ident.to_string();
            if p.by_ref.is_none() && !n.starts_with(char::is_uppercase) { self.0.push(n); }
            visit::visit_pat_ident(self, p);
        }
    }
    let mut b = B(vec![]);
    b.visit_pat(p);
    b.0
}

fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::Paren(p) => root(&p.expr),
        _ => None,
    }
}

fn end(n: &str) -> Stmt {
    let id = format_ident!("{}", n);
    parse_quote!(v_end(#id);)
}

pub fn elaborate(f: &mut ItemFn, moving: &BTreeSet<String>) -> R<()> {
    let mut d = Drops { moving, scopes: vec![vec![]], live: State::new(), loops: vec![], next: 0 };
    for a in &f.sig.inputs {
        if let FnArg::Typed(t) = a {
            if !matches!(&*t.ty, Type::Reference(_)) { for n in bound(&t.pat) { d.declare(n); } }
        }
    }
    let out = matches!(f.sig.output, ReturnType::Default);
    let stop = d.block(&mut f.block, !out)?;
    if !stop {
        let ends = d.ends(0);
        let tail = if out { None } else { pop_tail(&mut f.block) };
        match tail {
            Some(t) => { f.block.stmts.push(parse_quote!(let vx_r = #t;)); f.block.stmts.extend(ends); f.block.stmts.push(Stmt::Expr(parse_quote!(vx_r), None)); }
            None => f.block.stmts.extend(ends),
        }
    }
    Ok(())
}

fn pop_tail(b: &mut Block) -> Option<Expr> {
    if matches!(b.stmts.last(), Some(Stmt::Expr(_, None))) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.pop() { return Some(e); }
    }
    None
}

impl Drops<'_> {
    fn declare(&mut self, n: String) {
        self.scopes.last_mut().unwrap().push((n, self.next));
        self.live.insert(self.next, true);
        self.next += 1;
    }
    fn find(&self, n: &str) -> Option<usize> {
        self.scopes.iter().rev().find_map(|s| s.iter().rev().find(|(m, _)| m == n).map(|(_, k)| *k))
    }
    fn moved(&mut self, e: &Expr) {
        if let Some(k) = root(e).and_then(|n| self.find(&n)) { self.live.insert(k, false); }
    }
    /// live variables of the scopes from `depth` on, innermost first; a
    /// variable hidden by a later one of the same name cannot be named
    fn ends(&self, depth: usize) -> Vec<Stmt> {
        let mut seen = BTreeSet::new();
        let mut out = vec![];
        for s in self.scopes[depth..].iter().rev() {
            for (n, k) in s.iter().rev() {
                if seen.insert(n.clone()) && self.live[k] { out.push(end(n)); }
            }
        }
        out
    }
    fn hidden(&self) -> R<()> {
        let mut seen = BTreeSet::new();
        for s in self.scopes.iter().rev() {
            for (n, k) in s.iter().rev() {
                if !seen.insert(n.clone()) && self.live[k] { return Err(format!("`{n}` is hidden while it holds a value")); }
            }
        }
        Ok(())
    }
    fn join(&mut self, states: Vec<State>) -> R<bool> {
        let mut it = states.into_iter();
        let Some(first) = it.next() else { return Ok(true) };
        for s in it {
            for (k, v) in &first {
                if s.get(k).map_or(false, |w| w != v) { return Err("a variable is moved on one path only".into()); }
            }
        }
        self.live.extend(first);
        Ok(false)
    }
    /// the same variables hold values as at the start of the loop
    fn same(&self, entry: &State) -> R<()> {
        if entry.iter().any(|(k, v)| self.live[k] != *v) { return Err("a variable is moved inside a loop".into()); }
        Ok(())
    }

    /// true: the end of the block is not reached. `value`: the tail is used.
    fn block(&mut self, b: &mut Block, value: bool) -> R<bool> {
        self.scopes.push(vec![]);
        let mut out: Vec<Stmt> = vec![];
        let mut stop = false;
        let n = b.stmts.len();
        for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            match &mut s {
                Stmt::Local(l) => {
                    if let Some(init) = &mut l.init {
                        if init.diverge.is_some() { return Err("let-else".into()); }
                        stop |= self.expr(&mut init.expr, true)?;
                        if let Pat::Wild(_) = l.pat {
                            let e = &init.expr;
                            if !matches!(**e, Expr::Path(_)) { s = parse_quote!(v_end(#e);); }
                            out.push(s);
                            continue;
                        }
                    }
                    for v in bound(&l.pat) { self.declare(v); }
                    if let Stmt::Local(l) = &s { if l.init.is_none() { let k = self.next - 1; self.live.insert(k, false); } }
                    self.hidden()?;
                }
                Stmt::Expr(e, semi) => {
                    let tail = semi.is_none() && i + 1 == n;
                    let assign = matches!(e, Expr::Assign(_));
                    stop |= self.expr(e, tail && value)?;
                    if let (true, Expr::Block(x)) = (assign, &mut *e) { out.append(&mut x.block.stmts); continue; }
                    if semi.is_some() && matches!(e, Expr::Call(_) | Expr::MethodCall(_)) { *e = parse_quote!(v_end(#e)); }
                }
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
        if !stop {
            let ends = self.ends(self.scopes.len() - 1);
            if !ends.is_empty() {
                match pop_tail(b) {
                    Some(t) if value => { b.stmts.push(parse_quote!(let vx_r = #t;)); b.stmts.extend(ends); b.stmts.push(Stmt::Expr(parse_quote!(vx_r), None)); }
                    Some(t) => { b.stmts.push(Stmt::Expr(t, Some(Default::default()))); b.stmts.extend(ends); }
                    None => b.stmts.extend(ends),
                }
            }
        }
        self.scopes.pop();
        Ok(stop)
    }

    fn body(&mut self, b: &mut Block, binds: Vec<String>, value: bool) -> R<bool> {
        self.scopes.push(vec![]);
        for v in binds { self.declare(v); }
        self.hidden()?;
        let stop = self.block(b, value)?;
        if !stop {
            let ends = self.ends(self.scopes.len() - 1);
            if !ends.is_empty() {
                match if value { pop_tail(b) } else { None } {
                    Some(t) => { b.stmts.push(parse_quote!(let vx_r = #t;)); b.stmts.extend(ends); b.stmts.push(Stmt::Expr(parse_quote!(vx_r), None)); }
                    None => {
                        if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() { *semi = Some(Default::default()); }
                        b.stmts.extend(ends)
                    }
                }
            }
        }
        self.scopes.pop();
        Ok(stop)
    }

    fn cond(&mut self, c: &mut Expr) -> R<(bool, Vec<String>)> {
        match c {
            Expr::Let(l) => {
                let b = bound(&l.pat);
                let stop = self.scrutinee(&mut l.expr)?;
                Ok((stop, b))
            }
            c => Ok((self.expr(c, true)?, vec![])),
        }
    }
    fn scrutinee(&mut self, e: &mut Expr) -> R<bool> {
        self.expr(e, root(e).is_none())
    }

    /// true: control does not come out of the expression
    fn expr(&mut self, e: &mut Expr, value: bool) -> R<bool> {
        match e {
            Expr::Path(_) => { if value { let c = e.clone(); self.moved(&c); } Ok(false) }
            Expr::Field(f) => { if value && root(&f.base).is_some() { let c = (*f.base).clone(); self.moved(&c); Ok(false) } else { self.expr(&mut f.base, false) } }
            Expr::Paren(p) => self.expr(&mut p.expr, value),
            Expr::Reference(r) => self.expr(&mut r.expr, false),
            Expr::Unary(u) => self.expr(&mut u.expr, false),
            Expr::Cast(c) => self.expr(&mut c.expr, false),
            Expr::Lit(_) => Ok(false),
            Expr::Binary(b) => { let l = self.expr(&mut b.left, false)?; Ok(self.expr(&mut b.right, false)? || l) }
            Expr::Index(i) => { let l = self.expr(&mut i.expr, false)?; Ok(self.expr(&mut i.index, true)? || l) }
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "drop")) => {
                c.func = parse_quote!(v_end);
                self.expr(&mut c.args[0], true)
            }
            Expr::Call(c) => { let mut s = false; for a in c.args.iter_mut() { s |= self.expr(a, true)?; } Ok(s) }
            Expr::MethodCall(c) => {
                let by_value = self.moving.contains(&c.method.to_string()) || c.method.to_string().starts_with("into_");
                let mut s = self.expr(&mut c.receiver, by_value)?;
                for a in c.args.iter_mut() { s |= self.expr(a, true)?; }
                Ok(s)
            }
            Expr::Tuple(t) => { let mut s = false; for a in t.elems.iter_mut() { s |= self.expr(a, true)?; } Ok(s) }
            Expr::Struct(t) => { let mut s = false; for a in t.fields.iter_mut() { s |= self.expr(&mut a.expr, true)?; } Ok(s) }
            Expr::Assign(a) => {
                let s = self.expr(&mut a.right, true)?;
                let Expr::Path(p) = &*a.left else { return Err("assignment to a place".into()) };
                let Some(k) = self.find(&p.path.segments[0].ident.to_string()) else { return Ok(s) };
                if self.live[&k] {
                    let (l, r) = (&a.left, &a.right);
                    *e = parse_quote!({ let vx_new = #r; v_end(#l); #l = vx_new; });
                }
                self.live.insert(k, true);
                Ok(s)
            }
            Expr::Block(b) if b.label.is_none() => self.block(&mut b.block, value),
            Expr::If(i) => {
                let (s, binds) = self.cond(&mut i.cond)?;
                if s { return Ok(true); }
                let scrut = match &*i.cond { Expr::Let(l) if root(&l.expr).is_some() && !binds.is_empty() => Some((*l.expr).clone()), _ => None };
                let start = self.live.clone();
                let mut outs = vec![];
                if let Some(x) = scrut { self.moved(&x); }
                if !self.body(&mut i.then_branch, binds, value)? { outs.push(self.live.clone()); }
                self.live = { let mut l = self.live.clone(); l.extend(start.clone()); l };
                match &mut i.else_branch {
                    Some((_, x)) => { if !self.expr(x, value)? { outs.push(self.live.clone()); } }
                    None => outs.push(start),
                }
                self.join(outs)
            }
            Expr::Match(m) => {
                if self.scrutinee(&mut m.expr)? { return Ok(true); }
                let start = self.live.clone();
                let mut outs = vec![];
                for a in m.arms.iter_mut() {
                    self.live.extend(start.clone());
                    if a.guard.is_some() { return Err("guard".into()); }
                    let binds = bound(&a.pat);
                    if !binds.is_empty() && root(&m.expr).is_some() { let x = (*m.expr).clone(); self.moved(&x); }
                    let body = &a.body;
                    let mut b: Block = match &**body { Expr::Block(b) if b.label.is_none() => b.block.clone(), o => parse_quote!({ #o }) };
                    if !self.body(&mut b, binds, value)? { outs.push(self.live.clone()); }
                    *a.body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                }
                self.join(outs)
            }
            Expr::Loop(l) => {
                let label = l.label.as_ref().map(|x| x.name.ident.to_string());
                self.looped(label, &mut l.body, vec![], false)
            }
            Expr::While(w) => {
                let (s, binds) = self.cond(&mut w.cond)?;
                if s { return Ok(true); }
                if matches!(&*w.cond, Expr::Let(l) if root(&l.expr).is_some()) { return Err("while let over a variable".into()); }
                let label = w.label.as_ref().map(|x| x.name.ident.to_string());
                self.looped(label, &mut w.body, binds, true)
            }
            Expr::ForLoop(w) => {
                if self.expr(&mut w.expr, true)? { return Ok(true); }
                Err("for loop over values that are dropped".into())
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr { self.expr(x, true)?; }
                let ends = self.ends(0);
                let v = &r.expr;
                *e = match v { Some(v) => parse_quote!({ let vx_r = #v; #(#ends)* return vx_r; }), None => parse_quote!({ #(#ends)* return; }) };
                Ok(true)
            }
            Expr::Break(b) => {
                if b.expr.is_some() { return Err("break with a value".into()); }
                let k = self.target(&b.label)?;
                let ends = self.ends(self.loops[k].depth);
                let s = self.live.clone();
                self.loops[k].breaks.push(s);
                let x = e.clone();
                *e = parse_quote!({ #(#ends)* #x; });
                Ok(true)
            }
            Expr::Continue(c) => {
                let k = self.target(&c.label)?;
                self.same(&self.loops[k].entry.clone())?;
                let ends = self.ends(self.loops[k].depth);
                let x = e.clone();
                *e = parse_quote!({ #(#ends)* #x; });
                Ok(true)
            }
            Expr::Macro(_) => Ok(false),
            _ => Err("an expression whose drops are not known".into()),
        }
    }
    fn target(&self, label: &Option<Lifetime>) -> R<usize> {
        match label {
            None => self.loops.len().checked_sub(1).ok_or_else(|| "break".into()),
            Some(l) => self.loops.iter().rposition(|x| x.label.as_deref() == Some(&l.ident.to_string())).ok_or_else(|| "label".into()),
        }
    }
    fn looped(&mut self, label: Option<String>, b: &mut Block, binds: Vec<String>, exits: bool) -> R<bool> {
        let entry = self.live.clone();
        self.loops.push(Loop { depth: self.scopes.len(), label, entry: entry.clone(), breaks: vec![] });
        if !self.body(b, binds, false)? { self.same(&entry)?; }
        let mut l = self.loops.pop().unwrap();
        if exits { l.breaks.push(entry); }
        self.join(l.breaks)
    }
}
