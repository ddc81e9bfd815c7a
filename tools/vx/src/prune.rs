//! Outside of a procedural macro: `inside_proc_macro()` is false and no value
//! holds the compiler's kind of token. The compiler's variants, the match arms
//! for them and the branches taken inside a macro are left out; conversions
//! from and to `proc_macro` types are not collected.
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub static KEEP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn compilers(p: &Path) -> bool {
    p.segments.len() > 1 && p.segments.last().map_or(false, |s| s.ident == "Compiler" || s.ident == "CompilerPanic")
}
fn mentions(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V { fn visit_path(&mut self, p: &'a Path) { if compilers(p) { self.0 = true; } visit::visit_path(self, p); } }
    let mut v = V(false);
    visit::Visit::visit_pat(&mut v, p);
    v.0
}
/// true: nothing is left of the pattern
fn shrink(p: &mut Pat) -> bool {
    if let Pat::Or(o) = p {
        let old = std::mem::take(&mut o.cases);
        o.cases = old.into_iter().filter(|c| !mentions(c)).collect();
        return o.cases.is_empty();
    }
    mentions(p)
}
struct Prune;
fn constant(e: &Expr) -> Option<bool> {
    match e {
        Expr::Paren(p) => constant(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => constant(&u.expr).map(|b| !b),
        Expr::Call(c) if c.args.is_empty() => match &*c.func { Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "inside_proc_macro") => Some(false), _ => None },
        _ => None,
    }
}
impl VisitMut for Prune {
    fn visit_item_enum_mut(&mut self, e: &mut ItemEnum) {
        let old = std::mem::take(&mut e.variants);
        e.variants = old.into_iter().filter(|v| v.ident != "Compiler" && v.ident != "CompilerPanic").collect();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Match(m) = e { m.arms.retain_mut(|a| !shrink(&mut a.pat)); }
        if let Expr::If(i) = e {
            if let Some(b) = constant(&i.cond) {
                let new: Expr = if b { let t = &i.then_branch; parse_quote!(#t) } else { match &i.else_branch { Some((_, x)) => (**x).clone(), None => parse_quote!({}) } };
                *e = new;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// `let p = match x { A => return a, .. }; rest`, every arm returning: the rest is never reached
struct Reach;
impl VisitMut for Reach {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let hit = b.stmts.iter().position(|s| matches!(s, Stmt::Local(Local { init: Some(LocalInit { expr, diverge: None, .. }), .. })
            if matches!(&**expr, Expr::Match(m) if !m.arms.is_empty() && m.arms.iter().all(|a| matches!(&*a.body, Expr::Return(_))))));
        if let Some(k) = hit {
            b.stmts.truncate(k + 1);
            let Some(Stmt::Local(l)) = b.stmts.pop() else { return };
            let Expr::Match(mut m) = *l.init.unwrap().expr else { return };
            for a in &mut m.arms {
                if let Expr::Return(r) = &mut *a.body { let e: Expr = match r.expr.take() { Some(e) => *e, None => parse_quote!(()) }; *a.body = e; }
            }
            b.stmts.push(parse_quote!(return #m;));
        }
    }
}
pub fn prune(f: &mut File) { Prune.visit_file_mut(f); Reach.visit_file_mut(f); }

/// an impl that converts from or to a type of the compiler's
pub fn foreign(im: &ItemImpl) -> bool {
    fn pm(p: &Path) -> bool { p.segments.first().map_or(false, |s| s.ident == "proc_macro") }
    struct V(bool);
    impl<'a> visit::Visit<'a> for V { fn visit_path(&mut self, p: &'a Path) { if pm(p) { self.0 = true; } visit::visit_path(self, p); } }
    let mut v = V(false);
    visit::Visit::visit_type(&mut v, &im.self_ty);
    if let Some((_, p, _)) = &im.trait_ { visit::Visit::visit_path(&mut v, p); }
    v.0
}
