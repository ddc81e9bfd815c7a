//! The mechanical rewrites applied to an extracted function. Each is a
//! meaning-preserving desugaring or a renaming onto a shim with an assumed
//! contract; nothing here looks at what the function is supposed to do.
use crate::contracts::*;
use crate::Found;
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// std methods that are renamed to a shim method `v_<name>` with a contract.
pub const RENAMED: &[&str] = &[
    "starts_with", "ends_with", "trim_start_matches", "trim_end_matches", "len", "is_empty", "split_at", "chars", "bytes", "char_indices",
    "as_bytes", "enumerate", "peekable", "contains", "find", "to_string", "to_owned", "len_utf8",
    "is_char_boundary", "as_str", "count", "is_ascii", "is_whitespace", "is_ascii_digit", "push_str",
    "insert", "remove", "escape_debug", "extend", "binary_search", "first", "last", "nth", "nth_back",
    "iter", "range", "next_back", "as_slice", "truncate", "to_digit", "position", "start_bound", "end_bound",
    "encode_utf8", "extend_from_slice", "valid_up_to", "error_len", "to_bytes", "trim_start_matches",
    "trim_end_matches", "as_ref", "write_str",
    "binary_search_by", "get", "eq_ignore_ascii_case", "is_ascii_hexdigit", "get_mut", "make_mut",
    "reserve", "chain", "clone", "into_iter", "flatten", "rev", "skip", "take_while", "skip_while", "trim_start", "strip_prefix",
    "all", "hash", "is_alphanumeric", "is_alphabetic", "is_numeric", "is_ascii_whitespace", "is_ascii_punctuation", "is_control", "is_finite",
    "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_lowercase", "is_ascii_uppercase", "is_ascii_control", "is_ascii_graphic", "is_lowercase", "is_uppercase",
];

pub struct Rewritten {
    pub func: ItemFn,
    /// ghost text table, referenced by marker macros
    pub ghosts: Vec<String>,
    pub spec: String,
}

fn strip_attrs(a: &mut Vec<Attribute>) { a.clear(); }

pub fn clean_type(t: &mut Item, opts: &BTreeMap<String, String>) {
    let mut rn = TypeRename { map: type_map(opts) };
    match t {
        Item::Struct(s) => { strip_attrs(&mut s.attrs); s.vis = parse_quote!(pub); for f in s.fields.iter_mut() { strip_attrs(&mut f.attrs); f.vis = parse_quote!(pub); } }
        Item::Enum(e) => { strip_attrs(&mut e.attrs); e.vis = parse_quote!(pub); for v in e.variants.iter_mut() { strip_attrs(&mut v.attrs); } }
        Item::Type(e) => { strip_attrs(&mut e.attrs); e.vis = parse_quote!(pub); }
        Item::Const(e) => { strip_attrs(&mut e.attrs); e.vis = parse_quote!(pub); }
        _ => {}
    }
    rn.visit_item_mut(t);
}

fn type_map(opts: &BTreeMap<String, String>) -> BTreeMap<String, Type> {
    let mut m: BTreeMap<String, Type> = BTreeMap::new();
    for (k, v) in [("CharIndices", "VCharIndices"), ("Bytes", "VBytes"), ("Chars", "VChars"), ("BTreeMap", "VMap"), ("Formatter", "VFmt"), ("CStr", "VCStr"), ("NonZeroU8", "VNz")] {
        m.insert(k.into(), parse_str(v).unwrap());
    }
    if let Some(s) = opts.get("mono") {
        for kv in s.split(';') {
            if let Some((k, v)) = kv.split_once(':') { m.insert(k.into(), parse_str(v).unwrap()); }
        }
    }
    m
}

struct TypeRename { map: BTreeMap<String, Type> }
impl VisitMut for TypeRename {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                let last = p.path.segments.last().unwrap();
                if let Some(new) = self.map.get(&last.ident.to_string()) {
                    let mut new = new.clone();
                    if let (Type::Path(np), PathArguments::AngleBracketed(a)) = (&mut new, &last.arguments) {
                        let l = np.path.segments.last_mut().unwrap();
                        if l.arguments.is_none() { l.arguments = PathArguments::AngleBracketed(a.clone()); }
                    }
                    *t = new;
                    visit_mut::visit_type_mut(self, t);
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

struct VisPub;
impl VisitMut for VisPub {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
}

/// Replaces paths to `const X: &str = "..."` by the literal.
struct ConstSub<'a> { map: &'a BTreeMap<String, Expr> }
impl VisitMut for ConstSub<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(v) = self.map.get(&i.to_string()) { *e = v.clone(); return; }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn str_consts_in_block(b: &Block) -> BTreeMap<String, Expr> {
    let mut m = BTreeMap::new();
    for s in &b.stmts {
        if let Stmt::Item(Item::Const(c)) = s {
            m.insert(c.ident.to_string(), (*c.expr).clone());
        }
    }
    m
}

/// IntoIterator<Item = X> ==> VIter<X>
struct IterBounds;
impl VisitMut for IterBounds {
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        let last = b.path.segments.last().unwrap();
        if last.ident == "IntoIterator" {
            if let PathArguments::AngleBracketed(a) = &last.arguments {
                for x in &a.args {
                    if let GenericArgument::AssocType(t) = x { if t.ident == "Item" { let ty = &t.ty; b.path = parse_quote!(VIter<#ty>); return; } }
                }
            }
        }
        visit_mut::visit_trait_bound_mut(self, b);
    }
}

fn closure_arg(args: &punctuated::Punctuated<Expr, Token![,]>, k: usize) -> Option<&ExprClosure> {
    match args.iter().nth(k) { Some(Expr::Closure(c)) => Some(c), _ => None }
}

fn closure_pat(c: &ExprClosure, k: usize) -> Pat {
    match c.inputs.iter().nth(k) { Some(Pat::Type(t)) => (*t.pat).clone(), Some(p) => p.clone(), None => parse_quote!(_) }
}

/// Option/Result/iterator combinators with a closure literal argument.
/// configuration with wrapper.rs: imp::X::from is a function of its own
pub static WRAPPED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

struct Combinators { err: Option<String>, n: usize, result: bool, question: Option<String>, iter: bool, collect: Option<Expr> }
impl Combinators {
    fn fresh(&mut self, p: &str) -> Ident { self.n += 1; format_ident!("vx_{}{}", p, self.n) }
}
fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}
impl VisitMut for Combinators {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let (Some(from), Expr::Try(t)) = (self.question.clone(), &*e) {
            // both error types are the same one, or the named conversion lies
            // between them (the type checker sees to it)
            let (v, w, x) = (self.fresh("v"), self.fresh("e"), &t.expr);
            let conv: Expr = if from.is_empty() { parse_quote!(#w) } else { let f: Path = parse_str(&from).unwrap(); parse_quote!(#f(#w)) };
            *e = parse_quote!(match #x { Ok(#v) => #v, Err(#w) => return Err(#conv) });
            return;
        }
        let Expr::MethodCall(mc) = e else { return };
        let recv = (*mc.receiver).clone();
        let name = mc.method.to_string();
        let a0 = closure_arg(&mc.args, 0).cloned();
        let a1 = closure_arg(&mc.args, 1).cloned();
        for c in [&a0, &a1].into_iter().flatten() {
            if has_return(&c.body) { self.err = Some(format!("closure with return/? passed to .{name}()")); return; }
        }
        if name == "collect" && mc.args.is_empty() {
            // which FromIterator is meant follows from the type
            if let Some(p) = &self.collect { *e = parse_quote!(#p(#recv)); }
            return;
        }
        if self.iter && name == "map" {
            // on an iterator; a path argument becomes a closure
            if let Some(Expr::Path(p)) = mc.args.first() {
                let v = self.fresh("x");
                let c: Expr = parse_quote!(|#v| #p(#v));
                mc.args[0] = c;
            }
            mc.method = format_ident!("v_map");
            return;
        }
        let new: Option<Expr> = match (name.as_str(), &a0, &a1) {
            ("map", Some(c), None) if self.result => { let p = closure_pat(c, 0); let b = &c.body; let w = self.fresh("e"); Some(parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(#w) => Err(#w) })) }
            ("map", Some(c), None) => { let p = closure_pat(c, 0); let b = &c.body; Some(parse_quote!(match #recv { Some(#p) => Some(#b), None => None })) }
            ("and_then", Some(c), None) => { let p = closure_pat(c, 0); let b = &c.body; Some(parse_quote!(match #recv { Some(#p) => #b, None => None })) }
            ("is_some_and", Some(c), None) => { let p = closure_pat(c, 0); let b = &c.body; Some(parse_quote!(match #recv { Some(#p) => #b, None => false })) }
            ("is_none_or", Some(c), None) => { let p = closure_pat(c, 0); let b = &c.body; Some(parse_quote!(match #recv { Some(#p) => #b, None => true })) }
            ("map", None, None) if matches!(mc.args.first(), Some(Expr::Path(_))) => {
                let p = &mc.args[0];
                let v = self.fresh("v");
                Some(if self.result { let w = self.fresh("e"); parse_quote!(match #recv { Ok(#v) => Ok(#p(#v)), Err(#w) => Err(#w) }) } else { parse_quote!(match #recv { Some(#v) => Some(#p(#v)), None => None }) })
            }
            ("map_or", None, Some(c)) => { let d = mc.args.iter().next().unwrap(); let p = closure_pat(c, 0); let b = &c.body; Some(parse_quote!(match #recv { Some(#p) => #b, None => #d })) }
            ("unwrap_or_else", Some(c), None) if c.inputs.is_empty() => { let b = &c.body; let v = self.fresh("v"); Some(parse_quote!(match #recv { Some(#v) => #v, None => #b })) }
            // on an Option the closure has no parameter, on a Result it has one
            ("or_else", Some(c), None) if c.inputs.is_empty() => { let b = &c.body; let v = self.fresh("v"); Some(parse_quote!(match #recv { Some(#v) => Some(#v), None => #b })) }
            ("or_else", Some(c), None) => { let p = closure_pat(c, 0); let b = &c.body; let v = self.fresh("v"); Some(parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#p) => #b })) }
            ("map_err", Some(c), None) => { let p = closure_pat(c, 0); let b = &c.body; let v = self.fresh("v"); Some(parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#p) => Err(#b) })) }
            ("is_ok_and", Some(c), None) => { let p = closure_pat(c, 0); let b = &c.body; Some(parse_quote!(match #recv { Ok(#p) => #b, Err(_) => false })) }
            ("ok_or_else", Some(c), None) => { let b = &c.body; let v = self.fresh("v"); Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#b) })) }
            ("map_or_else", Some(d), Some(c)) => { let d = &d.body; let p = closure_pat(c, 0); let b = &c.body; Some(parse_quote!(match #recv { Some(#p) => #b, None => #d })) }
            ("ok_or", None, None) if mc.args.len() == 1 => { let d = mc.args.iter().next().unwrap(); let v = self.fresh("v"); Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#d) })) }
            ("starts_with", Some(c), None) => { let p = closure_pat(c, 0); let b = &c.body; Some(parse_quote!(match #recv.chars().next() { Some(#p) => #b, None => false })) }
            ("any", Some(c), None) => {
                // [lit, ..].iter().any(|p| e)
                if let Expr::MethodCall(it) = &recv {
                    if let (true, Expr::Array(arr)) = (it.method == "iter" && it.args.is_empty(), &*it.receiver) {
                        let p = closure_pat(c, 0);
                        let b = &c.body;
                        let mut acc: Option<Expr> = None;
                        for el in &arr.elems {
                            let one: Expr = parse_quote!({ let #p = #el; #b });
                            acc = Some(match acc { None => one, Some(a) => parse_quote!(#a || #one) });
                        }
                        acc.map(|a| parse_quote!((#a)))
                    } else { None }
                } else { None }
            }
            _ => None,
        };
        if let Some(n) = new { *e = n; }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // ITER.for_each(|p| body);  ==>  for p in ITER { body }
        if let Stmt::Expr(Expr::MethodCall(mc), Some(_)) = s {
            if mc.method == "for_each" {
                if let Some(c) = closure_arg(&mc.args, 0) {
                    if !has_return(&c.body) {
                        let p = closure_pat(c, 0);
                        let b = &c.body;
                        let r = &mc.receiver;
                        *s = parse_quote!(for #p in #r { #b; });
                    }
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// SOURCE_MAP.with(|sm| body) ==> body over the explicit parameter `vx_sm`.
/// A `return` in the closure is only the same thing when the call is the
/// function's tail expression.
struct Tls { err: Option<String>, tail: bool }
fn tail_with(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::MethodCall(m), None)) => m.method == "with",
        Some(Stmt::Expr(Expr::Block(b), None)) => tail_with(&b.block),
        _ => false,
    }
}
struct SubIdentCall { name: String }
impl VisitMut for SubIdentCall {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(mc) = e {
            if (mc.method == "borrow" || mc.method == "borrow_mut") && mc.args.is_empty() {
                if let Expr::Path(p) = &*mc.receiver {
                    if p.path.is_ident(&self.name) { *e = parse_quote!(vx_sm); }
                }
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
    }
}
struct RenameIdent { from: String, to: Ident }
impl VisitMut for RenameIdent {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident(&self.from) { p.path = self.to.clone().into(); }
    }
}
impl VisitMut for Tls {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(mc) = e {
            if mc.method == "with" {
                if let (Expr::Path(p), Some(c)) = (&*mc.receiver, closure_arg(&mc.args, 0)) {
                    if p.path.segments.last().unwrap().ident == "SOURCE_MAP" {
                        let mut body = (*c.body).clone();
                        if has_return(&body) && !self.tail { self.err = Some("return inside SOURCE_MAP.with".into()); return; }
                        let name = match closure_pat(c, 0) { Pat::Ident(i) => i.ident.to_string(), _ => return };
                        SubIdentCall { name: name.clone() }.visit_expr_mut(&mut body);
                        // `let [mut] sm = vx_sm;` ==> rename
                        if let Expr::Block(b) = &mut body {
                            let mut renames = vec![];
                            b.block.stmts.retain(|s| {
                                if let Stmt::Local(l) = s {
                                    if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                                        if let Expr::Path(ip) = &*init.expr { if ip.path.is_ident("vx_sm") { renames.push(pi.ident.to_string()); return false; } }
                                    }
                                }
                                true
                            });
                            for r in renames { RenameIdent { from: r, to: format_ident!("vx_sm") }.visit_expr_mut(&mut body); }
                        }
                        *e = body;
                    }
                }
            }
        }
    }
}

/// Calls of functions that take the thread-local as explicit parameter.
struct TlsCalls<'a> { fns: &'a BTreeSet<String>, hit: bool }
impl VisitMut for TlsCalls<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.iter().map(|s| s.ident.to_string()).filter(|s| !matches!(s.as_str(), "crate" | "imp" | "fallback" | "self" | "super")).collect::<Vec<_>>().join("::");
                    if self.fns.contains(&n) { c.args.push(parse_quote!(vx_sm)); self.hit = true; }
                }
            }
            Expr::MethodCall(c) => {
                let n = format!(".{}/{}", c.method, c.args.len());
                if self.fns.contains(&n) { c.args.push(parse_quote!(vx_sm)); self.hit = true; }
            }
            _ => {}
        }
    }
}

/// Panics, format machinery, indexing, method and function renames.
struct Lower { mut_params: BTreeSet<String>, panic_allowed: bool, err: Option<String>, ranges: BTreeSet<String>, ren: BTreeMap<String, String>, veq: Option<String> }
fn path_str(p: &Path) -> String { p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::") }

fn parse_format_args(m: &Macro) -> Option<(String, Vec<Expr>)> {
    use syn::parse::Parser;
    let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()?;
    let mut it = p.into_iter();
    let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = it.next() else { return None };
    Some((s.value(), it.collect()))
}

/// "abc{0}def{1:02X}" -> pieces
enum Piece { Text(String), Arg(usize, String) }
fn pieces(f: &str) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut text = String::new();
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        if c == '{' {
            if it.peek() == Some(&'{') { it.next(); text.push('{'); continue; }
            let mut spec = String::new();
            loop { match it.next()? { '}' => break, x => spec.push(x) } }
            if !text.is_empty() { out.push(Piece::Text(std::mem::take(&mut text))); }
            let (i, s) = match spec.split_once(':') { Some((i, s)) => (i, s), None => (spec.as_str(), "") };
            out.push(Piece::Arg(i.parse().ok()?, s.to_string()));
        } else if c == '}' { it.next(); text.push('}'); } else { text.push(c) }
    }
    if !text.is_empty() { out.push(Piece::Text(text)); }
    Some(out)
}

impl Lower {
    /// statements appending the formatted text to `sink`
    fn fmt_into(&mut self, sink: &Expr, m: &Macro) -> Option<Expr> {
        let (f, args) = parse_format_args(m)?;
        let ps = pieces(&f)?;
        // the sink as a `&mut`: a parameter is one already
        let by: Expr = match sink {
            Expr::Path(p) if p.path.get_ident().map_or(false, |i| !self.mut_params.contains(&i.to_string())) => parse_quote!(&mut #sink),
            _ => sink.clone(),
        };
        let mut e: Option<Expr> = None;
        for p in ps {
            let one: Expr = match p {
                Piece::Text(t) => parse_quote!(#sink.v_write_str(#t)),
                Piece::Arg(i, s) => {
                    let a = args.get(i)?;
                    match s.as_str() {
                        "" => parse_quote!((#a).v_display(#by)),
                        "02X" => parse_quote!((#a).v_upper_hex2(#by)),
                        _ => return None,
                    }
                }
            };
            e = Some(match e { None => one, Some(prev) => parse_quote!(match #prev { Ok(()) => #one, Err(vx_e) => Err(vx_e) }) });
        }
        e.or_else(|| Some(parse_quote!(Ok(()))))
    }
}

impl VisitMut for Lower {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // &x[a..b] before descending
        if let Expr::Reference(r) = e {
            if let Expr::Index(ix) = &*r.expr {
                if let Some(call) = range_index(ix, &self.ranges) {
                    *e = call;
                }
            }
        }
        if let Expr::Index(ix) = e {
            if let Some(call) = range_index(ix, &self.ranges) { *e = call; }
        }
        // vec![..]
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if path_str(&p.path).ends_with("box_assume_init_into_vec_unsafe") {
                    let mut els: Option<Vec<Expr>> = None;
                    if let Some(Expr::Call(w)) = c.args.iter().next() { if let Some(Expr::Array(a)) = w.args.iter().nth(1) { els = Some(a.elems.iter().cloned().collect()); } }
                    match els {
                        Some(els) => *e = parse_quote!({ let mut vx_v = Vec::new(); #(vx_v.push(#els);)* vx_v }),
                        None => { self.err = Some("vec! of this form".into()); return; }
                    }
                }
            }
        }
        // format!()
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n = path_str(&p.path);
                if n.ends_with("panicking::panic") || n.ends_with("panicking::panic_fmt") || n.ends_with("panicking::unreachable_display") || n.ends_with("panicking::assert_failed") {
                    *e = if self.panic_allowed { parse_quote!(vpanic_allowed()) } else { parse_quote!(vpanic()) };
                    return;
                }
                if n.ends_with("__export::must_use") {
                    if let Some(Expr::Block(b)) = c.args.iter().next() {
                        if let Some(Stmt::Expr(inner, None)) = b.block.stmts.last() { let inner = inner.clone(); *e = inner; self.visit_expr_mut(e); return; }
                    }
                }
                if n.ends_with("fmt::format") {
                    if let Some(Expr::Macro(m)) = c.args.iter().next() {
                        let sink: Expr = parse_quote!((&mut vx_s));
                        match self.fmt_into(&sink, &m.mac) {
                            Some(w) => { *e = parse_quote!({ let mut vx_s = String::new(); let _ = #w; vx_s }); }
                            None => self.err = Some("unsupported format string".into()),
                        }
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(mc) = e {
            if mc.method == "write_fmt" && mc.args.len() == 1 {
                if let Expr::Macro(m) = &mc.args[0] {
                    let recv = (*mc.receiver).clone();
                    match self.fmt_into(&recv, &m.mac) {
                        Some(w) => *e = w,
                        None => self.err = Some("unsupported format string".into()),
                    }
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = e {
            if b.value().is_empty() { *e = parse_quote!(v_no_bytes()); return; }
        }
        if let Expr::Path(p) = e { if path_str(&p.path) == "char::MAX" { *e = parse_quote!('\u{10FFFF}'); return; } }
        // the scratch buffer is not seen again
        if let Expr::MethodCall(mc) = e {
            if mc.method == "v_encode_utf8" || mc.method == "encode_utf8" {
                let scratch = matches!(mc.args.first(), Some(Expr::Reference(r)) if r.mutability.is_some() && matches!(&*r.expr, Expr::Repeat(_)));
                if scratch { mc.args.clear(); }
            }
        }
        if let Expr::Unsafe(u) = e { let b = &u.block; *e = parse_quote!((#b)); return; }
        match e {
            Expr::MethodCall(mc) => {
                let n = mc.method.to_string();
                // map.range(..=k) / map.range(k..)
                if n == "range" && mc.args.len() == 1 {
                    if let Expr::Range(r) = &mc.args[0] {
                        let recv = &mc.receiver;
                        match (&r.start, &r.end, matches!(r.limits, RangeLimits::Closed(_))) {
                            (None, Some(b), true) => { *e = parse_quote!(#recv.v_range_upto(#b)); return; }
                            (Some(a), None, false) => { *e = parse_quote!(#recv.v_range_from(#a)); return; }
                            _ => { self.err = Some("unsupported map range".into()); return; }
                        }
                    }
                }
                if n == "drain" && matches!(mc.args.first(), Some(Expr::Range(r)) if r.start.is_none() && r.end.is_none()) { mc.args.clear(); mc.method = format_ident!("v_drain"); return; }
                if let Some(to) = self.ren.get(&n) { mc.method = format_ident!("{}", to); }
                else if RENAMED.contains(&n.as_str()) { mc.method = format_ident!("v_{}", n); }
                mc.turbofish = None;
            }
            Expr::Call(c) => {
                let mut to = None;
                if let Expr::Path(p) = &*c.func {
                    let n = path_str(&p.path);
                    if !self.ren.contains_key(&n) { to = match n.as_str() {
                        "char::from_u32" | "core::char::from_u32" => Some("v_char_from_u32"),
                        "Box::from" => Some("v_box_str"),
                        "NonZeroU8::new" => Some("VNz::new"),
                        "cmp::min" | "core::cmp::min" => Some("v_min"),
                        "cmp::max" | "core::cmp::max" => Some("v_max"),
                        "u32::try_from" => Some("v_u32_try_from"),
                        "u32::from" => Some("v_u32_from"),
                        "String::with_capacity" => Some("v_string_with_capacity"),
                        "Vec::with_capacity" => Some("v_vec_with_capacity"),
                        "str::from_utf8" | "core::str::from_utf8" => Some("v_from_utf8"),
                        "mem::take" | "core::mem::take" => Some("v_take"),
                        "::alloc::boxed::box_assume_init_into_vec_unsafe" => None,
                        "BTreeMap::new" => Some("VMap::new"),
                        "Rc::make_mut" => Some("v_rc_make_mut"),
                        "Rc::get_mut" => Some("v_rc_get_mut"),
                        "Rc::clone" => Some("v_rc_clone"),
                        "Vec::clone" => Some("v_vec_clone"),
                        "Rc::new" => None,
                        "ManuallyDrop::new" => Some("v_nodrop"),
                        "ptr::read" | "core::ptr::read" => Some("v_ptr_read"),
                        _ if n.starts_with("imp::") && n.ends_with("::from") && !WRAPPED.load(std::sync::atomic::Ordering::SeqCst) => Some("v_identity"),
                        _ => None,
                    }; }
                    if (n == "Display::fmt" || n == "Debug::fmt") && c.args.len() == 2 {
                        let (a, f) = (&c.args[0], &c.args[1]);
                        let new: Expr = if n == "Debug::fmt" { parse_quote!((#a).v_debug(#f)) } else { parse_quote!((#a).v_display(#f)) };
                        *e = new;
                        return;
                    }
                    if n == "core::clone::Clone::clone" || n == "Clone::clone" {
                        let a = c.args.iter().next().unwrap();
                        let new: Expr = parse_quote!((#a).v_clone());
                        *e = new;
                        return;
                    }
                }
                if let Some(t) = to { *c.func = parse_str(t).unwrap(); }
                else if let Expr::Path(p) = &mut *c.func {
                    let k = path_str(&p.path);
                    if let Some(t) = self.ren.get(&k) { p.path.segments.last_mut().unwrap().ident = format_ident!("{}", t); }
                    else if k.starts_with("imp::") && k.ends_with("::from") { p.path.segments.last_mut().unwrap().ident = format_ident!("v_from"); }
                }
            }
            Expr::Binary(b) => {
                // *a == *b on unsized str: compare the references
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                    if let (Expr::Unary(l), r) = (&*b.left, &*b.right) {
                        if matches!(l.op, UnOp::Deref(_)) {
                            let le = l.expr.clone();
                            let ne = matches!(b.op, BinOp::Ne(_));
                            let re: Option<Expr> = match r {
                                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => { let x = &u.expr; Some(parse_quote!(#x)) }
                                Expr::MethodCall(m) if m.method.to_string().starts_with("v_slice") => Some(r.clone()),
                                _ => None,
                            };
                            if let Some(re) = re {
                                *e = if ne { parse_quote!(!v_str_eq(&#le, #re)) } else { parse_quote!(v_str_eq(&#le, #re)) };
                                return;
                            }
                        }
                    }
                    if let Some(m) = &self.veq {
                        let m = format_ident!("{}", m);
                        let (l, r) = (&b.left, &b.right);
                        *e = if matches!(b.op, BinOp::Ne(_)) { parse_quote!((!(#l).#m(&(#r)))) } else { parse_quote!((#l).#m(&(#r))) };
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_macro_mut(&mut self, _m: &mut Macro) {}
}

fn range_index(ix: &ExprIndex, ranges: &BTreeSet<String>) -> Option<Expr> {
    let base = &ix.expr;
    if let Expr::Path(p) = &*ix.index {
        if let Some(i) = p.path.get_ident() { if ranges.contains(&i.to_string()) { return Some(parse_quote!(#base.v_slice(#i.start, #i.end))); } }
    }
    let Expr::Range(r) = &*ix.index else { return None };
    let incl = matches!(r.limits, RangeLimits::Closed(_));
    if incl { return None; }
    Some(match (&r.start, &r.end) {
        (Some(a), Some(b)) => parse_quote!(#base.v_slice(#a, #b)),
        (Some(a), None) => parse_quote!(#base.v_slice_from(#a)),
        (None, Some(b)) => parse_quote!(#base.v_slice_to(#b)),
        (None, None) => return None,
    })
}

/// for / while let ==> loop; loop markers
struct Loops<'a> { c: &'a FnContract, ghosts: &'a mut Vec<String>, n: usize, mut_ref_params: BTreeSet<String>, params: Vec<String>, names: BTreeMap<String, String>, err: Option<String> }
impl Loops<'_> {
    fn marker(&mut self, name: &str, text: &str, it: &str) -> Option<Stmt> {
        if text.trim().is_empty() { return None; }
        let mut t = subst(text, &self.params).replace("$it", it);
        for (k, v) in &self.names { t = t.replace(&format!("${k}$"), v); }
        self.ghosts.push(t);
        let n = self.ghosts.len() - 1;
        let id = format_ident!("{}", name);
        Some(parse_quote!(#id!(#n);))
    }
}
pub fn subst(text: &str, params: &[String]) -> String {
    let mut t = text.to_string();
    for (i, p) in params.iter().enumerate().rev() { t = t.replace(&format!("${i}"), p); }
    t
}
impl VisitMut for Loops<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), _));
            if !is_loop { self.visit_stmt_mut(&mut s); out.push(s); continue; }
            let idx = self.n;
            self.n += 1;
            let lc = self.c.loops.get(&idx).cloned().unwrap_or_default();
            if lc.spec.trim().is_empty() { self.err = Some(format!("loop {idx} has no invariant in the contract (the loop structure changed)")); }
            let Stmt::Expr(e, _) = s else { unreachable!() };
            let mut it = String::from("vx_no_iter");
            // normalise
            let (mut cond, mut body): (Option<Expr>, Block) = match e {
                Expr::ForLoop(f) => {
                    let pat = *f.pat;
                    let expr = *f.expr;
                    let body = f.body;
                    match &expr {
                        Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.mut_ref_params.contains(&i.to_string())) => { it = p.path.get_ident().unwrap().to_string(); }
                        _ => {
                            let id = format_ident!("vx_it{}", idx);
                            it = id.to_string();
                            let mut expr = expr.clone();
                            self.visit_expr_mut(&mut expr);
                            out.push(parse_quote!(let mut #id = #expr.v_into_iter();));
                        }
                    }
                    let id = format_ident!("{}", it);
                    (None, parse_quote!({ match #id.next() { Some(#pat) => #body, None => { break; } } }))
                }
                Expr::While(w) => match *w.cond {
                    Expr::Let(l) => {
                        let pat = *l.pat;
                        let ex = *l.expr;
                        if let Expr::MethodCall(mc) = &ex { if let Expr::Path(p) = &*mc.receiver { if let Some(i) = p.path.get_ident() { it = i.to_string(); } } }
                        let body = w.body;
                        (None, parse_quote!({ match #ex { #pat => #body, _ => { break; } } }))
                    }
                    c => (Some(c), w.body),
                },
                Expr::Loop(l) => (None, l.body),
                _ => unreachable!(),
            };
            if let Some(c) = &mut cond { self.visit_expr_mut(c); }
            self.visit_block_mut(&mut body);
            if let Some(m) = self.marker("vx_ghost", &lc.before, &it) { out.push(m); }
            let mut stmts = vec![];
            stmts.extend(self.marker("vx_loop", &lc.spec, &it));
            stmts.extend(self.marker("vx_ghost", &lc.top, &it));
            stmts.append(&mut body.stmts);
            if let Some(m) = self.marker("vx_ghost", &lc.bottom, &it) {
                if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() { *semi = Some(Default::default()); }
                stmts.push(m);
            }
            body.stmts = stmts;
            let le: Expr = match cond { Some(c) => parse_quote!(while #c #body), None => parse_quote!(loop #body) };
            out.push(Stmt::Expr(le, None));
            if let Some(m) = self.marker("vx_ghost", &lc.after, &it) { out.push(m); }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) {
            // loop in expression position: wrap in a block
            let inner = e.clone();
            let mut b: Block = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(inner, None)] };
            self.visit_block_mut(&mut b);
            *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `&x` in a pattern (not supported by the verifier): bind the reference and
/// dereference it at the start of the arm.
struct RefPats { n: usize }
impl RefPats {
    fn take(&mut self, p: &mut Pat) -> Vec<Stmt> {
        struct V<'a> { n: &'a mut usize, out: Vec<Stmt> }
        impl VisitMut for V<'_> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    if let Pat::Ident(pi) = &*r.pat {
                        if pi.subpat.is_none() && pi.by_ref.is_none() {
                            *self.n += 1;
                            let id = format_ident!("vx_r{}", *self.n);
                            let pat = pi.clone();
                            self.out.push(parse_quote!(let #pat = *#id;));
                            *p = parse_quote!(#id);
                            return;
                        }
                    }
                    if let Pat::Wild(_) = &*r.pat { *p = parse_quote!(_); return; }
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        let mut v = V { n: &mut self.n, out: vec![] };
        v.visit_pat_mut(p);
        v.out
    }
}
impl VisitMut for RefPats {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        let binds = self.take(&mut a.pat);
        if binds.is_empty() { return; }
        if let Some((_, g)) = &mut a.guard { let e = (**g).clone(); **g = parse_quote!({ #(#binds)* #e }); }
        let b = (*a.body).clone();
        *a.body = parse_quote!({ #(#binds)* #b });
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        visit_mut::visit_expr_if_mut(self, i);
        if let Expr::Let(l) = &mut *i.cond {
            let mut binds = self.take(&mut l.pat);
            binds.append(&mut i.then_branch.stmts);
            i.then_branch.stmts = binds;
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut binds = vec![];
            if let Stmt::Local(l) = &mut s { binds = self.take(&mut l.pat); }
            out.push(s);
            out.append(&mut binds);
        }
        b.stmts = out;
    }
}

/// Guarded arms, in functions with `&mut` parameters (the verifier loses the
/// final value of such a parameter at a `return` in a guarded arm):
/// `match x { P if G => B, REST }` ==> `match x { P => if G { B } else { match x { REST } }, REST }`.
struct Guards { n: usize }
impl VisitMut for Guards {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Match(m) = e {
            if !m.arms.iter().any(|a| a.guard.is_some()) { return; }
            let simple = matches!(&*m.expr, Expr::Path(_));
            let scrut: Expr = if simple { (*m.expr).clone() } else { self.n += 1; let id = format_ident!("vx_m{}", self.n); parse_quote!(#id) };
            fn build(scrut: &Expr, arms: &[Arm]) -> Expr {
                let mut out: Vec<Arm> = vec![];
                for (i, a) in arms.iter().enumerate() {
                    match &a.guard {
                        None => { let mut a = a.clone(); a.comma = Some(Default::default()); out.push(a) }
                        Some((_, g)) => {
                            let rest = build(scrut, &arms[i + 1..]);
                            let (p, b) = (&a.pat, &a.body);
                            out.push(parse_quote!(#p => { if #g { #b } else { #rest } },));
                        }
                    }
                }
                parse_quote!(match #scrut { #(#out)* })
            }
            let new = build(&scrut, &m.arms);
            *e = if simple { new } else { let s = &m.expr; parse_quote!({ let #scrut = #s; #new }) };
        }
    }
}

/// `match s { "a" | "b" => X, _ => Y }` on strings ==> comparisons.
struct StrMatch { n: usize }
impl VisitMut for StrMatch {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Match(m) = e else { return };
        fn lits(p: &Pat) -> Option<Vec<LitStr>> {
            match p {
                Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]),
                Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(lits(c)?); } Some(v) }
                Pat::Paren(p) => lits(&p.pat),
                _ => None,
            }
        }
        if !m.arms.iter().any(|a| lits(&a.pat).is_some()) { return; }
        self.n += 1;
        let id = format_ident!("vx_s{}", self.n);
        let mut acc: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let b = &a.body;
            let mut cond: Option<Expr> = None;
            match (&a.pat, lits(&a.pat)) {
                (_, Some(ls)) => for l in ls { let one: Expr = parse_quote!(v_str_eq(#id, #l)); cond = Some(match cond { None => one, Some(c) => parse_quote!(#c || #one) }); },
                (Pat::Wild(_), _) => {}
                _ => return,
            }
            if let Some((_, g)) = &a.guard { cond = Some(match cond { None => (**g).clone(), Some(c) => parse_quote!((#c) && #g) }); }
            acc = Some(match (cond, acc) {
                (None, _) => parse_quote!({ #b }),
                (Some(c), Some(rest)) => parse_quote!(if #c { #b } else { #rest }),
                (Some(_), None) => return,
            });
        }
        let s = &m.expr;
        *e = parse_quote!({ let #id = #s; #acc });
    }
}

/// The closures that are left get the types and the contract given for them.
struct Closures<'a> { c: &'a FnContract, ghosts: &'a mut Vec<String>, params: Vec<String>, n: usize, err: Option<String> }
impl VisitMut for Closures<'_> {
    fn visit_expr_closure_mut(&mut self, k: &mut ExprClosure) {
        let idx = self.n;
        self.n += 1;
        visit_mut::visit_expr_closure_mut(self, k);
        let Some((h, spec)) = self.c.closures.get(&idx) else { self.err = Some(format!("closure {idx} has no contract")); return };
        // |a: T, b: U| -> (o: R)
        let parse = || -> Option<(Vec<Type>, proc_macro2::TokenStream)> {
            let (ps, out) = h.trim().strip_prefix('|')?.rsplit_once("->")?;
            let ps = ps.trim().strip_suffix('|')?;
            let tys = ps.split(',').filter(|x| !x.trim().is_empty()).map(|x| parse_str::<Type>(x.split_once(':').map_or("", |y| y.1)).ok()).collect::<Option<Vec<_>>>()?;
            Some((tys, out.parse().ok()?))
        };
        let Some((tys, out)) = parse() else { self.err = Some(format!("bad closure header {h}")); return };
        if tys.len() != k.inputs.len() { self.err = Some("closure arity changed".into()); return; }
        let mut names = self.params.clone();
        for (p, t) in k.inputs.iter_mut().zip(tys) {
            let pat = match &*p { Pat::Type(pt) => (*pt.pat).clone(), o => o.clone() };
            let Pat::Ident(pi) = &pat else { self.err = Some("closure with a pattern".into()); return };
            names.push(pi.ident.to_string());
            *p = Pat::Type(PatType { attrs: vec![], pat: Box::new(pat.clone()), colon_token: Default::default(), ty: Box::new(t) });
        }
        k.output = ReturnType::Type(Default::default(), Box::new(Type::Verbatim(out)));
        // $a, $b: the closure's own parameters
        let mut t = subst(spec, &self.params);
        for (i, n) in names[self.params.len()..].iter().enumerate() { t = t.replace(&format!("${}$", (b'a' + i as u8) as char), n); }
        self.ghosts.push(t);
        let m = self.ghosts.len() - 1;
        let body = (*k.body).clone();
        *k.body = match body {
            Expr::Block(mut b) => { b.block.stmts.insert(0, parse_quote!(vx_loop!(#m);)); Expr::Block(b) }
            e => parse_quote!({ vx_loop!(#m); #e }),
        };
    }
}

/// Locals that hold a Range (needed to tell `text[r]` from `list[i]`).
struct RangeLocals<'a> { fns: &'a BTreeSet<String>, out: BTreeSet<String> }
impl<'ast> syn::visit::Visit<'ast> for RangeLocals<'_> {
    fn visit_local(&mut self, l: &'ast Local) {
        if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
            let is = match &*init.expr {
                Expr::Range(_) => true,
                Expr::MethodCall(m) => self.fns.contains(&m.method.to_string()),
                Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if self.fns.contains(&p.path.segments.last().unwrap().ident.to_string())),
                _ => false,
            };
            if is { self.out.insert(p.ident.to_string()); }
        }
        syn::visit::visit_local(self, l);
    }
}

struct StrLits { out: BTreeSet<String> }
impl<'a> syn::visit::Visit<'a> for StrLits {
    fn visit_lit_str(&mut self, l: &'a LitStr) { self.out.insert(quote!(#l).to_string()); }
    fn visit_macro(&mut self, _: &'a Macro) {}
}

/// The copy of a trait's method for one implementing type: `Self::f`, `Self::T`
/// and `Self::CONST` become what that type's impl says. Calls `TYPE::f` of such
/// copies go to the copy.
struct Inst<'a> { me: Option<(String, String)>, con: &'a Contracts }
impl Inst<'_> {
    fn key(&self, n: &str) -> Option<String> { self.me.as_ref().map(|(ty, tr)| format!("<{ty} as {tr}>::{n}")) }
}
impl VisitMut for Inst<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(n) = self.key(&p.path.segments[1].ident.to_string()).and_then(|k| self.con.assoc_ty.get(&k)) { *t = n.clone(); visit_mut::visit_type_mut(self, t); }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Path(p) = e else { return };
        let last = p.path.segments.last().unwrap().ident.to_string();
        let ty = match &p.qself {
            Some(q) => crate::type_last(&q.ty),
            None if p.path.segments.len() == 2 => {
                let f = p.path.segments[0].ident.to_string();
                if f == "Self" {
                    if let Some(c) = self.key(&last).and_then(|k| self.con.assoc_const.get(&k)) { *e = c.clone(); self.visit_expr_mut(e); return; }
                    match &self.me { Some((t, _)) => t.clone(), None => return }
                } else { f }
            }
            None => return,
        };
        if let Some(n) = self.con.insts.get(&(ty, last)) { let i = format_ident!("{}", n); *e = parse_quote!(#i); }
    }
}

/// A callback parameter becomes a log of what it was called with; the caller
/// runs the closure's body over the log afterwards. (The callee can observe
/// nothing of the callback but that it was called.)
struct Log<'a> { param: Option<String>, con: &'a Contracts, n: usize, err: Option<String> }
impl VisitMut for Log<'_> {
    fn visit_fn_arg_mut(&mut self, a: &mut FnArg) {
        let FnArg::Typed(t) = a else { return };
        let Pat::Ident(i) = &mut *t.pat else { return };
        if Some(i.ident.to_string()) != self.param { return; }
        i.mutability = None;
        if let Type::ImplTrait(it) = (*t.ty).clone() {
            for b in &it.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    if let PathArguments::Parenthesized(p) = &tb.path.segments.last().unwrap().arguments {
                        let ins = &p.inputs;
                        *t.ty = parse_quote!(&mut Vec<(#ins,)>);
                        if ins.len() > 1 { *t.ty = parse_quote!(&mut Vec<(#ins)>); }
                        return;
                    }
                }
            }
        }
        self.err = Some("the callback parameter changed its form".into());
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // let f = |..| ..; g(.., f);  ==>  g(.., |..| ..);
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let hit = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, l.init.as_ref().map(|x| &*x.expr)) { (Pat::Ident(p), Some(Expr::Closure(c))) => Some((p.ident.clone(), c.clone())), _ => None },
                _ => None,
            };
            if let Some((id, c)) = hit {
                if let Stmt::Expr(Expr::Call(call), _) = &mut b.stmts[i + 1] {
                    if let Some(last) = call.args.last_mut() {
                        if matches!(last, Expr::Path(p) if p.path.is_ident(&id)) { *last = Expr::Closure(c); b.stmts.remove(i); continue; }
                    }
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Call(c) = e else { return };
        let Expr::Path(p) = &*c.func else { return };
        if p.path.get_ident().map_or(false, |i| Some(i.to_string()) == self.param) {
            let args = &c.args;
            let f = &c.func;
            *e = if args.len() > 1 { parse_quote!(#f.push((#args))) } else { parse_quote!(#f.push((#args,))) };
            return;
        }
        let n = p.path.segments.last().unwrap().ident.to_string();
        if self.con.logs.contains(&n) {
            if let Some(Expr::Closure(k)) = c.args.last().cloned() {
                if has_return(&k.body) { self.err = Some("callback with return".into()); return; }
                self.n += 1;
                let log = format_ident!("vx_log{}", self.n);
                let mut call = c.clone();
                *call.args.last_mut().unwrap() = parse_quote!(&mut #log);
                let ps: Vec<Pat> = (0..k.inputs.len()).map(|i| closure_pat(&k, i)).collect();
                let b = &k.body;
                let pat: Pat = if ps.len() > 1 { parse_quote!((#(#ps),*)) } else { parse_quote!((#(#ps),*,)) };
                *e = parse_quote!({ let mut #log = Vec::new(); #call; for #pat in #log { #b; } });
            }
        }
    }
}

/// `R.or_else(|e| body)` as the value of the function: a `return` or `?` in
/// the closure then leaves the function with the same value.
fn tail_or_else(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { tail_expr(e); }
    fn tail_expr(e: &mut Expr) {
        match e {
            Expr::If(i) => { tail_or_else(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { tail_expr(x); } }
            Expr::Block(b) => tail_or_else(&mut b.block),
            Expr::Match(m) => for a in &mut m.arms { tail_expr(&mut a.body); },
            Expr::MethodCall(m) if m.method == "or_else" => {
                if let Some(c) = closure_arg(&m.args, 0) {
                    let (r, p, b) = (&m.receiver, closure_pat(c, 0), &c.body);
                    *e = parse_quote!(match #r { Ok(vx_ok) => Ok(vx_ok), Err(#p) => #b });
                }
            }
            _ => {}
        }
    }
}

/// `impl Trait` parameters by the one type they are used with (`impl=TYPE`)
struct ImplTy { ty: Type }
impl VisitMut for ImplTy {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if matches!(t, Type::ImplTrait(_)) { *t = self.ty.clone(); return; }
        visit_mut::visit_type_mut(self, t);
    }
}

/// `call=.method:path;path:path`: which function a trait call resolves to
struct CallMap { map: BTreeMap<String, Expr> }
impl VisitMut for CallMap {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => if let Some(f) = self.map.get(&format!(".{}", m.method)) {
                let (r, a) = (&m.receiver, &m.args);
                *e = parse_quote!(#f(#r, #a));
            },
            Expr::Path(p) => if let Some(f) = self.map.get(&path_str(&p.path)) { *e = f.clone(); },
            _ => {}
        }
    }
}

pub fn local_names(f: &ItemFn) -> (Vec<String>, BTreeSet<String>) {
    let mut params = vec![];
    let mut mr = BTreeSet::new();
    for a in &f.sig.inputs {
        match a {
            FnArg::Receiver(_) => params.push("self".to_string()),
            FnArg::Typed(t) => {
                let n = match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => "_".into() };
                if let Type::Reference(r) = &*t.ty { if r.mutability.is_some() { mr.insert(n.clone()); } }
                params.push(n);
            }
        }
    }
    (params, mr)
}

/// A construct the rewrites cannot handle costs this function, not the run.
/// `let PAT = e else { .. };`  ==>  a match that binds the same variables
struct LetElse;
impl VisitMut for LetElse {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let Some(init) = &mut l.init else { return };
        let Some((_, div)) = init.diverge.take() else { return };
        struct B(Vec<(Ident, bool)>);
        impl VisitMut for B {
            fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                if !p.ident.to_string().starts_with(char::is_uppercase) { self.0.push((p.ident.clone(), p.mutability.take().is_some())); }
                visit_mut::visit_pat_ident_mut(self, p);
            }
        }
        let mut b = B(vec![]);
        let mut pat = l.pat.clone();
        b.visit_pat_mut(&mut pat);
        let e = &init.expr;
        let names: Vec<&Ident> = b.0.iter().map(|x| &x.0).collect();
        let pats: Vec<Pat> = b.0.iter().map(|(n, m)| if *m { parse_quote!(mut #n) } else { parse_quote!(#n) }).collect();
        let (value, p): (Expr, Pat) = if names.len() == 1 { let (n, p) = (names[0], &pats[0]); (parse_quote!(#n), parse_quote!(#p)) } else { (parse_quote!((#(#names),*)), parse_quote!((#(#pats),*))) };
        *init.expr = parse_quote!(match #e { #pat => #value, _ => #div });
        l.pat = p;
    }
}
pub fn rewrite_fn(found: &Found, f: ItemFn, c: &FnContract, con: &Contracts) -> std::result::Result<Rewritten, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rewrite_fn1(found, f, c, con))).unwrap_or_else(|_| Err("the rewrite failed".into()))
}
fn rewrite_fn1(found: &Found, mut f: ItemFn, c: &FnContract, con: &Contracts) -> std::result::Result<Rewritten, String> {
    strip_attrs(&mut f.attrs);
    f.vis = parse_quote!(pub);
    VisPub.visit_item_fn_mut(&mut f);
    // derive(Clone) of a Copy type: static assertions only
    f.block.stmts.retain(|s| !matches!(s, Stmt::Local(l) if quote!(#l).to_string().contains("AssertParamIsClone")));
    LetElse.visit_item_fn_mut(&mut f);
    if c.opts.contains_key("drops") { crate::drops::elaborate(&mut f, &con.moving)?; }
    let consts = str_consts_in_block(&f.block);
    f.block.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Const(_)) | Stmt::Item(Item::Use(_))));
    if !consts.is_empty() { ConstSub { map: &consts }.visit_item_fn_mut(&mut f); }
    if let Some(s) = c.opts.get("const") {
        let mut m = BTreeMap::new();
        for kv in s.split(';') { if let Some((k, v)) = kv.split_once(':') { m.insert(k.to_string(), parse_str::<Expr>(v).map_err(|e| e.to_string())?); } }
        ConstSub { map: &m }.visit_item_fn_mut(&mut f);
    }
    if let Some(g) = c.opts.get("nogenerics") {
        let _ = g;
        f.sig.generics = Generics::default();
    }
    if let Some(FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            // `mut self` ==> a local
            r.mutability = None;
            let id = format_ident!("vx_self");
            RenameIdent { from: "self".into(), to: id.clone() }.visit_block_mut(&mut f.block);
            f.block.stmts.insert(0, parse_quote!(let mut #id = self;));
        }
    }
    {
        let me = c.opts.get("inst").and_then(|x| x.split_once(':')).map(|(ty, _)| (ty.to_string(), found.trait_name.clone().or(found.self_ty.clone()).unwrap_or_default()));
        Inst { me, con }.visit_item_fn_mut(&mut f);
        let mut l = Log { param: c.opts.get("log").cloned(), con, n: 0, err: None };
        l.visit_item_fn_mut(&mut f);
        if let Some(e) = l.err { return Err(e); }
        tail_or_else(&mut f.block);
        if let Some(names) = c.opts.get("i32") {
            // an unconstrained integer literal is an i32; the verifier's terms need it said
            struct I32<'a>(&'a str);
            impl VisitMut for I32<'_> {
                fn visit_local_mut(&mut self, l: &mut Local) {
                    visit_mut::visit_local_mut(self, l);
                    if let (Pat::Ident(p), Some(i)) = (&l.pat, &mut l.init) {
                        if let Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) = &mut *i.expr {
                            if n.suffix().is_empty() && self.0.split(';').any(|x| p.ident == x) { *n = LitInt::new(&format!("{}i32", n.base10_digits()), n.span()); }
                        }
                    }
                }
            }
            I32(names).visit_item_fn_mut(&mut f);
        }
        if let Some(t) = c.opts.get("impl") { ImplTy { ty: parse_str(t).map_err(|e| e.to_string())? }.visit_signature_mut(&mut f.sig); }
        if let Some(t) = c.opts.get("call") {
            let mut map = BTreeMap::new();
            for kv in t.split(';') { if let Some((k, v)) = kv.split_once('=') { map.insert(k.to_string(), parse_str::<Expr>(v).map_err(|e| e.to_string())?); } }
            CallMap { map }.visit_item_fn_mut(&mut f);
        }
    }
    if c.opts.contains_key("nowhere") { f.sig.generics.where_clause = None; }
    IterBounds.visit_item_fn_mut(&mut f);
    let mut tm = TypeRename { map: type_map(&c.opts) };
    tm.visit_item_fn_mut(&mut f);
    if c.opts.contains_key("mono") {
        let names: BTreeSet<String> = c.opts["mono"].split(';').filter_map(|kv| kv.split_once(':').map(|x| x.0.to_string())).collect();
        let gp = f.sig.generics.params.clone();
        f.sig.generics.params = gp.into_iter().filter(|p| match p { GenericParam::Type(t) => !names.contains(&t.ident.to_string()), _ => true }).collect();
        f.sig.generics.where_clause = None;
        if f.sig.generics.params.is_empty() { f.sig.generics = Generics::default(); }
    }
    let mut tls = Tls { err: None, tail: tail_with(&f.block) };
    tls.visit_item_fn_mut(&mut f);
    if let Some(e) = tls.err { return Err(e); }
    if let Some(t) = c.opts.get("tls") {
        let fns: BTreeSet<String> = con.fns.iter().filter(|x| x.opts.contains_key("tls")).flat_map(|x| {
            let last = x.path.rsplit("::").next().unwrap().to_string();
            let two = x.path.rsplit("::").take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("::");
            if let Some(n) = x.opts.get("method") { vec![format!(".{last}/{n}")] } else { vec![last, two.replace(&x.module, ""), two] }
        }).collect();
        TlsCalls { fns: &fns, hit: false }.visit_item_fn_mut(&mut f);
        // the added parameter must not take part in lifetime elision
        if let Some(l) = c.opts.get("lt") {
            struct Lt<'a>(&'a str);
            impl VisitMut for Lt<'_> {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    visit_mut::visit_type_mut(self, t);
                    match t {
                        Type::Reference(r) if r.lifetime.is_none() => r.lifetime = Some(parse_quote!('vx)),
                        Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == self.0 && s.arguments.is_none()) => {
                            p.path.segments.last_mut().unwrap().arguments = PathArguments::AngleBracketed(parse_quote!(<'vx>));
                        }
                        _ => {}
                    }
                }
            }
            Lt(l).visit_signature_mut(&mut f.sig);
            f.sig.generics.params.insert(0, parse_quote!('vx));
        }
        f.sig.inputs.push(if t == "mut" { parse_quote!(vx_sm: &mut crate::fallback::SourceMap) } else { parse_quote!(vx_sm: &crate::fallback::SourceMap) });
    }
    let mut comb = Combinators { err: None, n: 0, result: c.opts.contains_key("result"), question: c.opts.get("question").cloned(), iter: c.opts.contains_key("iter"), collect: c.opts.get("collect").and_then(|p| parse_str(p).ok()) };
    comb.visit_item_fn_mut(&mut f);
    if let Some(e) = comb.err { return Err(e); }
    let mut ghosts = vec![];
    let (params, mr) = local_names(&f);
    {
        let mut cl = Closures { c, ghosts: &mut ghosts, params: params.clone(), n: 0, err: None };
        cl.visit_item_fn_mut(&mut f);
        if let Some(e) = cl.err { return Err(e); }
        if let Some(&m) = c.closures.keys().next_back() { if m >= cl.n { return Err(format!("lost anchor: contract has closure {m}, the function has {}", cl.n)); } }
    }
    {
        let mut l = Loops { c, ghosts: &mut ghosts, n: 0, mut_ref_params: mr.clone(), params: params.clone(), names: BTreeMap::new(), err: None };
        let mut b = (*f.block).clone();
        l.visit_block_mut(&mut b);
        if let Some(e) = l.err { return Err(e); }
        if let Some(&m) = c.loops.keys().next_back() { if m >= l.n { return Err(format!("lost anchor: contract has loop {m}, the function has {} loops", l.n)); } }
        *f.block = b;
    }
    RefPats { n: 0 }.visit_item_fn_mut(&mut f);
    if f.sig.inputs.iter().any(|a| match a { FnArg::Receiver(r) => r.reference.is_some() && r.mutability.is_some(), FnArg::Typed(t) => matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) }) {
        Guards { n: 0 }.visit_item_fn_mut(&mut f);
    }
    StrMatch { n: 0 }.visit_item_fn_mut(&mut f);
    let mut rl = RangeLocals { fns: &con.range_fns, out: BTreeSet::new() };
    syn::visit::Visit::visit_item_fn(&mut rl, &f);
    let ren = c.opts.get("ren").map(|s| s.split(';').filter_map(|kv| kv.rsplit_once(':').map(|(a, b)| (a.to_string(), b.to_string()))).collect()).unwrap_or_default();
    let mut low = Lower { mut_params: mr.clone(), panic_allowed: c.opts.get("panic").map_or(false, |p| p == "allow"), err: None, ranges: rl.out, ren, veq: c.opts.get("veq").map(|s| if s.is_empty() { "v_eq".to_string() } else { s.clone() }) };
    low.visit_item_fn_mut(&mut f);
    if let Some(e) = low.err { return Err(e); }
    // definition renames
    let n = f.sig.ident.to_string();
    if let Some((_, tag)) = c.opts.get("inst").and_then(|x| x.split_once(':')) { f.sig.ident = format_ident!("{n}_{tag}"); }
    else if let Some(new) = c.opts.get("name") { f.sig.ident = format_ident!("{}", new); }
    else if found.self_ty.is_some() && !c.opts.contains_key("keeptrait") && RENAMED.contains(&n.as_str()) { f.sig.ident = format_ident!("v_{}", n); }
    // entry ghost
    let mut lits = StrLits { out: BTreeSet::new() };
    syn::visit::Visit::visit_item_fn(&mut lits, &f);
    let (hides, rest_entry): (Vec<&str>, Vec<&str>) = c.entry.lines().partition(|l| l.trim_start().starts_with("hide("));
    let mut entry = hides.join("\n");
    entry.push('\n');
    if found.module.is_empty() && !con.root_bcast.is_empty() && !c.opts.contains_key("nobcast") { entry.push_str(&format!("broadcast use {{{}}};\n", con.root_bcast)); }
    let uses_contains = quote!(#f).to_string().contains("v_contains");
    if !lits.out.is_empty() {
        entry.push_str("proof { ");
        for l in &lits.out {
            entry.push_str(&format!("reveal_strlit({l}); "));
            // the characters of the literal, and what starting with it means
            let v = parse_str::<LitStr>(l).map(|x| x.value()).unwrap_or_default();
            let cs: Vec<char> = v.chars().collect();
            let bytes = v.len();
            entry.push_str(&format!("assert(blen({l}@) == {bytes}) by {{ lemma_lit_blen{}({l}@); }} ", cs.len().min(5)));
            if !cs.is_empty() && cs.len() <= 16 { entry.push_str(&format!("assert({l}@ =~= seq![{}]); ", cs.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(", "))); }
            if uses_contains && cs.len() > 1 {
                let n = cs.len();
                let any: Vec<String> = cs.iter().map(|c| format!("c == {c:?}")).collect();
                let idx: Vec<String> = (0..n).map(|i| format!("i == {i}")).collect();
                let wit: Vec<String> = (0..n).map(|i| format!("assert({l}@[{i}] == {:?});", cs[i])).collect();
                entry.push_str(&format!("assert forall|c: char| #[trigger] {l}@.contains(c) == ({}) by {{ {} if {l}@.contains(c) {{ let i = choose|i: int| 0 <= i < {n} && {l}@[i] == c; assert({}); }} }} ", any.join(" || "), wit.join(" "), idx.join(" || ")));
            }
        }
        entry.push_str("}\n");
    }
    entry.push_str(&subst(&rest_entry.join("\n"), &params));
    if !entry.trim().is_empty() {
        ghosts.push(entry);
        let k = ghosts.len() - 1;
        f.block.stmts.insert(0, parse_quote!(vx_ghost!(#k);));
    }
    if let Some(r) = &c.ret {
        let id = format_ident!("{}", r);
        f.sig.output = match &f.sig.output {
            ReturnType::Default => ReturnType::Default,
            ReturnType::Type(a, t) => ReturnType::Type(*a, Box::new(Type::Verbatim(quote!((#id: #t))))),
        };
    }
    Ok(Rewritten { func: f, ghosts, spec: subst(&c.spec, &params) })
}
