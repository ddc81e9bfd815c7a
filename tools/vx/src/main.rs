//! vx: mechanical extraction of the functions under contract from the
//! macro-expanded, cfg-resolved source of proc-macro2 into one Verus file.
//!
//!   vx EXPANDED.rs OUT.rs MAP.json --contracts A.vc,B.vc --prelude P.rs,Q.rs
//!      [--verify f,g,h]  (others keep their contract but lose their body)
//!      [--stub f,g]      (bodies dropped, contract assumed)
//!      [--canary 1]      (every body starts with `assert(false)`: all must fail)
//!
//! What the extraction does to the code is documented in DESIGN.md
//! ("Extraction"); every rewrite is in rewrite.rs.
mod contracts;
mod drops;
mod emit;
mod exec;
mod inline;
mod prune;
mod rewrite;

use contracts::*;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::*;

fn die(msg: &str) -> ! {
    eprintln!("vx: {msg}");
    std::process::exit(3)
}

/// A function found in the expanded source.
pub struct Found {
    pub module: String,
    pub self_ty: Option<String>,
    pub trait_name: Option<String>,
    pub func: ItemFn,
    pub impl_item: Option<ItemImpl>, // header of the impl (items emptied)
    pub in_trait: bool,
}

pub fn type_last(ty: &Type) -> String {
    match ty {
        // the compiler's types share their names with the crate's own
        Type::Path(p) if p.path.segments[0].ident == "proc_macro" => format!("proc_macro::{}", p.path.segments.last().unwrap().ident),
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_last(&r.elem),
        Type::Slice(s) => format!("[{}]", type_last(&s.elem)),
        other => quote::quote!(#other).to_string(),
    }
}

/// Functions declared inside a function body are treated as functions of the module.
fn hoist(f: &mut ItemFn) -> Vec<ItemFn> {
    let mut out = vec![];
    f.block.stmts.retain(|s| if let Stmt::Item(Item::Fn(n)) = s { out.push(n.clone()); false } else { true });
    out
}

fn collect(module: &str, items: &[Item], fns: &mut BTreeMap<String, Found>, types: &mut BTreeMap<String, Item>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, inner)) = &m.content {
                    let name = if module.is_empty() { m.ident.to_string() } else { format!("{module}::{}", m.ident) };
                    collect(&name, inner, fns, types);
                }
            }
            Item::Fn(f) => {
                let mut f = f.clone();
                for n in hoist(&mut f) { collect(module, &[Item::Fn(n)], fns, types); }
                let key = if module.is_empty() { f.sig.ident.to_string() } else { format!("{module}::{}", f.sig.ident) };
                fns.insert(key, Found { module: module.into(), self_ty: None, trait_name: None, func: f, impl_item: None, in_trait: false });
            }
            Item::Struct(s) => { types.insert(join(module, &s.ident.to_string()), it.clone()); }
            Item::Enum(s) => { types.insert(join(module, &s.ident.to_string()), it.clone()); }
            Item::Type(s) => { types.insert(join(module, &s.ident.to_string()), it.clone()); }
            Item::Const(s) if matches!(&*s.expr, Expr::Block(_)) => {
                // thread_local!: the initialiser is a function inside the constant
                if let Expr::Block(b) = &*s.expr {
                    for st in &b.block.stmts {
                        if let Stmt::Item(Item::Fn(f)) = st {
                            let mut f = f.clone();
                            f.sig.inputs.clear();
                            f.sig.ident = quote::format_ident!("{}_init", s.ident);
                            collect(module, &[Item::Fn(f)], fns, types);
                        }
                    }
                }
            }
            Item::Const(s) => { types.insert(join(module, &s.ident.to_string()), it.clone()); }
            Item::Trait(t) => {
                for ti in &t.items {
                    if let TraitItem::Fn(tf) = ti {
                        if let Some(body) = &tf.default {
                            let func = ItemFn { attrs: tf.attrs.clone(), vis: Visibility::Inherited, sig: tf.sig.clone(), block: Box::new(body.clone()) };
                            fns.insert(join(module, &format!("{}::{}", t.ident, tf.sig.ident)), Found {
                                module: module.into(), self_ty: Some(t.ident.to_string()), trait_name: None, func, impl_item: None, in_trait: true });
                        }
                    }
                }
            }
            Item::Impl(im) if !prune::KEEP.load(std::sync::atomic::Ordering::SeqCst) && prune::foreign(im) => {}
            Item::Impl(im) => {
                if im.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) && !im.trait_.as_ref().map_or(false, |(_, p, _)| { let t = &p.segments.last().unwrap().ident; t == "Clone" || t == "PartialEq" }) { continue; }
                let st = type_last(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| {
                    let seg = p.segments.last().unwrap();
                    let mut s = seg.ident.to_string();
                    if let PathArguments::AngleBracketed(a) = &seg.arguments {
                        let args: Vec<String> = a.args.iter().map(|x| match x { GenericArgument::Type(t) => type_last(t), o => quote::quote!(#o).to_string() }).collect();
                        s = format!("{s}<{}>", args.join(","));
                    }
                    s
                });
                for ii in &im.items {
                    match ii {
                        ImplItem::Fn(mf) => {
                            let mut func = ItemFn { attrs: mf.attrs.clone(), vis: mf.vis.clone(), sig: mf.sig.clone(), block: Box::new(mf.block.clone()) };
                            for n in hoist(&mut func) { collect(module, &[Item::Fn(n)], fns, types); }
                            let mut hdr = im.clone();
                            hdr.items.clear();
                            let name = match &tr {
                                None => format!("{st}::{}", mf.sig.ident),
                                Some(t) => format!("<{st} as {t}>::{}", mf.sig.ident),
                            };
                            fns.insert(join(module, &name), Found { module: module.into(), self_ty: Some(st.clone()), trait_name: tr.clone(), func, impl_item: Some(hdr), in_trait: false });
                        }
                        ImplItem::Const(c) => {
                            let name = match &tr { None => format!("{st}::{}", c.ident), Some(t) => format!("<{st} as {t}>::{}", c.ident) };
                            let ic: Item = parse_quote! { pub const X: u8 = 0; };
                            let mut ic = ic;
                            if let Item::Const(k) = &mut ic { k.ident = c.ident.clone(); k.ty = Box::new(c.ty.clone()); k.expr = Box::new(c.expr.clone()); }
                            types.insert(join(module, &name), ic);
                        }
                        ImplItem::Type(t) => if let Some(tr) = &tr {
                            let ty = &t.ty;
                            let id = &t.ident;
                            types.insert(join(module, &format!("<{st} as {tr}>::{}", t.ident)), parse_quote!(pub type #id = #ty;));
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn join(m: &str, n: &str) -> String {
    if m.is_empty() { n.to_string() } else { format!("{m}::{n}") }
}

/// Names of same-module free functions called with a bare path.
struct Calls<'a> { local: &'a BTreeSet<String>, out: BTreeSet<String> }
impl<'a, 'ast> Visit<'ast> for Calls<'a> {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if self.local.contains(&n) { self.out.insert(n); }
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 { die("usage"); }
    if args[1] == "--exec" { exec::run(&args[2], &args[3..]); return; }
    let (src, out, map) = (&args[1], &args[2], &args[3]);
    let mut contracts_files = vec![];
    let mut prelude = vec![];
    let mut verify: Option<BTreeSet<String>> = None;
    let mut stub: BTreeSet<String> = BTreeSet::new();
    let mut config = "A".to_string();
    let mut i = 4;
    let split = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>();
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--config" => config = args[i + 1].clone(),
            "--contracts" => contracts_files = split(&args[i + 1]),
            "--prelude" => prelude = split(&args[i + 1]),
            "--verify" => verify = Some(args[i + 1].split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()),
            "--canary" => emit::CANARY.store(args[i + 1] == "1", std::sync::atomic::Ordering::SeqCst),
            "--stub" => stub = args[i + 1].split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
            o => die(&format!("bad option {o}")),
        }
        i += 2;
    }
    let text = std::fs::read_to_string(src).unwrap_or_else(|e| die(&format!("{src}: {e}")));
    let mut file = syn::parse_file(&text).unwrap_or_else(|e| die(&format!("parse {src}: {e}")));
    // configuration D is about what the others leave out
    prune::KEEP.store(config == "D", std::sync::atomic::Ordering::SeqCst);
    if config != "D" { prune::prune(&mut file); }
    rewrite::WRAPPED.store(config != "A", std::sync::atomic::Ordering::SeqCst);
    let mut fns = BTreeMap::new();
    let mut types = BTreeMap::new();
    collect("", &file.items, &mut fns, &mut types);

    let mut con = Contracts::default();
    for f in &contracts_files {
        con.load(&contracts::only(&std::fs::read_to_string(f).unwrap_or_else(|e| die(&format!("{f}: {e}"))), &config), f);
    }

    for (k, it) in &types {
        let Some(i) = k.find('<') else { continue };
        match it {
            Item::Type(t) => { con.assoc_ty.insert(k[i..].to_string(), (*t.ty).clone()); }
            Item::Const(c) => { con.assoc_const.insert(k[i..].to_string(), (*c.expr).clone()); }
            _ => {}
        }
    }
    for f in &con.fns {
        let last = f.path.rsplit("::").next().unwrap().to_string();
        let name = match f.opts.get("inst").and_then(|x| x.split_once(':')) {
            Some((ty, tag)) => { let n = format!("{last}_{tag}"); con.insts.insert((ty.to_string(), last.clone()), n.clone()); n }
            None => last,
        };
        if f.opts.contains_key("log") { con.logs.insert(name); }
    }
    con.moving = {
        let mut by: BTreeMap<String, bool> = BTreeMap::new();
        for f in fns.values() {
            if let Some(FnArg::Receiver(r)) = f.func.sig.inputs.first() { *by.entry(f.func.sig.ident.to_string()).or_insert(true) &= r.reference.is_none(); }
        }
        by.into_iter().filter(|x| x.1).map(|x| x.0).collect()
    };
    con.range_fns = fns.values().filter(|f| matches!(&f.func.sig.output, ReturnType::Type(_, t) if type_last(t) == "Range")).map(|f| f.func.sig.ident.to_string()).collect();

    // functions per module, to find uncontracted helpers
    let mut emitted = emit::Emitter::new();
    let mut problems: BTreeMap<String, String> = BTreeMap::new();
    for p in &prelude {
        let text = std::fs::read_to_string(p).unwrap_or_else(|e| die(&format!("{p}: {e}")));
        let text = contracts::only(&text, &config);
        let mut full = String::new();
        for l in text.lines() {
            // `//@spec NAME`: the specification text shared with the oracle
            if let Some(n) = l.trim().strip_prefix("//@spec ") {
                let q = std::path::Path::new(p).parent().unwrap().join(format!("../spec/{}.rs", n.trim()));
                full += &std::fs::read_to_string(&q).unwrap_or_else(|e| die(&format!("{}: {e}", q.display())));
            } else { full += l; full += "\n"; }
        }
        emitted.raw(&full, &format!("prelude:{p}"));
    }

    // Helpers that are not under contract are inlined into their callers.
    let contracted: BTreeSet<String> = con.fns.iter().map(|f| f.path.clone()).collect();
    let mut modules: Vec<String> = vec![];
    for m in con.order.iter() {
        if !modules.contains(m) { modules.push(m.clone()); }
    }
    for module in &modules {
        emitted.open_module(module, con.mod_text.get(module).map(|s| s.as_str()).unwrap_or(""));
        for item in con.items.iter().filter(|x| x.module() == *module) {
            match item {
                ContractItem::Type { path, opts } => match types.get(path) {
                    Some(t) => {
                        let mut t = t.clone();
                        rewrite::clean_type(&mut t, opts);
                        emitted.item(&t, opts);
                    }
                    None => { problems.insert(path.clone(), "lost anchor: type not found".into()); }
                },
                ContractItem::Raw { text, name, .. } => emitted.raw(text, name),
                ContractItem::Fn(idx, _) => {
                    let c = &con.fns[*idx];
                    let Some(found) = fns.get(&c.path) else {
                        problems.insert(c.id(), "lost anchor: function not found".into());
                        continue;
                    };
                    let local: BTreeSet<String> = fns.iter().filter(|(_, f)| f.module == found.module && f.self_ty.is_none()).map(|(_, f)| f.func.sig.ident.to_string()).collect();
                    let mut func = found.func.clone();
                    // inline uncontracted helpers (bounded depth)
                    let mut bad = None;
                    for _ in 0..4 {
                        let mut v = Calls { local: &local, out: BTreeSet::new() };
                        v.visit_item_fn(&func);
                        let todo: Vec<String> = v.out.iter().filter(|n| !contracted.contains(&join(&found.module, n)) && !con.external.contains(&join(&found.module, n))).cloned().collect();
                        if todo.is_empty() { break; }
                        for n in todo {
                            let h = &fns[&join(&found.module, &n)].func;
                            if let Err(e) = inline::inline_calls(&mut func, h) { bad = Some(format!("calls `{n}`, which has no contract and cannot be inlined: {e}")); }
                        }
                        if bad.is_some() { break; }
                    }
                    // same for methods of the same impl: self.helper(..) / Self::helper(..)
                    if let Some(st) = &found.self_ty {
                        for _ in 0..4 {
                            let methods: BTreeMap<String, &ItemFn> = fns.iter().filter(|(k, f)| f.module == found.module && f.self_ty.as_deref() == Some(st) && f.trait_name == found.trait_name && !contracted.contains(*k) && !con.external.contains(*k)).map(|(_, f)| (f.func.sig.ident.to_string(), &f.func)).collect();
                            match inline::inline_methods(&mut func, &methods) {
                                Ok(false) => break,
                                Ok(true) => {}
                                Err(e) => { bad = Some(e); break; }
                            }
                        }
                    }
                    if let Some(b) = bad { problems.insert(c.id(), b); }
                    let stubbed = stub.contains(&c.id()) || problems.contains_key(&c.id()) || c.opts.contains_key("external");
                    let skip = !stubbed && verify.as_ref().map_or(false, |v| !v.contains(&c.id()));
                    match rewrite::rewrite_fn(found, func, c, &con) {
                        Ok(r) => emitted.function(found, r, c, stubbed || skip),
                        Err(e) => {
                            problems.insert(c.id(), e);
                            // contract only
                            let mut f = found.func.clone();
                            f.block = parse_quote!({ unimplemented!() });
                            match rewrite::rewrite_fn(found, f, &c.spec_only(), &con) {
                                Ok(r) => emitted.function(found, r, c, true),
                                Err(e) => die(&format!("{}: {e}", c.path)),
                            }
                        }
                    }
                }
            }
        }
        emitted.close_module(module);
    }
    std::fs::write(out, emitted.finish()).unwrap();
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ");
    let mut j = String::from("{\n \"functions\": [\n");
    let fl: Vec<String> = emitted.map.iter().map(|(n, a, b, st)| format!("  {{\"id\": \"{}\", \"first\": {a}, \"last\": {b}, \"status\": \"{st}\"}}", esc(n))).collect();
    j += &fl.join(",\n");
    j += "\n ],\n \"problems\": {\n";
    let pl: Vec<String> = problems.iter().map(|(k, v)| format!("  \"{}\": \"{}\"", esc(k), esc(v))).collect();
    j += &pl.join(",\n");
    j += "\n },\n \"without_contract\": [\n";
    let ul: Vec<String> = fns.keys().filter(|k| !contracted.contains(*k)).map(|k| format!("  \"{}\"", esc(k))).collect();
    j += &ul.join(",\n");
    j += "\n ]\n}\n";
    std::fs::write(map, j).unwrap();
}
