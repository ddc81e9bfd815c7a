//! Contract files (*.vc). Line oriented; a line starting with `#` in column 0
//! opens a section:
//!   #mod PATH            text placed at the top of that module (use lines)
//!   #type PATH [k=v ..]  keep this type/const/alias from the source
//!   #raw PATH NAME       ghost text placed in module PATH
//!   #fn PATH [k=v ..]    keep this function; sub-sections follow:
//!     #closure N |x: T| -> (o: R)   types and contract of the N-th closure
//!     #ret NAME  #spec  #entry  #loop N  #loop N top|bottom|before|after
//!   #only A|B|C|*       the text up to the next #only is for that configuration
//!   #external PATH       never inline this function
//!   #end
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone)]
pub struct FnContract {
    pub path: String,
    pub variant: String,
    pub module: String,
    pub opts: BTreeMap<String, String>,
    pub ret: Option<String>,
    pub spec: String,
    pub entry: String,
    pub loops: BTreeMap<usize, LoopContract>,
    pub extra: BTreeMap<String, String>,
    /// closures, in source order: (header `|x: T| -> (o: R)`, contract text)
    pub closures: BTreeMap<usize, (String, String)>,
}
#[derive(Default, Clone)]
pub struct LoopContract { pub spec: String, pub top: String, pub bottom: String, pub before: String, pub after: String }

impl FnContract {
    pub fn id(&self) -> String {
        if self.variant.is_empty() { self.path.clone() } else { format!("{}#{}", self.path, self.variant) }
    }
    pub fn spec_only(&self) -> FnContract {
        let mut c = self.clone();
        c.entry.clear();
        c.loops.clear();
        c.closures.clear();
        c.extra.clear();
        c
    }
}

pub enum ContractItem {
    Type { path: String, opts: BTreeMap<String, String> },
    Raw { module: String, name: String, text: String },
    Fn(usize, String),
}
impl ContractItem {
    pub fn module(&self) -> String {
        match self {
            ContractItem::Type { path, .. } => parent(path),
            ContractItem::Raw { module, .. } => module.clone(),
            ContractItem::Fn(_, m) => m.clone(),
        }
    }
}

pub fn parent(p: &str) -> String {
    // module path of `a::b::Type::f` or `a::<X as Y>::f`: leading lowercase segments
    let mut segs = vec![];
    for s in p.split("::") {
        if s.starts_with('<') || s.chars().next().map_or(false, |c| c.is_uppercase()) { break; }
        segs.push(s);
    }
    if segs.len() == p.split("::").count() { segs.pop(); }
    segs.join("::")
}

#[derive(Default)]
pub struct Contracts {
    pub fns: Vec<FnContract>,
    pub items: Vec<ContractItem>,
    pub order: Vec<String>,
    pub mod_text: BTreeMap<String, String>,
    pub external: BTreeSet<String>,
    /// broadcast groups switched on inside every function of the crate root
    pub root_bcast: String,
    /// associated types and constants of trait impls: "<str as Unescape>::Unit"
    pub assoc_ty: BTreeMap<String, syn::Type>,
    pub assoc_const: BTreeMap<String, syn::Expr>,
    /// (type, method) -> name of the free copy made for that type (`inst=TYPE:TAG`)
    pub insts: BTreeMap<(String, String), String>,
    /// functions whose callback parameter became a log (`log=PARAM`)
    pub logs: BTreeSet<String>,
    /// names of functions of the source that return a Range
    pub range_fns: BTreeSet<String>,
    /// methods of the crate that take `self` by value
    pub moving: BTreeSet<String>,
}

fn opts(rest: &str) -> BTreeMap<String, String> {
    rest.split_whitespace().map(|kv| match kv.split_once('=') { Some((k, v)) => (k.to_string(), v.to_string()), None => (kv.to_string(), String::new()) }).collect()
}

/// `#only X` .. `#only *`: text for configuration X alone (line numbers are kept)
pub fn only(text: &str, config: &str) -> String {
    let mut on = true;
    let mut out = String::new();
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("#only ") { on = x.trim() == "*" || x.split_whitespace().any(|y| y == config); }
        else if on { out += l; }
        out += "\n";
    }
    out
}

impl Contracts {
    pub fn load(&mut self, text: &str, file: &str) {
        enum Sec { None, Mod(String), Raw(usize), Spec, Entry, Loop(usize, &'static str), Extra(String), Closure(usize) }
        let mut sec = Sec::None;
        let mut cur: Option<usize> = None;
        for (ln, line) in text.lines().enumerate() {
            if line.starts_with('#') && !line.starts_with("#[") && !line.starts_with("#!") {
                let l = &line[1..];
                let (word, rest) = l.split_once(' ').unwrap_or((l, ""));
                let rest = rest.trim();
                match word {
                    "mod" => { let rest = if rest == "-" { "" } else { rest }; self.order.push(rest.to_string()); self.mod_text.entry(rest.to_string()).or_default(); sec = Sec::Mod(rest.to_string()); }
                    "type" => {
                        let (p, o) = rest.split_once(' ').unwrap_or((rest, ""));
                        self.items.push(ContractItem::Type { path: p.to_string(), opts: opts(o) });
                        sec = Sec::None;
                    }
                    "raw" => {
                        let (m, n) = rest.split_once(' ').unwrap_or((rest, "raw"));
                        let m = if m == "-" { "" } else { m };
                        self.items.push(ContractItem::Raw { module: m.to_string(), name: n.to_string(), text: String::new() });
                        sec = Sec::Raw(self.items.len() - 1);
                    }
                    "bcast" => { self.root_bcast = rest.to_string(); sec = Sec::None; }
                    "external" => { self.external.insert(rest.to_string()); sec = Sec::None; }
                    "fn" => {
                        // paths may contain spaces inside <...>
                        let (p, o) = match rest.find(">::") {
                            Some(k) if rest.starts_with('<') || rest[..k].contains("::<") => {
                                let tail = &rest[k..];
                                let e = tail.find(' ').map_or(rest.len(), |x| k + x);
                                (&rest[..e], &rest[e..])
                            }
                            _ => rest.split_once(' ').unwrap_or((rest, "")),
                        };
                        let o = opts(o);
                        let c = FnContract { path: p.to_string(), variant: o.get("variant").cloned().unwrap_or_default(), module: o.get("in").cloned().unwrap_or_else(|| parent(p)), opts: o, ..Default::default() };
                        self.fns.push(c);
                        cur = Some(self.fns.len() - 1);
                        let m = self.fns.last().unwrap().module.clone();
                        self.items.push(ContractItem::Fn(self.fns.len() - 1, m));
                        sec = Sec::None;
                    }
                    "ret" => { self.fns[cur.unwrap()].ret = Some(rest.to_string()); sec = Sec::None; }
                    "spec" => sec = Sec::Spec,
                    "entry" => sec = Sec::Entry,
                    "at" => sec = Sec::Extra(rest.to_string()),
                    "closure" => {
                        let (n, h) = rest.split_once(' ').unwrap_or((rest, ""));
                        let n: usize = n.parse().unwrap_or_else(|_| panic!("{file}:{}", ln + 1));
                        self.fns[cur.unwrap()].closures.insert(n, (h.to_string(), String::new()));
                        sec = Sec::Closure(n);
                    }
                    "loop" => {
                        let (n, k) = rest.split_once(' ').unwrap_or((rest, ""));
                        let n: usize = n.parse().unwrap_or_else(|_| panic!("{file}:{}", ln + 1));
                        let k = match k.trim() { "" => "spec", "top" => "top", "bottom" => "bottom", "before" => "before", "after" => "after", o => panic!("{file}:{}: {o}", ln + 1) };
                        self.fns[cur.unwrap()].loops.entry(n).or_default();
                        sec = Sec::Loop(n, k);
                    }
                    "end" => sec = Sec::None,
                    "" => {}
                    o => panic!("{file}:{}: unknown section {o}", ln + 1),
                }
                continue;
            }
            let add = |s: &mut String| { s.push_str(line); s.push('\n'); };
            match &sec {
                Sec::None => { if !line.trim().is_empty() && !line.trim_start().starts_with("//") { panic!("{file}:{}: stray text", ln + 1); } }
                Sec::Mod(m) => add(self.mod_text.get_mut(m).unwrap()),
                Sec::Raw(i) => { if let ContractItem::Raw { text, .. } = &mut self.items[*i] { add(text); } }
                Sec::Spec => add(&mut self.fns[cur.unwrap()].spec),
                Sec::Entry => add(&mut self.fns[cur.unwrap()].entry),
                Sec::Extra(k) => add(self.fns[cur.unwrap()].extra.entry(k.clone()).or_default()),
                Sec::Closure(n) => add(&mut self.fns[cur.unwrap()].closures.get_mut(n).unwrap().1),
                Sec::Loop(n, k) => {
                    let l = self.fns[cur.unwrap()].loops.get_mut(n).unwrap();
                    match *k { "spec" => add(&mut l.spec), "top" => add(&mut l.top), "bottom" => add(&mut l.bottom), "before" => add(&mut l.before), _ => add(&mut l.after) }
                }
            }
        }
    }
}
