//! One case: inputs for the real crate, and what it must do with them.
use crate::oracle::*;
use proc_macro2::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub kind: String,
    pub args: Vec<String>,
}
pub struct Fail {
    pub props: Vec<&'static str>,
    pub msg: String,
}
pub type Fails = Vec<Fail>;

fn fail(out: &mut Fails, props: &[&'static str], msg: String) {
    out.push(Fail { props: props.to_vec(), msg });
}
pub fn chars(s: &str) -> Seq<char> { Seq::of(s.chars().collect()) }
pub fn text(s: &Seq<char>) -> String { s.as_slice().iter().collect() }
fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".into() }
    })
}
fn ints(s: &str) -> Vec<int> { s.chars().map(|c| c as int).collect() }
fn bints(b: &[u8]) -> Vec<int> { b.iter().map(|&c| c as int).collect() }
fn latin(s: &str) -> Vec<u8> { s.chars().map(|c| c as u32 as u8).collect() }

// ---------------------------------------------------------------- real tokens
fn dcode(d: Delimiter) -> int {
    match d { Delimiter::Parenthesis => 0, Delimiter::Brace => 1, Delimiter::Bracket => 2, Delimiter::None => 3 }
}
fn tok(t: &TokenTree) -> Tok {
    match t {
        TokenTree::Group(g) => Tok::Group(dcode(g.delimiter()), Seq::of(toks(&g.stream())), 0, 0),
        TokenTree::Ident(i) => {
            let s = i.to_string();
            match s.strip_prefix("r#") { Some(n) => Tok::Ident(true, chars(n), 0, 0), None => Tok::Ident(false, chars(&s), 0, 0) }
        }
        TokenTree::Punct(p) => Tok::Punct(p.as_char(), p.spacing() == Spacing::Joint, 0, 0),
        TokenTree::Literal(l) => Tok::Lit(chars(&l.to_string()), 0, 0),
    }
}
fn toks(s: &TokenStream) -> Vec<Tok> { s.clone().into_iter().map(|t| tok(&t)).collect() }
fn lohi(t: &Tok) -> (int, int) {
    match t { Tok::Group(_, _, l, h) | Tok::Ident(_, _, l, h) | Tok::Punct(_, _, l, h) | Tok::Lit(_, l, h) => (*l, *h) }
}
fn bare(t: &Tok) -> Tok {
    match t {
        Tok::Group(d, i, _, _) => Tok::Group(*d, Seq::of(i.as_slice().iter().map(bare).collect()), 0, 0),
        Tok::Ident(r, n, _, _) => Tok::Ident(*r, n.clone(), 0, 0),
        Tok::Punct(c, j, _, _) => Tok::Punct(*c, *j, 0, 0),
        Tok::Lit(t, _, _) => Tok::Lit(t.clone(), 0, 0),
    }
}
fn class(t: &Tok) -> &'static str {
    match t { Tok::Group(..) => "C04", Tok::Ident(..) => "C07", Tok::Punct(..) => "C06", Tok::Lit(..) => "C03" }
}
fn brief(t: Option<&Tok>) -> String {
    match t {
        None => "no token".into(),
        Some(Tok::Group(d, i, _, _)) => format!("group {} of {} tokens", ["()", "{}", "[]", "none"][*d as usize], i.len()),
        Some(Tok::Ident(r, n, _, _)) => format!("identifier {}{:?}", if *r { "r#" } else { "" }, text(n)),
        Some(Tok::Punct(c, j, _, _)) => format!("{} punctuation {:?}", if *j { "joint" } else { "alone" }, c),
        Some(Tok::Lit(t, _, _)) => format!("literal {:?}", text(t)),
    }
}
/// the first token in which the parse differs from the grammar
fn diff(want: &[Tok], got: &[Tok], src: &Seq<char>, out: &mut Fails) -> bool {
    for i in 0..want.len().max(got.len()) {
        let (w, g) = (want.get(i), got.get(i));
        let doc = w.is_some_and(|w| { let (l, _) = lohi(w); let s = src.skip(l); p2(s.clone(), '/', '/') || p2(s, '/', '*') });
        let same = match (w, g) {
            (Some(Tok::Group(d, a, _, _)), Some(Tok::Group(e, b, _, _))) if d == e => {
                if !diff(a.as_slice(), b.as_slice(), src, out) { return false; }
                true
            }
            (Some(Tok::Lit(a, _, _)), Some(Tok::Lit(b, _, _))) if doc => a == b || lit_val(a.clone(), 0) == lit_val(b.clone(), 0),
            (Some(w), Some(g)) => bare(w) == bare(g),
            _ => false,
        };
        if !same {
            let mut props = vec!["C02"];
            if let Some(t) = w { props.push(class(t)); }
            if let Some(t) = g { props.push(class(t)); }
            if doc { props.push("C05"); }
            if w.is_none() || g.is_none() { props.extend(["C04", "C05"]); }
            let all = text(src);
            if all.contains("//") || all.contains("/*") || all.chars().any(ws_char) { props.push("C05"); }
            fail(out, &props, format!("token {}: the grammar gives {}, the parser gave {}", i, brief(w), brief(g)));
            return false;
        }
    }
    true
}

// ---------------------------------------------------------------- spans
#[cfg(feature = "spans")]
mod loc {
    use super::*;
    pub struct Src {
        pub text: String,
        pub chars: Seq<char>,
        bytes: Vec<usize>,
        pos: Vec<(usize, usize)>,
    }
    impl Src {
        pub fn new(text: &str) -> Src {
            let (mut bytes, mut pos) = (vec![], vec![]);
            let (mut line, mut col) = (1, 0);
            for (i, c) in text.char_indices() {
                bytes.push(i);
                pos.push((line, col));
                if c == '\n' { line += 1; col = 0 } else { col += 1 }
            }
            bytes.push(text.len());
            pos.push((line, col));
            Src { text: text.into(), chars: chars(text), bytes, pos }
        }
        /// the span must name the characters lo..hi of this text
        pub fn located(&self, sp: Span, lo: int, hi: int, order: usize) -> Option<String> {
            let (lo, hi) = (lo as usize, hi as usize);
            let (b0, b1) = (self.bytes[lo], self.bytes[hi]);
            for k in 0..4 {
                match (k + order) % 4 {
                    0 => { let r = sp.byte_range(); if r != (b0..b1) { return Some(format!("byte_range {:?}, expected {:?}", r, b0..b1)); } }
                    1 => { let t = sp.source_text(); if t.as_deref() != Some(&self.text[b0..b1]) { return Some(format!("source_text {:?}, expected {:?}", t, &self.text[b0..b1])); } }
                    2 => { let s = sp.start(); if (s.line, s.column) != self.pos[lo] { return Some(format!("start {}:{}, expected {:?}", s.line, s.column, self.pos[lo])); } }
                    _ => { let s = sp.end(); if (s.line, s.column) != self.pos[hi] { return Some(format!("end {}:{}, expected {:?}", s.line, s.column, self.pos[hi])); } }
                }
            }
            None
        }
        /// is this where a comment starts?
        fn doc(&self, lo: int) -> bool { let r = self.chars.skip(lo); r.len() > 2 && r[0] == '/' && (r[1] == '/' || r[1] == '*') }
        pub fn token(&self, t: &TokenTree, w: &Tok, order: usize, out: &mut Fails) {
            let (lo, hi) = lohi(w);
            let ps: &[&str] = if self.doc(lo) { &["C10", "C05"] } else if matches!(w, Tok::Group(..)) { &["C10", "C04"] } else { &["C10"] };
            match guard(|| self.located(t.span(), lo, hi, order)) {
                Ok(None) => {}
                Ok(Some(m)) => fail(out, ps, format!("span of {}: {}", brief(Some(w)), m)),
                Err(p) => fail(out, ps, format!("span of {}: panic: {}", brief(Some(w)), p)),
            }
            if let TokenTree::Group(g) = t {
                let d = g.delim_span();
                let parts = [("span_open", g.span_open(), lo, lo + 1), ("span_close", g.span_close(), hi - 1, hi),
                    ("delim_span().open", d.open(), lo, lo + 1), ("delim_span().close", d.close(), hi - 1, hi), ("delim_span().join", d.join(), lo, hi)];
                for (n, sp, a, b) in parts {
                    match guard(|| self.located(sp, a.min(hi), b.max(lo), order)) {
                        Ok(None) => {}
                        Ok(Some(m)) => fail(out, &["C11", "C10"], format!("{} of {}: {}", n, brief(Some(w)), m)),
                        Err(p) => fail(out, &["C11", "C10"], format!("{} of {}: panic: {}", n, brief(Some(w)), p)),
                    }
                }
            }
        }
    }
    pub fn flat(ts: &TokenStream, want: &[Tok], doc: bool, out: &mut Vec<(TokenTree, Tok)>) {
        for (t, w) in ts.clone().into_iter().zip(want) {
            out.push((t.clone(), w.clone()));
            if let (TokenTree::Group(g), Tok::Group(_, i, _, _)) = (&t, w) { flat(&g.stream(), i.as_slice(), doc, out); }
        }
    }
    pub fn fresh() { extra::invalidate_current_thread_spans(); }
}
#[cfg(not(feature = "spans"))]
mod loc { pub fn fresh() {} }

// ---------------------------------------------------------------- kinds
const LEX: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07"];

fn parse(t: &str, out: &mut Fails) {
    let s = chars(t);
    let want = lex_source(s.clone(), 0);
    let got = match guard(|| TokenStream::from_str(t)) {
        Ok(g) => g,
        Err(p) => return fail(out, LEX, format!("parsing {:?} panicked: {}", t, p)),
    };
    match (&want, &got) {
        (LexR::Ok(w), Err(_)) => fail(out, &LEX[1..], format!("the grammar accepts {:?} ({} tokens), the parser rejects it", t, w.len())),
        (LexR::Err(_), Ok(g)) => fail(out, &LEX[1..], format!("the grammar rejects {:?}, the parser reads {:?}", t, g.to_string())),
        (LexR::Err(at), Err(e)) => {
            let _ = (at, e);
            #[cfg(feature = "spans")]
            match guard(|| loc::Src::new(t).located(e.span(), *at, *at, 0)) {
                Ok(None) => {}
                Ok(Some(m)) => {
                    // what was taken for a token although it is none, or the other way round
                    let got = guard(|| e.span().byte_range().start).unwrap_or(0);
                    let want = s.as_slice()[..(*at as usize).min(s.len() as usize)].iter().map(|c| c.len_utf8()).sum::<usize>();
                    let c = t.get(got.min(want)..).and_then(|r| r.chars().next()).unwrap_or(' ');
                    let mut ps = vec!["C04", "C10"];
                    if matches!(c, '0'..='9' | '"' | '\'' | 'r' | 'b' | 'c') { ps.push("C03"); }
                    if c == '/' { ps.push("C05"); }
                    if "~!@#$%^&*-=+|;:,<.>/?'".contains(c) { ps.push("C06"); }
                    if c == '_' || c.is_alphabetic() { ps.push("C07"); }
                    fail(out, &ps, format!("error of {:?}: {}", t, m))
                }
                Err(p) => fail(out, &["C04", "C10"], format!("error of {:?}: panic: {}", t, p)),
            }
        }
        (LexR::Ok(w), Ok(g)) => {
            let real = toks(g);
            if diff(w.as_slice(), &real, &s, out) {
                #[cfg(feature = "spans")]
                {
                    let src = loc::Src::new(t);
                    let mut all = vec![];
                    loc::flat(g, w.as_slice(), false, &mut all);
                    for (k, (tt, w)) in all.iter().enumerate() { src.token(tt, w, k, out); }
                }
            }
            printed(g, &real, out);
            let shown = g.to_string();
            match guard(|| TokenStream::from_str(&shown)) {
                Err(p) => fail(out, &["C13", "C01"], format!("parsing {:?} panicked: {}", shown, p)),
                Ok(Err(_)) => fail(out, &["C13"], format!("{:?} prints as {:?}, which does not parse", t, shown)),
                Ok(Ok(again)) => if toks(&again) != real {
                    fail(out, &["C13"], format!("{:?} prints as {:?}, which parses to other tokens: {:?}", t, shown, again.to_string()));
                },
            }
        }
        (_, _) => {}
    }
}
fn printed(g: &TokenStream, model: &[Tok], out: &mut Fails) {
    let want = text(&show(Seq::of(model.to_vec())));
    match guard(|| g.to_string()) {
        Ok(got) => if got != want { fail(out, &["C13"], format!("prints as {:?}, expected {:?}", got, want)); },
        Err(p) => fail(out, &["C13"], format!("printing {:?} panicked: {}", want, p)),
    }
    let mut it = g.clone().into_iter();
    for m in model {
        if let Some(t) = it.next() {
            let (a, b) = (t.to_string(), text(&show_tok(m.clone())));
            if a != b { fail(out, &["C13"], format!("token prints as {:?}, expected {:?}", a, b)); }
            let c = match &t { TokenTree::Group(x) => x.to_string(), TokenTree::Ident(x) => x.to_string(), TokenTree::Punct(x) => x.to_string(), TokenTree::Literal(x) => x.to_string() };
            if a != c { fail(out, &["C13"], format!("token prints as {:?} and as {:?}", a, c)); }
        }
    }
}
/// the value accessors against what the literal denotes
fn values(l: &Literal, t: &str, out: &mut Fails) {
    let _ = (l, t, &out);
    #[cfg(feature = "exempt")]
    {
        let s = chars(t);
        let got: [(&str, Result<Option<Vec<int>>, String>); 3] = [
            ("str_value", guard(|| l.str_value().ok().map(|v| ints(&v)))),
            ("byte_str_value", guard(|| l.byte_str_value().ok().map(|v| bints(&v)))),
            ("cstr_value", guard(|| l.cstr_value().ok().map(|v| bints(&v)))),
        ];
        for (mode, (name, got)) in got.into_iter().enumerate() {
            let mut want = lit_val(s.clone(), mode as int).map(|v| v.as_slice().to_vec());
            if mode == 2 { if let Some(v) = &mut want { v.push(0); } }
            match got {
                Err(p) => fail(out, &["C09"], format!("{} of {:?} panicked: {}", name, t, p)),
                Ok(g) => if g != want { fail(out, &["C09"], format!("{} of {:?} is {:?}, expected {:?}", name, t, g, want)); },
            }
        }
    }
}
fn lit(t: &str, ranges: &[String], out: &mut Fails) {
    let s = chars(t);
    let want = literal_source(s.clone());
    let got = match guard(|| Literal::from_str(t)) {
        Ok(g) => g,
        Err(p) => return fail(out, &["C01", "C03"], format!("reading literal {:?} panicked: {}", t, p)),
    };
    let l = match (want, got) {
        (false, Err(_)) => return,
        (true, Err(_)) => return fail(out, &["C03"], format!("{:?} is one literal, but is refused", t)),
        (false, Ok(l)) => return fail(out, &["C03"], format!("{:?} is not one literal, but is accepted as {:?}", t, l.to_string())),
        (true, Ok(l)) => l,
    };
    if l.to_string() != t { fail(out, &["C03", "C02"], format!("literal {:?} is kept as {:?}", t, l.to_string())); }
    values(&l, t, out);
    let _ = ranges;
    #[cfg(feature = "spans")]
    {
        let src = loc::Src::new(t);
        let n = s.len();
        match guard(|| src.located(l.span(), 0, n, t.len())) {
            Ok(None) => {}
            Ok(Some(m)) => fail(out, &["C10"], format!("span of literal {:?}: {}", t, m)),
            Err(p) => fail(out, &["C10"], format!("span of literal {:?}: panic: {}", t, p)),
        }
        if t.is_ascii() { for r in ranges { subspan(&src, &l, 0, n, r, out); } }
    }
    // put into a stream
    let model = put(&[Tok::Lit(s.clone(), 0, 0)]);
    let streams = [
        TokenStream::from(TokenTree::from(l.clone())),
        std::iter::once(TokenTree::Literal(l.clone())).collect(),
        { let mut s = TokenStream::new(); s.extend([TokenTree::from(l.clone())]); s },
        { let mut s = TokenStream::new(); s.extend([l.clone()]); s },
    ];
    for st in &streams {
        if toks(st) != model { fail(out, &["C12"], format!("literal {:?} in a stream becomes {:?}", t, st.to_string())); }
        printed(st, &model, out);
        #[cfg(feature = "spans")]
        for x in st.clone() {
            let src = loc::Src::new(t);
            if let Ok(Some(m)) = guard(|| src.located(x.span(), 0, s.len(), 0)) { fail(out, &["C12"], format!("literal {:?} put in a stream: span of {:?}: {}", t, x.to_string(), m)); }
        }
    }
}
/// what a caller's tokens become in a stream
fn put(ts: &[Tok]) -> Vec<Tok> {
    let mut v = vec![];
    for t in ts {
        match t {
            Tok::Lit(l, _, _) if p1(l.clone(), '-') => { v.push(Tok::Punct('-', false, 0, 0)); v.push(Tok::Lit(l.skip(1), 0, 0)); }
            t => v.push(t.clone()),
        }
    }
    v
}
#[cfg(feature = "spans")]
fn subspan(src: &loc::Src, l: &Literal, lo: int, hi: int, r: &str, out: &mut Fails) {
    let p: Vec<int> = r.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
    if p.len() < 3 { return; }
    let (a, b) = (p[1], p[2]);
    let n = hi - lo;
    let max = usize::MAX as int;
    let us = |x: int| if x == -1 { usize::MAX } else { x as usize };
    let _ = max;
    use std::ops::Bound::*;
    let (got, x, y) = match p[0].rem_euclid(8) {
        0 => (guard(|| l.subspan(us(a)..us(b))), a, b),
        1 => (guard(|| l.subspan(us(a)..=us(b))), a, if b == -1 { -1 } else { b + 1 }),
        2 => (guard(|| l.subspan(us(a)..)), a, n),
        3 => (guard(|| l.subspan(..us(b))), 0, b),
        4 => (guard(|| l.subspan(..=us(b))), 0, if b == -1 { -1 } else { b + 1 }),
        5 => (guard(|| l.subspan(..)), 0, n),
        6 => (guard(|| l.subspan((Excluded(us(a)), Excluded(us(b))))), if a == -1 { -1 } else { a + 1 }, b),
        _ => (guard(|| l.subspan((Excluded(us(a)), Unbounded))), if a == -1 { -1 } else { a + 1 }, n),
    };
    let ok = x >= 0 && y >= 0 && x <= y && y <= n;
    match got {
        Err(p) => fail(out, &["C11"], format!("subspan {} of {:?} panicked: {}", r, l.to_string(), p)),
        Ok(None) => if ok { fail(out, &["C11"], format!("subspan {} ({}..{}) of {:?} is refused", r, x, y, l.to_string())) },
        Ok(Some(sp)) => {
            if !ok { return fail(out, &["C11"], format!("subspan {} of {:?} is given although it is not within it", r, l.to_string())); }
            match guard(|| src.located(sp, lo + x, lo + y, 1)) {
                Ok(None) => {}
                Ok(Some(m)) => fail(out, &["C11"], format!("subspan {} of {:?}: {}", r, l.to_string(), m)),
                Err(p) => fail(out, &["C11"], format!("subspan {} of {:?}: panic: {}", r, l.to_string(), p)),
            }
        }
    }
}
fn ident_valid(s: &Seq<char>) -> bool { ident_nr(s.clone()).is_some_and(|r| r.len() == 0) }
fn hash(i: &Ident) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    i.hash(&mut h);
    h.finish()
}
fn idents(args: &[String], out: &mut Fails) {
    let mut all: Vec<(String, Ident)> = vec![];
    for (k, a) in args.iter().enumerate() {
        let s = chars(a);
        let ok = ident_valid(&s);
        let ok_raw = ok && !never_raw(s.clone());
        let span = Span::call_site();
        for (raw, ok) in [(false, ok), (true, ok_raw)] {
            let got = guard(|| if raw { Ident::new_raw(a, span) } else { Ident::new(a, span) });
            let name = if raw { format!("r#{}", a) } else { a.clone() };
            match got {
                Ok(_) if !ok => fail(out, &["C07"], format!("identifier {:?} is accepted", name)),
                Err(p) if ok => fail(out, &["C07"], format!("identifier {:?} is refused: {}", name, p)),
                Ok(i) => {
                    if i.to_string() != name { fail(out, &["C07", "C13"], format!("identifier {:?} prints as {:?}", name, i.to_string())); }
                    all.push((name, i));
                }
                Err(_) => {}
            }
            let _ = k;
        }
        // the parser agrees with the constructors
        let got = guard(|| TokenStream::from_str(a).ok().map(|t| toks(&t)));
        if let Ok(got) = got {
            let one = got.as_ref().is_some_and(|v| v.len() == 1 && matches!(&v[0], Tok::Ident(false, n, _, _) if *n == s));
            if one != ok { fail(out, &["C07"], format!("{:?}: valid identifier {}, parsed as one {}", a, ok, one)); }
        }
        // the same name from a parse, at another location
        if ok {
            if let Ok(Ok(t)) = guard(|| TokenStream::from_str(&format!("\n {} r#{}", a, if ok_raw { a } else { "x" }))) {
                for t in t { if let TokenTree::Ident(i) = t { let n = i.to_string(); all.push((n, i)); } }
            }
        }
    }
    for (n, i) in &all {
        for (m, j) in &all {
            let r = guard(|| (i == j, i != j, i.cmp(j), i.partial_cmp(j), hash(i) == hash(j), (i < j, i <= j, i > j, i >= j, { let mut a = i.clone(); a.clone_from(j); a.to_string() == *m })));
            match r {
                Err(p) => fail(out, &["C07"], format!("comparing identifiers {:?} and {:?} panicked: {}", n, m, p)),
                Ok((eq, ne, c, pc, h, o)) => {
                    let w = n.cmp(m);
                    if eq != (n == m) || ne != (n != m) || c != w || pc != Some(w) || (n == m && !h) || o != (n < m, n <= m, n > m, n >= m, true) {
                        fail(out, &["C07"], format!("identifiers {:?} and {:?}: ==:{} !=:{} cmp:{:?} partial_cmp:{:?} same hash:{}", n, m, eq, ne, c, pc, h));
                    }
                }
            }
        }
        let mut others: Vec<String> = all.iter().map(|x| x.0.clone()).collect();
        for a in args { others.extend([a.clone(), format!("r#{}", a)]); }
        for m in &others {
            match guard(|| (*i == m.as_str() && !(*i != m.as_str()), *i == *m)) {
                Ok((a, b)) => if a != (n == m) || b != (n == m) { fail(out, &["C07"], format!("identifier {:?} == {:?} is {}", n, m, a)); },
                Err(p) => fail(out, &["C07"], format!("identifier {:?} == {:?} panicked: {}", n, m, p)),
            }
        }
    }
}
fn puncts(args: &[String], out: &mut Fails) {
    for c in args.iter().flat_map(|a| a.chars()) {
        for sp in [Spacing::Alone, Spacing::Joint] {
            match guard(|| Punct::new(c, sp)) {
                Err(p) => if is_punct(c) { fail(out, &["C06"], format!("punctuation {:?} is refused: {}", c, p)) },
                Ok(p) => {
                    if !is_punct(c) { fail(out, &["C06"], format!("punctuation {:?} is accepted", c)); }
                    let mut q = p.clone();
                    q.set_span(Span::mixed_site());
                    for p in [p, q] {
                        if p.as_char() != c || p.spacing() != sp { fail(out, &["C06"], format!("punctuation {:?} {:?} is kept as {:?} {:?}", c, sp, p.as_char(), p.spacing())); }
                        if p.to_string() != c.to_string() { fail(out, &["C13", "C06"], format!("punctuation {:?} prints as {:?}", c, p.to_string())); }
                    }
                }
            }
        }
    }
}
/// a literal built from a value: well-formed, denotes it, survives printing and parsing
fn built(what: &str, l: Result<Literal, String>, mode: i32, want: Vec<int>, out: &mut Fails) {
    let l = match l { Ok(l) => l, Err(p) => return fail(out, &["C08"], format!("building {} from {:?} panicked: {}", what, want, p)) };
    let r = l.to_string();
    let s = chars(&r);
    let val = |s: &Seq<char>| -> Option<Vec<int>> {
        if mode < 3 { lit_val(s.clone(), mode as int).map(|v| v.as_slice().to_vec()) } else { char_val(s.clone(), (mode - 3) as int).map(|v| vec![v]) }
    };
    if !whole(g_literal(s.clone())) { fail(out, &["C08"], format!("{} from {:?} is {:?}, not a literal", what, want, r)); }
    else if val(&s) != Some(want.clone()) { fail(out, &["C08"], format!("{} from {:?} is {:?}, which denotes {:?}", what, want, r, val(&s))); }
    let st = TokenStream::from(TokenTree::from(l.clone()));
    match guard(|| TokenStream::from_str(&st.to_string()).map(|t| toks(&t))) {
        Ok(Ok(t)) if t.len() == 1 && matches!(&t[0], Tok::Lit(x, _, _) if val(x) == Some(want.clone())) => {}
        Ok(_) => fail(out, &["C08"], format!("{} from {:?} prints as {:?} and does not come back", what, want, st.to_string())),
        Err(p) => fail(out, &["C08", "C01"], format!("{} from {:?} prints as {:?}; parsing it panicked: {}", what, want, st.to_string(), p)),
    }
    #[cfg(feature = "exempt")]
    {
        let mut want = want;
        let back = match mode {
            0 => guard(|| l.str_value().ok().map(|v| ints(&v))),
            1 => guard(|| l.byte_str_value().ok().map(|v| bints(&v))),
            2 => { want.push(0); guard(|| l.cstr_value().ok().map(|v| bints(&v))) }
            _ => return,
        };
        match back {
            Ok(Some(v)) if v == want => {}
            Ok(v) => fail(out, &["C09"], format!("{} from {:?} reads back as {:?}", what, want, v)),
            Err(p) => fail(out, &["C09"], format!("reading back {} from {:?} panicked: {}", what, want, p)),
        }
    }
}
fn number(ty: &str, v: &str, out: &mut Fails) {
    macro_rules! ints {
        ($($t:ident $s:ident $u:ident),*) => { match ty { $(stringify!($t) => {
            let Ok(n) = v.parse::<$t>() else { return };
            for (what, l, want) in [("suffixed", guard(|| Literal::$s(n)), format!("{}{}", n, stringify!($t))), ("unsuffixed", guard(|| Literal::$u(n)), n.to_string())] {
                match l {
                    Err(p) => fail(out, &["C14"], format!("{} {} {} panicked: {}", ty, what, v, p)),
                    Ok(l) => { if l.to_string() != want { fail(out, &["C14"], format!("{} {} {} is written {:?}", ty, what, v, l.to_string())); } numlit(&l, out); }
                }
            }
        })* _ => {} } }
    }
    macro_rules! floats {
        ($($t:ident $b:ident $s:ident $u:ident),*) => { match ty { $(stringify!($t) => {
            let Ok(bits) = v.parse::<$b>() else { return };
            let n = $t::from_bits(bits);
            for (suffixed, l) in [(true, guard(|| Literal::$s(n))), (false, guard(|| Literal::$u(n)))] {
                match l {
                    Err(p) => if n.is_finite() { fail(out, &["C14"], format!("{} {:?} panicked: {}", ty, n, p)) },
                    Ok(l) => {
                        let r = l.to_string();
                        if !n.is_finite() { fail(out, &["C14"], format!("{} {:?} is written {:?}", ty, n, r)); continue; }
                        let digits = if suffixed { match r.strip_suffix(stringify!($t)) { Some(d) => d, None => { fail(out, &["C14"], format!("{} {:?} is written {:?} without its type", ty, n, r)); continue; } } } else { &r };
                        if digits.parse::<$t>().map(|x| x.to_bits()) != Ok(bits) { fail(out, &["C14"], format!("{} {:?} is written {:?}", ty, n, r)); }
                        if digits.contains('_') || digits.ends_with(|c: char| c.is_alphabetic()) { fail(out, &["C14"], format!("{} {:?} is written {:?}", ty, n, r)); }
                        let pos = chars(digits.strip_prefix('-').unwrap_or(digits));
                        if !suffixed && !whole(float_lit(pos)) { fail(out, &["C14"], format!("{} {:?} is written {:?}, not a float literal", ty, n, r)); }
                        numlit(&l, out);
                    }
                }
            }
        })* _ => {} } }
    }
    ints!(u8 u8_suffixed u8_unsuffixed, u16 u16_suffixed u16_unsuffixed, u32 u32_suffixed u32_unsuffixed, u64 u64_suffixed u64_unsuffixed,
        u128 u128_suffixed u128_unsuffixed, usize usize_suffixed usize_unsuffixed, i8 i8_suffixed i8_unsuffixed, i16 i16_suffixed i16_unsuffixed,
        i32 i32_suffixed i32_unsuffixed, i64 i64_suffixed i64_unsuffixed, i128 i128_suffixed i128_unsuffixed, isize isize_suffixed isize_unsuffixed);
    floats!(f32 u32 f32_suffixed f32_unsuffixed, f64 u64 f64_suffixed f64_unsuffixed);
}
fn numlit(l: &Literal, out: &mut Fails) {
    let r = l.to_string();
    if !literal_source(chars(&r)) { fail(out, &["C14"], format!("{:?} is not a number literal", r)); }
    let model = put(&[Tok::Lit(chars(&r), 0, 0)]);
    let st = TokenStream::from(TokenTree::from(l.clone()));
    if toks(&st) != model { fail(out, &["C12"], format!("literal {} in a stream becomes {}", r, st)); }
}

// ---------------------------------------------------------------- histories of parses and span queries
#[cfg(feature = "spans")]
fn hist(args: &[String], out: &mut Fails) {
    struct Entry { src: loc::Src, all: Vec<(TokenTree, Tok)>, file: String }
    let mut es: Vec<Entry> = vec![];
    let query = |e: &Entry, k: usize, order: usize, out: &mut Fails| {
        let (t, w) = &e.all[k];
        e.src.token(t, w, order, out);
        if order % 4 == 1 { e.src.token(&t.clone(), w, order, out); }
        match guard(|| t.span().file()) {
            Ok(f) => if f != e.file { fail(out, &["C10"], format!("file of {} is {:?}, expected {:?}", brief(Some(w)), f, e.file)); },
            Err(p) => fail(out, &["C10"], format!("file of {}: panic: {}", brief(Some(w)), p)),
        }
    };
    for (step, a) in args.iter().enumerate() {
        let (op, rest) = match a.chars().next() { Some(c) => (c, &a[c.len_utf8()..]), None => continue };
        let n: Vec<usize> = rest.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
        let before = out.len();
        match op {
            'P' => {
                let s = chars(rest);
                if let (LexR::Ok(w), Ok(Ok(g))) = (lex_source(s.clone(), 0), guard(|| TokenStream::from_str(rest))) {
                    if toks(&g) == w.as_slice().iter().map(bare).collect::<Vec<_>>() {
                        let mut all = vec![];
                        loc::flat(&g, w.as_slice(), false, &mut all);
                        let file = match all.first() { Some(t) => guard(|| t.0.span().file()).unwrap_or_default(), None => continue };
                        if es.iter().any(|e| e.file == file) { fail(out, &["C10"], format!("two texts are both called {:?}", file)); }
                        es.push(Entry { src: loc::Src::new(rest), all, file });
                    }
                }
            }
            'L' => {
                if let (true, Ok(Ok(l))) = (literal_source(chars(rest)), guard(|| Literal::from_str(rest))) {
                    let w = Tok::Lit(chars(rest), 0, chars(rest).len());
                    let file = guard(|| l.span().file()).unwrap_or_default();
                    es.push(Entry { src: loc::Src::new(rest), all: vec![(l.into(), w)], file });
                }
            }
            'X' => { es.clear(); loc::fresh(); }
            'C' => {
                let c = Span::call_site();
                let mut g = Group::new(Delimiter::Parenthesis, TokenStream::new());
                let mut all: Vec<(&str, &[&'static str], Span)> = vec![("call_site", &["C10"], c), ("mixed_site", &["C10"], Span::mixed_site()), ("Literal::u8_suffixed", &["C10"], Literal::u8_suffixed(1).span()), ("Literal::string", &["C10"], Literal::string("a").span()),
                    ("Punct::new", &["C10"], Punct::new('+', Spacing::Joint).span()), ("resolved_at", &["C11"], c.resolved_at(c)), ("located_at", &["C11"], c.located_at(c)), ("Ident::new", &["C11", "C10"], Ident::new("a", c).span())];
                if let Some(e) = es.last() { g.set_span(e.all[0].0.span()); g.set_span(c); all.push(("located_at", &["C11"], e.all[0].0.span().located_at(c))); }
                let d = g.delim_span();
                for (n, s) in [("span", g.span()), ("span_open", g.span_open()), ("span_close", g.span_close()), ("delim_span().open", d.open()), ("delim_span().close", d.close()), ("delim_span().join", d.join())] { all.push((n, &["C11", "C10"], s)); }
                for (n, ps, c) in all {
                    match guard(|| (c.byte_range(), c.source_text(), c.start(), c.end(), c.file(), c.local_file())) {
                        Ok((r, t, a, b, f, l)) => if r != (0..0) || t.is_some() || (a.line, a.column, b.line, b.column) != (1, 0, 1, 0) || f != "<unspecified>" || l.is_some() { fail(out, ps, format!("{} of what came of no text: {:?} {:?} {:?} {:?} {:?} {:?}", n, r, t, a, b, f, l)); },
                        Err(p) => fail(out, ps, format!("{} of what came of no text: panic: {}", n, p)),
                    }
                }
            }
            'Q' if !es.is_empty() && n.len() >= 3 => { let e = &es[n[0] % es.len()]; query(e, n[1] % e.all.len(), n[2], out); }
            'J' if !es.is_empty() && n.len() >= 4 => {
                let (e, f) = (n[0] % es.len(), n[2] % es.len());
                let ((t, w), (u, x)) = (&es[e].all[n[1] % es[e].all.len()], &es[f].all[n[3] % es[f].all.len()]);
                let ((a, b), (c, d)) = (lohi(w), lohi(x));
                match guard(|| t.span().join(u.span())) {
                    Err(p) => fail(out, &["C11"], format!("join panicked: {}", p)),
                    Ok(None) => if e == f { fail(out, &["C11"], format!("spans of one text do not join: {} and {}", brief(Some(w)), brief(Some(x)))); },
                    Ok(Some(sp)) => {
                        if e != f { fail(out, &["C11"], format!("spans of different texts join: {} and {}", brief(Some(w)), brief(Some(x)))); }
                        else {
                            match guard(|| es[e].src.located(sp, a.min(c), b.max(d), n[1])) {
                                Ok(None) => {}
                                Ok(Some(m)) => fail(out, &["C11"], format!("join of {} and {}: {}", brief(Some(w)), brief(Some(x)), m)),
                                Err(p) => fail(out, &["C11"], format!("join of {} and {}: panic: {}", brief(Some(w)), brief(Some(x)), p)),
                            }
                            let (y, z) = &es[e].all[(n[1] + n[3] + 1) % es[e].all.len()];
                            let (g, h) = lohi(z);
                            for (k, j) in [guard(|| sp.join(y.span())), guard(|| y.span().join(sp))].into_iter().enumerate() {
                                match j {
                                    Ok(Some(j)) => match guard(|| es[e].src.located(j, a.min(c).min(g), b.max(d).max(h), k)) {
                                        Ok(None) => {}
                                        Ok(Some(m)) => fail(out, &["C11"], format!("join of a joined span: {}", m)),
                                        Err(p) => fail(out, &["C11"], format!("join of a joined span: panic: {}", p)),
                                    },
                                    Ok(None) => fail(out, &["C11"], "a joined span does not join".into()),
                                    Err(p) => fail(out, &["C11"], format!("join of a joined span: panic: {}", p)),
                                }
                            }
                        }
                    }
                }
                if let Ok(o) = guard(|| Span::call_site().join(u.span())) { if o.is_some() { fail(out, &["C11"], "call_site joins with a parsed token".into()); } }
                let sp = t.span().located_at(u.span());
                if let Ok(Some(m)) = guard(|| es[f].src.located(sp, c, d, 0)) { fail(out, &["C11"], format!("located_at: {}", m)); }
                let sp = t.span().resolved_at(u.span());
                if let Ok(Some(m)) = guard(|| es[e].src.located(sp, a, b, 0)) { fail(out, &["C11"], format!("resolved_at: {}", m)); }
                // set and get
                let mut v = t.clone();
                v.set_span(u.span());
                if tok(&v) != tok(t) { fail(out, &["C11"], format!("set_span changed {} to {}", brief(Some(&tok(t))), brief(Some(&tok(&v))))); }
                let inner = match v.clone() {
                    TokenTree::Group(mut x) => {
                        let ds = x.delim_span();
                        for (what, sp, a, b) in [("open", x.span_open(), c, (c + 1).min(d)), ("close", x.span_close(), (d - 1).max(c), d), ("delim open", ds.open(), c, (c + 1).min(d)), ("delim close", ds.close(), (d - 1).max(c), d), ("delim join", ds.join(), c, d)] {
                            if let Ok(Some(m)) = guard(|| es[f].src.located(sp, a, b, 1)) { fail(out, &["C11"], format!("{} span of a group whose span was set: {}", what, m)); }
                        }
                        let s = x.span(); x.set_span(t.span()); x.set_span(u.span()); if let (TokenTree::Group(o), Tok::Group(_, i, _, _)) = (t, w) {
                            for ((y, z), wi) in o.stream().into_iter().zip(x.stream()).zip(i.as_slice()) { let _ = y; es[e].src.token(&z, wi, 0, out); } }
                        if x.span().byte_range() != s.byte_range() { fail(out, &["C11"], "set_span of a group".into()); } x.span() }
                    TokenTree::Ident(mut x) => { x.set_span(t.span()); x.set_span(u.span()); x.span() }
                    TokenTree::Punct(mut x) => { x.set_span(t.span()); x.set_span(u.span()); x.span() }
                    TokenTree::Literal(mut x) => { x.set_span(t.span()); x.set_span(u.span()); x.span() }
                };
                for sp in [v.span(), inner] {
                    match guard(|| es[f].src.located(sp, c, d, 2)) {
                        Ok(None) => {}
                        Ok(Some(m)) => fail(out, &["C11"], format!("span set on {} and read back: {}", brief(Some(w)), m)),
                        Err(p) => fail(out, &["C11"], format!("span set on {} and read back: panic: {}", brief(Some(w)), p)),
                    }
                }
                // in a group of any kind, built here: the span set is the group's and not its content's
                let minus = |t: &TokenTree| matches!(t, TokenTree::Literal(l) if l.to_string().starts_with('-'));
                if !minus(t) && !minus(u) { for d in [Delimiter::None, Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket] {
                    let mut g = Group::new(d, [t.clone(), u.clone()].into_iter().collect());
                    g.set_span(u.span());
                    if n[1] % 2 == 0 { let mut v = TokenTree::from(g.clone()); v.set_span(t.span()); v.set_span(u.span()); if let TokenTree::Group(x) = v { g = x; } }
                    let c2 = g.clone();
                    for g in [&g, &c2] {
                        for (what, sp, a, b) in [("span", g.span(), c, lohi(x).1), ("open", g.span_open(), c, (c + 1).min(lohi(x).1)), ("close", g.span_close(), (lohi(x).1 - 1).max(c), lohi(x).1)] {
                            if let Ok(Some(m)) = guard(|| es[f].src.located(sp, a, b, 2)) { fail(out, &["C11"], format!("{} of a group of delimiter {:?} whose span was set: {}", what, d, m)); }
                        }
                        let mut i = g.stream().into_iter();
                        for (k, w) in [(e, w), (f, x)] { if let Some(y) = i.next() { let mut o = vec![]; es[k].src.token(&y, w, 0, &mut o); if let Some(m) = o.into_iter().next() { fail(out, &["C11"], format!("inside a group of delimiter {:?} whose span was set: {}", d, m.msg)); } } }
                    }
                } }
                if let TokenTree::Ident(x) = t {
                    let y = Ident::new("zz", u.span());
                    if let Ok(Some(m)) = guard(|| es[f].src.located(y.span(), c, d, 0)) { fail(out, &["C11"], format!("span given to Ident::new: {}", m)); }
                    let _ = x;
                }
            }
            'S' if !es.is_empty() && n.len() >= 3 => {
                let e = &es[n[0] % es.len()];
                let lits: Vec<_> = e.all.iter().filter(|(t, w)| matches!(t, TokenTree::Literal(l) if l.to_string().is_ascii()) && matches!(w, Tok::Lit(l, a, b) if l.len() == b - a)).collect();
                if !lits.is_empty() {
                    let (t, w) = lits[n[1] % lits.len()];
                    let (lo, hi) = lohi(w);
                    if let TokenTree::Literal(l) = t { subspan(&e.src, l, lo, hi, &rest.splitn(3, ' ').nth(2).unwrap_or(""), out); }
                }
            }
            _ => {}
        }
        if out.len() > before { let m = &mut out[before].msg; *m = format!("step {}: {}", step, m); return; }
    }
    for e in &es { for k in 0..e.all.len() { query(e, k, k, out); if !out.is_empty() { return; } } }
    for e in es.iter().rev() { for k in (0..e.all.len()).rev() { query(e, k, k + 1, out); if !out.is_empty() { return; } } }
}
#[cfg(not(feature = "spans"))]
fn hist(_args: &[String], _out: &mut Fails) {}

// ---------------------------------------------------------------- histories of stream operations
fn pool(k: usize) -> (TokenTree, Tok) {
    let sp = Span::call_site();
    let t: TokenTree = match k % 14 {
        0 => Ident::new("a", sp).into(),
        1 => Ident::new_raw("b", sp).into(),
        2 => Punct::new('+', Spacing::Joint).into(),
        3 => Punct::new('-', Spacing::Alone).into(),
        4 => Punct::new('\'', Spacing::Joint).into(),
        5 => Literal::u8_suffixed(1).into(),
        6 => Literal::string("s\"").into(),
        7 => Literal::i32_unsuffixed(-7).into(),
        8 => Literal::f64_suffixed(-2.5).into(),
        9 => Literal::from_str("-3u8").map(TokenTree::from).unwrap_or_else(|_| Ident::new("x", sp).into()),
        10 => Group::new(Delimiter::None, TokenStream::new()).into(),
        11 => Group::new(Delimiter::Brace, TokenStream::new()).into(),
        12 => Literal::i128_suffixed(i128::MIN).into(),
        _ => Literal::character('-').into(),
    };
    let m = tok(&t);
    (t, m)
}
const TEXTS: &[&str] = &["", "a", "a + b", "(x)", "{ [ ] } ;", "'a 1 \"s\"", "f(g(h), [1, 2]) { }", "/// d\nx"];
/// an iterator that tells less about its length than it could
struct Loose<I>(I, usize);
impl<I: Iterator> Iterator for Loose<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { match self.1 { 0 => (0, None), 1 => (0, self.0.size_hint().1.map(|n| n + 9)), _ => (self.0.size_hint().0, None) } }
}
fn ops(args: &[String], out: &mut Fails) {
    let mut st: Vec<(TokenStream, Vec<Tok>)> = vec![(TokenStream::new(), vec![])];
    let mut its: Vec<(token_stream::IntoIter, Vec<Tok>)> = vec![];
    for (step, a) in args.iter().enumerate() {
        let n: Vec<usize> = a.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
        if n.len() < 4 { continue; }
        let k = st.len();
        let (x, y, z) = (n[1] % k, n[2] % k, n[3]);
        let wrap = |d: usize| [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None][d % 4];
        let r = guard(|| {
            match n[0] % 34 {
                0 => st.push((TokenStream::new(), vec![])),
                1 => if let Ok(t) = TokenStream::from_str(TEXTS[z % TEXTS.len()]) { let m = toks(&t); st.push((t, m)); },
                2 => { let c = st[x].clone(); st.push(c); }
                3 | 4 => {
                    let ts: Vec<_> = (0..z % 4).map(|i| pool(n[2] + i * 5)).collect();
                    st[x].1.extend(put(&ts.iter().map(|t| t.1.clone()).collect::<Vec<_>>()));
                    st[x].0.extend(ts.into_iter().map(|t| t.0));
                }
                5 => { let s = st[y].clone(); st[x].0.extend(std::iter::once(s.0)); st[x].1.extend(s.1); }
                6 => { let (s, t) = (st[y].clone(), st[z % k].clone()); st[x].0.extend([s.0, t.0]); st[x].1.extend(s.1); st[x].1.extend(t.1); }
                7 => {
                    let ts: Vec<_> = (0..z % 5).map(|i| pool(n[1] + i * 3)).collect();
                    let m = put(&ts.iter().map(|t| t.1.clone()).collect::<Vec<_>>());
                    st.push((ts.into_iter().map(|t| t.0).collect(), m));
                }
                8 => { let v: Vec<_> = [x, y, z % k].iter().map(|&i| st[i].clone()).collect(); let m = v.iter().flat_map(|s| s.1.clone()).collect(); st.push((v.into_iter().map(|s| s.0).collect(), m)); }
                9 => { let (t, m) = pool(z); st.push((TokenStream::from(t), put(&[m]))); }
                10 | 11 => {
                    let g = Group::new(wrap(z), st[y].0.clone());
                    let m = Tok::Group(dcode(wrap(z)), Seq::of(st[y].1.clone()), 0, 0);
                    if n[0] % 34 == 10 { st[x].0.extend([TokenTree::from(g)]); } else { st[x].0.extend([g]); }
                    st[x].1.push(m);
                }
                12 => {
                    // the content of a group found in a stream
                    let found = st[x].0.clone().into_iter().zip(st[x].1.clone()).filter(|t| matches!(t.0, TokenTree::Group(_))).nth(z % 3);
                    if let Some((TokenTree::Group(g), Tok::Group(_, i, _, _))) = found {
                        let mut s = (g.stream(), i.as_slice().to_vec());
                        if z % 2 == 0 { let (t, m) = pool(z); s.0.extend([t]); s.1.extend(put(&[m])); }
                        st.push(s);
                    }
                }
                13 => { let s = st[x].clone(); its.push((s.0.into_iter(), s.1)); }
                14 => if k > 1 { let s = st.swap_remove(x); its.push((s.0.into_iter(), s.1)); },
                15 => if !its.is_empty() {
                    let q = n[1] % its.len();
                    for _ in 0..z % 3 {
                        let want = if its[q].1.is_empty() { None } else { Some(its[q].1.remove(0)) };
                        let got = its[q].0.next().map(|t| tok(&t));
                        if got != want { return Some(format!("iteration gives {}, expected {}", brief(got.as_ref()), brief(want.as_ref()))); }
                    }
                },
                16 => if !its.is_empty() { let c = its[n[1] % its.len()].clone(); its.push(c); },
                17 => if !its.is_empty() { let it = its.swap_remove(n[1] % its.len()); st[y].0.extend(it.0); st[y].1.extend(it.1); },
                18 => if !its.is_empty() { let it = its.swap_remove(n[1] % its.len()); st.push((it.0.collect(), it.1)); },
                19 => if k > 1 { st.swap_remove(x); },
                20 => { st[x].0.extend([Ident::new("q", Span::call_site())]); st[x].1.push(Tok::Ident(false, chars("q"), 0, 0)); }
                21 => { st[x].0.extend([Punct::new(';', Spacing::Alone)]); st[x].1.push(Tok::Punct(';', false, 0, 0)); }
                22 => { let l = Literal::i64_suffixed(-5); st[x].0.extend([l.clone(), l]); st[x].1.extend(put(&[Tok::Lit(chars("-5i64"), 0, 0), Tok::Lit(chars("-5i64"), 0, 0)])); }
                23 => {
                    // many at once
                    let ts: Vec<_> = (0..z).map(|i| pool(n[2] + i * 11)).collect();
                    let m = put(&ts.iter().map(|t| t.1.clone()).collect::<Vec<_>>());
                    if n[2] % 2 == 0 { st[x].0.extend(ts.into_iter().map(|t| t.0)); st[x].1.extend(m); }
                    else { st.push((ts.into_iter().map(|t| t.0).collect(), m)); }
                }
                24 => {
                    let ts: Vec<_> = (0..z % 6).map(|i| st[(y + i) % k].clone()).collect();
                    let m: Vec<Tok> = ts.iter().flat_map(|t| t.1.clone()).collect();
                    if n[2] % 2 == 0 { st[x].0.extend(ts.into_iter().map(|t| t.0)); st[x].1.extend(m); }
                    else { st.push((ts.into_iter().map(|t| t.0).collect(), m)); }
                }
                25 => {
                    let ls: Vec<Literal> = (0..z % 5).map(|i| if (n[2] + i) % 3 == 0 { Literal::i64_suffixed(-5) } else { Literal::u8_unsuffixed(i as u8) }).collect();
                    let m: Vec<Tok> = ls.iter().map(|l| Tok::Lit(chars(&l.to_string()), 0, 0)).collect();
                    st[x].0.extend(ls);
                    st[x].1.extend(put(&m));
                }
                26 => {
                    // an iterator that says nothing about its length, and asks for spans meanwhile
                    let ts: Vec<_> = (0..z % 7).map(|i| pool(n[2] + i * 7)).collect();
                    let m = put(&ts.iter().map(|t| t.1.clone()).collect::<Vec<_>>());
                    let it = Loose(ts.into_iter().map(|t| { let _ = (t.0.span().source_text(), TokenStream::from_str("q (w)").map(|s| s.to_string()).ok()); t.0 }), z % 3);
                    if n[2] % 2 == 0 { st[x].0.extend(it); st[x].1.extend(m); } else { st.push((it.collect(), m)); }
                }
                27 => {
                    let ts: Vec<_> = (0..z % 5).map(|i| st[(y + i) % k].clone()).collect();
                    let m: Vec<Tok> = ts.iter().flat_map(|t| t.1.clone()).collect();
                    let it = Loose(ts.into_iter().map(|t| { let _ = t.0.to_string(); t.0 }), z % 3);
                    if n[2] % 2 == 0 { st[x].0.extend(it); st[x].1.extend(m); } else { st.push((it.collect(), m)); }
                }
                28 => {
                    // an iterator that panics halfway: what was there stays, as with any sequence
                    let old = st[x].1.clone();
                    let s = &mut st[x].0;
                    let stop = z % 4;
                    let _ = guard(|| if n[2] % 2 == 0 { s.extend((0..stop + 2).map(|i| { if i == stop { panic!("stop") } pool(n[2] + i).0 })) } else { s.extend((0..stop + 2).map(|i| { if i == stop { panic!("stop") } TokenStream::from(pool(n[2] + i).0) })) });
                    let now = toks(&st[x].0);
                    if now.len() < old.len() || now[..old.len()] != old[..] { return Some("tokens are lost when extending from an iterator that panics".to_string()); }
                    st[x].1 = now;
                }
                29 => if !its.is_empty() {
                    let q = n[1] % its.len();
                    let want = if z % 4 < its[q].1.len() { let r = its[q].1.remove(z % 4); its[q].1.drain(..z % 4); Some(r) } else { its[q].1.clear(); None };
                    let got = its[q].0.nth(z % 4).map(|t| tok(&t));
                    if got != want { return Some(format!("nth({}) gives {}, expected {}", z % 4, brief(got.as_ref()), brief(want.as_ref()))); }
                },
                30 => if !its.is_empty() {
                    let (it, m) = its[n[1] % its.len()].clone();
                    let every: Vec<Tok> = m.iter().step_by(1 + z % 3).cloned().collect();
                    if it.clone().count() != m.len() || it.clone().last().map(|t| tok(&t)) != m.last().cloned() || it.clone().fold(0, |a, _| a + 1) != m.len() || it.step_by(1 + z % 3).map(|t| tok(&t)).collect::<Vec<_>>() != every { return Some("count, last, fold or step_by disagree with the tokens left".to_string()); }
                },
                31 => { let s = st[y].clone(); let t = st[x].0.clone(); st[x].0.clone_from(&s.0); st[x].1 = s.1; if x == y { st[x].0.clone_from(&t); } }
                32 => if !its.is_empty() { let q = n[1] % its.len(); let (a, b) = its[q].clone(); let w = n[2] % its.len(); its[w].0.clone_from(&a); its[w].1 = b; },
                _ => {
                    // a token taken out, changed, put elsewhere: the original keeps its own
                    let ts: Vec<TokenTree> = st[x].0.clone().into_iter().collect();
                    let m: Vec<Tok> = st[x].1.iter().rev().cloned().collect();
                    let mut ts: Vec<TokenTree> = ts.into_iter().rev().collect();
                    for t in &mut ts { t.set_span(Span::mixed_site()); }
                    st.push((ts.into_iter().collect(), put(&m)));
                }
            }
            None
        });
        match r {
            Err(p) => { fail(out, &["C12"], format!("step {}: panic: {}", step, p)); return; }
            Ok(Some(m)) => { fail(out, &["C12"], format!("step {}: {}", step, m)); return; }
            Ok(None) => {}
        }
        let r = guard(|| {
            let mut o: Fails = vec![];
            for (i, (s, m)) in st.iter().enumerate() {
                let t = toks(s);
                if t != *m { fail(&mut o, &["C12"], format!("step {}: stream {} is {:?}, expected {:?}", step, i, s.to_string(), text(&show(Seq::of(m.clone()))))); return o; }
                if s.is_empty() != m.is_empty() { fail(&mut o, &["C12"], format!("step {}: is_empty is {}", step, s.is_empty())); }
                if step + 1 == args.len() { printed(s, m, &mut o); }
            }
            for (it, m) in &its {
                let h = it.size_hint();
                if h != (m.len(), Some(m.len())) && (h.0 > m.len() || h.1.is_some_and(|u| u < m.len())) { fail(&mut o, &["C12"], format!("step {}: size_hint {:?} with {} left", step, h, m.len())); }
                let rest: Vec<Tok> = it.clone().map(|t| tok(&t)).collect();
                if rest != *m { fail(&mut o, &["C12"], format!("step {}: an iterator has other tokens left than it should", step)); }
            }
            o
        });
        match r {
            Err(p) => { fail(out, &["C12"], format!("step {}: panic: {}", step, p)); return; }
            Ok(o) => if !o.is_empty() { out.extend(o); return; },
        }
        if st.len() > 6 { st.remove(0); }
        if its.len() > 4 { its.remove(0); }
        if st.iter().any(|s| s.1.len() > 900) { return; }
    }
}
/// deep nesting, on an ordinary stack
fn deep(args: &[String], out: &mut Fails) {
    let n: usize = args[0].parse().unwrap_or(1);
    let share = args.get(1).map(|s| s == "1").unwrap_or(false);
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let t: String = "(".repeat(n) + &")".repeat(n);
        let s = TokenStream::from_str(&t).ok()?;
        let mut depth = 0;
        let mut cur = s.clone();
        loop {
            let next = match cur.clone().into_iter().next() { Some(TokenTree::Group(g)) => g.stream(), _ => break };
            depth += 1;
            cur = next;
        }
        if share { let keep = s.clone(); drop(s); drop(cur); drop(keep); } else { drop(cur); drop(s); }
        Some(depth)
    });
    match h.map(|h| h.join()) {
        Ok(Ok(Some(d))) if d == n => {}
        Ok(Ok(d)) => fail(out, &["C01", "C04"], format!("{} nested groups come back as {:?}", n, d)),
        _ => fail(out, &["C01"], format!("{} nested groups: panic", n)),
    }
}

/// one token, or none, made long: what comes before, what is repeated, what comes after
pub const LONG: &[(&str, &str, &str, &[&'static str])] = &[
    ("", "a", "", &["C07", "C02"]), ("r#", "é", "", &["C07", "C02"]), ("_", "9", "", &["C07", "C02"]),
    ("\"", "a", "\"", &["C03"]), ("\"", "é\\n", "\"x", &["C03"]), ("\"", "\\u{e9}", "\"", &["C03"]), ("\"\\\n", " ", "\"", &["C03"]), ("\"", "\\\n\t", "\"", &["C03"]), ("\"", "\r\n", "\"", &["C03"]),
    ("r##\"", "\"#", "\"##", &["C03"]), ("r\"", "é", "\"", &["C03"]), ("b\"", "\\x41", "\"", &["C03"]), ("b\"\\\n", "\r\n ", "\"", &["C03"]), ("br\"", "a", "\"", &["C03"]), ("c\"", "é\\\\", "\"", &["C03"]), ("cr#\"", "\"", "\"#", &["C03"]),
    ("1", "0", "", &["C03"]), ("1", "_", "u8", &["C03"]), ("0x", "f_", "", &["C03"]), ("0b_", "1", "", &["C03"]), ("1.", "0", "f64", &["C03"]), ("1", "_0", ".5", &["C03"]), ("1e", "_", "1", &["C03"]), ("1.5e-", "0", "1", &["C03"]), ("1", "a", "", &["C03"]),
    ("", " ", "", &["C05", "C02"]), ("", "\u{2028}\n", "", &["C05", "C02"]), ("//", "é", "", &["C05"]), ("/*", "a*", "*/", &["C05"]), ("", "//\n", "", &["C05"]), ("", "/**/", "", &["C05"]), ("////", "/", "\n", &["C05"]),
];
/// things too long for the grammar to be run on: what they must give is known
fn big(args: &[String], out: &mut Fails) {
    let shape: usize = args.first().and_then(|a| a.parse().ok()).unwrap_or(0);
    let n: usize = args.get(1).and_then(|a| a.parse().ok()).unwrap_or(0);
    if shape >= 10 {
        let Some(&(a, u, b, ps)) = LONG.get(shape - 10) else { return };
        let t = format!("{}{}{}", a, u.repeat(n), b);
        let what = format!("{:?}, {:?} {} times, {:?}", a, u, n, b);
        let g = match guard(|| TokenStream::from_str(&t)) { Ok(Ok(g)) => g, Ok(Err(_)) => return fail(out, ps, format!("{}: rejected", what)), Err(p) => return fail(out, ps, format!("{}: panic: {}", what, p)) };
        let v: Vec<TokenTree> = g.into_iter().collect();
        if ps[0] == "C05" { if !v.is_empty() { fail(out, ps, format!("{}: {} tokens", what, v.len())); } return; }
        if v.len() != 1 || v[0].to_string() != t { return fail(out, ps, format!("{}: {} tokens, the first of {} bytes", what, v.len(), v.first().map_or(0, |x| x.to_string().len()))); }
        if matches!(v[0], TokenTree::Ident(_)) != (ps[0] == "C07") { fail(out, ps, format!("{}: of the wrong kind", what)); }
        #[cfg(feature = "spans")]
        { let src = loc::Src::new(&t); let k = src.chars.len(); match guard(|| src.located(v[0].span(), 0, k, n)) { Ok(None) => {} _ => fail(out, &["C10"], format!("span of {}", what)) } }
        if let TokenTree::Literal(l) = &v[0] {
            match guard(|| Literal::from_str(&t)) { Ok(Ok(m)) if m.to_string() == l.to_string() => {} _ => fail(out, &["C03", "C01"], format!("Literal::from_str of {}", what)) }
        }
        return;
    }
    match shape {
        // streams
        0 => {
            let ts = || (0..n).map(|i| TokenTree::from(Ident::new(&format!("a{}", i), Span::call_site())));
            let same = |what: &str, s: &TokenStream, m: usize, out: &mut Fails| {
                let mut k = 0;
                let r = guard(|| { for (i, t) in s.clone().into_iter().enumerate() { if t.to_string() != format!("a{}", i % n.max(1)) { return Err(i); } k += 1; } Ok(()) });
                if r != Ok(Ok(())) || k != m || s.is_empty() != (m == 0) || s.clone().into_iter().size_hint() != (m, Some(m)) { fail(out, &["C12"], format!("{} of {} tokens: {} come back, {:?}", what, n, k, r)); }
            };
            let s: TokenStream = ts().collect();
            same("collecting", &s, n, out);
            let mut e = TokenStream::new();
            e.extend(ts());
            same("extending with", &e, n, out);
            let keep = e.clone();
            e.extend([s.clone()]);
            same("extending with a stream", &e, 2 * n, out);
            same("a clone", &keep, n, out);
            same("collecting streams", &[s.clone(), e.clone(), TokenStream::new()].into_iter().collect(), 3 * n, out);
            let mut one = TokenStream::new();
            for t in ts() { one.extend([t]); }
            same("extending one by one", &one, n, out);
            let many: TokenStream = ts().map(TokenStream::from).collect();
            same("collecting streams of one", &many, n, out);
            let mut many = TokenStream::new();
            many.extend(ts().map(TokenStream::from));
            same("extending with streams of one", &many, n, out);
            let mut it = s.clone().into_iter();
            let _ = it.nth(n / 2);
            let rest: TokenStream = it.clone().collect();
            if rest.clone().into_iter().count() + n / 2 + 1 != n.max(n / 2 + 1) { fail(out, &["C12"], format!("the rest of an iterator over {} tokens", n)); }
            let g = Group::new(Delimiter::Brace, s.clone());
            same("the content of a group", &g.stream(), n, out);
            let p = s.to_string();
            if n > 0 && (!p.split(' ').enumerate().all(|(i, w)| w == format!("a{}", i)) || p.split(' ').count() != n) { fail(out, &["C13"], format!("printing {} tokens", n)); }
            if n > 0 && g.to_string() != format!("{{ {} }}", p) { fail(out, &["C13"], format!("printing a group of {} tokens", n)); }
        }
        // texts of many tokens
        1 => {
            let unit = "ab 1.5 +=(\"é\" 'x')\n/* c */ r#fn {;}\r\n";
            let LexR::Ok(w) = lex_source(chars(unit), 0) else { return };
            let (w, len) = (w.as_slice().to_vec(), chars(unit).len());
            let t = unit.repeat(n);
            let g = match guard(|| TokenStream::from_str(&t)) { Ok(Ok(g)) => g, Ok(Err(_)) => return fail(out, LEX, format!("{:?} {} times: rejected", unit, n)), Err(p) => return fail(out, LEX, format!("{:?} {} times: panic: {}", unit, n, p)) };
            let mut k = 0;
            for (i, x) in g.clone().into_iter().enumerate() {
                k += 1;
                if tok(&x) != bare(&w[i % w.len()]) { return fail(out, &["C01", "C02", "C04"], format!("{:?} {} times: token {} is {}", unit, n, i, brief(Some(&tok(&x))))); }
            }
            if k != n * w.len() { fail(out, &["C01", "C02", "C04"], format!("{:?} {} times: {} tokens", unit, n, k)); }
            let _ = len;
            #[cfg(feature = "spans")]
            {
                let src = loc::Src::new(&t);
                let v: Vec<TokenTree> = g.into_iter().collect();
                for i in [0, k / 2, k.saturating_sub(1), 1, k.saturating_sub(2), k / 3, 7 * k / 8, k / 2 + 1, k / 5] {
                    if i >= k { continue; }
                    let (a, b) = lohi(&w[i % w.len()]);
                    let o = (i / w.len()) as int * len;
                    match guard(|| src.located(v[i].span(), a + o, b + o, i)) { Ok(None) => {} Ok(Some(m)) => fail(out, &["C10"], format!("token {} of {:?} {} times: {}", i, unit, n, m)), Err(p) => fail(out, &["C10"], format!("token {} of {:?} {} times: panic: {}", i, unit, n, p)) }
                }
            }
        }
        // literals
        2 => {
            let body = "aé\\\n\0".repeat(n);
            let l = Literal::string(&body);
            let back = guard(|| TokenStream::from_str(&l.to_string()).ok().map(|s| s.to_string()));
            if back != Ok(Some(l.to_string())) { fail(out, &["C08"], format!("a string of {} characters does not parse back", 5 * n)); }
            let bytes: Vec<u8> = (0..n).map(|i| (i % 256) as u8).collect();
            let nonzero: Vec<u8> = bytes.iter().copied().filter(|&b| b != 0).collect();
            let c = std::ffi::CString::new(nonzero.clone()).unwrap();
            #[allow(unused_variables)]
            let (b, c) = (Literal::byte_string(&bytes), Literal::c_string(&c));
            for l in [&b, &c] { if guard(|| Literal::from_str(&l.to_string()).ok().map(|s| s.to_string())) != Ok(Some(l.to_string())) { fail(out, &["C08"], format!("a string of {} bytes does not parse back", n)); } }
            #[cfg(feature = "exempt")]
            {
                if guard(|| l.str_value().ok()) != Ok(Some(body.clone())) { fail(out, &["C08", "C09"], format!("the value of a string of {} characters", 5 * n)); }
                if guard(|| b.byte_str_value().ok()) != Ok(Some(bytes.clone())) { fail(out, &["C08", "C09"], format!("the value of a byte string of {}", n)); }
                if guard(|| c.cstr_value().ok().map(|c| { let mut c = c; if c.last() == Some(&0) { c.pop(); } c })) != Ok(Some(nonzero.clone())) { fail(out, &["C08", "C09"], format!("the value of a C string of {}", n)); }
            }
        }
        // comments within comments, doc comments, hashes
        3 => {
            let t = "/*".repeat(n) + &"*/".repeat(n);
            if guard(|| TokenStream::from_str(&format!("{}a", t)).map(|s| s.to_string()).ok()) != Ok(Some("a".into())) { fail(out, &["C05"], format!("{} comments within each other", n)); }
            if n > 0 && guard(|| TokenStream::from_str(&t[..t.len() - 2]).is_ok()) != Ok(false) { fail(out, &["C05"], format!("{} comments within each other, the last not closed", n)); }
            for (o, c) in [("///", "\n"), ("/**", "*/"), ("//!", ""), ("/*!", "*/")] {
                let body = " aé".repeat(n + 1);
                match guard(|| TokenStream::from_str(&format!("{}{}{}", o, body, c))) {
                    Ok(Ok(s)) => {
                        let s = s.to_string();
                        if !s.ends_with(&format!("[doc = \"{}\"]", body)) || s.len() > body.len() + 20 { fail(out, &["C05"], format!("a doc comment {} of {} bytes", o, body.len())); }
                    }
                    _ => fail(out, &["C05"], format!("a doc comment {} of {} bytes", o, body.len())),
                }
            }
            for h in 0..=300usize.min(n) {
                let t = format!("r{}\"\"{}", "#".repeat(h), "#".repeat(h));
                let ok = guard(|| TokenStream::from_str(&t).is_ok_and(|s| s.into_iter().count() == 1)) == Ok(true);
                if ok != (h <= 255) { fail(out, &["C03"], format!("a raw string of {} pounds is taken: {}", h, ok)); }
            }
        }
        _ => {}
    }
}

pub fn run(c: &Case) -> Fails {
    let mut out = vec![];
    loc::fresh();
    let a = &c.args;
    let s0 = a.first().map(|s| s.as_str()).unwrap_or("");
    match c.kind.as_str() {
        "parse" => parse(s0, &mut out),
        "lit" => lit(s0, &a[1.min(a.len())..], &mut out),
        "ident" => idents(a, &mut out),
        "punct" => puncts(a, &mut out),
        "str" => built("a string", guard(|| Literal::string(s0)), 0, ints(s0), &mut out),
        "chr" => for ch in s0.chars() { built("a character", guard(|| Literal::character(ch)), 3, vec![ch as int], &mut out); },
        "byte" => for b in latin(s0) { built("a byte", guard(|| Literal::byte_character(b)), 4, vec![b as int], &mut out); },
        "bstr" => { let b = latin(s0); built("a byte string", guard(|| Literal::byte_string(&b)), 1, bints(&b), &mut out); }
        "cstr" => {
            let b: Vec<u8> = latin(s0).into_iter().filter(|&b| b != 0).collect();
            let c = std::ffi::CString::new(b.clone()).unwrap();
            built("a C string", guard(|| Literal::c_string(&c)), 2, bints(&b), &mut out);
        }
        "num" => if a.len() >= 2 { number(&a[0], &a[1], &mut out) },
        "hist" => hist(a, &mut out),
        "ops" => ops(a, &mut out),
        "nest" => nest(a, &mut out),
        "big" => big(a, &mut out),
        "deep" => if !a.is_empty() { deep(a, &mut out) },
        _ => {}
    }
    out
}

/// Parsing, sharing and dropping deeply nested streams on a small stack: a
/// recursion over the nesting ends the process.
fn nest(args: &[String], out: &mut Fails) {
    let a: Vec<String> = args.to_vec();
    match std::thread::Builder::new().stack_size(128 << 10).spawn(move || nest1(&a)).map(|h| h.join()) {
        Ok(Ok(None)) | Err(_) => {}
        Ok(Ok(Some(m))) => fail(out, &["C15", "C04"], m),
        Ok(Err(_)) => fail(out, &["C15"], "panic".into()),
    }
}
fn nest_text(shape: usize, depth: usize) -> String {
    let (o, c) = [('(', ')'), ('[', ']'), ('{', '}')][shape % 3];
    let pre = ["", "a ", "(x) ", "[[]] ", "+", "\"s\" {} "][shape / 3 % 6];
    let post = ["", " b", " (y)", " {z}[q]", ";", " 1"][shape / 18 % 6];
    let mut s = String::new();
    for i in 0..depth {
        if shape / 108 % 2 == 0 || i % 7 == 0 { s += pre; }
        s.push(if shape / 216 % 2 == 0 { o } else { ['(', '[', '{'][i % 3] });
    }
    s += ["", "a", "()", "/// d\n"][shape / 432 % 4];
    for i in (0..depth).rev() {
        s.push(if shape / 216 % 2 == 0 { c } else { [')', ']', '}'][i % 3] });
        if shape / 108 % 2 == 0 || i % 5 == 0 { s += post; }
    }
    match shape / 1728 % 4 { 0 => {} 1 => s.push(o), 2 => s.push(c), _ => { s.insert(0, o); } }
    s
}
fn inner_of(s: &TokenStream, levels: usize) -> TokenStream {
    let mut cur = s.clone();
    for _ in 0..levels {
        let mut next = None;
        for t in cur.clone() { if let TokenTree::Group(g) = t { let keep = match &next { None => true, Some(n) => { let n: &Group = n; !g.stream().is_empty() || n.stream().is_empty() } }; if keep { next = Some(g); } } }
        match next { Some(g) => cur = g.stream(), None => break }
    }
    cur
}
fn nest1(args: &[String]) -> Option<String> {
    let mut held: Vec<TokenStream> = vec![];
    let mut its: Vec<token_stream::IntoIter> = vec![];
    let mut groups: Vec<TokenTree> = vec![];
    for a in args {
        let n: Vec<usize> = a.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
        if n.len() < 3 { continue; }
        let k = held.len();
        let pick = |i: usize| if k == 0 { 0 } else { i % k };
        match n[0] % 12 {
            0 | 1 => {
                let d = n[2];
                match (nest_text(n[1], d).parse::<TokenStream>(), n[1] / 1728 % 4 == 0) {
                    (Ok(s), true) => held.push(s),
                    (Err(_), false) => {}
                    (Ok(_), false) => return Some(format!("a text of {} groups within each other that does not match up is accepted", d)),
                    (Err(_), true) => return Some(format!("a text of {} groups within each other is rejected", d)),
                }
            }
            2 => {
                // built from the inside out
                // with a stream shared between all levels beside the deep part
                let beside: TokenStream = ["(a)", "b {c} 1", "[x] ((y))", "+"][n[1] / 11 % 4].parse().unwrap();
                if n[1] / 44 % 3 > 0 { held.push(beside.clone()); }
                let mut s = if k > 0 && n[1] % 2 == 0 { held[pick(n[1] / 2)].clone() } else { TokenStream::new() };
                for i in 0..n[2] {
                    let g = TokenTree::from(Group::new([Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None][(n[1] + i) % 4], s));
                    s = if n[1] % 3 == 0 { std::iter::once(g).collect() } else if n[1] % 3 == 1 { TokenStream::from(g) } else { let mut t = TokenStream::new(); t.extend([g]); t };
                    match n[1] / 132 % 4 {
                        1 => { let mut t = beside.clone(); t.extend([s]); s = t; }
                        2 => s.extend([beside.clone()]),
                        3 if i % 3 == 0 => { let mut t = beside.clone(); t.extend([s]); s = t; }
                        _ => {}
                    }
                    if i % 997 == n[1] % 997 { held.push(s.clone()); }
                }
                held.push(s);
            }
            3 => if k > 0 { held.push(held[pick(n[1])].clone()); },
            4 | 5 => if k > 0 { held.push(inner_of(&held[pick(n[1])], n[2])); },
            6 | 7 => if k > 0 { held.swap_remove(pick(n[1])); },
            8 => if k > 0 { let mut it = held.swap_remove(pick(n[1])).into_iter(); for _ in 0..n[2] % 3 { it.next(); } its.push(it); },
            9 => { its.pop(); }
            10 => if k > 0 { let s = held[pick(n[1])].clone(); let j = pick(n[2]); held[j].extend([s]); },
            _ => if k > 0 { if let Some(g) = held[pick(n[1])].clone().into_iter().find(|t| matches!(t, TokenTree::Group(_))) { groups.push(g); if groups.len() > 3 { groups.remove(0); } } },
        }
    }
    if args.len() % 2 == 0 { while !held.is_empty() { held.remove(0); } }
    None
}
