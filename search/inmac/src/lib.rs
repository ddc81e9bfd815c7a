//! Cases for property C16, run where the compiler's side exists: inside rustc,
//! as a procedural macro. What proc_macro2 does is compared with what
//! proc_macro does when asked directly, and fallback values, made with
//! fallback::force(), are mixed in where they must be refused.
#![cfg_attr(feature = "exempt", feature(proc_macro_span, proc_macro_def_site))]
extern crate proc_macro as pm1;
use proc_macro2 as pm2;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn of<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len())].clone() }
}

type R = Result<(), String>;
macro_rules! same {
    ($what:expr, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        if a != b { return Err(format!("{}: proc_macro2 gives {:?}, proc_macro {:?}", $what, a, b)); }
    }};
}
macro_rules! hold {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}
fn panics<T>(f: impl FnOnce() -> T) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
/// the span is the compiler's
fn comp(s: pm2::Span) -> bool { !panics(|| s.unwrap()) }

// ---- walking both kinds of stream
fn w1(s: pm1::TokenStream, o: &mut String) {
    for t in s {
        match t {
            pm1::TokenTree::Group(g) => {
                let _ = write!(o, "G{:?}/{:?}/{:?}/{:?}[", g.delimiter(), g.span(), g.span_open(), g.span_close());
                w1(g.stream(), o);
                o.push(']');
            }
            pm1::TokenTree::Ident(i) => { let _ = write!(o, "I{}/{:?} ", i, i.span()); }
            pm1::TokenTree::Punct(p) => { let _ = write!(o, "P{:?}{:?}/{:?} ", p.as_char(), p.spacing(), p.span()); }
            pm1::TokenTree::Literal(l) => { let _ = write!(o, "L{}/{:?} ", l, l.span()); }
        }
    }
}
fn w2(s: pm2::TokenStream, o: &mut String) {
    for t in s {
        let sp = t.span();
        match t {
            pm2::TokenTree::Group(g) => {
                let _ = write!(o, "G{:?}/{:?}/{:?}/{:?}[", g.delimiter(), g.span(), g.span_open(), g.span_close());
                let d = g.delim_span();
                if format!("{:?}", sp) != format!("{:?}", g.span()) || format!("{:?}{:?}{:?}", d.join(), d.open(), d.close()) != format!("{:?}{:?}{:?}", g.span(), g.span_open(), g.span_close()) { o.push_str("!spans of a group disagree!"); }
                w2(g.stream(), o);
                o.push(']');
            }
            pm2::TokenTree::Ident(i) => { let _ = write!(o, "I{}/{:?} ", i, i.span()); }
            pm2::TokenTree::Punct(p) => { let _ = write!(o, "P{:?}{:?}/{:?} ", p.as_char(), p.spacing(), p.span()); }
            pm2::TokenTree::Literal(l) => { let _ = write!(o, "L{}/{:?} ", l, l.span()); }
        }
    }
}
fn walk1(s: &pm1::TokenStream) -> String { let mut o = String::new(); w1(s.clone(), &mut o); o }
fn walk2(s: &pm2::TokenStream) -> String { let mut o = String::new(); w2(s.clone(), &mut o); o }
fn same_stream(what: &str, a: &pm2::TokenStream, b: &pm1::TokenStream) -> R {
    same!(format!("{what}: is_empty"), a.is_empty(), b.is_empty());
    same!(format!("{what}: printed"), a.to_string(), b.to_string());
    same!(format!("{what}: tokens"), walk2(a), walk1(b));
    same!(format!("{what}: debug"), format!("{:?}", a), format!("{:?}", b));
    same!(format!("{what}: handed back"), walk1(&pm1::TokenStream::from(a.clone())), walk1(b));
    Ok(())
}

// ---- tokens made on both sides
const IDENTS: &[&str] = &["a", "_x", "fn", "Self", "crate", "é", "_", "x9", "async"];
const PUNCTS: &[char] = &['~', '!', '@', '#', '$', '%', '^', '&', '*', '-', '=', '+', '|', ';', ':', ',', '<', '.', '>', '/', '?'];
const STRS: &[&str] = &["", "a", "é\n", "\"\\'", "\u{0}1", "\u{7f}\t\r", "a'b\"c", "\u{1F600}"];
fn span(r: &mut Rng, p: &[pm1::Span]) -> Option<pm1::Span> { if r.below(2) == 0 { None } else { Some(r.of(p)) } }
fn num(r: &mut Rng) -> u128 { let n = r.next() as u128 | (r.next() as u128) << 64; n >> r.below(128) }
macro_rules! both { ($n:ident, $v:expr) => {{ let v = $v; (stringify!($n), pm2::Literal::$n(v), pm1::Literal::$n(v)) }}; }
fn lit(r: &mut Rng) -> (&'static str, pm2::Literal, pm1::Literal) {
    let n = num(r);
    let f = match r.below(4) { 0 => n as u16 as f64, 1 => n as u64 as f64 / 1024.0, 2 => -(n as u32 as f64) / 8.0, _ => 0.0 };
    match r.below(33) {
        0 => both!(u8_suffixed, n as u8), 1 => both!(u16_suffixed, n as u16), 2 => both!(u32_suffixed, n as u32), 3 => both!(u64_suffixed, n as u64),
        4 => both!(u128_suffixed, n), 5 => both!(usize_suffixed, n as usize), 6 => both!(i8_suffixed, n as i8), 7 => both!(i16_suffixed, n as i16),
        8 => both!(i32_suffixed, n as i32), 9 => both!(i64_suffixed, n as i64), 10 => both!(i128_suffixed, n as i128), 11 => both!(isize_suffixed, n as isize),
        12 => both!(u8_unsuffixed, n as u8), 13 => both!(u16_unsuffixed, n as u16), 14 => both!(u32_unsuffixed, n as u32), 15 => both!(u64_unsuffixed, n as u64),
        16 => both!(u128_unsuffixed, n), 17 => both!(usize_unsuffixed, n as usize), 18 => both!(i8_unsuffixed, n as i8), 19 => both!(i16_unsuffixed, n as i16),
        20 => both!(i32_unsuffixed, n as i32), 21 => both!(i64_unsuffixed, n as i64), 22 => both!(i128_unsuffixed, n as i128), 23 => both!(isize_unsuffixed, n as isize),
        24 => both!(f32_suffixed, f as f32), 25 => both!(f32_unsuffixed, f as f32), 26 => both!(f64_suffixed, f), 27 => both!(f64_unsuffixed, f),
        28 => both!(string, r.of(STRS)),
        29 => both!(character, r.of(&['a', '\'', '"', '\\', '\n', '\0', 'é', '\u{1F600}'])),
        30 => both!(byte_character, r.next() as u8),
        31 => { let b: Vec<u8> = (0..r.below(5)).map(|_| r.next() as u8).collect(); ("byte_string", pm2::Literal::byte_string(&b), pm1::Literal::byte_string(&b)) }
        _ => { let b: Vec<u8> = (0..r.below(5)).map(|_| r.next() as u8 | 1).chain([0]).collect(); let c = std::ffi::CStr::from_bytes_with_nul(&b).unwrap(); ("c_string", pm2::Literal::c_string(c), pm1::Literal::c_string(c)) }
    }
}
fn ident(r: &mut Rng, p: &[pm1::Span]) -> (pm2::Ident, pm1::Ident) {
    let s = r.of(p);
    let raw = r.below(3) == 0;
    let n = if raw { r.of(&["a", "fn", "async", "x9"]) } else { r.of(IDENTS) };
    if raw { (pm2::Ident::new_raw(n, s.into()), pm1::Ident::new_raw(n, s)) } else { (pm2::Ident::new(n, s.into()), pm1::Ident::new(n, s)) }
}
fn group(r: &mut Rng, p: &[pm1::Span], depth: usize) -> (pm2::Group, pm1::Group) {
    let n = if depth == 0 { 0 } else { r.below(3) };
    let (a, b) = list(r, p, n, depth.max(1) - 1);
    let (d2, d1) = r.of(&[(pm2::Delimiter::Parenthesis, pm1::Delimiter::Parenthesis), (pm2::Delimiter::Brace, pm1::Delimiter::Brace), (pm2::Delimiter::Bracket, pm1::Delimiter::Bracket), (pm2::Delimiter::None, pm1::Delimiter::None)]);
    let (mut g2, mut g1) = (pm2::Group::new(d2, a.into_iter().collect()), pm1::Group::new(d1, b.into_iter().collect()));
    if let Some(s) = span(r, p) { g2.set_span(s.into()); g1.set_span(s); }
    (g2, g1)
}
fn tree(r: &mut Rng, p: &[pm1::Span], depth: usize) -> (pm2::TokenTree, pm1::TokenTree) {
    let mut t: (pm2::TokenTree, pm1::TokenTree) = match r.below(4) {
        0 => { let (a, b) = group(r, p, depth); (a.into(), b.into()) }
        1 => { let (a, b) = ident(r, p); (a.into(), b.into()) }
        2 => {
            let c = r.of(PUNCTS);
            let (mut a, mut b) = if r.below(2) == 0 { (pm2::Punct::new(c, pm2::Spacing::Joint), pm1::Punct::new(c, pm1::Spacing::Joint)) } else { (pm2::Punct::new(c, pm2::Spacing::Alone), pm1::Punct::new(c, pm1::Spacing::Alone)) };
            if let Some(s) = span(r, p) { a.set_span(s.into()); b.set_span(s); }
            (a.into(), b.into())
        }
        _ => {
            let (_, mut a, mut b) = lit(r);
            if let Some(s) = span(r, p) { a.set_span(s.into()); b.set_span(s); }
            (a.into(), b.into())
        }
    };
    if r.below(5) == 0 { let s = r.of(p); t.0.set_span(s.into()); t.1.set_span(s); }
    t
}
fn list(r: &mut Rng, p: &[pm1::Span], n: usize, depth: usize) -> (Vec<pm2::TokenTree>, Vec<pm1::TokenTree>) { (0..n).map(|_| tree(r, p, depth)).unzip() }

/// texts both lexers take
fn text(r: &mut Rng) -> String {
    let n = r.below(6);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(8) {
            0 => { let i = text(r); let (o, c) = r.of(&[('(', ')'), ('[', ']'), ('{', '}')]); s.push(o); s.push_str(&i); s.push(c); }
            _ => s.push_str(r.of(&["a", "r#fn", "'lt", "'c'", "\"s\\n\"", "r#\"q\"#", "b'x'", "b\"y\"", "c\"z\"", "1", "0x1f", "1.5e3f64", "7u8", "+", "+=", "-> ", "..=", "&&", "::", "/* c */", "// l\n", "/// d\n", "#", "$x", "é", "_", "\u{2028}"])),
        }
        s.push(' ');
    }
    s
}
/// texts neither takes, and that the compiler must not be asked about
const BAD: &[&str] = &["(", ")", "(]", "\"a", "'", "/*", "r#\"a\"", "b'", "1 \u{0}", "\\", "`", "0b2", "'ab'", "\"\\q\"", "{ a )", "b\"é\"", "0x", "x \u{7f}"];

/// an iterator whose size hint is right and says little
struct Loose<T>(std::vec::IntoIter<T>, (usize, Option<usize>));
impl<T> Iterator for Loose<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { let l = self.0.len(); (self.1.0.min(l), self.1.1.map(|u| u.max(l))) }
}
fn hint(r: &mut Rng, n: usize) -> (usize, Option<usize>) { (r.of(&[0, n / 2, n]), r.of(&[None, Some(n), Some(n + 2)])) }

fn streams(r: &mut Rng, p: &[pm1::Span], input: &pm1::TokenStream) -> R {
    let mut v: Vec<(pm2::TokenStream, pm1::TokenStream)> = vec![(pm2::TokenStream::new(), pm1::TokenStream::new()), (input.clone().into(), input.clone())];
    let mut log = String::new();
    for _ in 0..1 + r.below(8) {
        let i = r.below(v.len());
        let op = r.below(19);
        let _ = write!(log, " {op}@{i}");
        match op {
            0 => { let (n, d) = (r.below(4), 2); let (a, b) = list(r, p, n, d); v[i].0.extend(a); v[i].1.extend(b); }
            1 => { let (a, b) = tree(r, p, 2); v[i].0.extend([a]); v[i].1.extend([b]); }
            2 => { let js: Vec<usize> = (0..r.below(4)).map(|_| r.below(v.len())).collect(); let a: Vec<_> = js.iter().map(|&j| v[j].0.clone()).collect(); let b: Vec<_> = js.iter().map(|&j| v[j].1.clone()).collect(); v[i].0.extend(a); v[i].1.extend(b); }
            3 => { let js: Vec<usize> = (0..r.below(4)).map(|_| r.below(v.len())).collect(); let a: pm2::TokenStream = js.iter().map(|&j| v[j].0.clone()).collect(); let b: pm1::TokenStream = js.iter().map(|&j| v[j].1.clone()).collect(); v.push((a, b)); }
            4 => { let n = r.below(4); let (a, b) = list(r, p, n, 2); v.push((a.into_iter().collect(), b.into_iter().collect())); }
            5 => { let (a, b) = tree(r, p, 2); v.push((a.into(), b.into())); }
            6 => { let c = (v[i].0.clone(), v[i].1.clone()); v.push(c); }
            7 => {
                let (mut a, mut b) = (v[i].0.clone().into_iter(), v[i].1.clone().into_iter());
                for _ in 0..r.below(4) {
                    let (x, y) = (a.next(), b.next());
                    hold!(x.is_some() == y.is_some(), "next() after{log}: {:?} and {:?}", x, y);
                    if let (Some(x), Some(y)) = (x, y) { same_stream("next()", &x.into(), &y.into())?; }
                }
                if r.below(2) == 0 { same!(format!("iterator debug after{log}"), a.clone().count(), b.clone().count()); }
                v.push((a.collect(), b.collect()));
            }
            8 => { let d = r.below(2); let mut g2 = pm2::Group::new([pm2::Delimiter::Brace, pm2::Delimiter::None][d], v[i].0.clone()); let mut g1 = pm1::Group::new([pm1::Delimiter::Brace, pm1::Delimiter::None][d], v[i].1.clone());
                   if let Some(s) = span(r, p) { g2.set_span(s.into()); g1.set_span(s); }
                   same!("group printed", g2.to_string(), g1.to_string());
                   v.push((g2.stream(), g1.stream())); v[i].0.extend([pm2::TokenTree::from(g2)]); v[i].1.extend([pm1::TokenTree::from(g1)]); }
            9 => { let a = pm1::TokenStream::from(v[i].0.clone()); v[i].0 = a.into(); }
            10 => { let t = text(r); let (a, b) = (pm2::TokenStream::from_str(&t), pm1::TokenStream::from_str(&t));
                    match (a, b) { (Ok(a), Ok(b)) => v.push((a, b)), (a, b) => hold!(a.is_err() && b.is_err(), "parsing {t:?}: {:?} and {:?}", a, b) } }
            11 => { same!(format!("printed after{log}"), v[i].0.to_string(), v[i].1.to_string()); }
            13 => { let n = r.below(4); let (a, b) = list(r, p, n, 1); let h = hint(r, a.len()); v[i].0.extend(Loose(a.into_iter(), h)); v[i].1.extend(b); }
            14 => { let n = r.below(4); let (a, b) = list(r, p, n, 1); let h = hint(r, a.len()); v.push((Loose(a.into_iter(), h).collect(), b.into_iter().collect())); }
            15 => { let js: Vec<usize> = (0..r.below(4)).map(|_| r.below(v.len())).collect(); let a: Vec<_> = js.iter().map(|&j| v[j].0.clone()).collect(); let b: Vec<_> = js.iter().map(|&j| v[j].1.clone()).collect(); let h = hint(r, a.len());
                    if r.below(2) == 0 { v[i].0.extend(Loose(a.into_iter(), h)); v[i].1.extend(b); } else { v.push((Loose(a.into_iter(), h).collect(), b.into_iter().collect())); } }
            16 => { let k = r.below(5); let (mut a, mut b) = (v[i].0.clone().into_iter(), v[i].1.clone().into_iter());
                    let (x, y) = match r.below(3) { 0 => (a.nth(k), b.nth(k)), 1 => (a.by_ref().last(), b.by_ref().last()), _ => (a.by_ref().skip(k).step_by(2).next(), b.by_ref().skip(k).step_by(2).next()) };
                    hold!(x.is_some() == y.is_some(), "nth({k}) after{log}: {:?} and {:?}", x, y);
                    if let (Some(x), Some(y)) = (x, y) { same_stream("nth()", &x.into(), &y.into())?; }
                    v.push((a.collect(), b.collect())); }
            17 => { let j = r.below(v.len()); let (a, b) = v[j].clone(); v[i].0.clone_from(&a); v[i].1.clone_from(&b); }
            _ => { let (a, b) = (v[i].0.clone().into_iter(), v[i].1.clone().into_iter()); hold!(a.size_hint().0 <= b.count(), "size_hint after{log}: {:?}", v[i].0.clone().into_iter().size_hint()); }
        }
        same!(format!("is_empty after{log}"), v[i].0.is_empty(), v[i].1.is_empty());
    }
    for (k, (a, b)) in v.iter().enumerate() { same_stream(&format!("stream {k} after{log}"), a, b)?; }
    let _ = comp;
    Ok(())
}

fn scalars(r: &mut Rng, p: &[pm1::Span]) -> R {
    for _ in 0..8 {
        let (n, mut a, mut b) = lit(r);
        hold!(comp(a.span()), "Literal::{n} gives {a}, which is not the compiler's");
        same!(format!("Literal::{n}"), (a.to_string(), format!("{:?}{:?}", a, a.span())), (b.to_string(), format!("{:?}{:?}", b, b.span())));
        let s = r.of(p);
        a.set_span(s.into());
        b.set_span(s);
        same!("Literal::set_span", format!("{:?}", a.span()), format!("{:?}", b.span()));
        same!("Literal clone", format!("{:?}", a.clone()), format!("{:?}", b.clone()));
        #[cfg(feature = "exempt")]
        { let (x, y) = (r.below(6), r.below(6)); same!("Literal::subspan", format!("{:?}", a.subspan(x..y)), format!("{:?}", b.subspan(x..y))); same!("Literal::subspan", format!("{:?}", a.subspan(x..=y)), format!("{:?}", b.subspan(x..=y))); }
        let (mut a, mut b) = ident(r, p);
        hold!(comp(a.span()), "Ident::new gives {a}, which is not the compiler's");
        same!("Ident::new", (a.to_string(), format!("{:?}{:?}", a, a.span())), (b.to_string(), format!("{:?}{:?}", b, b.span())));
        let (c, d) = ident(r, p);
        same!(format!("{a} == {c}"), a == c, b.to_string() == d.to_string());
        same!(format!("{a} == str {d}"), a == d.to_string(), b.to_string() == d.to_string());
        a.set_span(s.into());
        b.set_span(s);
        same!("Ident::set_span", format!("{:?}", a.span()), format!("{:?}", b.span()));
        let (mut a, mut b) = group(r, p, 2);
        same!("Group::delimiter", format!("{:?}", a.delimiter()), format!("{:?}", b.delimiter()));
        same_stream("Group::stream", &a.stream(), &b.stream())?;
        same!("Group", format!("{a} {a:?}"), format!("{b} {b:?}"));
        same!("Group spans", format!("{:?} {:?} {:?}", a.span(), a.span_open(), a.span_close()), format!("{:?} {:?} {:?}", b.span(), b.span_open(), b.span_close()));
        a.set_span(s.into());
        b.set_span(s);
        same!("Group::set_span", format!("{:?} {:?} {:?}", a.span(), a.span_open(), a.span_close()), format!("{:?} {:?} {:?}", b.span(), b.span_open(), b.span_close()));
        let d = a.delim_span();
        same!("DelimSpan", format!("{:?} {:?} {:?}", d.join(), d.open(), d.close()), format!("{:?} {:?} {:?}", b.span(), b.span_open(), b.span_close()));
    }
    hold!(comp(pm2::Punct::new('+', pm2::Spacing::Joint).span()), "Punct::new is not the compiler's");
    Ok(())
}

fn spans(r: &mut Rng, p: &[pm1::Span]) -> R {
    same!("call_site", format!("{:?}", pm2::Span::call_site()), format!("{:?}", pm1::Span::call_site()));
    same!("mixed_site", format!("{:?}", pm2::Span::mixed_site()), format!("{:?}", pm1::Span::mixed_site()));
    #[cfg(feature = "exempt")]
    same!("def_site", format!("{:?}", pm2::Span::def_site()), format!("{:?}", pm1::Span::def_site()));
    for _ in 0..8 {
        let (a, b) = (r.of(p), r.of(p));
        let (x, y): (pm2::Span, pm2::Span) = (a.into(), b.into());
        hold!(comp(x), "a span of the compiler's is not taken for one");
        same!("unwrap", format!("{:?}", x.unwrap()), format!("{:?}", a));
        same!("resolved_at", format!("{:?}", x.resolved_at(y)), format!("{:?}", a.resolved_at(b)));
        same!("located_at", format!("{:?}", x.located_at(y)), format!("{:?}", a.located_at(b)));
        same!("source_text", x.source_text(), a.source_text());
        #[cfg(feature = "loc")]
        {
            let col = |s: pm1::Span| pm2::LineColumn { line: s.line(), column: s.column().saturating_sub(1) };
            same!("start", x.start(), col(a));
            same!("end", x.end(), col(a.end()));
            same!("file", x.file(), a.file());
            same!("local_file", x.local_file(), a.local_file());
            #[cfg(feature = "exempt")]
            same!("byte_range", x.byte_range(), a.byte_range());
        }
        #[cfg(feature = "exempt")]
        { same!("join", format!("{:?}", x.join(y)), format!("{:?}", a.join(b))); same!("eq", x.eq(&y), a.eq(&b)); }
    }
    Ok(())
}

fn parse(r: &mut Rng) -> R {
    let b = r.of(BAD);
    let b = format!("{}{}", r.of(&["", "a ", "( b ) "]), b);
    let e = pm2::TokenStream::from_str(&b);
    hold!(e.is_err(), "{b:?} is accepted");
    let e = e.unwrap_err();
    hold!(!e.to_string().is_empty(), "empty error");
    let _ = e.span();
    for _ in 0..4 {
        let t = text(r);
        match (pm2::TokenStream::from_str(&t), pm1::TokenStream::from_str(&t)) {
            (Ok(x), Ok(y)) => same_stream(&format!("parse of {t:?}"), &x, &y)?,
            (x, y) => hold!(x.is_err() && y.is_err(), "parse of {t:?}: {:?} and {:?}", x, y),
        }
        let t = r.of(&["1", "1.5", "-1", "-2.5f32", "0x1fu8", "\"a\\n\"", "b\"q\"", "c\"q\"", "r#\"x\"#", "'c'", "b'x'", "1_000", "9i64", "1e10"]);
        match (pm2::Literal::from_str(t), pm1::Literal::from_str(t)) {
            (Ok(x), Ok(y)) => { hold!(comp(x.span()), "literal {t:?} is not the compiler's"); same!(format!("literal {t:?}"), format!("{x} {x:?}"), format!("{y} {y:?}")) }
            (x, y) => hold!(x.is_err() && y.is_err(), "literal {t:?}: {:?} and {:?}", x, y),
        }
        let t = r.of(&["", "a", "1 2", " 1", "1 ", "\"a", "'a", "- 1", "--1", "-a", "1/* */", "(1)", "\n1", "'lt", "1\n", "+1", "-\"a\""]);
        hold!(pm2::Literal::from_str(t).is_err(), "literal {t:?} is accepted");
    }
    Ok(())
}

struct Set { span: pm2::Span, ident: pm2::Ident, lit: pm2::Literal, group: pm2::Group, punct: pm2::Punct, stream: pm2::TokenStream }
fn set() -> Set {
    let span = pm2::Span::call_site();
    Set { span, ident: pm2::Ident::new("a", span), lit: pm2::Literal::u8_suffixed(1), group: pm2::Group::new(pm2::Delimiter::Brace, pm2::TokenStream::new()), punct: pm2::Punct::new('+', pm2::Spacing::Alone), stream: pm2::TokenStream::from_str("x 1").unwrap() }
}
fn toks(s: &Set) -> [pm2::TokenTree; 4] { [s.ident.clone().into(), s.lit.clone().into(), s.group.clone().into(), s.punct.clone().into()] }
/// every token in it is of that kind
fn kinds(s: pm2::TokenStream, c: bool) -> bool { s.into_iter().all(|t| comp(t.span()) == c && if let pm2::TokenTree::Group(g) = t { kinds(g.stream(), c) } else { true }) }

fn mixed(r: &mut Rng, p: &[pm1::Span]) -> R {
    pm2::fallback::force();
    if r.below(2) == 0 { pm2::fallback::force(); }
    let f = set();
    for _ in 0..20 {
        let n = num(r);
        let l = match r.below(6) { 0 => pm2::Literal::u128_suffixed(n), 1 => pm2::Literal::string(r.of(STRS)), 2 => pm2::Literal::f64_unsuffixed(1.5), 3 => pm2::Literal::byte_string(b"q"), 4 => pm2::Literal::i32_unsuffixed(n as i32), _ => pm2::Literal::character('c') };
        hold!(!comp(l.span()), "forced: literal {l} is the compiler's");
    }
    for (n, s) in [("call_site", pm2::Span::call_site()), ("mixed_site", pm2::Span::mixed_site()), ("Ident::new", f.ident.span()), ("Ident::new_raw", pm2::Ident::new_raw("a", f.span).span()), ("Group::new", f.group.span()), ("Punct::new", f.punct.span())] {
        hold!(!comp(s), "forced: {n} is the compiler's");
    }
    for (n, s) in [("from_str", f.stream.clone()), ("from a token", pm2::TokenStream::from(pm2::TokenTree::from(f.group.clone()))), ("from_iter", toks(&f).into_iter().collect()), ("from_iter of streams", [f.stream.clone(), f.stream.clone()].into_iter().collect())] {
        hold!(!s.is_empty() && kinds(s.clone(), false), "forced: {n} gives {s:?}, not the fallback's");
    }
    let held = f.stream.to_string();
    pm2::fallback::unforce();
    let c = set();
    let pool: Vec<pm2::Span> = p.iter().map(|&s| s.into()).collect();
    let cs = r.of(&pool);
    for (n, s) in [("call_site", c.span), ("Ident", c.ident.span()), ("Literal", c.lit.span()), ("Group", c.group.span()), ("Punct", c.punct.span())] {
        hold!(comp(s), "unforced: {n} is the fallback's");
    }
    hold!(kinds(c.stream.clone(), true) && kinds(toks(&c).into_iter().collect(), true) && kinds(pm2::TokenTree::from(c.lit.clone()).into(), true), "unforced: a stream is the fallback's");
    hold!(f.stream.to_string() == held && kinds(f.stream.clone(), false), "a stream of the fallback's changed when unforced");
    // an operation across kinds is refused
    macro_rules! refused { ($($e:expr;)*) => { $( hold!(panics(|| $e), "does not panic: {}", stringify!($e)); )* } }
    refused! {
        c.span.resolved_at(f.span); f.span.resolved_at(cs); cs.located_at(f.span); f.span.located_at(c.span);
        c.ident.clone().set_span(f.span); f.ident.clone().set_span(cs); c.lit.clone().set_span(f.span); f.lit.clone().set_span(cs); c.group.clone().set_span(f.span); f.group.clone().set_span(cs);
        c.ident == f.ident; f.ident == c.ident; f.span.unwrap();
        c.stream.clone().extend([f.stream.clone()]); f.stream.clone().extend([c.stream.clone()]); c.stream.clone().extend([c.stream.clone(), f.stream.clone()]);
        [c.stream.clone(), f.stream.clone()].into_iter().collect::<pm2::TokenStream>(); [f.stream.clone(), c.stream.clone()].into_iter().collect::<pm2::TokenStream>();
        [c.stream.clone(), c.stream.clone(), f.stream.clone()].into_iter().collect::<pm2::TokenStream>();
    }
    for t in toks(&f) {
        let k = format!("{t:?}");
        hold!(panics(|| c.stream.clone().extend([t.clone()])), "a stream of the compiler's takes {k} of the fallback's");
        hold!(panics(|| [t.clone()].into_iter().collect::<pm2::TokenStream>()), "a stream is made of {k} of the fallback's");
        hold!(panics(|| pm2::TokenStream::from(t.clone())), "a stream is made from {k} of the fallback's");
    }
    hold!(cs.join(f.span).is_none() && f.span.join(cs).is_none(), "join across kinds");
    #[cfg(feature = "exempt")]
    hold!(!cs.eq(&f.span) && !f.span.eq(&cs), "spans of different kinds are equal");
    // the same within a kind is not
    macro_rules! taken { ($($e:expr;)*) => { $( hold!(!panics(|| $e), "panics: {}", stringify!($e)); )* } }
    for s in [&c, &f] {
        taken! {
            s.span.resolved_at(s.span); s.span.located_at(s.span); s.ident.clone().set_span(s.span); s.lit.clone().set_span(s.span); s.group.clone().set_span(s.span);
            s.ident == s.ident; s.stream.clone().extend([s.stream.clone()]); [s.stream.clone(), s.stream.clone()].into_iter().collect::<pm2::TokenStream>();
            s.stream.clone().extend(toks(s)); s.stream.to_string(); s.group.stream().is_empty(); pm2::Group::new(pm2::Delimiter::None, s.stream.clone()).stream().into_iter().count();
            pm2::Ident::new("b", s.span); pm2::Ident::new_raw("b", s.span); s.group.delim_span().open(); s.span.source_text();
        }
    }
    hold!(!comp(pm2::Ident::new("b", f.span).span()) && comp(pm2::Ident::new("b", cs).span()), "an identifier is not of the kind of its span");
    hold!(!comp(pm2::Group::new(pm2::Delimiter::None, f.stream.clone()).span()), "a group is not of the kind of its stream");
    hold!(f.ident == "a" && c.ident == "a" && f.ident.to_string() == "a", "an identifier does not equal its name");
    let mut k = f.stream.clone();
    k.extend(toks(&f));
    k.extend([f.stream.clone()]);
    hold!(kinds(k.clone(), false) && k.clone().into_iter().count() == 8, "a stream of the fallback's is extended to {k:?}");
    // handed to the compiler, it is what its text says
    same!("a stream of the fallback's, handed over", pm1::TokenStream::from(k.clone()).to_string(), pm1::TokenStream::from_str(&k.to_string()).unwrap().to_string());
    Ok(())
}

const KINDS: &[&str] = &["streams", "scalars", "spans", "parse", "mixed"];
fn case(kind: &str, seed: u64, p: &[pm1::Span], input: &pm1::TokenStream) -> R {
    let mut r = Rng(seed);
    let o = catch_unwind(AssertUnwindSafe(|| match kind {
        "streams" => streams(&mut r, p, input),
        "scalars" => scalars(&mut r, p),
        "spans" => spans(&mut r, p),
        "parse" => parse(&mut r),
        _ => mixed(&mut r, p),
    }));
    let _ = catch_unwind(pm2::fallback::unforce);
    o.unwrap_or_else(|e| Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())))
}
fn pool(s: pm1::TokenStream, p: &mut Vec<pm1::Span>) {
    for t in s {
        p.push(t.span());
        if let pm1::TokenTree::Group(g) = t { p.push(g.span_open()); p.push(g.span_close()); pool(g.stream(), p); }
    }
}

/// INMAC_OUT: file for the outcome; INMAC_CASE "KIND SEED" runs one case, else
/// INMAC_SECS or INMAC_COUNT from INMAC_SEED, INMAC_SKIP on
#[proc_macro]
pub fn run(input: pm1::TokenStream) -> pm1::TokenStream {
    let var = |n: &str| std::env::var(n).unwrap_or_default();
    std::panic::set_hook(Box::new(|_| {}));
    let mut p = vec![pm1::Span::call_site(), pm1::Span::mixed_site()];
    pool(input.clone(), &mut p);
    let mut n = 0u64;
    let mut found = None;
    let one = var("INMAC_CASE");
    if let Some((k, s)) = one.split_once(' ') {
        n = 1;
        found = case(k, s.trim().parse().unwrap_or(0), &p, &input).err().map(|m| (one.clone(), m));
    } else {
        let end = std::time::Instant::now() + std::time::Duration::from_secs_f64(var("INMAC_SECS").parse().unwrap_or(2.0));
        let mut seed = var("INMAC_SEED").parse::<u64>().unwrap_or(1).wrapping_mul(1_000_003) + var("INMAC_SKIP").parse::<u64>().unwrap_or(0);
        let count = var("INMAC_COUNT").parse::<u64>().ok();
        while found.is_none() && count.map_or(n < 100 || std::time::Instant::now() < end, |c| n < c) {
            let k = KINDS[seed as usize % KINDS.len()];
            std::fs::write(var("INMAC_OUT") + ".cur", format!("{k} {seed}")).unwrap();
            found = case(k, seed, &p, &input).err().map(|m| (format!("{k} {seed}"), m));
            seed = seed.wrapping_add(1);
            n += 1;
        }
    }
    let o = match found { None => format!("NONE {n}\n"), Some((c, m)) => format!("FOUND {n} {c}\n{}\n", m.replace('\n', " ")) };
    std::fs::write(var("INMAC_OUT"), o).unwrap();
    pm1::TokenStream::new()
}
