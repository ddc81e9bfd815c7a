//! The contracts assumed of std and unicode-ident, tried on the real ones:
//! every character where the contract is about a character, sampled otherwise.
//! (A check of the trusted base; nothing here looks at proc-macro2.)
use crate::gen::Rng;
use crate::oracle::*;
use std::collections::BTreeMap;

fn all_chars() -> impl Iterator<Item = char> { (0..=0x10FFFFu32).filter_map(char::from_u32) }
fn hexs(s: &str) -> Option<u32> { if (1..=6).contains(&s.len()) && s.chars().all(is_hex) { u32::from_str_radix(s, 16).ok() } else { None } }
fn shape(c: char, e: &str) -> bool {
    match c {
        '\0' => e == "\\0", '\t' => e == "\\t", '\n' => e == "\\n", '\r' => e == "\\r", '\\' => e == "\\\\", '\'' => e == "\\'", '"' => e == "\\\"",
        _ => e == c.to_string() || e.strip_prefix("\\u{").and_then(|r| r.strip_suffix('}')).and_then(hexs) == Some(c as u32),
    }
}
fn dec_shape(s: &str) -> bool {
    let s = s.strip_prefix('-').unwrap_or(s);
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    match s.split_once('.') { None => digits(s), Some((a, b)) => digits(a) && digits(b) }
}
fn text(r: &mut Rng) -> String {
    const P: &[char] = &['a', '#', '"', 'é', '\u{20ac}', '\u{10348}', '\n', '0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}'];
    (0..r.below(12)).map(|_| P[r.below(P.len())]).collect()
}
pub fn run(seed: u64) -> Result<usize, String> {
    let mut n = 0usize;
    macro_rules! must { ($e:expr, $($m:tt)*) => { n += 1; if !$e { return Err(format!($($m)*)); } } }
    for c in all_chars() {
        must!(is_scalar(c as int), "char_is_scalar {:?}", c);
        must!(cw(c) as usize == c.len_utf8(), "cw {:?}", c);
        let mut b = [0; 4];
        let enc: Vec<int> = c.encode_utf8(&mut b).bytes().map(int::from).collect();
        must!(utf8(c as int).as_slice() == &enc[..], "utf8 {:?}", c);
        must!(if c.is_ascii() { enc == [c as int] } else { enc.iter().all(|&b| b >= 0x80) }, "byte_in {:?}", c);
        must!(shape(c, &c.escape_debug().collect::<String>()), "esc_debug_shape {:?}", c);
        must!(c.is_ascii() == (cp(c) < 0x80), "is_ascii {:?}", c);
        must!(c.is_ascii_digit() == is_dec(c), "is_ascii_digit {:?}", c);
        must!(c.is_ascii_hexdigit() == is_hex(c), "is_ascii_hexdigit {:?}", c);
        must!(c.is_ascii_whitespace() == matches!(c as u32, 32 | 9 | 10 | 13 | 12), "is_ascii_whitespace {:?}", c);
        let (lo, up) = (('a'..='z').contains(&c), ('A'..='Z').contains(&c));
        must!(c.is_ascii_alphabetic() == (lo || up) && c.is_ascii_lowercase() == lo && c.is_ascii_uppercase() == up && c.is_ascii_alphanumeric() == (lo || up || is_dec(c)), "is_ascii_alpha* {:?}", c);
        must!(c.is_ascii_control() == ((c as u32) < 32 || c as u32 == 127) && c.is_ascii_graphic() == (32 < c as u32 && (c as u32) < 127), "is_ascii_control {:?}", c);
        must!(c.is_control() == ((c as u32) < 32 || (127..160).contains(&(c as u32))) && c.is_alphanumeric() == (c.is_alphabetic() || c.is_numeric()) && c.is_ascii_punctuation() == (c.is_ascii_graphic() && !c.is_ascii_alphanumeric()), "is_control {:?}", c);
        must!(!c.is_ascii() || c.is_alphabetic() == (lo || up) && c.is_numeric() == is_dec(c) && c.is_lowercase() == lo && c.is_uppercase() == up, "is_alphabetic {:?}", c);
        for radix in [2u32, 8, 10, 16] {
            must!(c.to_digit(radix).map(int::from) == if is_hex(c) && hexv(c) < radix as int { Some(hexv(c)) } else { None }, "to_digit {:?} {}", c, radix);
        }
        must!(!unicode_ident::is_xid_start(c) || !ws_char(c) && c != '\u{feff}', "word_not_blank {:?}", c);
        if c.is_ascii() {
            let (s, k) = (unicode_ident::is_xid_start(c), unicode_ident::is_xid_continue(c));
            must!(s == (lo || up) && k == (lo || up || is_dec(c) || c == '_'), "xid_ascii {:?}", c);
        }
    }
    for v in (0..=0x110010u32).chain([u32::MAX, 1 << 31]) {
        must!(char::from_u32(v).map(|c| c as u32) == if is_scalar(v as int) { Some(v) } else { None }, "from_u32 {}", v);
    }
    for b in 0..=255u8 {
        must!(b as char as u32 == b as u32, "byte as char {}", b);
        must!(format!("{:02X}", b).bytes().map(|h| hexv(h as char)).collect::<Vec<_>>() == [b as int / 16, b as int % 16] && !format!("{:02X}", b).bytes().any(|h| h.is_ascii_lowercase()), "{{:02X}} {}", b);
        must!(b.is_ascii() == (b < 0x80), "u8 is_ascii {}", b);
        if b < 0x80 {
            let c = b as char;
            must!(b.is_ascii_digit() == c.is_ascii_digit() && b.is_ascii_hexdigit() == c.is_ascii_hexdigit() && b.is_ascii_whitespace() == c.is_ascii_whitespace() && b.is_ascii_alphabetic() == c.is_ascii_alphabetic()
                && b.is_ascii_control() == c.is_ascii_control() && b.is_ascii_graphic() == c.is_ascii_graphic() && b.is_ascii_punctuation() == c.is_ascii_punctuation() && b.is_ascii_alphanumeric() == c.is_ascii_alphanumeric(), "u8 is_ascii_* {}", b);
        } else { must!(!(b.is_ascii_digit() || b.is_ascii_hexdigit() || b.is_ascii_whitespace() || b.is_ascii_alphabetic() || b.is_ascii_control() || b.is_ascii_graphic() || b.is_ascii_punctuation()), "u8 is_ascii_* {}", b); }
    }
    let mut r = Rng::new(seed);
    for _ in 0..60_000 {
        // floats
        let (x, y) = (f32::from_bits(r.next() as u32), f64::from_bits(r.next()));
        if x.is_finite() { must!(dec_shape(&x.to_string()) && x.to_string().parse::<f32>().map(f32::to_bits) == Ok(x.to_bits()), "show_f32 {:?}", x); }
        if y.is_finite() { must!(dec_shape(&y.to_string()) && y.to_string().parse::<f64>().map(f64::to_bits) == Ok(y.to_bits()), "show_f64 {:?}", y); }
        // texts
        let s = text(&mut r);
        let v: Vec<char> = s.chars().collect();
        let q = crate::checks::chars(&s);
        must!(s.len() == blen(q.clone()) as usize, "len {:?}", s);
        let bytes = s.as_bytes();
        must!(verbatim(q.clone(), 2).as_slice() == &bytes.iter().map(|&b| b as int).collect::<Vec<_>>()[..], "as_bytes {:?}", s);
        let c = ['a', '#', '"', 'é', '0'][r.below(5)];
        let w = |k: usize| -> usize { v[..k].iter().map(|c| c.len_utf8()).sum() };
        must!(s.find(c) == v.iter().position(|&d| d == c).map(w), "find {:?} {:?}", s, c);
        must!(s.contains(c) == v.contains(&c) && s.starts_with(c) == (v.first() == Some(&c)) && s.ends_with(c) == (v.last() == Some(&c)), "contains {:?} {:?}", s, c);
        must!(s.trim_start_matches(c).chars().collect::<Vec<_>>() == v[v.iter().take_while(|&&d| d == c).count()..], "trim_start_matches {:?} {:?}", s, c);
        must!(s.trim_end_matches(c).chars().collect::<Vec<_>>() == v[..v.len() - v.iter().rev().take_while(|&&d| d == c).count()], "trim_end_matches {:?} {:?}", s, c);
        let k = r.below(v.len() + 1);
        let (a, b) = s.split_at(w(k));
        must!(a.chars().collect::<Vec<_>>() == v[..k] && b.chars().collect::<Vec<_>>() == v[k..] && a == &s[..w(k)] && b == &s[w(k)..], "split_at {:?} {}", s, k);
        for i in 0..=s.len() + 1 { must!(s.is_char_boundary(i) == (0..=v.len()).any(|k| w(k) == i), "is_char_boundary {:?} {}", s, i); }
        must!(text_of(&rest_at(q.clone(), w(k) as int)) == b, "rest_at {:?} {}", s, k);
        must!(s.char_indices().nth(k) == v.get(k).map(|&c| (w(k), c)), "char_indices.nth {:?} {}", s, k);
        must!(s.char_indices().nth_back(k) == (k < v.len()).then(|| (w(v.len() - 1 - k), v[v.len() - 1 - k])), "char_indices.nth_back {:?} {}", s, k);
        let mut it = s.chars();
        for _ in 0..k { it.next(); }
        must!(it.as_str() == b && it.clone().next() == v.get(k).copied(), "Chars::as_str {:?} {}", s, k);
        let t = text(&mut r);
        let u: Vec<char> = t.chars().collect();
        must!(s.starts_with(&t[..]) == v.starts_with(&u) && s.strip_prefix(&t[..]).is_some() == v.starts_with(&u), "starts_with {:?} {:?}", s, t);
        must!(s.cmp(&t) == v.iter().map(|&c| c as u32).cmp(u.iter().map(|&c| c as u32)) && (s == t) == (v == u), "cmp {:?} {:?}", s, t);
        if !v.is_empty() && k < v.len() {
            let mut m = s.clone();
            must!(m.remove(w(k)) == v[k] && m.chars().eq(v[..k].iter().chain(&v[k + 1..]).copied()), "remove {:?} {}", s, k);
        }
        let mut m = s.clone();
        m.insert(w(k), c);
        must!(m.chars().eq(v[..k].iter().copied().chain([c]).chain(v[k..].iter().copied())), "insert {:?} {}", s, k);
        // str::from_utf8 on damaged text
        let mut d = bytes.to_vec();
        for _ in 0..r.below(3) { if !d.is_empty() { let i = r.below(d.len()); d[i] = r.next() as u8; } }
        if r.below(4) == 0 { d.truncate(r.below(d.len() + 1)); }
        match std::str::from_utf8(&d) {
            Ok(x) => { must!(verbatim(crate::checks::chars(x), 2).as_slice() == &d.iter().map(|&b| b as int).collect::<Vec<_>>()[..], "from_utf8 {:?}", d); }
            Err(e) => { must!(e.valid_up_to() < d.len() && std::str::from_utf8(&d[..e.valid_up_to()]).is_ok() && e.error_len().map_or(true, |n| n >= 1 && e.valid_up_to() + n <= d.len()), "from_utf8 {:?}", d); }
        }
        // binary search, ordered map
        let mut xs: Vec<usize> = (0..r.below(8)).map(|_| r.below(20)).collect();
        xs.sort();
        xs.dedup();
        let x = r.below(20);
        let ok = |o: Result<usize, usize>| match o { Ok(i) => xs[i] == x, Err(i) => xs[..i].iter().all(|&y| y < x) && xs[i..].iter().all(|&y| y > x) };
        must!(ok(xs.binary_search(&x)) && ok(xs.binary_search_by(|y| y.cmp(&x))), "binary_search {:?} {}", xs, x);
        let map: BTreeMap<usize, usize> = xs.iter().map(|&x| (x, x * 7)).collect();
        must!(map.range(..=x).next_back().map(|(&a, &b)| (a, b)) == xs.iter().filter(|&&y| y <= x).max().map(|&y| (y, y * 7)), "range(..=k).next_back {:?} {}", xs, x);
        must!(map.range(x..).next().map(|(&a, &b)| (a, b)) == xs.iter().filter(|&&y| y >= x).min().map(|&y| (y, y * 7)), "range(k..).next {:?} {}", xs, x);
        // integers
        let (p, q) = (r.next() as u32, if r.below(2) == 0 { r.next() as u32 } else { r.below(3) as u32 });
        must!(p.saturating_add(q) as u64 == (p as u64 + q as u64).min(u32::MAX as u64) && p.saturating_sub(q) == if p < q { 0 } else { p - q }, "saturating {} {}", p, q);
        must!(p.checked_add(q).map(u64::from) == Some(p as u64 + q as u64).filter(|&s| s <= u32::MAX as u64), "checked_add {} {}", p, q);
        let z = r.next() as usize >> r.below(64);
        must!(u32::try_from(z).ok().map(|y| y as usize) == Some(z).filter(|&z| z <= u32::MAX as usize), "try_from {}", z);
        let i = (r.next() as i128) << r.below(64);
        must!({ let mut m = i.unsigned_abs(); let mut d = vec![]; loop { d.push(b'0' + (m % 10) as u8); m /= 10; if m == 0 { break; } } if i < 0 { d.push(b'-'); } d.reverse(); i.to_string().into_bytes() == d }, "decimal {}", i);
    }
    Ok(n)
}
fn text_of(s: &Seq<char>) -> String { s.as_slice().iter().collect() }
