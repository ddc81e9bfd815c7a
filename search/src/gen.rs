//! Inputs: exhaustive small ones first, then random ones built from fragments.
use crate::checks::Case;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
}
pub struct Dict {
    pub strs: Vec<String>,
    pub chars: Vec<char>,
    pub nums: Vec<u64>,
}
pub fn case(kind: &str, args: Vec<String>) -> Case { Case { kind: kind.into(), args } }

const IDENT: &[&str] = &["a", "_", "r#a", "self", "r#self", "r#_", "super", "crate", "Self", "r#crate", "é", "r#é", "中", "r", "b", "c", "br", "cr", "rb", "e", "x1", "_0", "ſ", "a\u{301}", "r#fn", "r#super", "doc", "℘", "ⅷ", "A", "zz9", "r#Self", "br#a", "℮x", "x·y", "ﾞ"];
const STRS: &[&str] = &["\"\"", "\"a\"", "\"\\n\"", "\"\\x41\"", "\"\\x7f\"", "\"\\x80\"", "\"\\u{1F600}\"", "\"\\u{d800}\"", "\"\\u{110000}\"", "\"\\u{1_0_}\"", "\"\\u{_1}\"", "\"\\u{}\"", "\"\\u{0000000}\"", "\"\\u{10_FFFF}\"",
    "\"a\\\n  b\"", "\"a\\\r\n b\"", "\"\r\n\"", "\"\r\"", "\"é\"", "\"\\'\"", "\"\\\"\"", "\"\\0\"", "\"\\\\\"", "\"\\q\"", "\"\"x", "\"\"_", "\"\"é", "\"\"r#a", "r\"\"", "r\"a\\\"", "r#\"\"#", "r#\"a\"b\"#", "r##\"\"#\"##", "r#\"\"", "r\"\r\n\"", "r\"\r\"", "r\"\"suf", "r#\"\"#suf", "r##\"a\"#\"##x",
    "b\"\"", "b\"\\xff\"", "b\"é\"", "b\"\\u{41}\"", "b\"\\0\"", "b\"a\\\n b\"", "b\"\r\n\"", "b\"\r\"", "br\"\"", "br#\"é\"#", "br\"\\\"", "br##\"\"#\"##", "br\"\r\"", "b\"\"x", "br\"\"x",
    "c\"\"", "c\"\\xff\"", "c\"é\"", "c\"\\u{41}\"", "c\"\\u{0}\"", "c\"\\x00\"", "c\"\\0\"", "c\"\0\"", "c\"\\u{00}\"", "c\"\\x0f\"", "c\"a\\\n b\"", "c\"\r\n\"", "cr\"\"", "cr#\"é\"#", "cr\"\0\"", "cr\"\\\"", "cr##\"\"#\"##", "c\"\"x", "cr\"\"x", "cr\"\r\n\"", "\"\0\"", "\"\u{feff}\"", "\"\\\n\"", "\"\\\n\r\"", "\"\\\n\t\u{a0}x\"", "\"\\\n \\\n a\"", "\"\\u{FFFFFF}\"", "\"\\u{ab\"", "\"\\xg0\"", "\"\\x4\"", "\"\\u41\"", "r\"\u{0}\"", "b\"\0\"", "\"\\\r\"", "\"\\\r\n\r\n a\"", "\"//\"", "\"/*\"", "\"{\"", "r\"'\""];
const QUOTED: &[&str] = &["'a'", "'\\n'", "'\\x41'", "'\\x80'", "'\\u{41}'", "'é'", "'\\''", "'\"'", "'''", "'\\0'", "'\\\\'", "'a'b", "'a'é", "''", "'\\q'", "'\\u{d800}'", "'\n'", "'\r'", "'\t'", "'ab'", "'\\", "'", "'a", "'_", "'r#a", "'r#a'", "'r#", "'static", "'é", "'a#", "'1", "'r#self", "'_'", "'a'_", "'\\x4'", "'\\u{}'",
    "b'a'", "b'\\xff'", "b'\\n'", "b'é'", "b'\\''", "b'''", "b'\\u{41}'", "b''", "b'\\0'", "b'a'x", "b'\n'", "b'\\\\'", "b'\"'", "b'a", "b'\\x0'", "b'ab'", "b'\u{7f}'", "b'\u{80}'", "'\u{0}'", "'\u{10ffff}'", "'a'r#b", "'\u{301}'", "'r'", "'b'", "'/'", "'/*", "'//", "'(", "'+"];
const NUMS: &[&str] = &["0", "1", "00", "0x", "0xf", "0xF_", "0xg", "0x_1", "0o7", "0o8", "0b1", "0b2", "0b_0_", "0b", "0o", "0o1_8", "0b10_2", "0b1f", "0o1e", "0x1e+1", "1_", "1u8", "1usize", "1f32", "0b1u8", "0x1u8", "0o7u8", "1e5", "1E5", "1e", "1e+", "1e+5", "1e-5", "1e_5", "1e5_", "1e5f32", "1e+_", "1e_", "1e__1", "1ef", "1.0", "1.", "1..", "1..2", "1.a", "1._", "1.0.0", "1.e5", "1.0e", "1.0e5", "1.0E-5", "1.0e+", "1.5e+-3", "1.0f32", "1.0_", "1_.0", "1._0", "1.0u8", "0x1.0", "1.é", "1é", "0x1é", "1r#a", "1.0r", "1\u{301}", "1·", "0x·", "1_u8", "1__", "0xfg", "0b1_", "1.0é", "1.0\u{301}", "1e1\u{301}", "1e1.", "1e1e1", "9_9.9_9", "0.0", "0e0", "123456789012345678901234567890", "1.0.a", "1.+2", "1.0_e1", "1.0e_", "1.e", "1e5e5", "1e5+1", "1e+5+1", "0_x", "0X1", "0B1", "1.0e5_f32", "1_e5"];
const PUNCT: &[&str] = &["+", "-", "*", "/", "%", "^", "!", "&", "|", "=", "<", ">", "@", ".", ",", ";", ":", "#", "$", "?", "~", "'", "==", "->", "=>", "::", "..=", "...", "<<=", "&&", "||", "'a", "#!", "+'a", "+'a'", "&'a", "//", "/*", "*/", "-1", "- 1", "\\", "`", "\"", "./", "/=", "/ /", "+/**/+", "+//\n+", "+///\n+", "::<", "'a:", "''", "$'a", "/'a'", "'a'a", "+\u{a0}+", "&&'_"];
const SPACE: &[&str] = &["", "", "", " ", " ", "\t", "\n", "\r\n", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{200e}", "\u{200f}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{feff}", "\u{200b}", "\u{1680}", "\u{180e}", "  ", " \n\t", "\u{0}", "\u{1f}", "\u{1c}", "\u{202f}", "\u{205f}"];
const COMMENT: &[&str] = &["//", "// x\n", "//x\r\n", "//x\ry\n", "////", "//// x\n", "/**/", "/***/", "/****/", "/* x */", "/* /* */ */", "/* /* */", "/*/", "/*/*/", "/**", "/*", "/* * / */", "/*** x */", "//\n", "// é\n", "/* é */", "/* \r */", "/* // */", "// /*\n", "/* /**/ /**/ */", "/*/**/*/", "///////\n", "//\r", "//\r\r\n", "/*\n*/", "/* \" */", "// \"\n", "/*//*/*/*/"];
const DOC: &[&str] = &["///", "/// x\n", "///x\r\n", "///x\ry\n", "//!", "//! x\n", "//!x\r\n", "//!\r\n", "//!x\r", "/** x */", "/**x*/", "/*! x */", "/*!*/", "/*! /* */ */", "/** /* */ */", "/** \r */", "/** \r\n */", "/*! \r */", "/// \"q\" \\ '\0'1\n", "/// é\t\n", "/**/*/", "/** a\n b */", "//!!\n", "/*!! */", "/*!", "/** x", "/// x", "//! x", "///\u{301}\n", "/**\u{0}7*/", "//!\n//!\n", "/// a\n/// b\n", "/*!\n*/", "/// x\r\r\n", "/** /*! */ */", "/*! /** */ */"];
const DELIM: &[&str] = &["(", ")", "[", "]", "{", "}", "()", "[]", "{}", "(a)", "( )", "(]", "{)", "(/*ERROR*/)", "(/*ERROR*/", "(/*ERROR */)", "((", "))", "([{", "}])", "(/**/)", "[/*ERROR*/]", "{(/*ERROR*/)}", "((/*ERROR*/))", "(/*ERROR*/)(/*ERROR*/)", "(/*ERRORX*/)"];
const CHARS: &[char] = &['a', 'r', 'b', 'c', 'e', 'x', 'u', 'n', 'f', 'F', 'g', 'E', 'o', '0', '1', '7', '8', '9', '_', '.', '+', '-', '*', '/', '\\', '\'', '"', '#', '!', '{', '}', '(', ')', '[', ']', ' ', '\n', '\r', '\t', '\0', 'é', '中', '\u{301}', '\u{1F600}', '\u{feff}', '\u{200e}', '\u{a0}', '\u{85}', '\u{7f}', '\u{80}', '<', '=', '>', ':', ';', ',', '&', '|', '$', '?', '~', '@', '%', '^', '`', '\u{b7}', '\u{200d}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}'];

/// characters that differ in what std and unicode-ident say about them: the first and last of every such kind
pub fn kinds() -> &'static [char] {
    static K: std::sync::OnceLock<Vec<char>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let mut m: std::collections::BTreeMap<Vec<bool>, (char, char)> = Default::default();
        for c in ('\0'..=char::MAX).filter(|c| !c.is_ascii()) {
            let e = c.escape_debug().count() > 1;
            let k = vec![c.is_alphabetic(), c.is_numeric(), c.is_whitespace(), c.is_control(), c.is_lowercase(), c.is_uppercase(), unicode_ident::is_xid_start(c), unicode_ident::is_xid_continue(c), e, c.len_utf8() == 2, c.len_utf8() == 3];
            m.entry(k).or_insert((c, c)).1 = c;
        }
        let mut v: Vec<char> = m.values().flat_map(|p| [p.0, p.1]).collect();
        v.sort();
        v.dedup();
        v
    })
}
fn any_char(r: &mut Rng, d: &Dict) -> char {
    match r.below(13) {
        12 => *r.pick(kinds()),
        0 => if d.chars.is_empty() { 'a' } else { *r.pick(&d.chars) },
        1 => char::from_u32(r.below(0x250) as u32).unwrap_or('a'),
        2 => char::from_u32(r.below(0x110000) as u32).unwrap_or('a'),
        3 => char::from_u32(r.below(0x3000) as u32).unwrap_or('a'),
        _ => *r.pick(CHARS),
    }
}
fn frag(r: &mut Rng, d: &Dict, w: &[usize; 8]) -> String {
    let sets: [&[&str]; 8] = [IDENT, STRS, QUOTED, NUMS, PUNCT, COMMENT, DOC, DELIM];
    let total: usize = w.iter().sum();
    let mut k = r.below(total + 2);
    for (i, n) in w.iter().enumerate() {
        if k < *n { return r.pick(sets[i]).to_string(); }
        k -= n;
    }
    if k == 0 && !d.strs.is_empty() { r.pick(&d.strs).clone() } else { any_char(r, d).to_string() }
}
fn quoted(r: &mut Rng, d: &Dict) -> String {
    // a quoted literal put together from pieces
    let n = r.below(4);
    let h = "#".repeat(if r.chance(40) { 250 + r.below(12) } else { n });
    let (open, close) = match r.below(10) {
        0 => ("\"".to_string(), "\"".to_string()),
        1 => ("b\"".into(), "\"".into()),
        2 => ("c\"".into(), "\"".into()),
        3 => (format!("r{}\"", h), format!("\"{}", h)),
        4 => (format!("br{}\"", h), format!("\"{}", h)),
        5 => (format!("cr{}\"", h), format!("\"{}", h)),
        6 => ("'".into(), "'".into()),
        7 => ("b'".into(), "'".into()),
        8 => (format!("r{}\"", h), "\"".to_string() + &"#".repeat(r.below(5))),
        _ => ("\"".into(), "\"".into()),
    };
    const PIECES: &[&str] = &["a", "\\n", "\\r", "\\t", "\\\\", "\\'", "\\\"", "\\0", "\\x00", "\\x41", "\\x7f", "\\x7F", "\\x80", "\\xff", "\\xFF", "\\u{0}", "\\u{41}", "\\u{1F600}", "\\u{4_1_}", "\\u{00_e9}", "\\u{D7FF}", "\\u{E000}", "\\u{dfff}", "\\u{10FFFF}", "\\u{110000}", "\\\n", "\\\n ", "\\\n\t\r\n ", "\\\r\n", "\r\n", "\n", "é", "中", "\u{1F600}", "\"", "\"#", "\"##", "#", "'", "\\q", "\\x", "\\u", "\\u{", "\\", "\r", "\0", "\t", " ", "\u{a0}", "0", "7", "8", "\u{301}", "{", "//", "\u{7f}", "\u{80}", "\\\n\u{c}", "\\\n \u{b}x", "\u{c}", "\\\n\u{3000}", "\\x0", "\\x4g", "\\u{1234567}", "\\u{12_34_56}", "\\N", "\\a"];
    let mut s = open;
    for _ in 0..r.below(6) { if r.chance(6) { s.push(any_char(r, d)) } else { s += r.pick(PIECES) } }
    s += &close;
    match r.below(8) { 0 => s += r.pick(IDENT), 1 => s.push(any_char(r, d)), _ => {} }
    s
}
fn number(r: &mut Rng, d: &Dict) -> String {
    const P: &[&str] = &["0", "1", "7", "8", "9", "_", "a", "f", "F", "e", "E", "+", "-", ".", "x", "o", "b", "0x", "0o", "0b", "u8", "f32", "i128", "é", "e+", "e-", "..", "12"];
    let mut s = String::from(*r.pick(&["0", "1", "9", "0x", "0b", "0o", "1.", "1e", "12", "-1", ""]));
    for _ in 0..r.below(7) { if r.chance(25) { s.push(any_char(r, d)) } else { s += r.pick(P) } }
    s
}
fn mutate(r: &mut Rng, d: &Dict, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(2) {
        let i = r.below(v.len() + 1);
        match r.below(5) {
            0 => v.insert(i, any_char(r, d)),
            1 => if i < v.len() { v.remove(i); },
            2 => if i < v.len() { v[i] = any_char(r, d); },
            3 => { let j = r.below(v.len() + 1); let (a, b) = (i.min(j), i.max(j)); let part: Vec<char> = v[a..b].to_vec(); for (k, c) in part.into_iter().enumerate() { v.insert(a + k, c); } }
            _ => v.truncate(i),
        }
    }
    if v.len() > 8000 { v.truncate(8000); }
    v.into_iter().collect()
}
fn balanced(r: &mut Rng, d: &Dict, w: &[usize; 8], depth: usize) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(4) {
        if depth > 0 && r.chance(3) {
            let (o, c) = *r.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
            s += o;
            s += r.pick(SPACE);
            s += &balanced(r, d, w, depth - 1);
            s += r.pick(SPACE);
            s += c;
        } else {
            s += &match r.below(8) { 0 => quoted(r, d), 1 => number(r, d), _ => frag(r, d, w) };
        }
        s += r.pick(SPACE);
    }
    s
}
fn size(r: &mut Rng, d: &Dict) -> usize {
    let near: Vec<usize> = d.nums.iter().filter(|n| **n <= 3000).map(|n| *n as usize).collect();
    let n = if near.is_empty() || r.chance(2) { *r.pick(&[8usize, 16, 32, 64, 100, 128, 255, 256, 512, 1000, 1024]) } else { *r.pick(&near) };
    (n + r.below(3)).saturating_sub(1)
}
/// something repeated often: lengths, depths and counts around the numbers the source mentions
fn long(r: &mut Rng, d: &Dict, w: &[usize; 8]) -> String {
    let n = size(r, d);
    let c = any_char(r, d).to_string();
    let f = frag(r, d, w);
    let tail = frag(r, d, w);
    let s = match r.below(14) {
        0 => format!("{}{}", r.pick(IDENT), "a".repeat(n)),
        1 => { let h = "#".repeat(n); format!("{}r{}\"{}\"{}", r.pick(&["", "b", "c"]), h, c, h) }
        2 => format!("{}{}", r.pick(&["", "0x", "0b", "1.", "1e"]), r.pick(&["0", "1", "_", "f"]).repeat(n)),
        3 => format!("\"{}\"", c.repeat(n)),
        4 => format!("{}{}{}", "(".repeat(n.min(300)), f, ")".repeat(n.min(300))),
        5 => format!("{} ", f).repeat(n.min(300)),
        6 => format!("{}{}", "/*".repeat(n), "*/".repeat(n)),
        7 => "\n".repeat(n) + &f,
        8 => format!("\"\\u{{0{}}}\"", "_".repeat(n)),
        9 => r.pick(SPACE).repeat(n) + &f,
        10 => r.pick(PUNCT).repeat(n.min(400)),
        11 => format!("///{}\n", c.repeat(n)),
        12 => format!("//{}\n{}", c.repeat(n), f),
        _ => format!("\"{}\"", r.pick(&["\\n", "\\u{41}", "\\x41", "\\\n", "é"]).repeat(n)),
    };
    let mut s = if r.chance(2) { s + r.pick(SPACE) + &tail } else { s };
    if r.chance(5) { s = mutate(r, d, &s); }
    s
}
pub fn source(r: &mut Rng, d: &Dict, w: &[usize; 8]) -> String {
    if r.chance(60) { return long(r, d, w); }
    let mut s = match r.below(4) {
        0 => { let mut s = String::new(); for _ in 0..1 + r.below(5) { s += &frag(r, d, w); s += r.pick(SPACE); } s }
        1 => { let a = frag(r, d, w); a + &frag(r, d, w) }
        2 => balanced(r, d, w, 3),
        _ => match r.below(3) { 0 => quoted(r, d), 1 => number(r, d), _ => frag(r, d, w) },
    };
    if r.chance(4) { s = mutate(r, d, &s); }
    if r.chance(60) { s.insert(0, '\u{feff}'); }
    s
}
fn value_str(r: &mut Rng, d: &Dict) -> String {
    let mut s = String::new();
    if r.chance(60) { let n = size(r, d); let c = any_char(r, d); s.extend(std::iter::repeat(c).take(n)); }
    for _ in 0..r.below(7) { if r.chance(8) && !d.strs.is_empty() { s += r.pick(&d.strs) } else { s.push(any_char(r, d)) } }
    s
}
fn latin(r: &mut Rng, d: &Dict) -> String {
    // bytes as characters below 256; often UTF-8, sometimes cut short
    match r.below(3) {
        0 => (0..r.below(8)).map(|_| (r.below(256) as u8) as char).collect(),
        1 => value_str(r, d).bytes().map(|b| b as char).collect(),
        _ => {
            let mut v: Vec<u8> = value_str(r, d).into_bytes();
            for _ in 0..1 + r.below(2) {
                let i = r.below(v.len() + 1);
                const B: &[u8] = &[0, 9, 10, 13, 0x20, b'"', b'\'', b'\\', b'0', b'7', b'8', 0x7e, 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xe0, 0xed, 0xa0, 0xf0, 0xf4, 0x90, 0xf8, 0xff];
                match r.below(3) { 0 => v.insert(i, *r.pick(B)), 1 => if i < v.len() { v.remove(i); }, _ => if i < v.len() { v[i] = *r.pick(B); } }
            }
            v.into_iter().map(|b| b as char).collect()
        }
    }
}
const INTS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
fn num_case(r: &mut Rng, d: &Dict) -> Case {
    match r.below(4) {
        0 => {
            let bits = match r.below(5) {
                0 => r.next() as u32,
                1 => (r.below(2000) as f32 / 4.0 - 100.0).to_bits(),
                2 => *r.pick(&[0u32, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f7fffff, 0x00800000, 1, 0x007fffff, 0x3f800000, 0xbf800000, 0x4b800000, 0x5a000000, 0xff7fffff, 0x80000001]),
                3 => (10f32.powi(r.below(76) as i32 - 38)).to_bits(),
                _ => if d.nums.is_empty() { 1 } else { (*r.pick(&d.nums) as f32).to_bits() },
            };
            case("num", vec!["f32".into(), bits.to_string()])
        }
        1 => {
            let bits = match r.below(5) {
                0 => r.next(),
                1 => (r.below(2000) as f64 / 4.0 - 100.0).to_bits(),
                2 => *r.pick(&[0u64, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7fefffffffffffff, 0x0010000000000000, 1, 0x3ff0000000000000, 0xbff0000000000000, 0x4340000000000000, 0x8000000000000001]),
                3 => (10f64.powi(r.below(620) as i32 - 310)).to_bits(),
                _ => if d.nums.is_empty() { 1 } else { (*r.pick(&d.nums) as f64).to_bits() },
            };
            case("num", vec!["f64".into(), bits.to_string()])
        }
        _ => {
            let ty = *r.pick(INTS);
            let bits = match ty { "u8" | "i8" => 8, "u16" | "i16" => 16, "u32" | "i32" => 32, "u64" | "i64" | "usize" | "isize" => 64, _ => 128 };
            let x = ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128);
            let e = r.below(4) as u128;
            let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
            let v = match r.below(8) { 0 => e, 1 => mask - e, 2 => (mask >> 1) - e, 3 => (mask >> 1) + 1 + e, 4 => (1u128 << r.below(bits)).wrapping_sub(e), 5 => 10u128.pow(r.below(38) as u32).wrapping_sub(e), 6 => if d.nums.is_empty() { 3 } else { *r.pick(&d.nums) as u128 }, _ => x } & mask;
            let s = if ty.starts_with('u') { v.to_string() } else { let sh = 128 - bits; (((v << sh) as i128) >> sh).to_string() };
            case("num", vec![ty.into(), s])
        }
    }
}
fn range(r: &mut Rng) -> String {
    let v = |r: &mut Rng| match r.below(12) { 0 => "-1".to_string(), 1 => (u32::MAX as u64 - r.below(4) as u64).to_string(), 2 => (u32::MAX as u64 + r.below(12) as u64).to_string(), 3 => ((1u64 << 33) - r.below(3) as u64).to_string(), _ => r.below(9).to_string() };
    format!("{} {} {}", r.below(8), v(r), v(r))
}
fn hist_case(r: &mut Rng, d: &Dict, w: &[usize; 8]) -> Case {
    let mut a = vec![];
    let n = 2 + r.below(14);
    for _ in 0..n {
        a.push(match r.below(20) {
            0..=4 => format!("P{}", located_source(r, d, w)),
            5 => format!("P{}", source(r, d, w)),
            6 => format!("L{}", match r.below(3) { 0 => quoted(r, d), 1 => number(r, d), _ => r.pick(STRS).to_string() }),
            7 => "X".into(),
            8 => "C".into(),
            9..=12 => format!("Q{} {} {}", r.below(9), r.below(30), r.below(4)),
            13..=17 => format!("J{} {} {} {}", r.below(9), r.below(30), r.below(9), r.below(30)),
            _ => format!("S{} {} {}", r.below(9), r.below(9), range(r)),
        });
    }
    case("hist", a)
}
fn located_source(r: &mut Rng, d: &Dict, w: &[usize; 8]) -> String {
    if r.chance(25) { return long(r, d, w); }
    // texts that parse, with wide characters, line breaks and distance between the tokens
    const GAP: &[&str] = &["", " ", "\n", "\r\n", " /* é中\u{1F600} */ ", " // é\n", "\u{3000}", "\n\n", "\u{2028}", "       ", "/* aaaaaaaaaaaaaaaaaaaa */", "\n  ", "\t"];
    const T: &[&str] = &["a", "é", "中文", "\"é\"", "'\u{1F600}'", "+", "1", "b\"x\"", "\"\u{1F600}\n\"", "/// é\n", "/** é\n中 */", "r#\"\n中\"#", "x1", "::", "'a ", "\"a\\\n b\"", "//! q\n", "1.5f32", "\"ascii text\""];
    let mut s = String::new();
    let mut open = vec![];
    for _ in 0..r.below(9) {
        s += r.pick(GAP);
        match r.below(6) {
            0 => { let (o, c) = *r.pick(&[('(', ')'), ('[', ']'), ('{', '}')]); s.push(o); open.push(c); }
            1 => if let Some(c) = open.pop() { s.push(c) },
            _ => { s += r.pick(T); s.push(' ') }
        }
    }
    while let Some(c) = open.pop() { s += r.pick(GAP); s.push(c); }
    s += r.pick(GAP);
    if r.chance(20) { s = mutate(r, d, &s); }
    if r.chance(15) { s.insert(0, '\u{feff}'); }
    let _ = w;
    s
}
fn ident_text(r: &mut Rng, d: &Dict) -> String {
    match r.below(6) {
        0 | 1 => r.pick(IDENT).to_string(),
        2 => { let s = r.pick(IDENT).to_string(); mutate(r, d, &s) }
        3 => if d.strs.is_empty() { "a".into() } else { r.pick(&d.strs).clone() },
        4 => { let mut s = r.pick(IDENT).to_string(); s.push(any_char(r, d)); s }
        _ => { let mut s = String::new(); for _ in 0..r.below(4) { s.push(any_char(r, d)); } s }
    }
}
fn weights(p: &str) -> [usize; 8] {
    //  ident strs quoted nums punct comment doc delim
    match p {
        "C03" => [2, 8, 8, 8, 2, 1, 0, 1],
        "C04" => [2, 1, 1, 1, 2, 2, 1, 10],
        "C05" => [2, 1, 1, 1, 2, 8, 10, 2],
        "C06" => [2, 1, 4, 2, 10, 2, 1, 1],
        "C07" => [10, 1, 3, 2, 2, 1, 0, 1],
        "C08" | "C09" => [1, 10, 4, 1, 1, 1, 1, 1],
        _ => [4, 4, 4, 4, 4, 3, 3, 4],
    }
}
/// one random case for a property
pub fn random(p: &str, r: &mut Rng, d: &Dict) -> Case {
    let w = weights(p);
    let kinds: &[(&str, usize)] = match p {
        "C01" => &[("parse", 8), ("lit", 2), ("ident", 1)],
        "C02" | "C04" | "C05" => &[("parse", 20), ("lit", 1)],
        "C03" => &[("parse", 6), ("lit", 6)],
        "C06" => &[("parse", 20), ("punct", 1)],
        "C07" => &[("parse", 5), ("ident", 10)],
        "C08" => &[("str", 4), ("chr", 1), ("byte", 1), ("bstr", 3), ("cstr", 4), ("parse", 1)],
        "C09" => &[("lit", 8), ("str", 2), ("bstr", 2), ("cstr", 2)],
        "C10" => &[("hist", 6), ("parse", 4), ("lit", 1)],
        "C11" => &[("hist", 8), ("lit", 3), ("parse", 1)],
        "C12" => &[("ops", 8), ("lit", 1), ("num", 1)],
        "C13" => &[("parse", 6), ("ops", 3), ("lit", 1), ("ident", 1), ("punct", 1)],
        "C14" => &[("num", 1)],
        "C15" => &[("nest", 1)],
        _ => &[("parse", 1)],
    };
    let mut k = r.below(kinds.iter().map(|k| k.1).sum());
    let mut kind = kinds[0].0;
    for (n, w) in kinds { if k < *w { kind = n; break; } k -= w; }
    match kind {
        "parse" => case("parse", vec![source(r, d, &w)]),
        "lit" => {
            let t = match r.below(5) { 0 | 1 => quoted(r, d), 2 => number(r, d), 3 => frag(r, d, &[0, 4, 3, 4, 0, 0, 0, 0]), _ => source(r, d, &w) };
            let mut a = vec![if r.chance(10) { format!("-{}", t) } else { t }];
            for _ in 0..r.below(4) { a.push(range(r)); }
            case("lit", a)
        }
        "ident" => case("ident", (0..1 + r.below(2)).map(|_| ident_text(r, d)).collect()),
        "punct" => case("punct", vec![any_char(r, d).to_string()]),
        "str" => case("str", vec![value_str(r, d)]),
        "chr" => case("chr", vec![any_char(r, d).to_string()]),
        "byte" => case("byte", vec![(r.below(256) as u8 as char).to_string()]),
        "bstr" => case("bstr", vec![latin(r, d)]),
        "cstr" => case("cstr", vec![latin(r, d)]),
        "num" => num_case(r, d),
        "hist" => hist_case(r, d, &w),
        "nest" => {
            let big = |r: &mut Rng| match r.below(6) { 0 => r.below(5), 1 => size(r, d), 2 => 8_000 + r.below(10_000), _ => 3000 + r.below(5000) };
            let mut a = vec![format!("{} {} {}", r.below(3), r.below(1 << 13), 8_000 + r.below(8_000))];
            for _ in 0..r.below(8) { a.push(format!("{} {} {}", r.below(12), r.below(1 << 13), big(r))); }
            case("nest", a)
        }
        _ => case("ops", (0..1 + r.below(14)).map(|_| format!("{} {} {} {}", r.below(34), r.below(40), r.below(40), if r.chance(20) { size(r, d).min(300) } else { r.below(40) })).collect()),
    }
}

/// The exhaustive part, as numbered blocks so that threads can share it.
pub fn block(p: &str, i: usize, thorough: bool, d: &Dict) -> Option<Vec<Case>> {
    let lexing = matches!(p, "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C10" | "C13");
    let mut v = vec![];
    // every fragment alone, and every pair
    let all: Vec<&str> = [IDENT, STRS, QUOTED, NUMS, PUNCT, COMMENT, DOC, DELIM].concat();
    let mut i = i;
    if i == 0 {
        for f in all.iter().copied().chain(d.strs.iter().map(|s| s.as_str())) {
            if lexing {
                for t in [f.to_string(), format!("a{}", f), format!("{}a", f), format!("{}\n", f), format!(" {}1", f), format!("({})", f), format!("\u{feff}{}", f), format!("é{}é", f)] { v.push(case("parse", vec![t])); }
            }
            if matches!(p, "C01" | "C03" | "C09" | "C12" | "C11" | "C10") { v.push(case("lit", vec![f.to_string()])); v.push(case("lit", vec![format!("-{}", f)])); v.push(case("lit", vec![format!("{}x", f)])); v.push(case("lit", vec![format!(" {}", f)])); }
            if matches!(p, "C07" | "C13") { v.push(case("ident", vec![f.to_string(), "a".into()])); }
            if matches!(p, "C08" | "C09") { v.push(case("str", vec![f.to_string()])); }
        }
        for n in ["0", "1", "300", "5000", "70000"] {
            let mut big = |s: usize| v.push(case("big", vec![s.to_string(), n.to_string()]));
            if matches!(p, "C12" | "C13") { big(0) }
            if matches!(p, "C01" | "C02" | "C04" | "C10") { big(1) }
            if matches!(p, "C08" | "C09") { big(2) }
            if matches!(p, "C03" | "C05") { big(3) }
            for (k, l) in crate::checks::LONG.iter().enumerate() { if n.len() > 1 && (l.3.contains(&p) || p == "C10") { big(10 + k) } }
        }
        if p == "C01" { for n in ["10", "3000"] { for s in ["0", "1"] { v.push(case("deep", vec![n.into(), s.into()])); } } if thorough { v.push(case("deep", vec!["200000".into(), "0".into()])); } }
        if p == "C04" { for sh in [0, 1, 13, 40, 216, 1728, 3456, 5184] { for d in [100, 5000, 70000] { v.push(case("nest", vec![format!("0 {} {}", sh, d)])); } } }
        if p == "C15" { for sh in [0, 1, 2, 3, 13, 40, 77, 216, 500, 1728, 3456, 5184] { for op in ["", "3 0 0|6 0 0", "4 0 10|6 0 0", "4 0 9000|6 0 0|6 0 0", "8 0 0|9 0 0", "8 0 1", "2 0 20000", "11 0 0|6 0 0", "3 0 0|10 0 1|6 0 0"] { let mut a = vec![format!("0 {} 20000", sh)]; a.extend(op.split('|').filter(|x| !x.is_empty()).map(|x| x.to_string())); v.push(case("nest", a)); } } }
        if p == "C07" { for a in IDENT { for b in IDENT { v.push(case("ident", vec![a.to_string(), b.to_string()])); } } }
        if matches!(p, "C08" | "C09") { for b in 0..=255u8 { let c = b as char; v.push(case("byte", vec![c.to_string()])); for n in ["", "0", "7", "8", "\u{80}", "\u{bf}", "\"", "\\"] { v.push(case("bstr", vec![format!("{}{}", c, n)])); v.push(case("cstr", vec![format!("{}{}", c, n)])); } } }
        if p == "C14" { for b in 0..=255u8 { v.push(case("num", vec!["u8".into(), b.to_string()])); v.push(case("num", vec!["i8".into(), (b as i8).to_string()])); } }
        return Some(v);
    }
    i -= 1;
    let alpha = &CHARS[..if thorough { 60 } else { 46 }];
    let ctx: &[(&str, &str)] = &[("", ""), ("\"", "\""), ("b\"", "\""), ("c\"", "\""), ("'", "'"), ("b'", "'"), ("r#", ""), ("r#\"", "\"#"), ("cr\"", "\""), ("br#\"", "\"#"), ("0", ""), ("1.", ""), ("1e", ""), ("0x", ""), ("0b1", ""), ("/*", "*/"), ("///", "\n"), ("//!", ""), ("/**", "*/"), ("\"\\", "\""), ("b\"\\", "\""), ("c\"\\", "\""), ("\"\\x", "\""), ("\"\\u{", "}\""), ("c\"\\u{", "}\""), ("\"\\\n", "\""), ("'", ""), ("(", ")"), ("a", ""), ("+", ""), ("'\\", "'"), ("0o", ""), ("b\"\\\n", "\""), ("c\"\\\n", "\""), ("b\"\\x", "\""), ("c\"\\x", "\""), ("r\"", "\""), ("\"", ""), ("1.5", ""), ("1e+", ""), ("//", "\n"), ("b'\\", "'"), ("'\\u{", "}'"), ("{", "}"), ("'a", ""), ("#", "")];
    if lexing || p == "C09" {
    // every character up to U+017F and the odd ones beyond, in every opening context
    if i < ctx.len() {
        let (o, c) = ctx[i];
        const ODD: &[u32] = &[0x180e, 0x1680, 0x2000, 0x200b, 0x200d, 0x200e, 0x200f, 0x2028, 0x2029, 0x202f, 0x205f, 0x2118, 0x212e, 0x2160, 0x3000, 0xfeff, 0xff10, 0xff21, 0x660, 0x966, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1d7ce, 0x1f600, 0x10ffff];
        for x in (0..0x180).chain(ODD.iter().copied()).filter_map(char::from_u32).chain(kinds().iter().copied()) {
            for t in [format!("{}{}{}", o, x, c), format!("{}{}a{}", o, x, c), format!("{}a{}{}", o, x, c), format!("{} {}1{}", o, x, c), format!("{}1{} {}", o, x, c)] { if p == "C09" || p == "C03" { v.push(case("lit", vec![t.clone()])); } if p != "C09" { v.push(case("parse", vec![t])); } }
        }
        return Some(v);
    }
    i -= ctx.len();
    // pairs of fragments
    if p != "C09" && i < all.len() {
        for f in &all { v.push(case("parse", vec![format!("{}{}", all[i], f)])); if thorough { v.push(case("parse", vec![format!("{} {}", all[i], f)])); } }
        return Some(v);
    }
    if p != "C09" { i -= all.len(); }
    }
    if lexing || p == "C09" {
    // every short string over the interesting characters, in every opening context
    let per = alpha.len();
    if i < ctx.len() * per {
        let (o, c) = ctx[i / per];
        let x = alpha[i % per];
        let kind = if p == "C09" || p == "C03" { "lit" } else { "parse" };
        v.push(case(kind, vec![format!("{}{}{}", o, x, c)]));
        for &y in alpha {
            v.push(case(kind, vec![format!("{}{}{}{}", o, x, y, c)]));
            if o.is_empty() || thorough { for &z in alpha { v.push(case(kind, vec![format!("{}{}{}{}{}", o, x, y, z, c)])); } }
        }
        return Some(v);
    }
    i -= ctx.len() * per;
    }
    // every character
    let sweep = matches!(p, "C01" | "C02" | "C03" | "C05" | "C06" | "C07" | "C08" | "C09");
    if sweep {
        let n = 0x110000 / 0x800;
        if i < n {
            for c in (i * 0x800..(i + 1) * 0x800).filter_map(|c| char::from_u32(c as u32)) {
                match p {
                    "C08" => { v.push(case("chr", vec![c.to_string()])); v.push(case("str", vec![format!("{}7", c)])); let b: String = c.to_string().bytes().map(|b| b as char).collect(); v.push(case("cstr", vec![b])); }
                    "C09" => { v.push(case("str", vec![c.to_string()])); v.push(case("lit", vec![format!("\"{}\"", c)])); v.push(case("lit", vec![format!("c\"{}\"", c)])); v.push(case("lit", vec![format!("\"\\u{{{:x}}}\"", c as u32)])); v.push(case("lit", vec![format!("c\"\\u{{{:X}}}\"", c as u32)])); }
                    "C06" => { v.push(case("punct", vec![c.to_string()])); v.push(case("parse", vec![format!("+{}", c)])); }
                    "C07" => { v.push(case("ident", vec![c.to_string()])); v.push(case("ident", vec![format!("a{}", c)])); }
                    "C03" => { for t in [format!("'{}'", c), format!("\"{}\"", c), format!("1{}", c), format!("b\"{}\"", c), format!("cr\"{}\"", c), format!("'a'{}", c)] { v.push(case("lit", vec![t])); } }
                    _ => { for t in [format!("{}", c), format!("a{}b", c), format!("//{}a", c)] { v.push(case("parse", vec![t])); } }
                }
            }
            return Some(v);
        }
    }
    None
}
