// Text model: a string is its sequence of Unicode scalar values; `cw` is the
// number of UTF-8 bytes of one scalar value.
pub open spec fn cp(c: char) -> int { c as u32 as int }

pub open spec fn cw(c: char) -> int {
    if cp(c) < 0x80 { 1 } else if cp(c) < 0x800 { 2 } else if cp(c) < 0x10000 { 3 } else { 4 }
}

/// UTF-8 length.
#[verifier::opaque]
pub open spec fn blen(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { cw(s[0]) + blen(s.skip(1)) }
}

/// What is left of `s` from the first character boundary at or after byte `i`.
#[verifier::opaque]
pub open spec fn rest_at(s: Seq<char>, i: int) -> Seq<char>
    decreases s.len(),
{
    if i <= 0 || s.len() == 0 { s } else { rest_at(s.skip(1), i - cw(s[0])) }
}
pub open spec fn p1(s: Seq<char>, a: char) -> bool { s.len() >= 1 && s[0] == a }
pub open spec fn p2(s: Seq<char>, a: char, b: char) -> bool { s.len() >= 2 && s[0] == a && s[1] == b }
pub open spec fn p3(s: Seq<char>, a: char, b: char, c: char) -> bool { s.len() >= 3 && s[0] == a && s[1] == b && s[2] == c }
pub open spec fn p4(s: Seq<char>, a: char, b: char, c: char, d: char) -> bool { s.len() >= 4 && s[0] == a && s[1] == b && s[2] == c && s[3] == d }
pub open spec fn is_scalar(v: int) -> bool { (0 <= v && v < 0xD800) || (0xE000 <= v && v <= 0x10FFFF) }
