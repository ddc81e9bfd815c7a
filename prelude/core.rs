#![allow(mismatched_lifetime_syntaxes, unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unreachable_code, unused_braces, unused_parens, unused_assignments, unused_must_use, unused_labels, redundant_semicolons)]
extern crate alloc;
use vstd::prelude::*;
use std::rc::Rc;

verus! {

// ---------------------------------------------------------------- text model
//@spec text

/// `r` is a suffix of `s`.
#[verifier::opaque]
pub open spec fn sfx(s: Seq<char>, r: Seq<char>) -> bool {
    r.len() <= s.len() && r =~= s.skip(s.len() - r.len())
}
/// `r` is what is left of `s` after its first `pos` UTF-8 bytes.
#[verifier::opaque]
pub open spec fn at(s: Seq<char>, r: Seq<char>, pos: int) -> bool {
    sfx(s, r) && pos == blen(s) - blen(r)
}
pub open spec fn bdry(s: Seq<char>, pos: int) -> bool { at(s, rest_at(s, pos), pos) }

/// `s` starts with `t`.
#[verifier::opaque]
pub open spec fn pre(s: Seq<char>, t: Seq<char>) -> bool {
    s.len() >= t.len() && forall|i: int| 0 <= i < t.len() ==> s[i] == #[trigger] t[i]
}
/// what precedes the byte position
pub open spec fn take_b(s: Seq<char>, pos: int) -> Seq<char> { s.take(s.len() - rest_at(s, pos).len()) }

pub proof fn lemma_blen_nonneg(s: Seq<char>)
    ensures 0 <= s.len() <= blen(s), (blen(s) == 0 <==> s.len() == 0),
    decreases s.len(),
{ reveal(blen); reveal(rest_at);  if s.len() > 0 { lemma_blen_nonneg(s.skip(1)); } }

pub broadcast proof fn lemma_skip_skip(s: Seq<char>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= s.len(),
    ensures #[trigger] s.skip(i).skip(j) == s.skip(i + j),
{ assert(s.skip(i).skip(j) =~= s.skip(i + j)); }
pub broadcast proof fn lemma_skip0(s: Seq<char>)
    ensures #[trigger] s.skip(0) == s,
{ assert(s.skip(0) =~= s); }
pub broadcast proof fn lemma_sfx_refl(s: Seq<char>)
    ensures #[trigger] sfx(s, s),
{ reveal(sfx); assert(s.skip(0) =~= s); }
pub broadcast proof fn lemma_sfx_len(s: Seq<char>, r: Seq<char>)
    requires #[trigger] sfx(s, r),
    ensures r.len() <= s.len(), r.len() == s.len() ==> r == s, blen(r) <= blen(s), r.len() < s.len() ==> blen(r) < blen(s),
{ lemma_sfx_blen(s, r); reveal(sfx); assert(s.skip(0) =~= s); }

pub broadcast proof fn lemma_sfx_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires #[trigger] sfx(a, b), #[trigger] sfx(b, c),
    ensures sfx(a, c),
{
    reveal(sfx);
    lemma_skip_skip(a, a.len() - b.len(), b.len() - c.len());
}
pub broadcast proof fn lemma_sfx_skip(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures #[trigger] sfx(s, s.skip(k)),
{ reveal(sfx); }

pub proof fn lemma_sfx_blen(s: Seq<char>, r: Seq<char>)
    requires sfx(s, r),
    ensures blen(r) <= blen(s), (r.len() < s.len() ==> blen(r) < blen(s)),
    decreases s.len(),
{ reveal(blen); reveal(rest_at); 
    reveal(sfx);
    if r.len() < s.len() {
        lemma_skip_skip(s, 1, s.skip(1).len() - r.len());
        assert(sfx(s.skip(1), r));
        lemma_sfx_blen(s.skip(1), r);
    } else { assert(r =~= s); }
}

/// The suffix at a byte position is unique.
pub broadcast proof fn lemma_at_rest(s: Seq<char>, r: Seq<char>, pos: int)
    requires #[trigger] at(s, r, pos),
    ensures rest_at(s, pos) == r, 0 <= pos <= blen(s), sfx(s, r), pos == blen(s) - blen(r), 0 <= s.len() - r.len() <= pos,
    decreases s.len(),
{ reveal(blen); reveal(rest_at); 
    reveal(sfx); reveal(at);
    lemma_blen_nonneg(r);
    lemma_sfx_blen(s, r);
    if r.len() == s.len() { assert(r =~= s); }
    else {
        lemma_skip_skip(s, 1, s.skip(1).len() - r.len());
        assert(sfx(s.skip(1), r));
        lemma_at_rest(s.skip(1), r, pos - cw(s[0]));
    }
}
/// One more character.
pub proof fn lemma_at_step(s: Seq<char>, r: Seq<char>, pos: int)
    requires at(s, r, pos), r.len() > 0,
    ensures at(s, r.skip(1), pos + cw(r[0])),
{ reveal(blen); reveal(rest_at); 
    reveal(sfx); reveal(at);
    lemma_skip_skip(s, s.len() - r.len(), 1);
}
/// The same, once the shorter text is mentioned.
pub broadcast proof fn lemma_at_next(s: Seq<char>, r: Seq<char>, pos: int)
    requires #[trigger] at(s, r, pos), r.len() > 0,
    ensures at(s, #[trigger] r.skip(1), pos + cw(r[0])),
{ lemma_at_step(s, r, pos); }
/// One character back.
pub proof fn lemma_at_back(s: Seq<char>, r: Seq<char>, pos: int)
    requires at(s, r, pos), r.len() < s.len(),
    ensures at(s, s.skip(s.len() - r.len() - 1), pos - cw(s[s.len() - r.len() - 1])), 0 < pos,
{
    reveal(sfx); reveal(at); reveal(blen);
    let q = s.skip(s.len() - r.len() - 1);
    lemma_skip_skip(s, s.len() - r.len() - 1, 1);
    assert(q.skip(1) == r);
    lemma_sfx_skip(s, s.len() - r.len() - 1);
    lemma_sfx_blen(s, r);
}
pub broadcast proof fn lemma_at_trans(s: Seq<char>, r: Seq<char>, q: Seq<char>, i: int, j: int)
    requires #[trigger] at(s, r, i), #[trigger] at(r, q, j),
    ensures at(s, q, i + j),
{ reveal(at); lemma_sfx_trans(s, r, q); }

pub proof fn lemma_at_skip(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures at(s, s.skip(k), blen(s.take(k))), blen(s) == blen(s.take(k)) + blen(s.skip(k)),
    decreases k,
{ reveal(blen); reveal(rest_at); 
    reveal(sfx); reveal(at);
    if k == 0 { assert(s.skip(0) =~= s); assert(s.take(0) =~= Seq::<char>::empty()); }
    else {
        lemma_at_skip(s.skip(1), k - 1);
        lemma_skip_skip(s, 1, k - 1);
        assert(s.take(k).skip(1) =~= s.skip(1).take(k - 1));
        assert(s.take(k)[0] == s[0]);
    }
}

pub proof fn lemma_at_pre(s: Seq<char>, t: Seq<char>)
    requires pre(s, t),
    ensures at(s, s.skip(t.len() as int), blen(t)),
{
    reveal(pre);
    lemma_at_skip(s, t.len() as int);
    assert(s.take(t.len() as int) =~= t);
}

pub broadcast proof fn lemma_pre1(s: Seq<char>, t: Seq<char>) requires t.len() == 1 ensures #[trigger] pre(s, t) == p1(s, t[0]) { reveal(pre); }
pub broadcast proof fn lemma_pre2(s: Seq<char>, t: Seq<char>) requires t.len() == 2 ensures #[trigger] pre(s, t) == p2(s, t[0], t[1])
{ reveal(pre); if p2(s, t[0], t[1]) { assert forall|i: int| 0 <= i < t.len() implies s[i] == #[trigger] t[i] by { assert(i == 0 || i == 1); } } }
pub broadcast proof fn lemma_pre3(s: Seq<char>, t: Seq<char>) requires t.len() == 3 ensures #[trigger] pre(s, t) == p3(s, t[0], t[1], t[2])
{ reveal(pre); if p3(s, t[0], t[1], t[2]) { assert forall|i: int| 0 <= i < t.len() implies s[i] == #[trigger] t[i] by { assert(i == 0 || i == 1 || i == 2); } } }
pub broadcast proof fn lemma_pre4(s: Seq<char>, t: Seq<char>) requires t.len() == 4 ensures #[trigger] pre(s, t) == p4(s, t[0], t[1], t[2], t[3])
{ reveal(pre); if p4(s, t[0], t[1], t[2], t[3]) { assert forall|i: int| 0 <= i < t.len() implies s[i] == #[trigger] t[i] by { assert(i == 0 || i == 1 || i == 2 || i == 3); } } }

pub proof fn lemma_ascii_blen(t: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> cp(#[trigger] t[i]) < 0x80,
    ensures blen(t) == t.len(),
    decreases t.len(),
{ reveal(blen); reveal(rest_at);  if t.len() > 0 { assert forall|i: int| 0 <= i < t.skip(1).len() implies cp(#[trigger] t.skip(1)[i]) < 0x80 by { assert(t.skip(1)[i] == t[i + 1]); } lemma_ascii_blen(t.skip(1)); } }

pub proof fn lemma_lit_blen0(t: Seq<char>) requires t.len() == 0 ensures blen(t) == 0 { reveal(blen); }
pub proof fn lemma_lit_blen1(t: Seq<char>) requires t.len() == 1 ensures blen(t) == cw(t[0]) { reveal_with_fuel(blen, 2); }
pub proof fn lemma_lit_blen2(t: Seq<char>) requires t.len() == 2 ensures blen(t) == cw(t[0]) + cw(t[1]) {  reveal(blen); reveal(rest_at); lemma_lit_blen1(t.skip(1)); }
pub proof fn lemma_lit_blen3(t: Seq<char>) requires t.len() == 3 ensures blen(t) == cw(t[0]) + cw(t[1]) + cw(t[2]) {  reveal(blen); reveal(rest_at); lemma_lit_blen2(t.skip(1)); }
pub proof fn lemma_lit_blen4(t: Seq<char>) requires t.len() == 4 ensures blen(t) == cw(t[0]) + cw(t[1]) + cw(t[2]) + cw(t[3]) {  reveal(blen); reveal(rest_at); lemma_lit_blen3(t.skip(1)); }
pub proof fn lemma_lit_blen5(t: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> cp(#[trigger] t[i]) < 0x80,
    ensures blen(t) == t.len(),
{ lemma_ascii_blen(t); }

pub broadcast proof fn lemma_at_start(s: Seq<char>)
    ensures #[trigger] at(s, s, 0),
{ reveal(sfx); reveal(at); assert(s.skip(0) =~= s); }
pub broadcast proof fn lemma_sfx_at(s: Seq<char>, r: Seq<char>)
    requires #[trigger] sfx(s, r),
    ensures at(s, r, #[trigger] blen(s) - #[trigger] blen(r)),
{ reveal(at); }
pub broadcast proof fn lemma_at_end(s: Seq<char>, r: Seq<char>)
    requires r.len() == 0, #[trigger] sfx(s, r),
    ensures at(s, r, blen(s)), 
{ reveal(blen); reveal(rest_at);  reveal(sfx); reveal(at); }
pub broadcast proof fn lemma_rest_at_ends(s: Seq<char>, i: int)
    ensures i == 0 ==> #[trigger] rest_at(s, i) == s, i == 0 ==> at(s, s, 0), i == blen(s) ==> rest_at(s, i).len() == 0 && at(s, rest_at(s, i), i),
        s.len() > 0 && i == cw(s[0]) ==> at(s, s.skip(1), i) && rest_at(s, i) == s.skip(1),
        sfx(s, rest_at(s, i)), 0 <= i <= blen(s) ==> blen(rest_at(s, i)) <= blen(s) - i,
    decreases s.len(),
{ reveal(blen); reveal(rest_at); 
    lemma_at_start(s);
    lemma_at_skip(s, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    lemma_at_rest(s, s.skip(s.len() as int), blen(s));
    if s.len() > 0 { lemma_at_step(s, s, 0); lemma_at_rest(s, s.skip(1), cw(s[0])); }
    if i <= 0 || s.len() == 0 { lemma_sfx_refl(s); }
    else { lemma_rest_at_ends(s.skip(1), i - cw(s[0])); lemma_sfx_skip(s, 1); lemma_sfx_trans(s, s.skip(1), rest_at(s, i)); if i < cw(s[0]) { lemma_rest_at_ends(s.skip(1), 0); } else { lemma_blen_nonneg(s); } }
}
pub broadcast proof fn lemma_blen_bound(s: Seq<char>)
    ensures #[trigger] blen(s) >= s.len(), blen(s) == 0 ==> s.len() == 0,
{ lemma_blen_nonneg(s); }

/// A str never occupies more than isize::MAX bytes.
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures #[trigger] blen(s@) <= isize::MAX;

pub broadcast group vx_text { lemma_skip_skip, lemma_skip0, lemma_sfx_refl, lemma_sfx_len, lemma_sfx_trans, lemma_sfx_skip, lemma_at_rest, lemma_at_next, lemma_at_trans, axiom_str_len, lemma_at_start, lemma_at_end, lemma_sfx_at,
    lemma_rest_at_ends, lemma_blen_bound, lemma_pre1, lemma_pre2, lemma_pre3, lemma_pre4 }

// ------------------------------------------------------------ control shims
/// A panic that must be unreachable.
#[verifier::external_body]
pub fn vpanic() -> !
    requires false,
{ panic!() }
/// A documented panic.
#[verifier::external_body]
pub fn vpanic_allowed() -> ! ensures false { panic!() }

// ------------------------------------------------- assumed contracts on std
pub uninterp spec fn xid_start(c: char) -> bool;
pub uninterp spec fn xid_continue(c: char) -> bool;
/// the ASCII part of the two Unicode tables
pub axiom fn xid_ascii(c: char)
    requires cp(c) < 0x80,
    ensures xid_start(c) == (('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')),
        xid_continue(c) == (('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '_');
/// char::is_whitespace
pub uninterp spec fn uni_ws(c: char) -> bool;
/// char::escape_debug
pub uninterp spec fn esc_debug(c: char) -> Seq<char>;

pub trait VPat: Sized { spec fn pm(self, s: Seq<char>) -> bool; spec fn pl(self) -> Seq<char>; }
impl<'a> VPat for &'a str {
    open spec fn pm(self, s: Seq<char>) -> bool { pre(s, self@) }
    open spec fn pl(self) -> Seq<char> { self@ }
}
impl VPat for char {
    open spec fn pm(self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == self }
    open spec fn pl(self) -> Seq<char> { seq![self] }
}

// --- str::char_indices / chars / peekable / bytes
#[verifier::external_body]
pub struct VCharIndices<'a> { it: core::str::CharIndices<'a> }
impl<'a> VCharIndices<'a> {
    pub uninterp spec fn base(&self) -> Seq<char>;
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures
            final(self).base() == old(self).base(),
            match r {
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
                Some((i, c)) => old(self).rest().len() > 0 && c == old(self).rest()[0]
                    && final(self).rest() == old(self).rest().skip(1)
                    && at(old(self).base(), old(self).rest(), i as int)
                    && at(old(self).base(), final(self).rest(), i + cw(c))
                    && i + cw(c) <= usize::MAX,
            },
    { self.it.next() }
    /// the n-th of those still to come
    #[verifier::external_body]
    pub fn v_nth(&mut self, n: usize) -> (r: Option<(usize, char)>)
        ensures final(self).base() == old(self).base(),
            match r {
                None => old(self).rest().len() <= n && final(self).rest().len() == 0,
                Some((i, c)) => n < old(self).rest().len() && c == old(self).rest()[n as int] && final(self).rest() == old(self).rest().skip(n + 1)
                    && at(old(self).base(), old(self).rest().skip(n as int), i as int) && i + cw(c) <= usize::MAX,
            },
    { self.it.nth(n) }
    /// counted from the end
    #[verifier::external_body]
    pub fn v_nth_back(&mut self, n: usize) -> (r: Option<(usize, char)>)
        ensures match r {
                None => old(self).rest().len() <= n,
                Some((i, c)) => n < old(self).rest().len() && c == old(self).rest()[old(self).rest().len() - 1 - n]
                    && at(old(self).base(), old(self).rest().skip(old(self).rest().len() - 1 - n), i as int) && i + cw(c) <= usize::MAX,
            },
    { self.it.nth_back(n) }
    #[verifier::external_body]
    pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn v_clone(&self) -> (r: Self) ensures r.base() == self.base(), r.rest() == self.rest() { VCharIndices { it: self.it.clone() } }
}

#[verifier::external_body]
pub struct VChars<'a> { it: core::str::Chars<'a> }
impl<'a> VChars<'a> {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r {
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
        },
    { self.it.next() }
    #[verifier::external_body]
    pub fn v_as_str(&self) -> (r: &'a str) ensures r@ == self.rest() { self.it.as_str() }
    #[verifier::external_body]
    pub fn v_count(self) -> (r: usize) ensures r == self.rest().len() { self.it.count() }
    #[verifier::external_body]
    pub fn v_peekable(self) -> (r: VPeekChars<'a>) ensures r.rest() == self.rest() { VPeekChars { it: self.it.peekable() } }
    #[verifier::external_body]
    pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn v_clone(&self) -> (r: Self) ensures r.rest() == self.rest() { VChars { it: self.it.clone() } }
}

#[verifier::external_body]
pub struct VPeekChars<'a> { it: core::iter::Peekable<core::str::Chars<'a>> }
impl<'a> VPeekChars<'a> {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r {
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
        },
    { self.it.next() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&char>)
        ensures final(self).rest() == old(self).rest(),
            match r {
                None => old(self).rest().len() == 0,
                Some(c) => old(self).rest().len() > 0 && *c == old(self).rest()[0],
            },
    { self.it.peek() }
}

/// A byte iterator over a str: `rest` are the characters not yet started,
/// `sub` the bytes still to come of the character that was started.
#[verifier::external_body]
pub struct VBytes<'a> { it: core::str::Bytes<'a> }
#[verifier::external_body]
pub struct VBytesEnum<'a> { it: core::iter::Enumerate<core::str::Bytes<'a>> }

pub open spec fn byte_step(rest: Seq<char>, sub: int, b: u8, rest2: Seq<char>, sub2: int) -> bool {
    if sub > 0 { b >= 0x80 && rest2 == rest && sub2 == sub - 1 }
    else {
        rest.len() > 0 && rest2 == rest.skip(1) && sub2 == cw(rest[0]) - 1
        && (cp(rest[0]) < 0x80 ==> b == cp(rest[0]))
        && (cp(rest[0]) >= 0x80 ==> b >= 0x80)
    }
}
impl<'a> VBytes<'a> {
    pub uninterp spec fn base(&self) -> Seq<char>;
    pub uninterp spec fn rest(&self) -> Seq<char>;
    pub uninterp spec fn sub(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u8>)
        ensures
            final(self).base() == old(self).base(),
            sfx(old(self).base(), final(self).rest()),
            0 <= final(self).sub() <= 3,
            match r {
                None => old(self).rest().len() == 0 && old(self).sub() == 0 && final(self).rest() == old(self).rest() && final(self).sub() == 0,
                Some(b) => byte_step(old(self).rest(), old(self).sub(), b, final(self).rest(), final(self).sub()),
            },
    { self.it.next() }
    #[verifier::external_body]
    pub fn v_enumerate(self) -> (r: VBytesEnum<'a>)
        requires self.rest() == self.base(), self.sub() == 0,
        ensures r.base() == self.base(), r.rest() == self.base(), r.sub() == 0
    { VBytesEnum { it: self.it.enumerate() } }
    #[verifier::external_body]
    pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn v_all<F: Fn(u8) -> bool>(self, f: F) -> (r: bool)
        requires self.sub() == 0, forall|b: u8| #[trigger] f.requires((b,)),
        ensures
            r ==> forall|i: int| 0 <= i < self.rest().len() ==> exists|b: u8| #[trigger] byte_in(#[trigger] self.rest()[i], b) && f.ensures((b,), true),
            !r ==> exists|i: int, b: u8| 0 <= i < self.rest().len() && byte_in(self.rest()[i], b) && f.ensures((b,), false),
    { unimplemented!() }
}
impl<'a> VBytes<'a> {
    #[verifier::external_body]
    pub fn v_position<F: Fn(u8) -> bool>(self, f: F) -> (r: Option<usize>)
        requires self.sub() == 0, forall|b: u8| #[trigger] f.requires((b,)),
        ensures utf8_of(u8s(self.rest()), self.rest()), match r {
            Some(i) => i < u8s(self.rest()).len() && f.ensures((u8s(self.rest())[i as int],), true) && forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] u8s(self.rest())[j],), false),
            None => forall|j: int| 0 <= j < u8s(self.rest()).len() ==> f.ensures((#[trigger] u8s(self.rest())[j],), false),
        },
    { unimplemented!() }
}
/// the bytes of the encoded text
pub uninterp spec fn u8s(s: Seq<char>) -> Seq<u8>;
/// `b` may be one of the bytes of `c`
pub open spec fn byte_in(c: char, b: u8) -> bool { if cp(c) < 0x80 { b == cp(c) } else { b >= 0x80 } }
impl<'a> VBytesEnum<'a> {
    pub uninterp spec fn base(&self) -> Seq<char>;
    pub uninterp spec fn rest(&self) -> Seq<char>;
    pub uninterp spec fn sub(&self) -> int;
    pub open spec fn pos(&self) -> int { blen(self.base()) - blen(self.rest()) - self.sub() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, u8)>)
        ensures
            final(self).base() == old(self).base(),
            sfx(old(self).base(), final(self).rest()),
            0 <= final(self).sub() <= 3,
            match r {
                None => old(self).rest().len() == 0 && old(self).sub() == 0 && final(self).rest() == old(self).rest() && final(self).sub() == 0,
                Some((i, b)) => byte_step(old(self).rest(), old(self).sub(), b, final(self).rest(), final(self).sub())
                    && i == old(self).pos() && final(self).pos() == i + 1 && i + 1 <= usize::MAX
                    && (old(self).sub() == 0 ==> at(old(self).base(), old(self).rest(), i as int))
                    && (old(self).sub() > 0 ==> !bdry(old(self).base(), i as int))
                    && (final(self).sub() == 0 ==> at(old(self).base(), final(self).rest(), i + 1)),
            },
    { self.it.next() }
    #[verifier::external_body]
    pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }
}

/// How the UTF-8 bytes of `s` relate to its characters.
pub open spec fn utf8_of(b: Seq<u8>, s: Seq<char>) -> bool {
    b.len() == blen(s)
    && forall|i: int| 0 <= i < b.len() ==> byte_at(#[trigger] b[i], s, i)
}
pub open spec fn byte_at(b: u8, s: Seq<char>, i: int) -> bool {
    let r = rest_at(s, i);
    if b < 0x80 { at(s, r, i) && r.len() > 0 && cp(r[0]) == b && at(s, r.skip(1), i + 1) && rest_at(s, i + 1) == r.skip(1) }
    else {
        (at(s, r, i) && r.len() > 0 && cp(r[0]) >= 0x80 && rest_at(s, i + 1) == r.skip(1))
        || (!bdry(s, i) && rest_at(s, i + 1) == r)
    }
}

/// how often the text starts (ends) with `c`
pub open spec fn lead(s: Seq<char>, c: char) -> int
    decreases s.len(),
{ if s.len() > 0 && s[0] == c { 1 + lead(s.skip(1), c) } else { 0 } }
pub open spec fn trail(s: Seq<char>, c: char) -> int
    decreases s.len(),
{ if s.len() > 0 && s.last() == c { 1 + trail(s.drop_last(), c) } else { 0 } }
pub trait VStr {
    spec fn sv(&self) -> Seq<char>;
    fn v_len(&self) -> (r: usize) ensures r == blen(self.sv()), r <= isize::MAX as usize;
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
    fn v_split_at<'a>(&'a self, mid: usize) -> (r: (&'a str, &'a str))
        requires bdry(self.sv(), mid as int),
        ensures r.1@ == rest_at(self.sv(), mid as int), r.0@ == take_b(self.sv(), mid as int);
    fn v_slice_from<'a>(&'a self, i: usize) -> (r: &'a str)
        requires bdry(self.sv(), i as int),
        ensures r@ == rest_at(self.sv(), i as int);
    fn v_slice_to<'a>(&'a self, i: usize) -> (r: &'a str)
        requires bdry(self.sv(), i as int),
        ensures r@ == take_b(self.sv(), i as int);
    fn v_slice<'a>(&'a self, i: usize, j: usize) -> (r: &'a str)
        requires i <= j, bdry(self.sv(), i as int), bdry(self.sv(), j as int),
        ensures r@ == rest_at(take_b(self.sv(), j as int), i as int);
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.pm(self.sv()), r ==> at(self.sv(), self.sv().skip(p.pl().len() as int), blen(p.pl()));
    fn v_strip_prefix<'a, P: VPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r { Some(t) => p.pm(self.sv()) && t@ == self.sv().skip(p.pl().len() as int) && at(self.sv(), t@, blen(p.pl())), None => !p.pm(self.sv()) };
    fn v_contains(&self, c: char) -> (r: bool) ensures r == self.sv().contains(c);
    fn v_chars<'a>(&'a self) -> (r: VChars<'a>) ensures r.rest() == self.sv();
    fn v_bytes<'a>(&'a self) -> (r: VBytes<'a>) ensures r.base() == self.sv(), r.rest() == self.sv(), r.sub() == 0;
    fn v_char_indices<'a>(&'a self) -> (r: VCharIndices<'a>) ensures r.base() == self.sv(), r.rest() == self.sv();
    fn v_as_bytes<'a>(&'a self) -> (r: &'a [u8]) ensures utf8_of(r@, self.sv());
    fn v_is_char_boundary(&self, i: usize) -> (r: bool) ensures r == bdry(self.sv(), i as int);
    fn v_to_owned(&self) -> (r: String) ensures r@ == self.sv();
    fn v_as_ref<'a>(&'a self) -> (r: &'a str) ensures r@ == self.sv();
    fn v_to_string(&self) -> (r: String) ensures r@ == self.sv();
    fn v_starts_with_fn<F: FnMut(char) -> bool>(&self, f: F) -> (r: bool)
        requires forall|c: char| #[trigger] f.requires((c,)),
        ensures self.sv().len() == 0 ==> !r, self.sv().len() > 0 ==> f.ensures((self.sv()[0],), r);
    fn v_ends_with(&self, c: char) -> (r: bool) ensures r == (self.sv().len() > 0 && self.sv().last() == c);
    fn v_trim_start_matches<'a>(&'a self, c: char) -> (r: &'a str) ensures r@ == self.sv().skip(lead(self.sv(), c));
    fn v_trim_end_matches<'a>(&'a self, c: char) -> (r: &'a str) ensures r@ == self.sv().take(self.sv().len() - trail(self.sv(), c));
    fn v_find(&self, c: char) -> (r: Option<usize>)
        ensures match r {
            None => !self.sv().contains(c),
            Some(i) => bdry(self.sv(), i as int) && ({ let t = rest_at(self.sv(), i as int);
                t.len() > 0 && t[0] == c && !take_b(self.sv(), i as int).contains(c)
                && at(self.sv(), t, i as int) && at(self.sv(), t.skip(1), i + cw(c)) && i + cw(c) <= usize::MAX }),
        };
}
impl VStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_len(&self) -> usize { self.len() }
    #[verifier::external_body] fn v_is_empty(&self) -> bool { self.is_empty() }
    #[verifier::external_body] fn v_split_at<'a>(&'a self, mid: usize) -> (&'a str, &'a str) { self.split_at(mid) }
    #[verifier::external_body] fn v_slice_from<'a>(&'a self, i: usize) -> &'a str { &self[i..] }
    #[verifier::external_body] fn v_slice_to<'a>(&'a self, i: usize) -> &'a str { &self[..i] }
    #[verifier::external_body] fn v_slice<'a>(&'a self, i: usize, j: usize) -> &'a str { &self[i..j] }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> bool { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<'a, P: VPat>(&'a self, p: P) -> Option<&'a str> { unimplemented!() }
    #[verifier::external_body] fn v_contains(&self, c: char) -> bool { self.contains(c) }
    #[verifier::external_body] fn v_ends_with(&self, c: char) -> bool { self.ends_with(c) }
    #[verifier::external_body] fn v_trim_start_matches<'a>(&'a self, c: char) -> &'a str { self.trim_start_matches(c) }
    #[verifier::external_body] fn v_trim_end_matches<'a>(&'a self, c: char) -> &'a str { self.trim_end_matches(c) }
    #[verifier::external_body] fn v_chars<'a>(&'a self) -> VChars<'a> { VChars { it: self.chars() } }
    #[verifier::external_body] fn v_bytes<'a>(&'a self) -> VBytes<'a> { VBytes { it: self.bytes() } }
    #[verifier::external_body] fn v_char_indices<'a>(&'a self) -> VCharIndices<'a> { VCharIndices { it: self.char_indices() } }
    #[verifier::external_body] fn v_as_bytes<'a>(&'a self) -> &'a [u8] { self.as_bytes() }
    #[verifier::external_body] fn v_is_char_boundary(&self, i: usize) -> bool { self.is_char_boundary(i) }
    #[verifier::external_body] fn v_to_owned(&self) -> String { self.to_owned() }
    #[verifier::external_body] fn v_as_ref<'a>(&'a self) -> &'a str { self.as_ref() }
    #[verifier::external_body] fn v_to_string(&self) -> String { self.to_string() }
    #[verifier::external_body] fn v_starts_with_fn<F: FnMut(char) -> bool>(&self, f: F) -> bool { self.starts_with(f) }
    #[verifier::external_body] fn v_find(&self, c: char) -> Option<usize> { self.find(c) }
}
impl VStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_len(&self) -> usize { self.len() }
    #[verifier::external_body] fn v_is_empty(&self) -> bool { self.is_empty() }
    #[verifier::external_body] fn v_split_at<'a>(&'a self, mid: usize) -> (&'a str, &'a str) { self.split_at(mid) }
    #[verifier::external_body] fn v_slice_from<'a>(&'a self, i: usize) -> &'a str { &self[i..] }
    #[verifier::external_body] fn v_slice_to<'a>(&'a self, i: usize) -> &'a str { &self[..i] }
    #[verifier::external_body] fn v_slice<'a>(&'a self, i: usize, j: usize) -> &'a str { &self[i..j] }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> bool { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<'a, P: VPat>(&'a self, p: P) -> Option<&'a str> { unimplemented!() }
    #[verifier::external_body] fn v_contains(&self, c: char) -> bool { self.contains(c) }
    #[verifier::external_body] fn v_ends_with(&self, c: char) -> bool { self.ends_with(c) }
    #[verifier::external_body] fn v_trim_start_matches<'a>(&'a self, c: char) -> &'a str { self.trim_start_matches(c) }
    #[verifier::external_body] fn v_trim_end_matches<'a>(&'a self, c: char) -> &'a str { self.trim_end_matches(c) }
    #[verifier::external_body] fn v_chars<'a>(&'a self) -> VChars<'a> { unimplemented!() }
    #[verifier::external_body] fn v_bytes<'a>(&'a self) -> VBytes<'a> { VBytes { it: self.bytes() } }
    #[verifier::external_body] fn v_char_indices<'a>(&'a self) -> VCharIndices<'a> { VCharIndices { it: self.char_indices() } }
    #[verifier::external_body] fn v_as_bytes<'a>(&'a self) -> &'a [u8] { self.as_bytes() }
    #[verifier::external_body] fn v_is_char_boundary(&self, i: usize) -> bool { self.is_char_boundary(i) }
    #[verifier::external_body] fn v_to_owned(&self) -> String { self.to_owned() }
    #[verifier::external_body] fn v_as_ref<'a>(&'a self) -> &'a str { self.as_ref() }
    #[verifier::external_body] fn v_to_string(&self) -> String { self.to_string() }
    #[verifier::external_body] fn v_starts_with_fn<F: FnMut(char) -> bool>(&self, f: F) -> bool { self.starts_with(f) }
    #[verifier::external_body] fn v_find(&self, c: char) -> Option<usize> { self.find(c) }
}

pub trait VSlice<T> {
    spec fn lv(&self) -> Seq<T>;
    fn v_len(&self) -> (r: usize) ensures r == self.lv().len(), r <= isize::MAX as usize;
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.lv().len() == 0);
    fn v_first<'a>(&'a self) -> (r: Option<&'a T>) ensures match r { Some(x) => self.lv().len() > 0 && *x == self.lv()[0], None => self.lv().len() == 0 };
    fn v_last<'a>(&'a self) -> (r: Option<&'a T>) ensures match r { Some(x) => self.lv().len() > 0 && *x == self.lv()[self.lv().len() - 1], None => self.lv().len() == 0 };
    fn v_get<'a>(&'a self, i: usize) -> (r: Option<&'a T>) ensures match r { Some(x) => i < self.lv().len() && *x == self.lv()[i as int], None => i >= self.lv().len() };
    fn v_iter<'a>(&'a self) -> (r: VSIter<'a, T>) ensures r.rest() == self.lv(), r.rest().len() <= isize::MAX as usize;
    fn v_split_at<'a>(&'a self, mid: usize) -> (r: (&'a [T], &'a [T]))
        requires mid <= self.lv().len(),
        ensures r.0@ == self.lv().take(mid as int), r.1@ == self.lv().skip(mid as int);
    fn v_slice_from<'a>(&'a self, i: usize) -> (r: &'a [T]) requires i <= self.lv().len() ensures r@ == self.lv().skip(i as int);
    fn v_slice_to<'a>(&'a self, i: usize) -> (r: &'a [T]) requires i <= self.lv().len() ensures r@ == self.lv().take(i as int);
    fn v_into_iter<'a>(&'a self) -> (r: VSIter<'a, T>) ensures r.rest() == self.lv(), r.rest().len() <= isize::MAX as usize;
}
/// slice::Iter, on its own and numbered
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VSIter<'a, T> { it: core::slice::Iter<'a, T> }
impl<'a, T> VSIter<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures match r {
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_as_slice(&self) -> (r: &'a [T]) ensures r@ == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_enumerate(self) -> (r: VSEnum<'a, T>) ensures r.rest() == self.rest(), r.at() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn v_into_iter(self) -> (r: VSIter<'a, T>) ensures r == self { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VSEnum<'a, T> { it: core::slice::Iter<'a, T> }
impl<'a, T> VSEnum<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        ensures match r {
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() && final(self).at() == old(self).at(),
            Some(x) => old(self).rest().len() > 0 && x.0 == old(self).at() && *x.1 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) && final(self).at() == old(self).at() + 1,
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_into_iter(self) -> (r: VSEnum<'a, T>) ensures r == self { unimplemented!() }
}
impl<T> VSlice<T> for [T] {
    open spec fn lv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_len(&self) -> usize { self.len() }
    #[verifier::external_body] fn v_is_empty(&self) -> bool { self.is_empty() }
    #[verifier::external_body] fn v_first<'a>(&'a self) -> Option<&'a T> { self.first() }
    #[verifier::external_body] fn v_last<'a>(&'a self) -> Option<&'a T> { self.last() }
    #[verifier::external_body] fn v_get<'a>(&'a self, i: usize) -> Option<&'a T> { self.get(i) }
    #[verifier::external_body] fn v_iter<'a>(&'a self) -> VSIter<'a, T> { VSIter { it: self.iter() } }
    #[verifier::external_body] fn v_split_at<'a>(&'a self, mid: usize) -> (&'a [T], &'a [T]) { self.split_at(mid) }
    #[verifier::external_body] fn v_slice_from<'a>(&'a self, i: usize) -> &'a [T] { &self[i..] }
    #[verifier::external_body] fn v_slice_to<'a>(&'a self, i: usize) -> &'a [T] { &self[..i] }
    #[verifier::external_body] fn v_into_iter<'a>(&'a self) -> VSIter<'a, T> { VSIter { it: self.iter() } }
}
impl<T> VSlice<T> for Vec<T> {
    open spec fn lv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_len(&self) -> usize { self.len() }
    #[verifier::external_body] fn v_is_empty(&self) -> bool { self.is_empty() }
    #[verifier::external_body] fn v_first<'a>(&'a self) -> Option<&'a T> { self.first() }
    #[verifier::external_body] fn v_last<'a>(&'a self) -> Option<&'a T> { self.last() }
    #[verifier::external_body] fn v_get<'a>(&'a self, i: usize) -> Option<&'a T> { self.get(i) }
    #[verifier::external_body] fn v_iter<'a>(&'a self) -> VSIter<'a, T> { VSIter { it: self.iter() } }
    #[verifier::external_body] fn v_split_at<'a>(&'a self, mid: usize) -> (&'a [T], &'a [T]) { self.split_at(mid) }
    #[verifier::external_body] fn v_slice_from<'a>(&'a self, i: usize) -> &'a [T] { &self[i..] }
    #[verifier::external_body] fn v_slice_to<'a>(&'a self, i: usize) -> &'a [T] { &self[..i] }
    #[verifier::external_body] fn v_into_iter<'a>(&'a self) -> VSIter<'a, T> { unimplemented!() }
}

/// the character classes of std the crate does not use itself
pub uninterp spec fn uni_alpha(c: char) -> bool;
pub uninterp spec fn uni_num(c: char) -> bool;
pub uninterp spec fn uni_lower(c: char) -> bool;
pub uninterp spec fn uni_upper(c: char) -> bool;
pub trait VChr {
    spec fn cv(&self) -> char;
    fn v_len_utf8(&self) -> (r: usize) ensures r == cw(self.cv());
    fn v_is_whitespace(&self) -> (r: bool) ensures r == uni_ws(self.cv());
    fn v_is_ascii_digit(&self) -> (r: bool) ensures r == ('0' <= self.cv() && self.cv() <= '9');
    fn v_is_ascii(&self) -> (r: bool) ensures r == (cp(self.cv()) < 0x80);
    fn v_is_ascii_hexdigit(&self) -> (r: bool) ensures r == (is_hex(self.cv()));
    fn v_is_ascii_whitespace(&self) -> (r: bool) ensures r == (self.cv() == ' ' || self.cv() == '\t' || self.cv() == '\n' || self.cv() == '\r' || cp(self.cv()) == 12);
    fn v_is_ascii_alphabetic(&self) -> (r: bool) ensures r == (('a' <= self.cv() && self.cv() <= 'z') || ('A' <= self.cv() && self.cv() <= 'Z'));
    fn v_is_ascii_lowercase(&self) -> (r: bool) ensures r == ('a' <= self.cv() && self.cv() <= 'z');
    fn v_is_ascii_uppercase(&self) -> (r: bool) ensures r == ('A' <= self.cv() && self.cv() <= 'Z');
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (('a' <= self.cv() && self.cv() <= 'z') || ('A' <= self.cv() && self.cv() <= 'Z') || ('0' <= self.cv() && self.cv() <= '9'));
    fn v_is_ascii_control(&self) -> (r: bool) ensures r == (cp(self.cv()) < 32 || cp(self.cv()) == 127);
    fn v_is_ascii_graphic(&self) -> (r: bool) ensures r == (32 < cp(self.cv()) && cp(self.cv()) < 127);
    fn v_is_alphabetic(&self) -> (r: bool) ensures r == uni_alpha(self.cv()), cp(self.cv()) < 0x80 ==> r == (('a' <= self.cv() && self.cv() <= 'z') || ('A' <= self.cv() && self.cv() <= 'Z'));
    fn v_is_numeric(&self) -> (r: bool) ensures r == uni_num(self.cv()), cp(self.cv()) < 0x80 ==> r == ('0' <= self.cv() && self.cv() <= '9');
    fn v_is_alphanumeric(&self) -> (r: bool) ensures r == (uni_alpha(self.cv()) || uni_num(self.cv())), cp(self.cv()) < 0x80 ==> r == ((('a' <= self.cv() && self.cv() <= 'z') || ('A' <= self.cv() && self.cv() <= 'Z')) || ('0' <= self.cv() && self.cv() <= '9'));
    fn v_is_lowercase(&self) -> (r: bool) ensures r == uni_lower(self.cv()), cp(self.cv()) < 0x80 ==> r == ('a' <= self.cv() && self.cv() <= 'z');
    fn v_is_uppercase(&self) -> (r: bool) ensures r == uni_upper(self.cv()), cp(self.cv()) < 0x80 ==> r == ('A' <= self.cv() && self.cv() <= 'Z');
    fn v_is_control(&self) -> (r: bool) ensures r == (cp(self.cv()) < 32 || (127 <= cp(self.cv()) && cp(self.cv()) < 160));
    fn v_is_ascii_punctuation(&self) -> (r: bool) ensures r == (32 < cp(self.cv()) && cp(self.cv()) < 127 && !(('a' <= self.cv() && self.cv() <= 'z') || ('A' <= self.cv() && self.cv() <= 'Z')) && !('0' <= self.cv() && self.cv() <= '9'));
    fn v_escape_debug(&self) -> (r: VEsc) ensures r.chars() == esc_debug(self.cv());
}
impl VChr for char {
    open spec fn cv(&self) -> char { *self }
    #[verifier::external_body] fn v_len_utf8(&self) -> usize { self.len_utf8() }
    #[verifier::external_body] fn v_is_whitespace(&self) -> bool { self.is_whitespace() }
    #[verifier::external_body] fn v_is_ascii_digit(&self) -> bool { self.is_ascii_digit() }
    #[verifier::external_body] fn v_is_ascii(&self) -> bool { self.is_ascii() }
    #[verifier::external_body] fn v_is_ascii_hexdigit(&self) -> bool { self.is_ascii_hexdigit() }
    #[verifier::external_body] fn v_is_ascii_whitespace(&self) -> bool { self.is_ascii_whitespace() }
    #[verifier::external_body] fn v_is_ascii_alphabetic(&self) -> bool { self.is_ascii_alphabetic() }
    #[verifier::external_body] fn v_is_ascii_lowercase(&self) -> bool { self.is_ascii_lowercase() }
    #[verifier::external_body] fn v_is_ascii_uppercase(&self) -> bool { self.is_ascii_uppercase() }
    #[verifier::external_body] fn v_is_ascii_alphanumeric(&self) -> bool { self.is_ascii_alphanumeric() }
    #[verifier::external_body] fn v_is_ascii_control(&self) -> bool { self.is_ascii_control() }
    #[verifier::external_body] fn v_is_ascii_graphic(&self) -> bool { self.is_ascii_graphic() }
    #[verifier::external_body] fn v_is_alphabetic(&self) -> bool { self.is_alphabetic() }
    #[verifier::external_body] fn v_is_numeric(&self) -> bool { self.is_numeric() }
    #[verifier::external_body] fn v_is_alphanumeric(&self) -> bool { self.is_alphanumeric() }
    #[verifier::external_body] fn v_is_lowercase(&self) -> bool { self.is_lowercase() }
    #[verifier::external_body] fn v_is_uppercase(&self) -> bool { self.is_uppercase() }
    #[verifier::external_body] fn v_is_control(&self) -> bool { self.is_control() }
    #[verifier::external_body] fn v_is_ascii_punctuation(&self) -> bool { self.is_ascii_punctuation() }
    #[verifier::external_body] fn v_escape_debug(&self) -> VEsc { VEsc { it: self.escape_debug() } }
}
pub trait VU8 {
    spec fn bv(&self) -> u8;
    fn v_is_ascii(&self) -> (r: bool) ensures r == (self.bv() < 0x80);
    fn v_is_ascii_digit(&self) -> (r: bool) ensures r == (48 <= self.bv() <= 57);
    fn v_is_ascii_hexdigit(&self) -> (r: bool) ensures r == (48 <= self.bv() <= 57 || 97 <= self.bv() <= 102 || 65 <= self.bv() <= 70);
    fn v_is_ascii_whitespace(&self) -> (r: bool) ensures r == (self.bv() == 32 || self.bv() == 9 || self.bv() == 10 || self.bv() == 13 || self.bv() == 12);
    fn v_is_ascii_alphabetic(&self) -> (r: bool) ensures r == (97 <= self.bv() <= 122 || 65 <= self.bv() <= 90);
    fn v_is_ascii_lowercase(&self) -> (r: bool) ensures r == (97 <= self.bv() <= 122);
    fn v_is_ascii_uppercase(&self) -> (r: bool) ensures r == (65 <= self.bv() <= 90);
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (48 <= self.bv() <= 57 || 97 <= self.bv() <= 122 || 65 <= self.bv() <= 90);
    fn v_is_ascii_control(&self) -> (r: bool) ensures r == (self.bv() < 32 || self.bv() == 127);
    fn v_is_ascii_graphic(&self) -> (r: bool) ensures r == (32 < self.bv() < 127);
    fn v_is_ascii_punctuation(&self) -> (r: bool) ensures r == (32 < self.bv() < 127 && !(48 <= self.bv() <= 57 || 97 <= self.bv() <= 122 || 65 <= self.bv() <= 90));
}
impl VU8 for u8 {
    open spec fn bv(&self) -> u8 { *self }
    #[verifier::external_body] fn v_is_ascii(&self) -> bool { self.is_ascii() }
    #[verifier::external_body] fn v_is_ascii_digit(&self) -> bool { self.is_ascii_digit() }
    #[verifier::external_body] fn v_is_ascii_hexdigit(&self) -> bool { self.is_ascii_hexdigit() }
    #[verifier::external_body] fn v_is_ascii_whitespace(&self) -> bool { self.is_ascii_whitespace() }
    #[verifier::external_body] fn v_is_ascii_alphabetic(&self) -> bool { self.is_ascii_alphabetic() }
    #[verifier::external_body] fn v_is_ascii_lowercase(&self) -> bool { self.is_ascii_lowercase() }
    #[verifier::external_body] fn v_is_ascii_uppercase(&self) -> bool { self.is_ascii_uppercase() }
    #[verifier::external_body] fn v_is_ascii_alphanumeric(&self) -> bool { self.is_ascii_alphanumeric() }
    #[verifier::external_body] fn v_is_ascii_control(&self) -> bool { self.is_ascii_control() }
    #[verifier::external_body] fn v_is_ascii_graphic(&self) -> bool { self.is_ascii_graphic() }
    #[verifier::external_body] fn v_is_ascii_punctuation(&self) -> bool { self.is_ascii_punctuation() }
}

#[verifier::external_body]
pub fn v_char_from_u32(v: u32) -> (r: Option<char>)
    ensures match r { Some(c) => is_scalar(v as int) && cp(c) == v, None => !is_scalar(v as int) },
{ char::from_u32(v) }
#[verifier::external_body]
pub fn v_u32_from(v: u8) -> (r: u32) ensures r == v { u32::from(v) }

#[verifier::external_body]
pub fn v_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn v_box_str(s: &str) -> (r: Box<str>) ensures r@ == s@ { Box::from(s) }

} // verus!
verus! {
pub trait VClone: Sized {
    fn v_clone(&self) -> (r: Self) ensures r == *self;
}
impl VClone for Box<str> { #[verifier::external_body] fn v_clone(&self) -> Box<str> { self.clone() } }
impl VClone for String { #[verifier::external_body] fn v_clone(&self) -> String { self.clone() } }
impl VClone for bool { fn v_clone(&self) -> bool { *self } }
impl VClone for char { fn v_clone(&self) -> char { *self } }
impl VClone for u32 { fn v_clone(&self) -> u32 { *self } }

#[verifier::external_body]
pub fn v_identity<T>(x: T) -> (r: T) ensures r == x { x }
#[verifier::external_body]
pub fn v_rc_make_mut<'a, T>(r: &'a mut Rc<Vec<T>>) -> (o: &'a mut Vec<T>)
    ensures o@ == old(r)@, final(r)@ == final(o)@,
{ unimplemented!() }
#[verifier::external_body]
pub fn v_rc_get_mut<'a, T>(r: &'a mut Rc<Vec<T>>) -> (o: Option<&'a mut Vec<T>>)
    ensures match o { Some(m) => m@ == old(r)@ && final(r)@ == final(m)@, None => final(r)@ == old(r)@ && held(final(r)@) },
{ unimplemented!() }
/// someone else holds the storage with this content, so that letting go of it
/// here ends nothing (established by get_mut only)
pub uninterp spec fn held<T>(v: Seq<T>) -> bool;
/// what ends when it goes out of scope
pub trait Ends: Sized { spec fn light(self) -> bool; }
impl Ends for () { open spec fn light(self) -> bool { true } }
impl Ends for bool { open spec fn light(self) -> bool { true } }
impl Ends for usize { open spec fn light(self) -> bool { true } }
impl<T> Ends for &T { open spec fn light(self) -> bool { true } }
impl<T> Ends for &mut T { open spec fn light(self) -> bool { true } }
impl<T: Ends> Ends for Option<T> { open spec fn light(self) -> bool { match self { Some(x) => x.light(), None => true } } }
impl<T: Ends> Ends for Vec<T> { open spec fn light(self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).light() } }
pub fn v_end<T: Ends>(x: T) requires x.light() {}
#[verifier::external_body]
pub fn v_rc_clone<T>(r: &Rc<T>) -> (o: Rc<T>) ensures o == *r { r.clone() }
/// Vec::clone of elements whose clone is equal to them
#[verifier::external_body]
pub fn v_vec_clone<T>(r: &Vec<T>) -> (o: Vec<T>) ensures o@ == r@ { unimplemented!() }
#[verifier::external_body]
pub fn v_take<T>(r: &mut Vec<T>) -> (o: Vec<T>) ensures o@ == old(r)@, final(r)@.len() == 0 { core::mem::take(r) }
#[verifier::external_body]
pub fn v_vec_with_capacity<T>(n: usize) -> (o: Vec<T>) ensures o@.len() == 0 { Vec::with_capacity(n) }
#[verifier::external_body]
pub fn v_string_with_capacity(n: usize) -> (o: String) ensures o@ == Seq::<char>::empty() { String::with_capacity(n) }

/// Anything that can be iterated over: the items it will yield. Iterating has
/// no effect but yielding them (assumed of iterators passed in by a caller).
pub trait VIter<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn v_into_iter(self) -> (r: VIt<T>) ensures r.rest() == self.items();
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VIt<T> { it: Vec<T> }
/// of a vec::IntoIter: clones what is left, item by item
impl<T> VClone for VIt<T> { #[verifier::external_body] fn v_clone(&self) -> VIt<T> { unimplemented!() } }
impl<T> VIt<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
        },
    { unimplemented!() }
}
impl<T> VIter<T> for VIt<T> {
    open spec fn items(&self) -> Seq<T> { self.rest() }
    #[verifier::external_body]
    fn v_into_iter(self) -> VIt<T> { self }
}

pub open spec fn flat<T, S: VIter<T>>(s: Seq<S>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::<T>::empty() } else { s[0].items() + flat::<T, S>(s.skip(1)) }
}
pub broadcast proof fn lemma_flat_unfold<T, S: VIter<T>>(s: Seq<S>)
    requires s.len() > 0,
    ensures #[trigger] flat::<T, S>(s) == s[0].items() + flat::<T, S>(s.skip(1)),
{}
impl<T> VIt<T> {
    #[verifier::external_body]
    pub fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIt<U>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> f.requires((#[trigger] self.rest()[i],)),
        ensures r.rest().len() == self.rest().len(), forall|i: int| 0 <= i < self.rest().len() ==> f.ensures((self.rest()[i],), #[trigger] r.rest()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_flatten<U>(self) -> (r: VIt<U>) where T: VIter<U>
        ensures r.rest() == flat::<U, T>(self.rest()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures r.0 == self.rest().len(), r.1 == Some(r.0),
    { unimplemented!() }
}
impl<T> VIter<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> VIt<T> { unimplemented!() }
}
/// ManuallyDrop::new and ptr::read: together a move out of a value whose
/// destructor does not run.
#[verifier::external_body]
pub fn v_nodrop<T>(x: T) -> (r: T) ensures r == x { x }
#[verifier::external_body]
pub fn v_ptr_read<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub trait VVec<T> {
    spec fn vv(&self) -> Seq<T>;
    fn v_extend<I: VIter<T>>(&mut self, it: I) ensures final(self).vv() == old(self).vv() + it.items();
}
impl<T> VVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_extend<I: VIter<T>>(&mut self, it: I) { unimplemented!() }
}
/// char::escape_debug
#[verifier::external_body]
pub struct VEsc { it: core::char::EscapeDebug }
impl VEsc { pub uninterp spec fn chars(&self) -> Seq<char>; }
pub trait VString {
    spec fn tv(&self) -> Seq<char>;
    fn v_push_str(&mut self, s: &str) ensures final(self).tv() == old(self).tv() + s@;
    fn v_extend(&mut self, e: VEsc) ensures final(self).tv() == old(self).tv() + e.chars();
    fn v_remove(&mut self, i: usize) -> (r: char)
        requires bdry(old(self).tv(), i as int), (i as int) < blen(old(self).tv()),
        ensures r == rest_at(old(self).tv(), i as int)[0], final(self).tv() == take_b(old(self).tv(), i as int) + rest_at(old(self).tv(), i as int).skip(1);
    fn v_insert(&mut self, i: usize, c: char)
        requires bdry(old(self).tv(), i as int),
        ensures final(self).tv() == take_b(old(self).tv(), i as int).push(c) + rest_at(old(self).tv(), i as int);
}
impl VString for String {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_push_str(&mut self, s: &str) { self.push_str(s) }
    #[verifier::external_body] fn v_extend(&mut self, e: VEsc) { self.extend(e.it) }
    #[verifier::external_body] fn v_remove(&mut self, i: usize) -> char { self.remove(i) }
    #[verifier::external_body] fn v_insert(&mut self, i: usize, c: char) { self.insert(i, c) }
}
/// `==` and `cmp` where the verifier has no view of std's
pub trait VEq { spec fn same(&self, o: &Self) -> bool; fn v_eq(&self, o: &Self) -> (r: bool) ensures r == self.same(o); }
impl VEq for Box<str> { open spec fn same(&self, o: &Self) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &Self) -> bool { self == o } }
impl VEq for String { open spec fn same(&self, o: &Self) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &Self) -> bool { self == o } }
impl VEq for bool { open spec fn same(&self, o: &Self) -> bool { *self == *o } fn v_eq(&self, o: &Self) -> bool { *self == *o } }
impl VEq for u32 { open spec fn same(&self, o: &Self) -> bool { *self == *o } fn v_eq(&self, o: &Self) -> bool { *self == *o } }
impl VEq for char { open spec fn same(&self, o: &Self) -> bool { *self == *o } fn v_eq(&self, o: &Self) -> bool { *self == *o } }
/// lexicographic order of the characters (which is the order of the UTF-8 bytes)
pub open spec fn text_cmp(a: Seq<char>, b: Seq<char>) -> core::cmp::Ordering
    decreases a.len(),
{
    if a.len() == 0 && b.len() == 0 { core::cmp::Ordering::Equal }
    else if a.len() == 0 { core::cmp::Ordering::Less }
    else if b.len() == 0 { core::cmp::Ordering::Greater }
    else if cp(a[0]) < cp(b[0]) { core::cmp::Ordering::Less }
    else if cp(a[0]) > cp(b[0]) { core::cmp::Ordering::Greater }
    else { text_cmp(a.skip(1), b.skip(1)) }
}
pub trait VCmp { spec fn ord(&self, o: &Self) -> core::cmp::Ordering; fn v_cmp(&self, o: &Self) -> (r: core::cmp::Ordering) ensures r == self.ord(o); }
impl VCmp for String { open spec fn ord(&self, o: &Self) -> core::cmp::Ordering { text_cmp(self@, o@) } #[verifier::external_body] fn v_cmp(&self, o: &Self) -> core::cmp::Ordering { self.cmp(o) } }
impl VCmp for Box<str> { open spec fn ord(&self, o: &Self) -> core::cmp::Ordering { text_cmp(self@, o@) } #[verifier::external_body] fn v_cmp(&self, o: &Self) -> core::cmp::Ordering { self.cmp(o) } }
/// a Hasher: what it has been fed
#[verifier::external_body]
pub struct VHasher { x: u8 }
impl VHasher { pub uninterp spec fn fed(&self) -> Seq<Seq<char>>; }
pub trait VHash { spec fn feeds(&self) -> Seq<char>; fn v_hash(&self, h: &mut VHasher) ensures final(h).fed() == old(h).fed().push(self.feeds()); }
impl VHash for String { open spec fn feeds(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_hash(&self, h: &mut VHasher) { unimplemented!() } }
impl VHash for Box<str> { open spec fn feeds(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_hash(&self, h: &mut VHasher) { unimplemented!() } }
pub mod unicode_ident {
    use super::*;
    #[verifier::external_body]
    pub fn is_xid_start(c: char) -> (r: bool) ensures r == xid_start(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_xid_continue(c: char) -> (r: bool) ensures r == xid_continue(c) { unimplemented!() }
}
} // verus!
verus! {
/// crate::marker: only there to turn off auto traits.
pub mod marker {
    #[derive(Copy, Clone)]
    pub struct ProcMacroAutoTraits {}
    pub const MARKER: ProcMacroAutoTraits = ProcMacroAutoTraits {};
    impl ProcMacroAutoTraits { pub fn v_clone(&self) -> (r: Self) ensures r == *self { *self } }
}
pub use marker::*;
} // verus!
