#only A B
#mod num
use super::*;
#type num::NonZeroChar derive=Clone,Copy
#fn num::NonZeroChar::new
#ret o
#spec
    ensures match o { Some(c) => $0 != '\0' && c.0 == $0, None => $0 == '\0' },
#fn num::NonZeroChar::get
#ret o
#spec
    ensures o == $0.0,
#mod rustc_literal_escaper
use super::*;
use crate::num::NonZeroChar;
use crate::parse::pow16;
use core::ops::Range;
broadcast use {vx_text};
#type rustc_literal_escaper::EscapeError
#type rustc_literal_escaper::MixedUnit derive=Clone,Copy
#raw rustc_literal_escaper outcome
pub trait VUnit { spec fn units(&self) -> Seq<int>; }
impl VUnit for char { open spec fn units(&self) -> Seq<int> { seq![cp(*self)] } }
impl VUnit for u8 { open spec fn units(&self) -> Seq<int> { seq![*self as int] } }
impl VUnit for MixedUnit { open spec fn units(&self) -> Seq<int> { match *self { MixedUnit::Char(c) => utf8(cp(c.0)), MixedUnit::HighByte(b) => seq![b.v() as int] } } }
pub open spec fn fatal(e: EscapeError) -> bool { e != EscapeError::UnskippedWhitespaceWarning && e != EscapeError::MultipleSkippedLinesWarning }
pub type Entry<U> = (Range<usize>, Result<U, EscapeError>);
/// what a log of results amounts to: the value, or None if it holds a fatal error
pub open spec fn outcome<U: VUnit>(log: Seq<Entry<U>>) -> Option<Seq<int>>
    decreases log.len(),
{
    if log.len() == 0 { Some(Seq::<int>::empty()) }
    else {
        match outcome(log.drop_last()) {
            None => None,
            Some(v) => match log.last().1 {
                Ok(u) => Some(v + u.units()),
                Err(e) => if fatal(e) { None } else { Some(v) },
            },
        }
    }
}
/// the results so far, followed by what is still to be read
pub open spec fn then(a: Option<Seq<int>>, b: Option<Seq<int>>) -> Option<Seq<int>> {
    match a { None => None, Some(v) => match b { None => None, Some(w) => Some(v + w) } }
}
pub proof fn lemma_then_start(b: Option<Seq<int>>)
    ensures then(Some(Seq::<int>::empty()), b) == b,
{ match b { Some(w) => { assert(Seq::<int>::empty() + w =~= w); } None => {} } }
pub proof fn lemma_then_assoc<U: VUnit>(c: Seq<Entry<U>>, x: Entry<U>, b: Option<Seq<int>>)
    ensures then(outcome(c.push(x)), b) == then(outcome(c), match x.1 { Ok(u) => then(Some(u.units()), b), Err(e) => if fatal(e) { None } else { b } }),
{
    assert(c.push(x).drop_last() =~= c);
    match (outcome(c), x.1, b) { (Some(v), Ok(u), Some(w)) => { assert((v + u.units()) + w =~= v + (u.units() + w)); } _ => {} }
}
pub proof fn lemma_skip_blank(s: Seq<char>)
    ensures skip_blank(s).len() <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_skip_blank(s.skip(1)); } }
pub open spec fn plain_ok(c: char, mode: int) -> bool { !(mode == 1 && cp(c) >= 0x80) && !(mode == 2 && c == '\0') }
pub open spec fn byte_ok(b: u8, mode: int) -> bool { !(mode == 0 && b >= 0x80) && !(mode == 2 && b == 0) }
pub proof fn lemma_x(t: Seq<char>, mode: int)
    ensures x_ok(t, mode) == (x_ok(t, 1) && !(mode == 0 && hexv(t[0]) * 16 + hexv(t[1]) >= 0x80) && !(mode == 2 && hexv(t[0]) * 16 + hexv(t[1]) == 0)),
        x_ok(t, 1) ==> 0 <= hexv(t[0]) * 16 + hexv(t[1]) < 256,
{}
/// `\u` escape: the value is only checked to be a scalar by the caller
pub open spec fn u_meant(t: Seq<char>, r: Result<u32, EscapeError>, rest: Seq<char>) -> bool {
    match r {
        Ok(v) => if is_scalar(v as int) { u_esc(t) == Some((rest, v as int)) } else { u_esc(t).is_none() },
        Err(e) => u_esc(t).is_none() && fatal(e),
    }
}
pub open spec fn blank(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 13 }
/// the first `i` bytes are blanks and the next one, if any, is not
pub open spec fn blank_run(bs: Seq<u8>, i: int) -> bool {
    0 <= i <= bs.len() && (forall|j: int| 0 <= j < i ==> blank(#[trigger] bs[j])) && (i < bs.len() ==> !blank(bs[i]))
}
pub proof fn lemma_blank_to(bs: Seq<u8>, s: Seq<char>, i: int)
    requires utf8_of(bs, s), 0 <= i <= bs.len(), forall|j: int| 0 <= j < i ==> blank(#[trigger] bs[j]),
    ensures at(s, rest_at(s, i), i), skip_blank(s) == skip_blank(rest_at(s, i)), sfx(s, rest_at(s, i)),
    decreases i,
{
    if i == 0 { lemma_at_start(s); }
    else {
        lemma_blank_to(bs, s, i - 1);
        assert(byte_at(bs[i - 1], s, i - 1));
    }
}
pub proof fn lemma_utf8_len(bs: Seq<u8>, s: Seq<char>)
    ensures utf8_of(bs, s) ==> bs.len() == blen(s),
{}
pub proof fn lemma_blank_run(bs: Seq<u8>, s: Seq<char>, i: int)
    requires utf8_of(bs, s), blank_run(bs, i),
    ensures at(s, rest_at(s, i), i), skip_blank(s) == rest_at(s, i), sfx(s, rest_at(s, i)),
{
    lemma_blank_to(bs, s, i);
    if i < bs.len() { assert(byte_at(bs[i], s, i)); }
}
#fn rustc_literal_escaper::EscapeError::is_fatal
#ret o
#spec
    ensures o == fatal(*$0),
#fn rustc_literal_escaper::<MixedUnit as From<NonZeroU8>>::from name=from_nz
#ret o
#spec
    ensures o.units() == seq![$0.v() as int],
#fn rustc_literal_escaper::<MixedUnit as TryFrom<char>>::try_from name=try_from_char
#ret o
#spec
    ensures match o { Ok(u) => $0 != '\0' && u.units() == utf8(cp($0)), Err(e) => $0 == '\0' && fatal(e) },
#fn rustc_literal_escaper::<MixedUnit as TryFrom<u8>>::try_from name=try_from_byte call=From::from=MixedUnit::from_nz
#ret o
#spec
    ensures match o { Ok(u) => $0 != 0 && u.units() == seq![$0 as int], Err(e) => $0 == 0 && fatal(e) },
#fn rustc_literal_escaper::char2byte
#ret o
#spec
    ensures match o { Ok(u) => cp($0) < 0x80 && u == cp($0), Err(e) => cp($0) >= 0x80 && fatal(e) },
#fn rustc_literal_escaper::simple_escape
#ret o
#spec
    ensures match o { Ok(b) => simple_esc($0) && b.v() == simple_val($0) && b.v() < 0x80, Err(e) => !simple_esc($0) && e == $0 },
#fn rustc_literal_escaper::hex_escape impl=VChars
#ret o
#spec
    ensures sfx(old($0).rest(), final($0).rest()),
        match o { Ok(b) => x_ok(old($0).rest(), 1) && b == hexv(old($0).rest()[0]) * 16 + hexv(old($0).rest()[1]) && final($0).rest() == old($0).rest().skip(2),
            Err(e) => !x_ok(old($0).rest(), 1) && fatal(e) },
#fn rustc_literal_escaper::unicode_escape impl=VChars i32=n_digits
#ret o
#spec
    requires old($0).rest().len() < 0x7fff_fff0,
    ensures sfx(old($0).rest(), final($0).rest()),
        u_meant(old($0).rest(), o, final($0).rest()),
#entry
    let ghost t0 = $0.rest();
#loop 0
    invariant sfx(t0, $0.rest()), 1 <= n_digits, n_digits + $0.rest().len() <= t0.len(), t0.len() < 0x7fff_fff0, p1(t0, '{'),
        n_digits <= 6 ==> 0 <= value < pow16(n_digits as int) && u_body($0.rest(), value as int, n_digits as int) == u_body(t0.skip(1), 0, 0),
        n_digits > 6 ==> u_body(t0.skip(1), 0, 0).is_none(),
    decreases $0.rest().len(),
#fn rustc_literal_escaper::skip_ascii_whitespace log=callback
#spec
    requires $1 + 2 + blen(old($0).rest()) <= isize::MAX, old($2)@.len() == 0,
    ensures final($0).rest() == skip_blank(old($0).rest()), sfx(old($0).rest(), final($0).rest()),
        forall|i: int| 0 <= i < final($2)@.len() ==> !fatal(#[trigger] final($2)@[i].1),
#entry
    hide(utf8_of); hide(byte_at);
    proof {
        let s = $0.rest();
        lemma_utf8_len(u8s(s), s);
        let bs = u8s(s);
        assert forall|i: int| #![trigger bdry(s, i)] #![trigger take_b(s, i)] utf8_of(bs, s) && blank_run(bs, i) implies bdry(s, i) && skip_blank(s) == rest_at(s, i) && sfx(s, rest_at(s, i)) by { lemma_blank_run(bs, s, i); }
    }
#closure 0 |b: u8| -> (q: bool)
    ensures q == !blank($a$),
#fn rustc_literal_escaper::<str as Unescape>::nonzero_byte2unit inst=str:s call=.into=v_byte_char
#ret o
#spec
    requires $0.v() < 0x80,
    ensures o.units() == seq![$0.v() as int],
#fn rustc_literal_escaper::<str as Unescape>::char2unit inst=str:s 
#ret o
#spec
    ensures match o { Ok(u) => plain_ok($0, 0) && u.units() == unit(cp($0), 0), Err(e) => !plain_ok($0, 0) && fatal(e) },
#fn rustc_literal_escaper::<str as Unescape>::hex2unit inst=str:s 
#ret o
#spec
    ensures match o { Ok(u) => byte_ok($0, 0) && u.units() == seq![$0 as int], Err(e) => !byte_ok($0, 0) && fatal(e) },
#fn rustc_literal_escaper::<str as Unescape>::unicode2unit inst=str:s
#ret o
#spec
    requires match $0 { Ok(_) => true, Err(e) => fatal(e) },
    ensures match o { Ok(u) => 0 != 1 && (match $0 { Ok(c) => !(0 == 2 && c == '\0') && u.units() == unit(cp(c), 0), Err(_) => false }),
        Err(e) => fatal(e) && (match $0 { Ok(c) => 0 == 1 || 0 == 2 && c == '\0', Err(_) => true }) },
#fn rustc_literal_escaper::Unescape::unescape_1 inst=str:s variant=s result question
#ret o
#spec
    requires old($0).rest().len() < 0x7fff_fff0,
    ensures sfx(old($0).rest(), final($0).rest()),
        match o { Ok(u) => esc_val(old($0).rest(), 0) == Some((final($0).rest(), u.units())), Err(e) => esc_val(old($0).rest(), 0).is_none() && fatal(e) },
#entry
    proof { assert forall|c: char| is_scalar(#[trigger] cp(c)) by { char_is_scalar(c); } let t0 = $0.rest(); if t0.len() > 0 { assert(sfx(t0, t0.skip(1))); } if t0.len() > 2 { assert(t0.skip(1).skip(2) =~= t0.skip(3)); assert(t0.skip(1)[0] == t0[1] && t0.skip(1)[1] == t0[2]); lemma_x(t0.skip(1), 0); } }
#fn rustc_literal_escaper::Unescape::unescape inst=str:s variant=s log=callback
#spec
    requires old($1)@.len() == 0, $0@.len() < 0x7fff_fff0,
    ensures outcome(final($1)@) == cooked_val($0@, 0),
#entry
    let ghost s0 = $0@;
#loop 0 before
    proof { assert(outcome($1@) == Some(Seq::<int>::empty())); lemma_then_start(cooked_val(s0, 0)); }
#loop 0 top
    let ghost r0 = chars.rest();
    let ghost c0 = $1@;
    proof { if r0.len() > 0 { assert(sfx(s0, r0.skip(1))); } if r0.len() > 1 { assert(sfx(s0, r0.skip(2))); lemma_skip_blank(r0.skip(2)); } }
#loop 0 bottom
    proof { assert($1@.drop_last() =~= c0); lemma_then_assoc(c0, $1@.last(), cooked_val(chars.rest(), 0)); }
#loop 0
    invariant s0 == $0@, sfx(s0, chars.rest()), s0.len() < 0x7fff_fff0,
        cooked_val(s0, 0) == then(outcome($1@), cooked_val(chars.rest(), 0)),
    ensures chars.rest().len() == 0,
    decreases chars.rest().len(),
#loop 1 before
    let ghost c1 = $1@;
    let ghost l1 = vx_log1@;
#loop 1
    invariant $it.rest().len() <= l1.len(), $it.rest() == l1.skip(l1.len() - $it.rest().len()), outcome($1@) == outcome(c1),
        forall|i: int| 0 <= i < l1.len() ==> !fatal(#[trigger] l1[i].1),
    ensures $it.rest().len() == 0,
    decreases $it.rest().len(),
#loop 1 top
    let ghost q0 = $1@;
#loop 1 bottom
    proof { assert($1@.drop_last() =~= q0); }
#fn rustc_literal_escaper::unescape_str log=callback
#spec
    requires old($1)@.len() == 0, $0@.len() < 0x7fff_fff0,
    ensures outcome(final($1)@) == cooked_val($0@, 0),
#fn rustc_literal_escaper::unescape_byte_str log=callback
#spec
    requires old($1)@.len() == 0, $0@.len() < 0x7fff_fff0,
    ensures outcome(final($1)@) == cooked_val($0@, 1),
#fn rustc_literal_escaper::unescape_c_str log=callback
#spec
    requires old($1)@.len() == 0, $0@.len() < 0x7fff_fff0,
    ensures outcome(final($1)@) == cooked_val($0@, 2),
#fn rustc_literal_escaper::<[u8] as Unescape>::nonzero_byte2unit inst=[u8]:b 
#ret o
#spec
    requires $0.v() < 0x80,
    ensures o.units() == seq![$0.v() as int],
#fn rustc_literal_escaper::<[u8] as Unescape>::char2unit inst=[u8]:b 
#ret o
#spec
    ensures match o { Ok(u) => plain_ok($0, 1) && u.units() == unit(cp($0), 1), Err(e) => !plain_ok($0, 1) && fatal(e) },
#fn rustc_literal_escaper::<[u8] as Unescape>::hex2unit inst=[u8]:b 
#ret o
#spec
    ensures match o { Ok(u) => byte_ok($0, 1) && u.units() == seq![$0 as int], Err(e) => !byte_ok($0, 1) && fatal(e) },
#fn rustc_literal_escaper::<[u8] as Unescape>::unicode2unit inst=[u8]:b
#ret o
#spec
    requires match $0 { Ok(_) => true, Err(e) => fatal(e) },
    ensures match o { Ok(u) => 1 != 1 && (match $0 { Ok(c) => !(1 == 2 && c == '\0') && u.units() == unit(cp(c), 1), Err(_) => false }),
        Err(e) => fatal(e) && (match $0 { Ok(c) => 1 == 1 || 1 == 2 && c == '\0', Err(_) => true }) },
#fn rustc_literal_escaper::Unescape::unescape_1 inst=[u8]:b variant=b result question
#ret o
#spec
    requires old($0).rest().len() < 0x7fff_fff0,
    ensures sfx(old($0).rest(), final($0).rest()),
        match o { Ok(u) => esc_val(old($0).rest(), 1) == Some((final($0).rest(), u.units())), Err(e) => esc_val(old($0).rest(), 1).is_none() && fatal(e) },
#entry
    proof { assert forall|c: char| is_scalar(#[trigger] cp(c)) by { char_is_scalar(c); } let t0 = $0.rest(); if t0.len() > 0 { assert(sfx(t0, t0.skip(1))); } if t0.len() > 2 { assert(t0.skip(1).skip(2) =~= t0.skip(3)); assert(t0.skip(1)[0] == t0[1] && t0.skip(1)[1] == t0[2]); lemma_x(t0.skip(1), 1); } }
#fn rustc_literal_escaper::Unescape::unescape inst=[u8]:b variant=b log=callback
#spec
    requires old($1)@.len() == 0, $0@.len() < 0x7fff_fff0,
    ensures outcome(final($1)@) == cooked_val($0@, 1),
#entry
    let ghost s0 = $0@;
#loop 0 before
    proof { assert(outcome($1@) == Some(Seq::<int>::empty())); lemma_then_start(cooked_val(s0, 1)); }
#loop 0 top
    let ghost r0 = chars.rest();
    let ghost c0 = $1@;
    proof { if r0.len() > 0 { assert(sfx(s0, r0.skip(1))); } if r0.len() > 1 { assert(sfx(s0, r0.skip(2))); lemma_skip_blank(r0.skip(2)); } }
#loop 0 bottom
    proof { assert($1@.drop_last() =~= c0); lemma_then_assoc(c0, $1@.last(), cooked_val(chars.rest(), 1)); }
#loop 0
    invariant s0 == $0@, sfx(s0, chars.rest()), s0.len() < 0x7fff_fff0,
        cooked_val(s0, 1) == then(outcome($1@), cooked_val(chars.rest(), 1)),
    ensures chars.rest().len() == 0,
    decreases chars.rest().len(),
#loop 1 before
    let ghost c1 = $1@;
    let ghost l1 = vx_log1@;
#loop 1
    invariant $it.rest().len() <= l1.len(), $it.rest() == l1.skip(l1.len() - $it.rest().len()), outcome($1@) == outcome(c1),
        forall|i: int| 0 <= i < l1.len() ==> !fatal(#[trigger] l1[i].1),
    ensures $it.rest().len() == 0,
    decreases $it.rest().len(),
#loop 1 top
    let ghost q0 = $1@;
#loop 1 bottom
    proof { assert($1@.drop_last() =~= q0); }
#fn rustc_literal_escaper::<CStr as Unescape>::nonzero_byte2unit inst=CStr:c call=.into=MixedUnit::from_nz
#ret o
#spec
    requires $0.v() < 0x80,
    ensures o.units() == seq![$0.v() as int],
#fn rustc_literal_escaper::<CStr as Unescape>::char2unit inst=CStr:c call=.try_into=MixedUnit::try_from_char
#ret o
#spec
    ensures match o { Ok(u) => plain_ok($0, 2) && u.units() == unit(cp($0), 2), Err(e) => !plain_ok($0, 2) && fatal(e) },
#fn rustc_literal_escaper::<CStr as Unescape>::hex2unit inst=CStr:c call=.try_into=MixedUnit::try_from_byte
#ret o
#spec
    ensures match o { Ok(u) => byte_ok($0, 2) && u.units() == seq![$0 as int], Err(e) => !byte_ok($0, 2) && fatal(e) },
#fn rustc_literal_escaper::<CStr as Unescape>::unicode2unit inst=CStr:c
#ret o
#spec
    requires match $0 { Ok(_) => true, Err(e) => fatal(e) },
    ensures match o { Ok(u) => 2 != 1 && (match $0 { Ok(c) => !(2 == 2 && c == '\0') && u.units() == unit(cp(c), 2), Err(_) => false }),
        Err(e) => fatal(e) && (match $0 { Ok(c) => 2 == 1 || 2 == 2 && c == '\0', Err(_) => true }) },
#fn rustc_literal_escaper::Unescape::unescape_1 inst=CStr:c variant=c result question
#ret o
#spec
    requires old($0).rest().len() < 0x7fff_fff0,
    ensures sfx(old($0).rest(), final($0).rest()),
        match o { Ok(u) => esc_val(old($0).rest(), 2) == Some((final($0).rest(), u.units())), Err(e) => esc_val(old($0).rest(), 2).is_none() && fatal(e) },
#entry
    proof { assert forall|c: char| is_scalar(#[trigger] cp(c)) by { char_is_scalar(c); } let t0 = $0.rest(); if t0.len() > 0 { assert(sfx(t0, t0.skip(1))); } if t0.len() > 2 { assert(t0.skip(1).skip(2) =~= t0.skip(3)); assert(t0.skip(1)[0] == t0[1] && t0.skip(1)[1] == t0[2]); lemma_x(t0.skip(1), 2); } }
#fn rustc_literal_escaper::Unescape::unescape inst=CStr:c variant=c log=callback
#spec
    requires old($1)@.len() == 0, $0@.len() < 0x7fff_fff0,
    ensures outcome(final($1)@) == cooked_val($0@, 2),
#entry
    let ghost s0 = $0@;
#loop 0 before
    proof { assert(outcome($1@) == Some(Seq::<int>::empty())); lemma_then_start(cooked_val(s0, 2)); }
#loop 0 top
    let ghost r0 = chars.rest();
    let ghost c0 = $1@;
    proof { if r0.len() > 0 { assert(sfx(s0, r0.skip(1))); } if r0.len() > 1 { assert(sfx(s0, r0.skip(2))); lemma_skip_blank(r0.skip(2)); } }
#loop 0 bottom
    proof { assert($1@.drop_last() =~= c0); lemma_then_assoc(c0, $1@.last(), cooked_val(chars.rest(), 2)); }
#loop 0
    invariant s0 == $0@, sfx(s0, chars.rest()), s0.len() < 0x7fff_fff0,
        cooked_val(s0, 2) == then(outcome($1@), cooked_val(chars.rest(), 2)),
    ensures chars.rest().len() == 0,
    decreases chars.rest().len(),
#loop 1 before
    let ghost c1 = $1@;
    let ghost l1 = vx_log1@;
#loop 1
    invariant $it.rest().len() <= l1.len(), $it.rest() == l1.skip(l1.len() - $it.rest().len()), outcome($1@) == outcome(c1),
        forall|i: int| 0 <= i < l1.len() ==> !fatal(#[trigger] l1[i].1),
    ensures $it.rest().len() == 0,
    decreases $it.rest().len(),
#loop 1 top
    let ghost q0 = $1@;
#loop 1 bottom
    proof { assert($1@.drop_last() =~= q0); }
#end
#mod -
use crate::rustc_literal_escaper::{EscapeError, MixedUnit, VUnit, outcome, fatal, Entry};
#type ConversionErrorKind
#raw - values
pub open spec fn lit_text(l: Literal) -> Seq<char> { l.inner.fb().repr@ }
impl Literal {
    /// ToString gives what Display writes
    #[verifier::external_body]
    pub fn v_to_string(&self) -> (r: String) ensures r@ == lit_text(*self) { unimplemented!() }
}
pub proof fn lemma_verbatim_push(s: Seq<char>, c: char, mode: int)
    ensures verbatim(s.push(c), mode) == verbatim(s, mode) + verbatim(seq![c], mode),
    decreases s.len(),
{
    reveal_with_fuel(verbatim, 2);
    if s.len() == 0 { assert(s.push(c) =~= seq![c]); assert(verbatim(s, mode) + verbatim(seq![c], mode) =~= verbatim(seq![c], mode)); }
    else {
        assert(s.push(c).skip(1) =~= s.skip(1).push(c));
        lemma_verbatim_push(s.skip(1), c, mode);
        assert(verbatim(s.push(c), mode) =~= verbatim(s, mode) + verbatim(seq![c], mode));
    }
}
pub proof fn lemma_verbatim_12(s: Seq<char>)
    ensures verbatim(s, 2) == verbatim(s, 1),
    decreases s.len(),
{ if s.len() > 0 { lemma_verbatim_12(s.skip(1)); } }
pub proof fn lemma_verbatim_one(c: char, mode: int)
    ensures verbatim(seq![c], mode) == (if mode == 0 { seq![cp(c)] } else { utf8(cp(c)) }),
{
    reveal_with_fuel(verbatim, 2);
    assert(seq![c].skip(1) =~= Seq::<char>::empty());
    assert(verbatim(seq![c], mode) =~= (if mode == 0 { seq![cp(c)] } else { utf8(cp(c)) }));
}
pub proof fn lemma_outcome_empty<U: VUnit>(l: Seq<Entry<U>>)
    requires l.len() == 0,
    ensures outcome(l) == Some(Seq::<int>::empty()), bytes_v(Seq::<u8>::empty()) == Seq::<int>::empty(), verbatim(Seq::<char>::empty(), 0) == Seq::<int>::empty(),
{ assert(bytes_v(Seq::<u8>::empty()) =~= Seq::<int>::empty()); }
pub proof fn lemma_outcome_step<U: VUnit>(l: Seq<Entry<U>>, k: int)
    requires 0 <= k < l.len(),
    ensures outcome(l.take(k + 1)) == (match outcome(l.take(k)) { None => None, Some(v) => match l[k].1 { Ok(u) => Some(v + u.units()), Err(e) => if fatal(e) { None } else { Some(v) } } }),
{ assert(l.take(k + 1).drop_last() =~= l.take(k)); assert(l.take(k + 1).last() == l[k]); }
#fn get_raw
#ret o
#spec
    requires $0@.len() < 0x7fff_fff0,
    ensures match o { Some(t) => raw_shape($0@) && t@ == raw_inside($0@), None => !raw_shape($0@) },
#entry
    proof { lemma_raw_ends($0@); }
#fn Literal::str_value ren=as_bytes:v_utf8;extend_from_slice:v_extend_from_slice
#ret o
#spec
    requires literal_source(lit_text(*self)), lit_text(*self).len() < 0x7fff_fff0,
    ensures match o { Ok(v) => lit_val(lit_text(*self), 0) == Some(verbatim(v@, 0)), Err(_) => lit_val(lit_text(*self), 0).is_none() },
#entry
    hide(lit_val); hide(cooked_val); hide(raw_shape); hide(raw_inside); hide(literal_source); hide(verbatim); hide(outcome);
    proof { lemma_value_cases(lit_text(*self), 0, 1); }
#loop 0 before
    let ghost l1 = vx_log1@;
    proof { lemma_outcome_empty(l1.take(0)); assert(l1.take(0) =~= Seq::empty()); assert(l1.skip(0) =~= l1); }
#loop 0
    invariant $it.rest().len() <= l1.len(), $it.rest() == l1.skip(l1.len() - $it.rest().len()),
        match outcome(l1.take(l1.len() - $it.rest().len())) { Some(v) => error.is_none() && verbatim(value@, 0) == v, None => error.is_some() },
    ensures $it.rest().len() == 0,
    decreases $it.rest().len(),
#loop 0 top
    let ghost k = l1.len() - $it.rest().len();
    let ghost v0 = value@;
    proof { if k < l1.len() { assert(l1.skip(k)[0] == l1[k]); assert(l1.skip(k).skip(1) =~= l1.skip(k + 1)); assert(l1.take(k + 1).drop_last() =~= l1.take(k)); } }
#loop 0 bottom
    proof { lemma_outcome_step(l1, k); match l1[k].1 { Ok(c) => { lemma_verbatim_push(v0, c, 0); lemma_verbatim_one(c, 0); } Err(_) => {} } }
#loop 0 after
    proof { assert(l1.take(l1.len() as int) =~= l1); }
#fn Literal::byte_str_value ren=as_bytes:v_utf8;extend_from_slice:v_extend_from_slice
#ret o
#spec
    requires literal_source(lit_text(*self)), lit_text(*self).len() < 0x7fff_fff0,
    ensures match o { Ok(v) => lit_val(lit_text(*self), 1) == Some(bytes_v(v@)), Err(_) => lit_val(lit_text(*self), 1).is_none() },
#entry
    hide(lit_val); hide(cooked_val); hide(raw_shape); hide(raw_inside); hide(literal_source); hide(verbatim); hide(outcome);
    proof { lemma_value_cases(lit_text(*self), 1, 2); assert forall|x: Seq<char>| #[trigger] verbatim(x, 2) == verbatim(x, 1) by { lemma_verbatim_12(x); } }
#loop 0 before
    let ghost l1 = vx_log1@;
    proof { lemma_outcome_empty(l1.take(0)); assert(l1.take(0) =~= Seq::empty()); assert(l1.skip(0) =~= l1); }
#loop 0
    invariant $it.rest().len() <= l1.len(), $it.rest() == l1.skip(l1.len() - $it.rest().len()),
        match outcome(l1.take(l1.len() - $it.rest().len())) { Some(v) => error.is_none() && bytes_v(value@) == v, None => error.is_some() },
    ensures $it.rest().len() == 0,
    decreases $it.rest().len(),
#loop 0 top
    let ghost k = l1.len() - $it.rest().len();
    let ghost v0 = value@;
    proof { if k < l1.len() { assert(l1.skip(k)[0] == l1[k]); assert(l1.skip(k).skip(1) =~= l1.skip(k + 1)); assert(l1.take(k + 1).drop_last() =~= l1.take(k)); } }
#loop 0 bottom
    proof { lemma_outcome_step(l1, k); match l1[k].1 { Ok(c) => { assert(bytes_v(v0.push(c)) =~= bytes_v(v0) + seq![c as int]); } Err(_) => {} } }
#loop 0 after
    proof { assert(l1.take(l1.len() as int) =~= l1); }
#fn Literal::cstr_value ren=as_bytes:v_utf8;extend_from_slice:v_extend_from_slice
#ret o
#spec
    requires literal_source(lit_text(*self)), lit_text(*self).len() < 0x7fff_fff0,
    ensures match o { Ok(v) => v@.len() > 0 && v@.last() == 0 && lit_val(lit_text(*self), 2) == Some(bytes_v(v@.drop_last())), Err(_) => lit_val(lit_text(*self), 2).is_none() },
#entry
    hide(lit_val); hide(cooked_val); hide(raw_shape); hide(raw_inside); hide(literal_source); hide(verbatim); hide(outcome);
    proof { lemma_value_cases(lit_text(*self), 2, 2); assert forall|x: Seq<u8>, y: u8| (#[trigger] x.push(y)).drop_last() == x && x.push(y).last() == y by { assert(x.push(y).drop_last() =~= x); } }
#loop 0 before
    let ghost l1 = vx_log1@;
    proof { lemma_outcome_empty(l1.take(0)); assert(l1.take(0) =~= Seq::empty()); assert(l1.skip(0) =~= l1); }
#loop 0
    invariant $it.rest().len() <= l1.len(), $it.rest() == l1.skip(l1.len() - $it.rest().len()),
        match outcome(l1.take(l1.len() - $it.rest().len())) { Some(v) => error.is_none() && bytes_v(value@) == v, None => error.is_some() },
    ensures $it.rest().len() == 0,
    decreases $it.rest().len(),
#loop 0 top
    let ghost k = l1.len() - $it.rest().len();
    let ghost v0 = value@;
    proof { if k < l1.len() { assert(l1.skip(k)[0] == l1[k]); assert(l1.skip(k).skip(1) =~= l1.skip(k + 1)); assert(l1.take(k + 1).drop_last() =~= l1.take(k)); } }
#loop 0 bottom
    proof { lemma_outcome_step(l1, k); match l1[k].1 { Ok(u) => { assert forall|x: Seq<u8>| #[trigger] bytes_v(v0 + x) == bytes_v(v0) + bytes_v(x) by { assert(bytes_v(v0 + x) =~= bytes_v(v0) + bytes_v(x)); } match u { MixedUnit::Char(c) => { lemma_verbatim_one(c.0, 2); } MixedUnit::HighByte(b) => { assert(bytes_v(v0.push(b.v())) =~= bytes_v(v0) + seq![b.v() as int]); } } } Err(_) => {} } }
#loop 0 after
    proof { assert(l1.take(l1.len() as int) =~= l1); }
#end
#only *
