#mod parse
use super::*;
use crate::fallback::*;
broadcast use {vx_text, vx_lex, vx_tok, vx_frames, lemma_bare_cr_at};
use crate::{Delimiter, Spacing, Punct, TokenTree};
use crate::fallback;
use crate::fallback::{TokenStream, TokenStreamBuilder, LexError, Span, Group, Ident, Literal};

#type parse::Cursor derive=Copy,Clone
#type parse::Reject
#type parse::PResult

#raw parse adv
#only A B
/// where the cursor is
#[verifier::inline]
pub open spec fn co(a: Cursor) -> int { a.off as int }
/// `b` is `a` moved forward.
pub open spec fn adv(a: Cursor, b: Cursor) -> bool {
    sfx(a.rest@, b.rest@) && a.off + a.rest@.len() == b.off + b.rest@.len()
}
pub open spec fn fits(a: Cursor) -> bool { a.off + a.rest@.len() <= u32::MAX }
#only C
#[verifier::inline]
pub open spec fn co(a: Cursor) -> int { 0 }
pub open spec fn adv(a: Cursor, b: Cursor) -> bool { sfx(a.rest@, b.rest@) }
pub open spec fn fits(a: Cursor) -> bool { true }
#only *
pub open spec fn ok(r: Result<Cursor, Reject>, s: Option<Seq<char>>, a: Cursor) -> bool {
    match r { Ok(b) => adv(a, b) && s == Some(b.rest@), Err(_) => s.is_none() }
}

/// an iterator moved forward
pub open spec fn it_ok(a: &VCharIndices, b: &VCharIndices) -> bool {
    b.base() == a.base() && (sfx(a.base(), a.rest()) ==> sfx(a.base(), b.rest()))
}
pub open spec fn pow16(n: int) -> int { if n <= 0 { 1 } else if n == 1 { 0x10 } else if n == 2 { 0x100 } else if n == 3 { 0x1000 } else if n == 4 { 0x10000 } else if n == 5 { 0x100000 } else { 0x1000000 } }

#fn parse::Cursor::advance
#ret r
#spec
    requires bdry(self.rest@, $1 as int), fits(*self),
    ensures adv(*self, r), r.rest@ == rest_at(self.rest@, $1 as int),
#end

#fn parse::Cursor::starts_with
#ret r
#spec
    ensures r == pre(self.rest@, $1@), r ==> at(self.rest@, self.rest@.skip($1@.len() as int), blen($1@)),
#fn parse::Cursor::starts_with_char
#ret r
#spec
    ensures r == p1(self.rest@, $1),
#fn parse::Cursor::is_empty
#ret r
#spec
    ensures r == (self.rest@.len() == 0),
#fn parse::Cursor::len
#ret r
#spec
    ensures r == blen(self.rest@), r <= isize::MAX as usize,
#fn parse::Cursor::as_bytes
#ret r
#spec
    ensures utf8_of(r@, self.rest@),
#fn parse::Cursor::bytes
#ret r
#spec
    ensures r.base() == self.rest@, r.rest() == self.rest@, r.sub() == 0,
#fn parse::Cursor::chars
#ret r
#spec
    ensures r.rest() == self.rest@,
#fn parse::Cursor::char_indices
#ret r
#spec
    ensures r.base() == self.rest@, r.rest() == self.rest@,
#fn parse::Cursor::parse
#ret r
#spec
    requires fits(*self),
    ensures match r { Ok(b) => pre(self.rest@, $1@) && adv(*self, b) && b.rest@ == self.rest@.skip($1@.len() as int), Err(_) => !pre(self.rest@, $1@) },
#fn parse::skip_whitespace
#ret r
#spec
    requires fits($0),
    ensures adv($0, r), r.rest@ == skip_ws($0.rest@),
#loop 0
    invariant fits(s), adv($0, s), skip_ws(s.rest@) == skip_ws($0.rest@),
    ensures s.rest@ == skip_ws($0.rest@),
    decreases s.rest@.len(),
#end
#fn parse::block_comment
#ret r
#spec
    requires fits($0),
    ensures match r {
        Ok((b, t)) => adv($0, b) && block_rest($0.rest@) == Some(b.rest@) && t@ == head($0.rest@, b.rest@),
        Err(_) => block_rest($0.rest@).is_none(),
    },
#loop 0
    invariant 0 <= i <= bytes@.len(), i == 0 ==> depth == 0, i > 0 ==> 1 <= depth <= i,
        block_end(rest_at($0.rest@, i as int), depth as int) == block_end($0.rest@, 0),
    decreases bytes@.len() - i,
#end
#fn parse::is_whitespace
#ret r
#spec
    ensures r == (uni_ws($0) || $0 == '\u{200e}' || $0 == '\u{200f}'),
#fn parse::word_break
#ret r
#spec
    ensures ok(r, word_end($0.rest@), $0),
#fn parse::ident_not_raw
#ret r
#spec
    requires fits($0),
    ensures match r {
        Ok((b, sym)) => adv($0, b) && ident_nr($0.rest@) == Some(b.rest@) && sym@ == head($0.rest@, b.rest@),
        Err(_) => ident_nr($0.rest@).is_none(),
    },
#loop 0
    invariant_except_break
        end == blen($0.rest@), cont_rest($it.rest()) == cont_rest($0.rest@.skip(1)),
    invariant $it.base() == $0.rest@, sfx($0.rest@, $it.rest()),
    ensures at($0.rest@, cont_rest($0.rest@.skip(1)), end as int),
    decreases $it.rest().len(),
#end
#fn parse::literal_suffix
#ret r
#spec
    requires fits($0),
    ensures adv($0, r), r.rest@ == suffix($0.rest@),
#fn parse::string
#ret r
#spec
    requires fits($0),
    ensures ok(r, string_lit($0.rest@), $0),
#fn parse::cooked_string
#ret r
#spec
    requires fits($0),
    ensures ok(r, cooked_lit($0.rest@, 0), $0),
#entry
    let ghost g0 = $0;
#loop 0
    invariant_except_break cooked(chars.rest(), 0) == cooked(g0.rest@, 0),
    invariant adv(g0, input), chars.base() == input.rest@, sfx(input.rest@, chars.rest()),
    ensures cooked(g0.rest@, 0).is_none(),
    decreases chars.rest().len(),
#end
#fn parse::raw_string
#ret r
#spec
    requires fits($0),
    ensures ok(r, raw_lit($0.rest@, 0), $0),
#loop 0
    invariant_except_break raw_body(bytes.rest(), delimiter@.len() as int, 0) == raw_body(input.rest@, delimiter@.len() as int, 0),
    invariant bytes.base() == input.rest@, sfx(input.rest@, bytes.rest()),
    ensures raw_body(input.rest@, delimiter@.len() as int, 0).is_none(),
    decreases bytes.rest().len(), bytes.sub(),
#end
#fn parse::byte_string
#ret r
#spec
    requires fits($0),
    ensures ok(r, byte_string_lit($0.rest@), $0),
#fn parse::cooked_byte_string
#ret r
#spec
    requires fits($0),
    ensures ok(r, cooked_lit($0.rest@, 1), $0),
#entry
    let ghost g0 = $0;
#loop 0
    invariant_except_break bytes.sub() == 0, cooked(bytes.rest(), 1) == cooked(g0.rest@, 1),
    invariant adv(g0, input), bytes.base() == input.rest@, sfx(input.rest@, bytes.rest()),
    ensures cooked(g0.rest@, 1).is_none(),
    decreases bytes.rest().len(),
#end
#fn parse::delimiter_of_raw_string
#ret r
#spec
    requires fits($0),
    ensures match r {
        Ok((b, d)) => adv($0, b) && raw_open($0.rest@) == Some((d@.len() as int, b.rest@)) && all_hash(d@),
        Err(_) => raw_open($0.rest@).is_none(),
    },
#loop 0
    invariant_except_break $it.sub() == 0, hash_at($0.rest@, $it.rest()),
    invariant $it.base() == $0.rest@, sfx($0.rest@, $it.rest()),
    ensures raw_open($0.rest@).is_none(),
    decreases $it.rest().len(),
#end
#fn parse::raw_byte_string
#ret r
#spec
    requires fits($0),
    ensures ok(r, raw_lit($0.rest@, 1), $0),
#loop 0
    invariant_except_break bytes.sub() == 0, raw_body(bytes.rest(), delimiter@.len() as int, 1) == raw_body(input.rest@, delimiter@.len() as int, 1),
    invariant bytes.base() == input.rest@, sfx(input.rest@, bytes.rest()),
    ensures raw_body(input.rest@, delimiter@.len() as int, 1).is_none(),
    decreases bytes.rest().len(), bytes.sub(),
#end
#fn parse::c_string
#ret r
#spec
    requires fits($0),
    ensures ok(r, c_string_lit($0.rest@), $0),
#fn parse::raw_c_string
#ret r
#spec
    requires fits($0),
    ensures ok(r, raw_lit($0.rest@, 2), $0),
#loop 0
    invariant_except_break raw_body(bytes.rest(), delimiter@.len() as int, 2) == raw_body(input.rest@, delimiter@.len() as int, 2),
    invariant bytes.base() == input.rest@, sfx(input.rest@, bytes.rest()),
    ensures raw_body(input.rest@, delimiter@.len() as int, 2).is_none(),
    decreases bytes.rest().len(), bytes.sub(),
#end
#fn parse::cooked_c_string
#ret r
#spec
    requires fits($0),
    ensures ok(r, cooked_lit($0.rest@, 2), $0),
#entry
    let ghost g0 = $0;
#loop 0
    invariant_except_break cooked(chars.rest(), 2) == cooked(g0.rest@, 2),
    invariant adv(g0, input), chars.base() == input.rest@, sfx(input.rest@, chars.rest()),
    ensures cooked(g0.rest@, 2).is_none(),
    decreases chars.rest().len(),
#end
#fn parse::byte
#ret r
#spec
    requires fits($0),
    ensures ok(r, byte_lit($0.rest@), $0),
#fn parse::character
#ret r
#spec
    requires fits($0),
    ensures ok(r, char_lit($0.rest@), $0),
#fn parse::backslash_x_char mono=I:VCharIndices
#ret r
#spec
    ensures it_ok(old($0), final($0)), r.is_ok() == x_ok(old($0).rest(), 0),
        r.is_ok() ==> final($0).rest() == old($0).rest().skip(2),
#fn parse::backslash_x_byte mono=I:VBytesEnum
#ret r
#spec
    requires old($0).sub() == 0, sfx(old($0).base(), old($0).rest()),
    ensures final($0).base() == old($0).base(), sfx(final($0).base(), final($0).rest()), r.is_ok() == x_ok(old($0).rest(), 1),
        r.is_ok() ==> final($0).rest() == old($0).rest().skip(2) && final($0).sub() == 0,
#fn parse::backslash_x_nonzero mono=I:VCharIndices
#ret r
#spec
    ensures it_ok(old($0), final($0)), r.is_ok() == x_ok(old($0).rest(), 2),
        r.is_ok() ==> final($0).rest() == old($0).rest().skip(2),
#fn parse::backslash_u mono=I:VCharIndices
#ret r
#spec
    ensures it_ok(old($0), final($0)),
        match r { Ok(c) => u_esc(old($0).rest()) == Some((final($0).rest(), cp(c))) && final($0).rest().len() < old($0).rest().len(), Err(_) => u_esc(old($0).rest()).is_none() },
#loop 0
    invariant_except_break u_body($0.rest(), value as int, len as int) == u_esc(old($0).rest()),
    invariant it_ok(old($0), $0), $0.rest().len() < old($0).rest().len(), 0 <= len <= 6, 0 <= value < pow16(len as int),
    ensures u_esc(old($0).rest()).is_none(),
    decreases $0.rest().len(),
#end
#fn parse::trailing_backslash
#ret r
#spec
    requires fits(*old($0)), $1 == 10 || $1 == 13,
    ensures
        match r { Ok(_) => adv(*old($0), *final($0)) && cont_ws(old($0).rest@, $1 as int) == Some(final($0).rest@), Err(_) => cont_ws(old($0).rest@, $1 as int).is_none() },
#entry
    let ghost g0 = *$0;
    let ghost l0 = $1 as int;
    proof { reveal_with_fuel(cont_ws, 3); }
#loop 0
    invariant *$0 == g0, whitespace.base() == g0.rest@, sfx(g0.rest@, whitespace.rest()), whitespace.sub() == 0, last < 0x80,
        cont_ws(whitespace.rest(), last as int) == cont_ws(g0.rest@, l0),
    decreases whitespace.rest().len(),
#end
#fn parse::float
#ret r
#spec
    requires fits($0),
    ensures ok(r, float_lit($0.rest@), $0),
#fn parse::float_digits
#ret r
#spec
    requires fits($0),
    ensures ok(r, g_float_digits($0.rest@), $0),
#entry
    proof { lemma_at_start($0.rest@); }
#loop 0
    invariant_except_break !has_exp, mant(chars.rest(), has_dot) == mant($0.rest@.skip(1), false),
    invariant at($0.rest@, chars.rest(), len as int),
    ensures mant($0.rest@.skip(1), false) == (if has_exp { Mant::Exp(chars.rest(), has_dot) } else { Mant::Plain(chars.rest(), has_dot) }),
    decreases chars.rest().len(),
#loop 1
    invariant_except_break expo(chars.rest(), has_sign, has_exp_value) == expo(gx, false, false),
    invariant at($0.rest@, chars.rest(), len as int),
    ensures expo(gx, false, false) == (if has_exp_value { Some(chars.rest()) } else { None }),
    decreases chars.rest().len(),
#loop 0 after
    let ghost gx = chars.rest();
    proof { if has_exp { lemma_mant($0.rest@.skip(1), false); lemma_at_back($0.rest@, gx, len as int); } }
#end
#fn parse::int
#ret r
#spec
    requires fits($0),
    ensures ok(r, int_lit($0.rest@), $0),
#fn parse::digits
#ret r
#spec
    requires fits($0),
    ensures ok(r, int_digits($0.rest@), $0),
#loop 0 before
    let ghost g1 = $0;
#loop 0
    invariant_except_break $it.sub() == 0, at($0.rest@, $it.rest(), len as int), dg($it.rest(), base as int, empty) == dg(g1.rest@, base as int, true),
    invariant $it.base() == $0.rest@, sfx($0.rest@, $it.rest()),
    ensures dg(g1.rest@, base as int, true) == (if empty { None } else { Some(rest_at(g1.rest@, len as int)) }), bdry(g1.rest@, len as int),
    decreases $it.rest().len(), $it.sub(),
#end
#fn parse::punct_char
#ret r
#spec
    requires fits($0),
    ensures match r { Ok((b, c)) => adv($0, b) && g_punct_char($0.rest@) == Some(b.rest@) && c == $0.rest@[0], Err(_) => g_punct_char($0.rest@).is_none() },
#fn parse::take_until_newline_or_eof
#ret r
#spec
    requires fits($0),
    ensures adv($0, r.0), r.0.rest@ == line_rest($0.rest@), r.1@ == $0.rest@.take(line_len($0.rest@)),
#loop 0
    invariant $it.base() == $0.rest@, sfx($0.rest@, $it.rest()), line_rest($it.rest()) == line_rest($0.rest@),
       line_len($0.rest@) == $0.rest@.len() - $it.rest().len() + line_len($it.rest()),
    decreases $it.rest().len(),
#end
#fn parse::doc_comment_contents
#ret r
#spec
    requires fits($0), !p4($0.rest@, '/', '*', '*', '/'),
    ensures match r {
        Ok((b, (t, inner))) => adv($0, b) && doc_contents($0.rest@) == Some((b.rest@, t@, inner)),
        Err(_) => doc_contents($0.rest@).is_none(),
    },
#entry
    proof {
        let s = $0.rest@;
        if p3(s, '/', '*', '!') || (p3(s, '/', '*', '*') && !p4(s, '/', '*', '*', '*') && !p4(s, '/', '*', '*', '/')) { lemma_doc_block(s); }
        if s.len() >= 3 { lemma_at_skip(s, 3); lemma_lit_blen3(s.take(3)); }
    }
#fn parse::doc_comment
#ret r
#spec
    requires fits($0), !p4($0.rest@, '/', '*', '*', '/'),
    ensures match r {
        Ok((b, _)) => adv($0, b) && (match doc($0.rest@) { Some(d) => d.0 == b.rest@
            && tokv(final($1).inner.inner@) == doc_onto(tokv(old($1).inner.inner@), d.1, d.2, co($0), co(b)), None => false }),
        Err(_) => doc($0.rest@).is_none() && tokv(final($1).inner.inner@) == tokv(old($1).inner.inner@),
    },
#loop 0 before
    let ghost c0 = scan_for_bare_cr@;
#loop 0
    invariant_except_break bare_cr(scan_for_bare_cr@) == bare_cr(c0),
    invariant *$1 == *old($1),
    ensures !bare_cr(c0),
    decreases scan_for_bare_cr@.len(),
#loop 0 top
    proof { if !scan_for_bare_cr@.contains('\r') { lemma_bare_cr_none(scan_for_bare_cr@); } }
#fn parse::lex_error
#ret r
#spec
    ensures fsp(r.span) == (co($0), co($0)),
#fn parse::literal
#entry
    hide(g_literal);
#ret r
#spec
    requires fits($0),
    ensures match r {
        Ok((b, l)) => adv($0, b) && g_literal($0.rest@) == Some(b.rest@) && l.repr@ == head($0.rest@, b.rest@) && fsp(l.span) == (0int, 0int),
        Err(_) => g_literal($0.rest@).is_none(),
    },
#fn parse::literal_nocapture
#ret r
#spec
    requires fits($0),
    ensures ok(r, g_literal($0.rest@), $0),
#fn parse::ident_any
#ret r
#spec
    requires fits($0),
    ensures match r {
        Ok((b, i)) => adv($0, b) && (match g_ident_any($0.rest@) { Some(g) => g.0 == b.rest@ && tok(TokenTree::Ident(i)) == Tok::Ident(g.1, g.2, 0, 0), None => false }),
        Err(_) => g_ident_any($0.rest@).is_none(),
    },
#entry
    proof { assert(1usize << 1 == 2usize) by(bit_vector); assert(0usize << 1 == 0usize) by(bit_vector); }
#fn parse::ident
#ret r
#spec
    requires fits($0),
    ensures match r {
        Ok((b, i)) => adv($0, b) && (match g_ident($0.rest@) { Some(g) => g.0 == b.rest@ && tok(TokenTree::Ident(i)) == Tok::Ident(g.1, g.2, 0, 0), None => false }),
        Err(_) => g_ident($0.rest@).is_none(),
    },
#fn parse::punct
#ret r
#spec
    requires fits($0),
    ensures match r {
        Ok((b, p)) => adv($0, b) && (match g_punct($0.rest@) { Some(g) => g.0 == b.rest@ && tok(TokenTree::Punct(p)) == Tok::Punct(g.1, g.2, 0, 0), None => false }),
        Err(_) => g_punct($0.rest@).is_none(),
    },
#fn parse::leaf_token const=ERROR:"(/*ERROR*/)"
#entry
    hide(g_literal); hide(g_punct); hide(g_ident);
    proof { lemma_error($0.rest@, "(/*ERROR*/)"@); }
#ret r
#spec
    requires fits($0),
    ensures match r {
        Ok((b, t)) => adv($0, b) && (match leaf($0.rest@, co($0)) { Some(l) => l.0 == b.rest@ && moved(tok(t), co($0), co(b)) == l.1, None => false }),
        Err(_) => leaf($0.rest@, co($0)).is_none(),
    },
#fn parse::token_stream const=ERROR:"(/*ERROR*/)"
#ret r
#spec
    requires fits($0),
    ensures match r {
        Ok(s) => lex($0.rest@, co($0), no_frames(), Seq::<Tok>::empty()) == LexR::Ok(toks(s)),
        Err(e) => lex($0.rest@, co($0), no_frames(), Seq::<Tok>::empty()) == LexR::Err(fsp(e.span).0) && fsp(e.span).0 == fsp(e.span).1,
    },
#entry
    hide(g_literal); hide(leaf); hide(doc); hide(skip_ws); hide(is_error); hide(doc_onto);
    let ghost g0 = $0;
#loop 0
    invariant adv(g0, $0), fits($0),
        lex($0.rest@, co($0), frames(stack@), tokv(tokens.inner.inner@)) == lex(g0.rest@, co(g0), no_frames(), Seq::<Tok>::empty()),
    decreases $0.rest@.len(),
#loop 0 top
    proof { lemma_error(skip_ws($0.rest@), "(/*ERROR*/)"@); lemma_skip_ws($0.rest@); lemma_doc(skip_ws($0.rest@)); lemma_leaf(skip_ws($0.rest@), step(co($0), $0.rest@.len() - skip_ws($0.rest@).len())); }
#end
