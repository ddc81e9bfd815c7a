#only B C
#mod imp
use super::*;
use crate::fallback::{self, call_site_span, put, puts, cat, wrote, name_ok, raw_name_ok, spell};
#only B
use crate::fallback::{sm_wf, same_texts, known, in_file, file_of, text, base, room, byte_pos, span_text, covers, file_name, sub_lo, sub_hi};
#only B C
use crate::{Delimiter, Punct, Spacing, TokenTree};
broadcast use {vx_text, vx_tok, lemma_ints_push};
#type imp::TokenStream
#type imp::LexError
#type imp::TokenTreeIter
#type imp::Span derive=Copy,Clone
#type imp::Group
#type imp::Ident
#type imp::Literal
#raw imp fb
pub open spec fn fbs(v: Seq<TokenStream>) -> Seq<fallback::TokenStream> { v.map(|i: int, s: TokenStream| s.fb()) }
#fn imp::<TokenStream as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn imp::<Group as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn imp::<Ident as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn imp::<Literal as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn imp::<Span as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn imp::<TokenStream as From<TokenStream>>::from name=v_from
#ret r
#spec
    ensures r.fb() == $0,
#fn imp::<LexError as From<LexError>>::from name=v_from
#ret r
#spec
    ensures r.fb() == $0,
#fn imp::<Group as From<Group>>::from name=v_from
#ret r
#spec
    ensures r.fb() == $0,
#fn imp::<Ident as From<Ident>>::from name=v_from
#ret r
#spec
    ensures r.fb() == $0,
#fn imp::<Literal as From<Literal>>::from name=v_from
#ret r
#spec
    ensures r.fb() == $0,
#fn imp::<Span as From<Span>>::from name=v_from
#ret r
#spec
    ensures r.fb() == $0,
#fn imp::TokenStream::new
#ret r
#spec
    ensures toks(r.fb()) == Seq::<Tok>::empty(),
#only B
#fn imp::TokenStream::from_str_checked tls=mut question=LexError::v_from
#ret r
#spec
    requires sm_wf(*old(vx_sm)), room(*old(vx_sm), $0@.len() as int), $0@.len() < usize::MAX,
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len() + 1,
        text(*final(vx_sm), old(vx_sm).files@.len() as int) == $0@,
        match r {
            Ok(s) => lex_source($0@, base(*final(vx_sm), old(vx_sm).files@.len() as int)) == LexR::Ok(toks(s.fb())),
            Err(e) => lex_source($0@, base(*final(vx_sm), old(vx_sm).files@.len() as int)) == LexR::Err(e.fb().span.lo as int) && e.fb().span.lo == e.fb().span.hi,
        },
#only B C
#fn imp::TokenStream::is_empty
#ret r
#spec
    ensures r == (toks(self.fb()).len() == 0),
#fn imp::TokenStream::unwrap_stable
#ret r
#spec
    ensures r == self.fb(),
#fn imp::<TokenStream as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, show(toks(self.fb()))),
    decreases *self,
#fn imp::<TokenStream as From<TokenTree>>::from name=v_from_tree ren=fallback::TokenStream::from:v_from_tree
#ret r
#spec
    ensures toks(r.fb()) == put(tok($0)),
#fn imp::<TokenStream as FromIterator<TokenTree>>::from_iter name=v_from_trees collect=fallback::TokenStream::v_from_trees
#ret r
#spec
    ensures toks(r.fb()) == puts(tokv($0.items())),
#fn imp::<TokenStream as FromIterator<TokenStream>>::from_iter name=v_from_streams ren=extend:v_extend_streams iter
#ret r
#spec
    ensures toks(r.fb()) == cat(fbs($0.items())),
#closure 0 |s: TokenStream| -> (o: fallback::TokenStream)
    ensures o == $a$.fb()
#entry
    proof {
        let all = $0.items();
        if all.len() > 0 {
            assert(fbs(all).skip(1) =~= fbs(all.skip(1)));
            assert forall|v: Seq<fallback::TokenStream>| v.len() == all.len() - 1 && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == all.skip(1)[i].fb()) implies #[trigger] cat(v) == cat(fbs(all.skip(1))) by { assert(v =~= fbs(all.skip(1))); }
        }
    }
#fn imp::<TokenStream as Extend<TokenTree>>::extend name=v_extend_trees ren=extend:v_extend_trees
#spec
    ensures toks(final(self).fb()) == toks(old(self).fb()) + puts(tokv($1.items())),
#fn imp::<TokenStream as Extend<TokenStream>>::extend name=v_extend_streams ren=extend:v_extend_streams iter
#spec
    ensures toks(final(self).fb()) == toks(old(self).fb()) + cat(fbs($1.items())),
#closure 0 |s: TokenStream| -> (o: fallback::TokenStream)
    ensures o == $a$.fb()
#entry
    proof { assert forall|v: Seq<fallback::TokenStream>| v.len() == $1.items().len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == $1.items()[i].fb()) implies #[trigger] cat(v) == cat(fbs($1.items())) by { assert(v =~= fbs($1.items())); } }
#fn imp::LexError::span
#ret r
#spec
    ensures r.fb() == self.fb().span,
#fn imp::<TokenStream as IntoIterator>::into_iter
#ret r
#spec
    ensures tokv(r.fb().inner.rest()) == toks(self.fb()),
#fn imp::<TokenTreeIter as Iterator>::next
#ret r
#spec
    ensures match r {
        None => old(self).fb().inner.rest().len() == 0 && final(self).fb().inner.rest() == old(self).fb().inner.rest(),
        Some(x) => old(self).fb().inner.rest().len() > 0 && x == old(self).fb().inner.rest()[0] && final(self).fb().inner.rest() == old(self).fb().inner.rest().skip(1),
    },
#fn imp::<TokenTreeIter as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn imp::<TokenTreeIter as Iterator>::size_hint
#ret r
#spec
    ensures r.0 == self.fb().inner.rest().len(), r.1 == Some(r.0),
#fn imp::Span::call_site
#ret r
#spec
    ensures fsp(r.fb()) == (0int, 0int),
#fn imp::Span::mixed_site
#ret r
#spec
    ensures fsp(r.fb()) == (0int, 0int),
#only B
#fn imp::Span::def_site
#ret r
#spec
    ensures fsp(r.fb()) == (0int, 0int),
#only B C
#fn imp::Span::resolved_at
#ret r
#spec
    ensures r.fb() == self.fb(),
#fn imp::Span::located_at
#ret r
#spec
    ensures r.fb() == $1.fb(),
#only B
#fn imp::Span::byte_range tls=mut method=0
#ret r
#spec
    requires sm_wf(*old(vx_sm)), known(*old(vx_sm), self.fb()),
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len(),
        call_site_span(self.fb()) ==> r.start == 0 && r.end == 0,
        !call_site_span(self.fb()) ==> r.start == byte_pos(*old(vx_sm), self.fb(), self.fb().lo) && r.end == byte_pos(*old(vx_sm), self.fb(), self.fb().hi),
#fn imp::Span::start tls=ref method=0
#ret r
#spec
    requires sm_wf(*vx_sm), known(*vx_sm, self.fb()),
    ensures r.line == line_no(text(*vx_sm, file_of(*vx_sm, self.fb())), self.fb().lo - base(*vx_sm, file_of(*vx_sm, self.fb()))), r.column == line_col(text(*vx_sm, file_of(*vx_sm, self.fb())), self.fb().lo - base(*vx_sm, file_of(*vx_sm, self.fb()))),
#fn imp::Span::end tls=ref method=0
#ret r
#spec
    requires sm_wf(*vx_sm), known(*vx_sm, self.fb()),
    ensures r.line == line_no(text(*vx_sm, file_of(*vx_sm, self.fb())), self.fb().hi - base(*vx_sm, file_of(*vx_sm, self.fb()))), r.column == line_col(text(*vx_sm, file_of(*vx_sm, self.fb())), self.fb().hi - base(*vx_sm, file_of(*vx_sm, self.fb()))),
#fn imp::Span::file tls=ref method=0
#ret r
#spec
    requires sm_wf(*vx_sm), known(*vx_sm, self.fb()),
    ensures r@ == file_name(file_of(*vx_sm, self.fb())),
#fn imp::Span::join tls=ref method=1
#ret r
#spec
    requires sm_wf(*vx_sm), known(*vx_sm, self.fb()), $1.fb().lo <= $1.fb().hi,
    ensures match r {
        None => !in_file(*vx_sm, file_of(*vx_sm, self.fb()), $1.fb()),
        Some(j) => in_file(*vx_sm, file_of(*vx_sm, self.fb()), $1.fb()) && covers(j.fb(), self.fb(), $1.fb()),
    },
#fn imp::Span::source_text tls=mut method=0
#ret r
#spec
    requires sm_wf(*old(vx_sm)), known(*old(vx_sm), self.fb()),
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len(),
        call_site_span(self.fb()) ==> r.is_none(),
        !call_site_span(self.fb()) ==> r.is_some() && r.unwrap()@ == span_text(*old(vx_sm), self.fb()),
#fn imp::Span::eq
#ret r
#spec
    ensures r == (fsp(self.fb()) == fsp($1.fb())),
#only B C
#fn imp::Group::new
#ret r
#spec
    ensures r.fb().delimiter == $0, toks(r.fb().stream) == toks($1.fb()), fsp(r.fb().span) == (0int, 0int),
#fn imp::Group::delimiter
#ret r
#spec
    ensures r == $0.fb().delimiter,
#fn imp::Group::stream
#ret r
#spec
    ensures toks(r.fb()) == toks($0.fb().stream),
#fn imp::Group::span
#ret r
#spec
    ensures r.fb() == $0.fb().span,
#only B
#fn imp::Group::span_open
#ret r
#spec
    ensures r.fb().lo == self.fb().span.lo, self.fb().span.lo < self.fb().span.hi ==> r.fb().hi == self.fb().span.lo + 1, self.fb().span.lo >= self.fb().span.hi ==> r.fb().hi == self.fb().span.hi,
#fn imp::Group::span_close
#ret r
#spec
    ensures r.fb().hi == self.fb().span.hi, self.fb().span.lo < self.fb().span.hi ==> r.fb().lo == self.fb().span.hi - 1, self.fb().span.lo >= self.fb().span.hi ==> r.fb().lo == self.fb().span.lo,
#only B C
#fn imp::Group::set_span
#spec
    ensures final($0).fb().delimiter == old($0).fb().delimiter, final($0).fb().stream == old($0).fb().stream, final($0).fb().span == $1.fb(),
#fn imp::<Group as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, show_tok(Tok::Group(delim_code(self.fb().delimiter), toks(self.fb().stream), 0, 0))),
    decreases *self,
#fn imp::Ident::new_checked
#ret r
#spec
    requires name_ok($0@),
    ensures r.fb().sym@ == $0@, r.fb().span == $1.fb(), !r.fb().raw,
#fn imp::Ident::new_raw_checked
#ret r
#spec
    requires raw_name_ok($0@),
    ensures r.fb().sym@ == $0@, r.fb().span == $1.fb(), r.fb().raw,
#fn imp::Ident::new_checked variant=refuses name=new_checked_p ren=fallback::Ident::new_checked:new_checked_p
#ret r
#spec
    ensures name_ok($0@), r.fb().sym@ == $0@, r.fb().span == $1.fb(), !r.fb().raw,
#fn imp::Ident::new_raw_checked variant=refuses name=new_raw_checked_p ren=fallback::Ident::new_raw_checked:new_raw_checked_p
#ret r
#spec
    ensures raw_name_ok($0@), r.fb().sym@ == $0@, r.fb().span == $1.fb(), r.fb().raw,
#fn imp::Ident::span
#ret r
#spec
    ensures r.fb() == $0.fb().span,
#fn imp::Ident::set_span
#spec
    ensures final($0).fb().sym == old($0).fb().sym, final($0).fb().raw == old($0).fb().raw, final($0).fb().span == $1.fb(),
#fn imp::<Ident as PartialEq>::eq name=v_eq veq
#ret r
#spec
    ensures r == (self.fb().raw == $1.fb().raw && self.fb().sym@ == $1.fb().sym@),
#fn imp::<Ident as PartialEq<T>>::eq name=v_eq_str mono=T:str veq=v_eq_str
#ret r
#spec
    ensures r == (spell(self.fb().raw, self.fb().sym@) == $1@),
#fn imp::<Ident as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, show_tok(Tok::Ident(self.fb().raw, self.fb().sym@, 0, 0))),
#only B
#fn imp::Literal::from_str_checked tls=mut question=LexError::v_from
#ret r
#spec
    requires sm_wf(*old(vx_sm)), room(*old(vx_sm), $0@.len() as int), $0@.len() < usize::MAX,
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len() + 1,
        text(*final(vx_sm), old(vx_sm).files@.len() as int) == $0@,
        match r {
            Ok(l) => literal_source($0@) && l.fb().repr@ == $0@ && l.fb().span == final(vx_sm).files@.last().span,
            Err(e) => !literal_source($0@) && call_site_span(e.fb().span),
        },
#only B C
#fn imp::Literal::from_str_unchecked
#ret r
#spec
    ensures r.fb().repr@ == $0@, call_site_span(r.fb().span),
#fn imp::Literal::u8_suffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int) + seq!['u', '8'], literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::u8_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int), literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::u16_suffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int) + seq!['u', '1', '6'], literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::u16_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int), literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::u32_suffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int) + seq!['u', '3', '2'], literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::u32_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int), literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::u64_suffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int) + seq!['u', '6', '4'], literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::u64_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int), literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::u128_suffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int) + seq!['u', '1', '2', '8'], literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::u128_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int), literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::usize_suffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int) + seq!['u', 's', 'i', 'z', 'e'], literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::usize_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int), literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::i8_suffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int) + seq!['i', '8'], literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::i8_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int), literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::i16_suffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int) + seq!['i', '1', '6'], literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::i16_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int), literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::i32_suffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int) + seq!['i', '3', '2'], literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::i32_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int), literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::i64_suffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int) + seq!['i', '6', '4'], literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::i64_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int), literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::i128_suffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int) + seq!['i', '1', '2', '8'], literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::i128_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int), literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::isize_suffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int) + seq!['i', 's', 'i', 'z', 'e'], literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::isize_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == dec_int($0 as int), literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::f32_suffixed
#ret r
#spec
    ensures r.fb().repr@ == show_f32($0) + seq!['f', '3', '2'], finite32($0) ==> literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::f32_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == float_text(show_f32($0)), finite32($0) ==> literal_source(r.fb().repr@) && r.fb().repr@.contains('.'), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::f64_suffixed
#ret r
#spec
    ensures r.fb().repr@ == show_f64($0) + seq!['f', '6', '4'], finite64($0) ==> literal_source(r.fb().repr@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::f64_unsuffixed
#ret r
#spec
    ensures r.fb().repr@ == float_text(show_f64($0)), finite64($0) ==> literal_source(r.fb().repr@) && r.fb().repr@.contains('.'), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::string
#ret r
#spec
    ensures r.fb().repr@ == str_repr($0@), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::character
#ret r
#spec
    ensures char_val(r.fb().repr@, 0) == Some(cp($0)), whole(g_literal(r.fb().repr@)), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::byte_character
#ret r
#spec
    ensures char_val(r.fb().repr@, 1) == Some($0 as int), whole(g_literal(r.fb().repr@)), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::byte_string
#ret r
#spec
    ensures lit_val(r.fb().repr@, 1) == Some(bytes_v($0@)), whole(g_literal(r.fb().repr@)), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::c_string
#ret r
#spec
    ensures lit_val(r.fb().repr@, 2) == Some(bytes_v($0.bytes())), whole(g_literal(r.fb().repr@)), fsp(r.fb().span) == (0int, 0int),
#fn imp::Literal::span
#ret r
#spec
    ensures r.fb() == $0.fb().span,
#fn imp::Literal::set_span
#spec
    ensures final($0).fb().repr == old($0).fb().repr, final($0).fb().span == $1.fb(),
#only B
#fn imp::Literal::subspan mono=R:VBounds
#ret r
#spec
    ensures ({
        let a = sub_lo($1.from(), self.fb().span.lo as int);
        let b = sub_hi($1.to(), self.fb().span.lo as int, self.fb().span.hi as int);
        match r { Some(s) => a <= b <= self.fb().span.hi && s.fb().lo == a && s.fb().hi == b, None => !(a <= b <= self.fb().span.hi) }
    }),
#only B C
#fn imp::<Literal as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, self.fb().repr@),
#only B
#fn imp::invalidate_current_thread_spans tls=mut
#spec
    requires sm_wf(*old(vx_sm)),
    ensures sm_wf(*final(vx_sm)), final(vx_sm).files@ == old(vx_sm).files@.take(1),
#only B C
#end
#only *
