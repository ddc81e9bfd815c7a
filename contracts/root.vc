#mod -
#only A B
use crate::fallback::{SourceMap, sm_wf, same_texts, known, in_file, file_of, text, base, room, byte_pos, span_text, call_site_span, covers, file_name, sub_lo, sub_hi, lemma_file_of};
use crate::location::LineColumn;
#only *
use crate::extra::DelimSpan;
use core::ops::Range;
#fn Span::mixed_site
#ret r
#spec
    ensures sp(r) == (0int, 0int),
#only A B
#fn Span::def_site
#ret r
#spec
    ensures sp(r) == (0int, 0int),
#only *
#fn Span::resolved_at
#ret r
#spec
    ensures sp(r) == sp(*self),
#fn Span::located_at
#ret r
#spec
    ensures sp(r) == sp($1),
#only A B
#fn Span::byte_range tls=mut
#ret r
#spec
    requires sm_wf(*old(vx_sm)), known(*old(vx_sm), self.inner.fb()),
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len(),
        call_site_span(self.inner.fb()) ==> r.start == 0 && r.end == 0,
        !call_site_span(self.inner.fb()) ==> r.start == byte_pos(*old(vx_sm), self.inner.fb(), self.inner.fb().lo) && r.end == byte_pos(*old(vx_sm), self.inner.fb(), self.inner.fb().hi),
#fn Span::start tls=ref
#ret r
#spec
    requires sm_wf(*vx_sm), known(*vx_sm, self.inner.fb()),
    ensures r.line == line_no(text(*vx_sm, file_of(*vx_sm, self.inner.fb())), self.inner.fb().lo - base(*vx_sm, file_of(*vx_sm, self.inner.fb()))), r.column == line_col(text(*vx_sm, file_of(*vx_sm, self.inner.fb())), self.inner.fb().lo - base(*vx_sm, file_of(*vx_sm, self.inner.fb()))),
#fn Span::end tls=ref
#ret r
#spec
    requires sm_wf(*vx_sm), known(*vx_sm, self.inner.fb()),
    ensures r.line == line_no(text(*vx_sm, file_of(*vx_sm, self.inner.fb())), self.inner.fb().hi - base(*vx_sm, file_of(*vx_sm, self.inner.fb()))), r.column == line_col(text(*vx_sm, file_of(*vx_sm, self.inner.fb())), self.inner.fb().hi - base(*vx_sm, file_of(*vx_sm, self.inner.fb()))),
#fn Span::file tls=ref
#ret r
#spec
    requires sm_wf(*vx_sm), known(*vx_sm, self.inner.fb()),
    ensures r@ == file_name(file_of(*vx_sm, self.inner.fb())),
#fn Span::join tls=ref
#ret r
#spec
    requires sm_wf(*vx_sm), known(*vx_sm, self.inner.fb()), sp($1).0 <= sp($1).1,
    ensures match r {
        None => !in_file(*vx_sm, file_of(*vx_sm, self.inner.fb()), $1.inner.fb()),
        Some(j) => in_file(*vx_sm, file_of(*vx_sm, self.inner.fb()), $1.inner.fb()) && covers(j.inner.fb(), self.inner.fb(), $1.inner.fb()),
    },
#fn Span::eq
#ret r
#spec
    ensures r == (sp(*self) == sp(*$1)),
#fn Span::source_text tls=mut
#ret r
#spec
    requires sm_wf(*old(vx_sm)), known(*old(vx_sm), self.inner.fb()),
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len(),
        call_site_span(self.inner.fb()) ==> r.is_none(),
        !call_site_span(self.inner.fb()) ==> r.is_some() && r.unwrap()@ == span_text(*old(vx_sm), self.inner.fb()),
#fn Group::span_open
#ret r
#spec
    ensures sp(r).0 == self.inner.fb().span.lo, self.inner.fb().span.lo < self.inner.fb().span.hi ==> sp(r).1 == self.inner.fb().span.lo + 1,
#fn Group::span_close
#ret r
#spec
    ensures sp(r).1 == self.inner.fb().span.hi, self.inner.fb().span.lo < self.inner.fb().span.hi ==> sp(r).0 == self.inner.fb().span.hi - 1,
#only *
#fn Group::delim_span
#ret r
#spec
    ensures extra::dsp(r) == self.inner.fb().span,
#only A B
#fn Literal::subspan mono=R:VBounds
#ret r
#spec
    ensures ({
        let a = sub_lo($1.from(), self.inner.fb().span.lo as int);
        let b = sub_hi($1.to(), self.inner.fb().span.lo as int, self.inner.fb().span.hi as int);
        match r { Some(s) => a <= b <= self.inner.fb().span.hi && sp(s) == (a, b), None => !(a <= b <= self.inner.fb().span.hi) }
    }),
#only *
#fn LexError::span
#ret r
#spec
    ensures r.inner.fb() == self.inner.fb().span,
#only A B
#fn <TokenStream as FromStr>::from_str tls=mut
#ret r
#spec
    requires sm_wf(*old(vx_sm)), room(*old(vx_sm), $0@.len() as int), $0@.len() < usize::MAX,
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len() + 1,
        text(*final(vx_sm), old(vx_sm).files@.len() as int) == $0@,
        match r {
            Ok(s) => lex_source($0@, base(*final(vx_sm), old(vx_sm).files@.len() as int)) == LexR::Ok(toks(s.inner.fb())),
            Err(e) => lex_source($0@, base(*final(vx_sm), old(vx_sm).files@.len() as int)) == LexR::Err(e.inner.fb().span.lo as int) && e.inner.fb().span.lo == e.inner.fb().span.hi,
        },
#fn <Literal as FromStr>::from_str tls=mut
#ret r
#spec
    requires sm_wf(*old(vx_sm)), room(*old(vx_sm), $0@.len() as int), $0@.len() < usize::MAX,
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len() + 1,
        text(*final(vx_sm), old(vx_sm).files@.len() as int) == $0@,
        match r {
            Ok(l) => literal_source($0@) && tok(TokenTree::Literal(l)) == Tok::Lit($0@, base(*final(vx_sm), old(vx_sm).files@.len() as int), base(*final(vx_sm), old(vx_sm).files@.len() as int) + $0@.len()),
            Err(e) => !literal_source($0@),
        },
#only *
#end
#mod extra
use super::*;
#type extra::DelimSpan
#type extra::DelimSpanEnum
#raw extra dsp
pub open spec fn dsp(d: DelimSpan) -> fallback::Span { match d.inner { DelimSpanEnum::Fallback(s) => s } }
#only A B
#fn extra::invalidate_current_thread_spans tls=mut
#spec
    requires sm_wf(*old(vx_sm)),
    ensures sm_wf(*final(vx_sm)), final(vx_sm).files@ == old(vx_sm).files@.take(1),
#only *
#fn extra::DelimSpan::new
#ret r
#spec
    ensures dsp(r) == $0.fb().span,
#fn extra::DelimSpan::join
#ret r
#spec
    ensures r.inner.fb() == dsp(*self),
#only A B
#fn extra::DelimSpan::open
#ret r
#spec
    ensures sp(r).0 == dsp(*self).lo, dsp(*self).lo < dsp(*self).hi ==> sp(r).1 == dsp(*self).lo + 1,
#fn extra::DelimSpan::close
#ret r
#spec
    ensures sp(r).1 == dsp(*self).hi, dsp(*self).lo < dsp(*self).hi ==> sp(r).0 == dsp(*self).hi - 1,
#only *
#end
#mod location
#only A B
#fn location::<LineColumn as PartialOrd>::partial_cmp
#ret r
#spec
    ensures r == Some(if self.line < $1.line || (self.line == $1.line && self.column < $1.column) { Ordering::Less } else if self.line == $1.line && self.column == $1.column { Ordering::Equal } else { Ordering::Greater }),
#fn location::<LineColumn as Ord>::cmp
#ret r
#spec
    ensures r == if self.line < $1.line || (self.line == $1.line && self.column < $1.column) { Ordering::Less } else if self.line == $1.line && self.column == $1.column { Ordering::Equal } else { Ordering::Greater },
#only *
#end
