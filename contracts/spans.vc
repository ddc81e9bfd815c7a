#mod location
use super::*;
use core::cmp::Ordering;
#only A B
#type location::LineColumn derive=Copy,Clone
#only *
#end
#mod fallback
#only A B
use crate::location::LineColumn;
#only *
use crate::parse::{self, Cursor};
use core::cmp::Ordering;
use core::ops::Range;

#only A B
#type fallback::FileInfo
#type fallback::SourceMap
#raw fallback source_map
/// The table of parsed texts, as it must always be.
pub open spec fn fi_wf(f: FileInfo) -> bool {
    let t = f.source_text@;
    f.span.hi - f.span.lo == t.len()
    && ints(f.lines@) == line_starts(t, t.len() as int)
    && (forall|k: usize| #[trigger] f.char_index_to_byte_offset@.contains_key(k) ==> k <= t.len() && f.char_index_to_byte_offset@[k] == blen(t.take(k as int)))
}
pub open spec fn sm_wf(m: SourceMap) -> bool {
    m.files@.len() >= 1 && m.files@[0].span.lo == 0 && m.files@[0].span.hi == 0
    && (forall|i: int| 0 <= i < m.files@.len() ==> fi_wf(#[trigger] m.files@[i]))
    && (forall|i: int, j: int| 0 <= i < j < m.files@.len() ==> (#[trigger] m.files@[i]).span.hi < (#[trigger] m.files@[j]).span.lo)
}
/// the text number `i` and where its positions start
pub open spec fn text(m: SourceMap, i: int) -> Seq<char> { m.files@[i].source_text@ }
pub open spec fn base(m: SourceMap, i: int) -> int { m.files@[i].span.lo as int }
pub open spec fn in_file(m: SourceMap, i: int, s: Span) -> bool {
    0 <= i < m.files@.len() && m.files@[i].span.lo <= s.lo <= s.hi <= m.files@[i].span.hi
}
pub open spec fn known(m: SourceMap, s: Span) -> bool { exists|i: int| in_file(m, i, s) }
pub open spec fn file_of(m: SourceMap, s: Span) -> int { choose|i: int| in_file(m, i, s) }
pub open spec fn same_file(a: FileInfo, b: FileInfo) -> bool { a.source_text@ == b.source_text@ && a.span == b.span && a.lines@ == b.lines@ }
/// nothing that can be observed of the texts known so far has changed
pub open spec fn same_texts(a: SourceMap, b: SourceMap) -> bool {
    a.files@.len() <= b.files@.len() && (forall|i: int| 0 <= i < a.files@.len() ==> same_file(a.files@[i], #[trigger] b.files@[i]))
}
/// room for `n` more characters
pub open spec fn room(m: SourceMap, n: int) -> bool { m.files@.last().span.hi + 1 + n <= u32::MAX }
pub broadcast proof fn lemma_file_of(m: SourceMap, i: int, s: Span)
    requires sm_wf(m), #[trigger] in_file(m, i, s),
    ensures file_of(m, s) == i,
{
    let j = file_of(m, s);
    if i < j { assert(m.files@[i].span.hi < m.files@[j].span.lo); } else if j < i { assert(m.files@[j].span.hi < m.files@[i].span.lo); }
}
pub open spec fn span_text(m: SourceMap, s: Span) -> Seq<char> {
    let i = file_of(m, s);
    part(text(m, i), s.lo - base(m, i), s.hi - base(m, i))
}
pub open spec fn byte_pos(m: SourceMap, s: Span, p: u32) -> int { let i = file_of(m, s); blen(text(m, i).take(p - base(m, i))) }
pub open spec fn call_site_span(s: Span) -> bool { s.lo == 0 && s.hi == 0 }

#fn fallback::SOURCE_MAP_init
#ret r
#spec
    ensures sm_wf(r.v), r.v.files@.len() == 1, r.v.files@[0].source_text@.len() == 0,
#entry
    proof { assert(ints(Seq::<usize>::empty().push(0usize)) =~= line_starts(Seq::<char>::empty(), 0)); }
#fn fallback::lines_offsets
#ret r
#spec
    requires $0@.len() < usize::MAX,
    ensures r.0 == $0@.len(), ints(r.1@) == line_starts($0@, $0@.len() as int),
#loop 0
    invariant total + $it.rest().len() == $0@.len(), $it.rest() == $0@.skip(total as int), ints(lines@) == line_starts($0@, total as int), $0@.len() < usize::MAX,
    decreases $it.rest().len(),
#loop 0 before
    proof { assert(ints(lines@) =~= line_starts($0@, 0)); }
#fn fallback::FileInfo::span_within
#ret r
#spec
    ensures r == (self.span.lo <= $1.lo && $1.hi <= self.span.hi),
#fn fallback::FileInfo::offset_line_column
#ret r
#spec
    requires fi_wf(*self), self.span.lo <= $1 <= self.span.hi,
    ensures r.line == line_no(self.source_text@, $1 - self.span.lo), r.column == line_col(self.source_text@, $1 - self.span.lo),
#entry
    proof {
        let t = self.source_text@;
        let o = $1 - self.span.lo;
        lemma_line_starts(t, o, t.len() as int);
        let v = self.lines@;
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] == line_starts(t, t.len() as int)[i] by { assert(ints(v)[i] == v[i] as int); }
        assert(v.len() == line_starts(t, t.len() as int).len());
    }
#fn fallback::FileInfo::byte
#ret r
#spec
    requires fi_wf(*old(self)), old(self).span.lo <= $1 <= old(self).span.hi,
    ensures fi_wf(*final(self)), same_file(*old(self), *final(self)), r == blen(old(self).source_text@.take($1 - old(self).span.lo)),
#entry
    hide(line_starts); hide(bdry);
    broadcast use vx_pos;
    proof { lemma_pos(self.source_text@, 0); lemma_pos(self.source_text@, $1 - self.span.lo); }
#fn fallback::FileInfo::byte_range
#ret r
#spec
    requires fi_wf(*old(self)), old(self).span.lo <= $1.lo <= $1.hi <= old(self).span.hi,
    ensures fi_wf(*final(self)), same_file(*old(self), *final(self)),
        r.start == blen(old(self).source_text@.take($1.lo - old(self).span.lo)), r.end == blen(old(self).source_text@.take($1.hi - old(self).span.lo)),
#fn fallback::FileInfo::source_text
#ret r
#spec
    requires fi_wf(*old(self)), old(self).span.lo <= $1.lo <= $1.hi <= old(self).span.hi,
    ensures fi_wf(*final(self)), same_file(*old(self), *final(self)), r@ == part(old(self).source_text@, $1.lo - old(self).span.lo, $1.hi - old(self).span.lo),
#entry
    proof { lemma_byte_part(self.source_text@, $1.lo - self.span.lo, $1.hi - self.span.lo); }
#fn fallback::SourceMap::next_start_pos
#ret r
#spec
    requires sm_wf(*self), room(*self, 0),
    ensures r == self.files@.last().span.hi + 1,
#fn fallback::SourceMap::add_file
#ret r
#spec
    requires sm_wf(*old(self)), room(*old(self), $1@.len() as int), $1@.len() < usize::MAX,
    ensures sm_wf(*final(self)), same_texts(*old(self), *final(self)), final(self).files@.len() == old(self).files@.len() + 1,
        text(*final(self), old(self).files@.len() as int) == $1@, final(self).files@.last().span == r, in_file(*final(self), old(self).files@.len() as int, r), r.hi - r.lo == $1@.len(),
#fn fallback::SourceMap::find
#ret r
#spec
    requires sm_wf(*self), known(*self, $1),
    ensures in_file(*self, r as int, $1), r == file_of(*self, $1),
#closure 0 |file: &FileInfo| -> (o: Ordering)
    requires $a$.span.lo <= $a$.span.hi && $1.lo <= $1.hi && ($a$.span.hi < $1.lo || $a$.span.lo > $1.hi || ($a$.span.lo <= $1.lo && $1.hi <= $a$.span.hi))
    ensures o == if $a$.span.hi < $1.lo { Ordering::Less } else if $a$.span.lo > $1.hi { Ordering::Greater } else { Ordering::Equal }
#fn fallback::SourceMap::filepath
#ret r
#spec
    requires sm_wf(*self), known(*self, $1),
    ensures r@ == file_name(file_of(*self, $1)),
#fn fallback::SourceMap::fileinfo
#ret r
#spec
    requires sm_wf(*self), known(*self, $1),
    ensures *r == self.files@[file_of(*self, $1)], in_file(*self, file_of(*self, $1), $1),
#fn fallback::SourceMap::fileinfo_mut
#ret r
#spec
    requires sm_wf(*old(self)), known(*old(self), $1),
    ensures *r == old(self).files@[file_of(*old(self), $1)], in_file(*old(self), file_of(*old(self), $1), $1),
        final(self).files@ == old(self).files@.update(file_of(*old(self), $1), *final(r)),
#raw fallback file_name
pub open spec fn file_name(i: int) -> Seq<char> {
    if i == 0 { "<unspecified>"@ } else { "<parsed string "@ + dec(i) + ">"@ }
}
#fn fallback::get_cursor tls=mut lt=Cursor
#ret r
#spec
    requires sm_wf(*old(vx_sm)), room(*old(vx_sm), $0@.len() as int), $0@.len() < usize::MAX,
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len() + 1,
        text(*final(vx_sm), old(vx_sm).files@.len() as int) == $0@, r.rest@ == $0@, r.off == base(*final(vx_sm), old(vx_sm).files@.len() as int),
#fn fallback::invalidate_current_thread_spans tls=mut
#spec
    requires sm_wf(*old(vx_sm)),
    ensures sm_wf(*final(vx_sm)), final(vx_sm).files@ == old(vx_sm).files@.take(1),
#fn fallback::<Span as PartialEq>::eq name=eq
#ret r
#spec
    ensures r == (self.lo == $1.lo && self.hi == $1.hi),
#only *
#fn fallback::Span::mixed_site
#ret r
#spec
    ensures fsp(r) == (0int, 0int),
#only A B
#fn fallback::Span::def_site
#ret r
#spec
    ensures fsp(r) == (0int, 0int),
#only *
#fn fallback::Span::resolved_at
#ret r
#spec
    ensures r == *self,
#fn fallback::Span::located_at
#ret r
#spec
    ensures r == $1,
#only A B
#fn fallback::Span::is_call_site
#ret r
#spec
    ensures r == call_site_span(*self),
#fn fallback::Span::byte_range tls=mut method=0
#ret r
#spec
    requires sm_wf(*old(vx_sm)), known(*old(vx_sm), *self),
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len(),
        call_site_span(*self) ==> r.start == 0 && r.end == 0,
        !call_site_span(*self) ==> r.start == byte_pos(*old(vx_sm), *self, self.lo) && r.end == byte_pos(*old(vx_sm), *self, self.hi),
#fn fallback::Span::start tls=ref method=0
#ret r
#spec
    requires sm_wf(*vx_sm), known(*vx_sm, *self),
    ensures r.line == line_no(text(*vx_sm, file_of(*vx_sm, *self)), self.lo - base(*vx_sm, file_of(*vx_sm, *self))), r.column == line_col(text(*vx_sm, file_of(*vx_sm, *self)), self.lo - base(*vx_sm, file_of(*vx_sm, *self))),
#fn fallback::Span::end tls=ref method=0
#ret r
#spec
    requires sm_wf(*vx_sm), known(*vx_sm, *self),
    ensures r.line == line_no(text(*vx_sm, file_of(*vx_sm, *self)), self.hi - base(*vx_sm, file_of(*vx_sm, *self))), r.column == line_col(text(*vx_sm, file_of(*vx_sm, *self)), self.hi - base(*vx_sm, file_of(*vx_sm, *self))),
#fn fallback::Span::file tls=ref method=0
#ret r
#spec
    requires sm_wf(*vx_sm), known(*vx_sm, *self),
    ensures r@ == file_name(file_of(*vx_sm, *self)),
#fn fallback::Span::join tls=ref method=1
#ret r
#spec
    requires sm_wf(*vx_sm), known(*vx_sm, *self), $1.lo <= $1.hi,
    ensures match r {
        None => !in_file(*vx_sm, file_of(*vx_sm, *self), $1),
        Some(j) => in_file(*vx_sm, file_of(*vx_sm, *self), $1) && covers(j, *self, $1),
    },
#fn fallback::Span::source_text tls=mut method=0
#ret r
#spec
    requires sm_wf(*old(vx_sm)), known(*old(vx_sm), *self),
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len(),
        call_site_span(*self) ==> r.is_none(),
        !call_site_span(*self) ==> r.is_some() && r.unwrap()@ == span_text(*old(vx_sm), *self),
#fn fallback::Span::first_byte
#ret r
#spec
    ensures r.lo == self.lo, self.lo < self.hi ==> r.hi == self.lo + 1, self.lo >= self.hi ==> r.hi == self.hi,
#fn fallback::Span::last_byte
#ret r
#spec
    ensures r.hi == self.hi, self.lo < self.hi ==> r.lo == self.hi - 1, self.lo >= self.hi ==> r.lo == self.lo,
#raw fallback covers
/// the smallest span around both
pub open spec fn covers(j: Span, a: Span, b: Span) -> bool {
    j.lo == (if a.lo <= b.lo { a.lo } else { b.lo }) && j.hi == (if a.hi >= b.hi { a.hi } else { b.hi })
}
#fn fallback::Group::span_open
#ret r
#spec
    ensures r.lo == self.span.lo, self.span.lo < self.span.hi ==> r.hi == self.span.lo + 1, self.span.lo >= self.span.hi ==> r.hi == self.span.hi,
#fn fallback::Group::span_close
#ret r
#spec
    ensures r.hi == self.span.hi, self.span.lo < self.span.hi ==> r.lo == self.span.hi - 1, self.span.lo >= self.span.hi ==> r.lo == self.span.lo,
#only *
#fn fallback::LexError::span
#ret r
#spec
    ensures r == self.span,
#fn fallback::LexError::call_site
#ret r
#spec
    ensures call_site_span(r.span),
#only A B
#fn fallback::TokenStream::from_str_checked tls=mut
#ret r
#spec
    requires sm_wf(*old(vx_sm)), room(*old(vx_sm), $0@.len() as int), $0@.len() < usize::MAX,
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len() + 1,
        text(*final(vx_sm), old(vx_sm).files@.len() as int) == $0@,
        match r {
            Ok(s) => lex_source($0@, base(*final(vx_sm), old(vx_sm).files@.len() as int)) == LexR::Ok(toks(s)),
            Err(e) => lex_source($0@, base(*final(vx_sm), old(vx_sm).files@.len() as int)) == LexR::Err(e.span.lo as int) && e.span.lo == e.span.hi,
        },
#fn fallback::Literal::from_str_checked tls=mut
#ret r
#spec
    requires sm_wf(*old(vx_sm)), room(*old(vx_sm), $0@.len() as int), $0@.len() < usize::MAX,
    ensures sm_wf(*final(vx_sm)), same_texts(*old(vx_sm), *final(vx_sm)), final(vx_sm).files@.len() == old(vx_sm).files@.len() + 1,
        text(*final(vx_sm), old(vx_sm).files@.len() as int) == $0@,
        match r {
            Ok(l) => literal_source($0@) && l.repr@ == $0@ && l.span == final(vx_sm).files@.last().span,
            Err(e) => !literal_source($0@) && call_site_span(e.span),
        },
#closure 0 |ch: char| -> (b: bool)
    ensures b == is_dec($a$)
#only *
#fn fallback::Literal::from_str_unchecked
#ret r
#spec
    ensures r.repr@ == $0@, call_site_span(r.span),
#only A B
#raw fallback subspan
/// part `from..to` of a literal at `lo..hi`, as positions
pub open spec fn sub_lo(b: Bound<usize>, lo: int) -> int { match b { Bound::Included(x) => lo + x, Bound::Excluded(x) => lo + x + 1, Bound::Unbounded => lo } }
pub open spec fn sub_hi(b: Bound<usize>, lo: int, hi: int) -> int { match b { Bound::Included(x) => lo + x + 1, Bound::Excluded(x) => lo + x, Bound::Unbounded => hi } }
#fn fallback::Literal::subspan mono=R:VBounds
#ret r
#spec
    ensures ({
        let a = sub_lo($1.from(), self.span.lo as int);
        let b = sub_hi($1.to(), self.span.lo as int, self.span.hi as int);
        match r { Some(s) => a <= b <= self.span.hi && s.lo == a && s.hi == b, None => !(a <= b <= self.span.hi) }
    }),
#only *
#end
#mod parse
#fn parse::Cursor::starts_with_fn ren=starts_with:v_starts_with_fn
#ret r
#spec
    requires forall|c: char| #[trigger] $1.requires((c,)),
    ensures self.rest@.len() == 0 ==> !r, self.rest@.len() > 0 ==> $1.ensures((self.rest@[0],), r),
#end
