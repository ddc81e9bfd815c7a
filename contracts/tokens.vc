#bcast vx_text, vx_tok
#mod -
use vstd::prelude::*;
#only A
#raw - imp
pub mod imp { pub use crate::fallback::*; }
#only *

#type Span derive=Copy,Clone
#type TokenTree
#type Group
#type Delimiter derive=Copy,Clone,PartialEq,Eq,Structural
#type Punct
#type Spacing derive=Copy,Clone,PartialEq,Eq,Structural
#type Ident
#type Literal
#type TokenStream
#type LexError
#fn <TokenTree as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn <Group as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn <Ident as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn <Literal as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn <Punct as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn <Span as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn <Spacing as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn <Delimiter as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn <TokenStream as Clone>::clone
#ret r
#spec
    ensures r == *$0,

#raw - views
pub open spec fn delim_code(d: Delimiter) -> int {
    match d { Delimiter::Parenthesis => 0, Delimiter::Brace => 1, Delimiter::Bracket => 2, Delimiter::None => 3 }
}
/// What a token is, for everyone who can only look at it from outside.
pub open spec fn tok(t: TokenTree) -> Tok
    decreases t,
{
    match t {
        TokenTree::Group(g) => Tok::Group(delim_code(g.inner.fb().delimiter), toks(g.inner.fb().stream), fsp(g.inner.fb().span).0, fsp(g.inner.fb().span).1),
        TokenTree::Ident(i) => Tok::Ident(i.inner.fb().raw, i.inner.fb().sym@, fsp(i.inner.fb().span).0, fsp(i.inner.fb().span).1),
        TokenTree::Punct(p) => Tok::Punct(p.ch, p.spacing == Spacing::Joint, fsp(p.span.inner.fb()).0, fsp(p.span.inner.fb()).1),
        TokenTree::Literal(l) => Tok::Lit(l.inner.fb().repr@, fsp(l.inner.fb().span).0, fsp(l.inner.fb().span).1),
    }
}
pub open spec fn toks(s: fallback::TokenStream) -> Seq<Tok>
    decreases s,
{
    s.inner.inner@.map(|i: int, t: TokenTree| if decreases_to!(s => t) { tok(t) } else { arbitrary() })
}
/// the same for a plain sequence of token trees
pub open spec fn tokv(v: Seq<TokenTree>) -> Seq<Tok> { v.map(|i: int, t: TokenTree| tok(t)) }
pub broadcast proof fn lemma_toks(s: fallback::TokenStream)
    ensures #[trigger] toks(s) == tokv(s.inner.inner@),
{
    assert forall|i: int| 0 <= i < s.inner.inner@.len() implies decreases_to!(s => #[trigger] s.inner.inner@[i]) by {
        assert(decreases_to!(s => s.inner));
        assert(decreases_to!(s.inner => s.inner.inner));
        assert(decreases_to!(*s.inner.inner => s.inner.inner@));
        assert(decreases_to!(s.inner.inner@ => s.inner.inner@[i]));
    }
    assert(toks(s) =~= tokv(s.inner.inner@));
}
pub broadcast proof fn lemma_tokv_push(v: Seq<TokenTree>, t: TokenTree)
    ensures #[trigger] tokv(v.push(t)) == tokv(v).push(tok(t)),
{ assert(tokv(v.push(t)) =~= tokv(v).push(tok(t))); }
pub broadcast proof fn lemma_tokv_empty(v: Seq<TokenTree>)
    requires v.len() == 0,
    ensures #[trigger] tokv(v) == Seq::<Tok>::empty(),
{ assert(tokv(v) =~= Seq::<Tok>::empty()); }
pub broadcast proof fn lemma_tokv_add(v: Seq<TokenTree>, w: Seq<TokenTree>)
    ensures #[trigger] tokv(v + w) == tokv(v) + tokv(w),
{ assert(tokv(v + w) =~= tokv(v) + tokv(w)); }
pub broadcast group vx_tok { lemma_toks, lemma_tokv_push, lemma_tokv_empty, lemma_tokv_add }
/// positions of a span
pub open spec fn sp(s: Span) -> (int, int) { fsp(s.inner.fb()) }
#only A B
#[verifier::inline]
pub open spec fn fsp(s: fallback::Span) -> (int, int) { (s.lo as int, s.hi as int) }
#only C
#[verifier::inline]
pub open spec fn fsp(s: fallback::Span) -> (int, int) { (0int, 0int) }
#only *
/// a token moved to another place
pub open spec fn moved(t: Tok, lo: int, hi: int) -> Tok {
    match t { Tok::Group(d, v, a, b) => Tok::Group(d, v, lo, hi), Tok::Ident(r, n, a, b) => Tok::Ident(r, n, lo, hi), Tok::Punct(c, j, a, b) => Tok::Punct(c, j, lo, hi), Tok::Lit(x, a, b) => Tok::Lit(x, lo, hi) }
}
#raw - frames
pub open spec fn no_frames() -> Seq<(int, int, Seq<Tok>)> { Seq::<(int, int, Seq<Tok>)>::empty() }
#only A B
pub open spec fn frames(v: Seq<(u32, (Delimiter, fallback::TokenStreamBuilder))>) -> Seq<(int, int, Seq<Tok>)> {
    v.map(|i: int, f: (u32, (Delimiter, fallback::TokenStreamBuilder))| (f.0 as int, delim_code(f.1.0), tokv(f.1.1.inner.inner@)))
}
pub broadcast proof fn lemma_frames_push(v: Seq<(u32, (Delimiter, fallback::TokenStreamBuilder))>, f: (u32, (Delimiter, fallback::TokenStreamBuilder)))
    ensures #[trigger] frames(v.push(f)) == frames(v).push((f.0 as int, delim_code(f.1.0), tokv(f.1.1.inner.inner@))),
{ assert(frames(v.push(f)) =~= frames(v).push((f.0 as int, delim_code(f.1.0), tokv(f.1.1.inner.inner@)))); }
pub broadcast proof fn lemma_frames_pop(v: Seq<(u32, (Delimiter, fallback::TokenStreamBuilder))>)
    requires v.len() > 0,
    ensures #[trigger] frames(v.subrange(0, v.len() - 1)) == frames(v).drop_last(),
{ assert(v.drop_last() =~= v.subrange(0, v.len() - 1)); assert(frames(v.drop_last()) =~= frames(v).drop_last()); }
pub broadcast proof fn lemma_frames_empty(v: Seq<(u32, (Delimiter, fallback::TokenStreamBuilder))>)
    requires v.len() == 0,
    ensures #[trigger] frames(v) == no_frames(),
{ assert(frames(v) =~= no_frames()); }
pub broadcast group vx_frames { lemma_frames_push, lemma_frames_pop, lemma_frames_empty }
#only C
pub open spec fn frames(v: Seq<(Delimiter, fallback::TokenStreamBuilder)>) -> Seq<(int, int, Seq<Tok>)> {
    v.map(|i: int, f: (Delimiter, fallback::TokenStreamBuilder)| (0int, delim_code(f.0), tokv(f.1.inner.inner@)))
}
pub broadcast proof fn lemma_frames_push(v: Seq<(Delimiter, fallback::TokenStreamBuilder)>, f: (Delimiter, fallback::TokenStreamBuilder))
    ensures #[trigger] frames(v.push(f)) == frames(v).push((0int, delim_code(f.0), tokv(f.1.inner.inner@))),
{ assert(frames(v.push(f)) =~= frames(v).push((0int, delim_code(f.0), tokv(f.1.inner.inner@)))); }
pub broadcast proof fn lemma_frames_pop(v: Seq<(Delimiter, fallback::TokenStreamBuilder)>)
    requires v.len() > 0,
    ensures #[trigger] frames(v.subrange(0, v.len() - 1)) == frames(v).drop_last(),
{ assert(v.drop_last() =~= v.subrange(0, v.len() - 1)); assert(frames(v.drop_last()) =~= frames(v).drop_last()); }
pub broadcast proof fn lemma_frames_empty(v: Seq<(Delimiter, fallback::TokenStreamBuilder)>)
    requires v.len() == 0,
    ensures #[trigger] frames(v) == no_frames(),
{ assert(frames(v) =~= no_frames()); }
pub broadcast group vx_frames { lemma_frames_push, lemma_frames_pop, lemma_frames_empty }
#only *
#fn Span::_new_fallback
#ret r
#spec
    ensures r.inner.fb() == $0,
#fn Span::_new
#ret r
#spec
    ensures r.inner == $0,
#fn Span::call_site
#ret r
#spec
    ensures sp(r) == (0int, 0int),
#fn Group::_new_fallback
#ret r
#spec
    ensures r.inner.fb() == $0,
#fn Group::_new
#ret r
#spec
    ensures r.inner == $0,
#fn Group::new
#ret r
#spec
    ensures tok(TokenTree::Group(r)) == Tok::Group(delim_code($0), toks($1.inner.fb()), 0, 0),
#fn Group::delimiter
#ret r
#spec
    ensures r == $0.inner.fb().delimiter,
#fn Group::stream
#ret r
#spec
    ensures toks(r.inner.fb()) == toks($0.inner.fb().stream),
#fn Group::set_span
#spec
    ensures tok(TokenTree::Group(*final($0))) == moved(tok(TokenTree::Group(*old($0))), sp($1).0, sp($1).1),
#fn Group::span
#ret r
#spec
    ensures r.inner.fb() == $0.inner.fb().span,
#fn Ident::_new_fallback
#ret r
#spec
    ensures r.inner.fb() == $0,
#fn Ident::_new
#ret r
#spec
    ensures r.inner == $0,
#fn Ident::set_span
#spec
    ensures tok(TokenTree::Ident(*final($0))) == moved(tok(TokenTree::Ident(*old($0))), sp($1).0, sp($1).1),
#fn Ident::span
#ret r
#spec
    ensures r.inner.fb() == $0.inner.fb().span,
#fn Literal::_new_fallback
#ret r
#spec
    ensures r.inner.fb() == $0,
#fn Literal::_new
#ret r
#spec
    ensures r.inner == $0,
#fn Literal::set_span
#spec
    ensures tok(TokenTree::Literal(*final($0))) == moved(tok(TokenTree::Literal(*old($0))), sp($1).0, sp($1).1),
#fn Literal::span
#ret r
#spec
    ensures r.inner.fb() == $0.inner.fb().span,
#fn Punct::new panic=forbid
#ret r
#spec
    requires is_punct($0),
    ensures tok(TokenTree::Punct(r)) == Tok::Punct($0, $1 == Spacing::Joint, 0, 0),
#fn Punct::as_char
#ret r
#spec
    ensures r == $0.ch,
#fn Punct::spacing
#ret r
#spec
    ensures r == $0.spacing,
#fn Punct::set_span
#spec
    ensures tok(TokenTree::Punct(*final($0))) == moved(tok(TokenTree::Punct(*old($0))), sp($1).0, sp($1).1),
#fn Punct::span
#ret r
#spec
    ensures r == $0.span,
#fn TokenTree::set_span
#spec
    ensures tok(*final($0)) == moved(tok(*old($0)), sp($1).0, sp($1).1),
#fn TokenTree::span
#ret r
#spec
    ensures tok(*$0) == moved(tok(*$0), sp(r).0, sp(r).1),
#fn TokenStream::_new
#ret r
#spec
    ensures r.inner == $0,
#end
#mod rcvec
use super::*;
#type rcvec::RcVec
#type rcvec::RcVecBuilder
#type rcvec::RcVecMut
#fn rcvec::RcVec::is_empty
#ret r
#spec
    ensures r == ($0.inner@.len() == 0),
#fn rcvec::RcVec::len
#ret r
#spec
    ensures r == $0.inner@.len(),
#fn rcvec::RcVec::make_mut nowhere
#ret r
#spec
    ensures r.inner@ == old($0).inner@, final($0).inner@ == final(r.inner)@,
#fn rcvec::RcVec::get_mut
#ret r
#spec
    ensures match r { Some(m) => m.inner@ == old($0).inner@ && final($0).inner@ == final(m.inner)@, None => final($0).inner@ == old($0).inner@ && held(final($0).inner@) },
#fn rcvec::RcVec::make_owned nowhere
#ret r
#spec
    ensures r.inner@ == $0.inner@,
#fn rcvec::RcVecBuilder::new
#ret r
#spec
    ensures r.inner@.len() == 0,
#fn rcvec::RcVecBuilder::with_capacity
#ret r
#spec
    ensures r.inner@.len() == 0,
#fn rcvec::RcVecBuilder::push
#spec
    ensures final($0).inner@ == old($0).inner@.push($1),
#fn rcvec::RcVecBuilder::extend
#spec
    ensures final($0).inner@ == old($0).inner@ + $1.items(),
#fn rcvec::RcVecBuilder::as_mut
#ret r
#spec
    ensures r.inner@ == old($0).inner@, final($0).inner@ == final(r.inner)@,
#fn rcvec::RcVecBuilder::build
#ret r
#spec
    ensures r.inner@ == $0.inner@,
#fn rcvec::RcVecMut::push
#spec
    ensures final($0).inner@ == old($0).inner@.push($1), final(final($0).inner)@ == final(old($0).inner)@,
#fn rcvec::RcVecMut::extend
#spec
    ensures final($0).inner@ == old($0).inner@ + $1.items(), final(final($0).inner)@ == final(old($0).inner)@,
#fn rcvec::RcVecMut::as_mut
#ret r
#spec
    ensures r.inner@ == old($0).inner@, final($0).inner@ == final(r.inner)@, final(final($0).inner)@ == final(old($0).inner)@,
#fn rcvec::RcVecMut::take
#ret r
#spec
    ensures r.inner@ == old($0.inner)@, final($0.inner)@.len() == 0,
#fn rcvec::<RcVec as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#end
#mod fallback
use crate::rcvec::*;
#type fallback::TokenStream
#type fallback::TokenStreamBuilder
#type fallback::LexError
#type fallback::Span derive=Copy,Clone
#type fallback::Group
#type fallback::Ident
#type fallback::Literal
#fn fallback::<TokenStream as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn fallback::<Group as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn fallback::<Ident as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn fallback::<Literal as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn fallback::<Span as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn fallback::Span::call_site
#ret r
#spec
    ensures fsp(r) == (0int, 0int),
#fn fallback::TokenStreamBuilder::new
#ret r
#spec
    ensures tokv(r.inner.inner@) == Seq::<Tok>::empty(),
#fn fallback::TokenStreamBuilder::with_capacity
#ret r
#spec
    ensures tokv(r.inner.inner@) == Seq::<Tok>::empty(),
#fn fallback::TokenStreamBuilder::push_token_from_parser
#spec
    ensures tokv(final($0).inner.inner@) == tokv(old($0).inner.inner@).push(tok($1)),
#fn fallback::TokenStreamBuilder::build
#ret r
#spec
    ensures toks(r) == tokv($0.inner.inner@),
#fn fallback::Group::new
#ret r
#spec
    ensures r.delimiter == $0, toks(r.stream) == toks($1), fsp(r.span) == (0int, 0int),
#fn fallback::Group::delimiter
#ret r
#spec
    ensures r == $0.delimiter,
#fn fallback::Group::stream
#ret r
#spec
    ensures toks(r) == toks($0.stream),
#fn fallback::Group::span
#ret r
#spec
    ensures r == $0.span,
#fn fallback::Group::set_span
#spec
    ensures final($0).delimiter == old($0).delimiter, final($0).stream == old($0).stream, final($0).span == $1,
#fn fallback::Ident::new_unchecked
#ret r
#spec
    ensures r.sym@ == $0@, r.span == $1, !r.raw,
#fn fallback::Ident::new_raw_unchecked
#ret r
#spec
    ensures r.sym@ == $0@, r.span == $1, r.raw,
#fn fallback::Ident::span
#ret r
#spec
    ensures r == $0.span,
#fn fallback::Ident::set_span
#spec
    ensures final($0).sym == old($0).sym, final($0).raw == old($0).raw, final($0).span == $1,
#fn fallback::Literal::_new
#ret r
#spec
    ensures r.repr@ == $0@, fsp(r.span) == (0int, 0int),
#fn fallback::Literal::span
#ret r
#spec
    ensures r == $0.span,
#fn fallback::Literal::set_span
#spec
    ensures final($0).repr == old($0).repr, final($0).span == $1,
#fn fallback::Literal::string
#ret r
#spec
    ensures r.repr@ == str_repr($0@), fsp(r.span) == (0int, 0int),
#fn fallback::escape_utf8
#spec
    ensures final($1)@ == old($1)@ + esc_str($0@),
#loop 0
    invariant $1@ + esc_str(chars.rest()) == old($1)@ + esc_str($0@),
    decreases chars.rest().len(),
#end
