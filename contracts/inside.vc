#mod -
use vstd::prelude::*;
#type Span derive=Copy,Clone
#type TokenTree
#type Group
#type Delimiter derive=Copy,Clone,PartialEq,Eq,Structural
#type Punct
#type Spacing derive=Copy,Clone,PartialEq,Eq,Structural
#type Ident
#type Literal
#type TokenStream
#raw - kinds
pub mod probe { pub use crate::pms as proc_macro_span; pub use crate::pmf as proc_macro_span_file; pub use crate::pml as proc_macro_span_location; }
/// a token of the compiler's kind
pub open spec fn is_c(t: TokenTree) -> bool {
    match t { TokenTree::Group(g) => g.inner is Compiler, TokenTree::Punct(p) => p.span.inner is Compiler, TokenTree::Ident(i) => i.inner is Compiler, TokenTree::Literal(l) => l.inner is Compiler }
}
pub open spec fn spacing_of(s: Spacing) -> proc_macro::Spacing { match s { Spacing::Joint => proc_macro::Spacing::Joint, Spacing::Alone => proc_macro::Spacing::Alone } }
pub open spec fn delimiter_of(d: Delimiter) -> proc_macro::Delimiter {
    match d { Delimiter::Parenthesis => proc_macro::Delimiter::Parenthesis, Delimiter::Brace => proc_macro::Delimiter::Brace, Delimiter::Bracket => proc_macro::Delimiter::Bracket, Delimiter::None => proc_macro::Delimiter::None }
}
/// the compiler's token it is
pub open spec fn pmt(t: TokenTree) -> proc_macro::TokenTree {
    match t {
        TokenTree::Group(g) => proc_macro::TokenTree::Group(g.inner->Compiler_0),
        TokenTree::Punct(p) => proc_macro::TokenTree::Punct(proc_macro::Punct { ch: p.ch, spacing: spacing_of(p.spacing), span: p.span.inner->Compiler_0 }),
        TokenTree::Ident(i) => proc_macro::TokenTree::Ident(i.inner->Compiler_0),
        TokenTree::Literal(l) => proc_macro::TokenTree::Literal(l.inner->Compiler_0),
    }
}
pub open spec fn all_c(v: Seq<TokenTree>) -> bool { forall|i: int| 0 <= i < v.len() ==> is_c(#[trigger] v[i]) }
pub open spec fn pmts(v: Seq<TokenTree>) -> Seq<proc_macro::TokenTree> { v.map(|i: int, t: TokenTree| pmt(t)) }
#fn Span::_new
#ret r
#spec
    ensures r.inner == $0,
#fn Span::_new_fallback
#ret r
#spec
    ensures r.inner == imp::Span::Fallback($0),
#fn Span::call_site
#ret r
#spec
    ensures match r.inner { imp::Span::Compiler(x) => may(true) && x == proc_macro::Span::s_call_site(), imp::Span::Fallback(x) => may(false) && x == fallback::Span::s_call_site() },
#fn Span::unwrap
#ret r
#spec
    ensures self.inner == imp::Span::Compiler(r),
#fn Group::_new
#ret r
#spec
    ensures r.inner == $0,
#fn Ident::_new
#ret r
#spec
    ensures r.inner == $0,
#fn Literal::_new
#ret r
#spec
    ensures r.inner == $0,
#fn TokenStream::_new
#ret r
#spec
    ensures r.inner == $0,
#fn Punct::new panic=forbid
#ret r
#spec
    requires is_punct($0),
    ensures r.ch == $0, r.spacing == $1, may(r.span.inner is Compiler),
#fn Punct::as_char
#ret r
#spec
    ensures r == self.ch,
#fn Punct::spacing
#ret r
#spec
    ensures r == self.spacing,
#fn Punct::span
#ret r
#spec
    ensures r == self.span,
#fn Punct::set_span
#spec
    ensures *final(self) == (Punct { span: $1, ..*old(self) }),
#fn <TokenStream as From<proc_macro::TokenStream>>::from name=v_from_pm ren=imp::TokenStream::from:v_from_pm
#ret r
#spec
    ensures r.inner is Compiler, r.inner->Compiler_0.all() == $0.all(),
#fn <proc_macro::TokenStream as From<TokenStream>>::from name=v_from_root ren=proc_macro::TokenStream::from:v_from_imp
#ret r
#spec
    ensures r.all() == imp::out_of($0.inner),

#mod detection
use super::*;
#raw detection globals
pub struct Ordering {}
impl Ordering { pub exec const Relaxed: Ordering = Ordering {}; pub exec const Acquire: Ordering = Ordering {}; pub exec const Release: Ordering = Ordering {}; pub exec const SeqCst: Ordering = Ordering {}; }
#[verifier::external_body]
pub struct VWorks { x: u8 }
impl VWorks {
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> (r: usize) ensures r == 0 || agreed(r), was_read(r) { unimplemented!() }
    /// where the fallback is forced, that is what is stored, and nothing else
    #[verifier::external_body] pub fn store_forced(&self, v: usize, o: Ordering) requires v == 1, agreed(v) ensures did_force() { unimplemented!() }
    /// elsewhere what the compiler says
    #[verifier::external_body] pub fn store(&self, v: usize, o: Ordering) requires v == (if available() { 2usize } else { 1usize }) ensures did_detect() { unimplemented!() }
}
/// said by a read and by the stores only, so that a function that promises one has done it
pub uninterp spec fn was_read(v: usize) -> bool;
pub uninterp spec fn did_force() -> bool;
pub uninterp spec fn did_detect() -> bool;
#[verifier::external_body]
pub struct VOnce { x: u8 }
impl VOnce { #[verifier::external_body] pub fn call_once<F: FnOnce()>(&self, f: F) requires f.requires(()) { unimplemented!() } }
#[verifier::external_body] pub exec const WORKS: VWorks = VWorks { x: 0 };
#[verifier::external_body] pub exec const INIT: VOnce = VOnce { x: 0 };
#fn detection::inside_proc_macro fnattr=verifier::exec_allows_no_decreases_clause
#ret r
#spec
    ensures may(r), was_read(if r { 2usize } else { 1usize }),
#fn detection::force_fallback ren=store:store_forced
#spec
    requires forced(),
    ensures did_force(),
#fn detection::unforce_fallback
#spec
    ensures did_detect(),
#fn detection::initialize
#spec
    ensures did_detect(),

#mod forcing
use super::*;
#fn fallback::force in=forcing
#spec
    requires forced(),
    ensures detection::did_force(),
#fn fallback::unforce in=forcing
#spec
    ensures detection::did_detect(),

#mod location
use super::*;
#type location::LineColumn derive=Copy,Clone

#mod pms
use crate::*;
use crate::proc_macro::{Literal, Span};
use core::ops::Range;
#fn probe::proc_macro_span::byte_range in=pms
#ret r
#spec
    ensures r == $0.s_byte_range(),
#fn probe::proc_macro_span::start in=pms
#ret r
#spec
    ensures r == $0.s_start(),
#fn probe::proc_macro_span::end in=pms
#ret r
#spec
    ensures r == $0.s_end(),
#fn probe::proc_macro_span::line in=pms
#ret r
#spec
    ensures r == $0.s_line(),
#fn probe::proc_macro_span::column in=pms
#ret r
#spec
    ensures r == $0.s_column(),
#fn probe::proc_macro_span::file in=pms
#ret r
#spec
    ensures r@ == $0.s_file(),
#fn probe::proc_macro_span::local_file in=pms
#ret r
#spec
    ensures r == $0.s_local_file(),
#fn probe::proc_macro_span::join in=pms
#ret r
#spec
    ensures r == $0.s_join($1),
#fn probe::proc_macro_span::subspan in=pms mono=R:VBounds
#ret r
#spec
    ensures r == $0.s_subspan($1),
#mod pmf
use crate::*;
use crate::proc_macro::Span;
#fn probe::proc_macro_span_file::file in=pmf
#ret r
#spec
    ensures r@ == $0.s_file(),
#fn probe::proc_macro_span_file::local_file in=pmf
#ret r
#spec
    ensures r == $0.s_local_file(),
#mod pml
use crate::*;
use crate::proc_macro::Span;
#fn probe::proc_macro_span_location::start in=pml
#ret r
#spec
    ensures r == $0.s_start(),
#fn probe::proc_macro_span_location::end in=pml
#ret r
#spec
    ensures r == $0.s_end(),
#fn probe::proc_macro_span_location::line in=pml
#ret r
#spec
    ensures r == $0.s_line(),
#fn probe::proc_macro_span_location::column in=pml
#ret r
#spec
    ensures r == $0.s_column(),

#mod extra
use super::*;
use crate::imp;
use crate::fallback;
#type extra::DelimSpan derive=Copy,Clone
#type extra::DelimSpanEnum derive=Copy,Clone
#fn extra::DelimSpan::new
#ret r
#spec
    ensures match *$0 {
        imp::Group::Compiler(g) => r.inner == (DelimSpanEnum::Compiler { join: g.s_span(), open: g.s_span_open(), close: g.s_span_close() }),
        imp::Group::Fallback(g) => r.inner == DelimSpanEnum::Fallback(g.s_span()),
    },
#fn extra::DelimSpan::join
#ret r
#spec
    ensures match self.inner { DelimSpanEnum::Compiler { join, .. } => r.inner == imp::Span::Compiler(join), DelimSpanEnum::Fallback(s) => r.inner == imp::Span::Fallback(s) },
#fn extra::DelimSpan::open
#ret r
#spec
    ensures match self.inner { DelimSpanEnum::Compiler { open, .. } => r.inner == imp::Span::Compiler(open), DelimSpanEnum::Fallback(s) => r.inner == imp::Span::Fallback(s.s_first_byte()) },
#fn extra::DelimSpan::close
#ret r
#spec
    ensures match self.inner { DelimSpanEnum::Compiler { close, .. } => r.inner == imp::Span::Compiler(close), DelimSpanEnum::Fallback(s) => r.inner == imp::Span::Fallback(s.s_last_byte()) },

#mod fallback2
use super::*;
use crate::imp;
use crate::fallback::{TokenStream, Literal};
use crate::proc_macro;
use core::result::Result;
mod panic { pub use crate::catch_unwind; }
#fn fallback::<proc_macro::TokenStream as FromStr2>::valid in=fallback2
#ret r
#spec
    ensures r == TokenStream::grammatical($0@),
#fn fallback::<proc_macro::Literal as FromStr2>::valid in=fallback2
#ret r
#spec
    ensures r == Literal::grammatical($0@),
#fn fallback::FromStr2::from_str_checked in=fallback2 for=proc_macro::TokenStream variant=stream
#ret r
#spec
    ensures match r {
        Ok(t) => TokenStream::grammatical($0@) && Self::s_accepts($0@) && t.all() == Self::s_parse($0@),
        Err(imp::LexError::Compiler(_)) => TokenStream::grammatical($0@) && !Self::s_accepts($0@),
        Err(imp::LexError::CompilerPanic) => !TokenStream::grammatical($0@) || compiler_panicked(),
        Err(imp::LexError::Fallback(_)) => false,
    },
#closure 0 || -> (o: Result<proc_macro::TokenStream, proc_macro::LexError>)
    requires TokenStream::grammatical($0@)
    ensures o.is_ok() == proc_macro::TokenStream::s_accepts($0@), o.is_ok() ==> o->Ok_0.all() == proc_macro::TokenStream::s_parse($0@)
#fn fallback::FromStr2::from_str_checked in=fallback2 for=proc_macro::Literal variant=literal
#ret r
#spec
    ensures match r {
        Ok(t) => Literal::grammatical($0@) && Self::s_accepts($0@) && t == Self::s_parse($0@),
        Err(imp::LexError::Compiler(_)) => Literal::grammatical($0@) && !Self::s_accepts($0@),
        Err(imp::LexError::CompilerPanic) => !Literal::grammatical($0@) || compiler_panicked(),
        Err(imp::LexError::Fallback(_)) => false,
    },
#closure 0 || -> (o: Result<proc_macro::Literal, proc_macro::LexError>)
    requires Literal::grammatical($0@)
    ensures o.is_ok() == proc_macro::Literal::s_accepts($0@), o.is_ok() ==> o->Ok_0 == proc_macro::Literal::s_parse($0@)
#fn fallback::FromStr2::from_str_unchecked in=fallback2 for=proc_macro::TokenStream variant=stream ren=Self::from_str:from_str_any;unwrap:v_unwrap
#ret r
#spec
    ensures Self::s_accepts($0@), r.all() == Self::s_parse($0@),
#fn fallback::FromStr2::from_str_unchecked in=fallback2 for=proc_macro::Literal variant=literal ren=Self::from_str:from_str_any;unwrap:v_unwrap
#ret r
#spec
    ensures Self::s_accepts($0@), r == Self::s_parse($0@),

#mod imp
use super::*;
use crate::proc_macro;
use crate::detection::inside_proc_macro;
use crate::fallback;
use crate::location::LineColumn;
use crate::probe::{proc_macro_span, proc_macro_span_file, proc_macro_span_location};
use crate::{Delimiter, Punct, Spacing, TokenTree};
use core::ops::Range;
use proc_macro::{pieces, piece, cat, lemma_pieces, VCloneV};
#type imp::TokenStream
#type imp::DeferredTokenStream
#type imp::LexError
#type imp::TokenTreeIter
#type imp::Span derive=Copy,Clone
#type imp::Group
#type imp::Ident
#type imp::Literal
#raw imp views
impl DeferredTokenStream {
    /// what it holds: what is already in the stream, then what is still to be put there
    pub open spec fn all(self) -> Seq<proc_macro::Piece> { self.stream.all() + pieces(self.extra@) }
}
broadcast use proc_macro::lemma_nothing_left;
/// the compiler's stream a stream is handed back as
pub open spec fn out_of(s: TokenStream) -> Seq<proc_macro::Piece> { match s { TokenStream::Compiler(d) => d.all(), TokenStream::Fallback(f) => proc_macro::TokenStream::s_parse(f.shown()) } }
/// what a stream of the compiler's holds
pub open spec fn holds(s: TokenStream) -> Option<Seq<proc_macro::Piece>> { match s { TokenStream::Compiler(d) => Some(d.all()), TokenStream::Fallback(_) => None } }
pub open spec fn c_streams(v: Seq<TokenStream>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Compiler }
pub open spec fn f_streams(v: Seq<TokenStream>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Fallback }
pub open spec fn held_by(v: Seq<TokenStream>) -> Seq<proc_macro::Piece> decreases v.len() { if v.len() == 0 { Seq::empty() } else { held_by(v.drop_last()) + v.last()->Compiler_0.all() } }
pub open spec fn fbs(v: Seq<TokenStream>) -> Seq<fallback::TokenStream> { v.map(|i: int, s: TokenStream| s->Fallback_0) }
pub proof fn lemma_held(v: Seq<TokenStream>, w: Seq<proc_macro::TokenStream>)
    requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])->Compiler_0.all() == w[i].all(),
    ensures held_by(v) == cat(w),
    decreases v.len(),
{ if v.len() > 0 { assert forall|i: int| 0 <= i < v.drop_last().len() implies (#[trigger] v.drop_last()[i])->Compiler_0.all() == w.drop_last()[i].all() by { assert(v.drop_last()[i] == v[i]); } lemma_held(v.drop_last(), w.drop_last()); assert(v.last() == v[v.len() - 1]); } }
pub proof fn lemma_held_first(v: Seq<TokenStream>)
    requires v.len() > 0,
    ensures held_by(v) == v[0]->Compiler_0.all() + held_by(v.skip(1)),
    decreases v.len(),
{
    if v.len() == 1 { assert(v.drop_last() =~= Seq::empty()); assert(v.skip(1) =~= Seq::empty()); assert(held_by(v) =~= v[0]->Compiler_0.all() + held_by(v.skip(1))); }
    else { lemma_held_first(v.drop_last()); assert(v.drop_last().skip(1) =~= v.skip(1).drop_last()); assert(v.skip(1).last() == v.last()); assert(held_by(v) =~= v[0]->Compiler_0.all() + held_by(v.skip(1))); }
}
pub trait VLex: Sized { spec fn lexed(&self) -> LexError; fn v_lex(self) -> (r: LexError) ensures r == self.lexed(); }
impl VLex for LexError { open spec fn lexed(&self) -> LexError { *self } fn v_lex(self) -> LexError { self } }
impl VLex for fallback::LexError { open spec fn lexed(&self) -> LexError { LexError::Fallback(*self) } fn v_lex(self) -> LexError { LexError::v_from(self) } }
#fn imp::mismatch panic=allow
#spec
    ensures false,
#raw imp never
/// where the kinds are the same there is no mismatch
#[verifier::external_body]
pub fn never(line: u32) -> ! requires false { panic!() }
#fn imp::DeferredTokenStream::new
#ret r
#spec
    ensures r.all() == $0.all(), r.extra@.len() == 0,
#entry
    proof { assert(forall|s: Seq<proc_macro::Piece>| s + Seq::<proc_macro::Piece>::empty() =~= s); }
#fn imp::DeferredTokenStream::is_empty
#ret r
#spec
    ensures r == (self.all().len() == 0),
#entry
    proof { proc_macro::lemma_pieces_len(self.extra@); }
#fn imp::DeferredTokenStream::evaluate_now ren=extend:v_extend_trees
#spec
    ensures final(self).all() == old(self).all(), final(self).extra@.len() == 0,
#entry
    proof { assert(forall|s: Seq<proc_macro::Piece>| s + Seq::<proc_macro::Piece>::empty() =~= s); }
#fn imp::DeferredTokenStream::into_token_stream
#ret r
#spec
    ensures r.all() == self.all(),
#entry
    proof { assert(forall|s: Seq<proc_macro::Piece>| s + Seq::<proc_macro::Piece>::empty() =~= s); }
#fn imp::<DeferredTokenStream as Clone>::clone
#ret r
#spec
    ensures r.all() == self.all(),
#fn imp::<TokenStream as Clone>::clone
#ret r
#spec
    ensures match (*self, r) { (TokenStream::Compiler(a), TokenStream::Compiler(b)) => a.all() == b.all(), (TokenStream::Fallback(a), TokenStream::Fallback(b)) => a == b, _ => false },
#fn imp::<TokenTreeIter as Clone>::clone
#ret r
#spec
    ensures r == *self,
#fn imp::<Group as Clone>::clone
#ret r
#spec
    ensures r == *self,
#fn imp::<Ident as Clone>::clone
#ret r
#spec
    ensures r == *self,
#fn imp::<Literal as Clone>::clone
#ret r
#spec
    ensures r == *self,
#fn imp::<Span as Clone>::clone
#ret r
#spec
    ensures r == *self,
#fn imp::TokenStream::new
#ret r
#spec
    ensures match r { TokenStream::Compiler(d) => may(true) && d.all().len() == 0, TokenStream::Fallback(x) => may(false) && x == fallback::TokenStream::s_new() },
#fn imp::TokenStream::from_str_checked question=VLex::v_lex
#ret r
#spec
    ensures match r {
        Ok(TokenStream::Compiler(d)) => may(true) && fallback::TokenStream::grammatical($0@) && d.all() == proc_macro::TokenStream::s_parse($0@),
        Ok(TokenStream::Fallback(x)) => may(false) && fallback::TokenStream::grammatical($0@) && x == fallback::TokenStream::s_parse($0@),
        Err(LexError::Fallback(e)) => may(false) && !fallback::TokenStream::grammatical($0@) && e == fallback::TokenStream::s_error($0@),
        Err(LexError::Compiler(_)) => may(true) && fallback::TokenStream::grammatical($0@) && !proc_macro::TokenStream::s_accepts($0@),
        Err(LexError::CompilerPanic) => may(true) && (!fallback::TokenStream::grammatical($0@) || compiler_panicked()),
    },
#fn imp::TokenStream::is_empty
#ret r
#spec
    ensures match *self { TokenStream::Compiler(d) => r == (d.all().len() == 0), TokenStream::Fallback(x) => r == x.s_is_empty() },
#fn imp::TokenStream::unwrap_nightly
#ret r
#spec
    ensures self is Compiler, r.all() == self->Compiler_0.all(),
#fn imp::TokenStream::unwrap_nightly variant=same name=unwrap_nightly_s call=mismatch=never
#ret r
#spec
    requires self is Compiler,
#fn imp::TokenStream::unwrap_stable
#ret r
#spec
    ensures self == TokenStream::Fallback(r),
#fn imp::TokenStream::unwrap_stable variant=same name=unwrap_stable_s call=mismatch=never
#ret r
#spec
    requires self is Fallback,
#fn imp::<TokenStream as Display>::fmt name=v_display
#ret r
#spec
    ensures match *self { TokenStream::Compiler(d) => exists|s: proc_macro::TokenStream| s.all() == d.all() && prints(*old($1), *final($1), r, s.shown()), TokenStream::Fallback(x) => prints(*old($1), *final($1), r, x.shown()) },
#fn imp::<TokenStream as Debug>::fmt name=v_debug
#ret r
#spec
    ensures match *self { TokenStream::Compiler(d) => exists|s: proc_macro::TokenStream| s.all() == d.all() && prints(*old($1), *final($1), r, s.debugged()), TokenStream::Fallback(x) => prints(*old($1), *final($1), r, x.debugged()) },
#fn imp::<TokenStream as From<proc_macro::TokenStream>>::from name=v_from_pm
#ret r
#spec
    ensures r is Compiler, r->Compiler_0.all() == $0.all(),
#fn imp::<proc_macro::TokenStream as From<TokenStream>>::from name=v_from_imp
#ret r
#spec
    ensures r.all() == out_of($0),
#fn imp::<TokenStream as From<TokenStream>>::from name=v_from
#ret r
#spec
    ensures r == TokenStream::Fallback($0),
#fn imp::into_compiler_token
#ret r
#spec
    ensures is_c($0), r == pmt($0),
#fn imp::into_compiler_token variant=same name=into_compiler_token_s ren=unwrap_nightly:unwrap_nightly_s
#ret r
#spec
    requires is_c($0),
    ensures r == pmt($0),
#fn imp::<TokenStream as From<TokenTree>>::from name=v_from_tree ren=fallback::TokenStream::from:v_from_tree;proc_macro::TokenStream::from:v_from_tree
#ret r
#spec
    ensures match r { TokenStream::Compiler(d) => may(true) && is_c($0) && d.all() == piece(pmt($0)), TokenStream::Fallback(x) => may(false) && x == fallback::TokenStream::s_from_tree($0) },
#fn imp::<TokenStream as FromIterator<TokenTree>>::from_iter name=v_from_trees collect=v_collect iter
#ret r
#spec
    ensures match r { TokenStream::Compiler(d) => may(true) && all_c($0.items()) && d.all() == pieces(pmts($0.items())), TokenStream::Fallback(x) => may(false) && x == fallback::TokenStream::s_collect($0.items()) },
#closure 0 |t: TokenTree| -> (o: proc_macro::TokenTree)
    ensures is_c($a$), o == pmt($a$)
#entry
    proof { assert forall|v: Seq<proc_macro::TokenTree>| v.len() == $0.items().len() && (forall|i: int| 0 <= i < v.len() ==> is_c($0.items()[i]) && #[trigger] v[i] == pmt($0.items()[i])) implies #[trigger] pieces(v) == pieces(pmts($0.items())) && all_c($0.items()) by {
        assert(v =~= pmts($0.items()));
        assert forall|i: int| 0 <= i < $0.items().len() implies is_c(#[trigger] $0.items()[i]) by { let z = v[i]; }
    } }
#fn imp::<TokenStream as FromIterator<TokenStream>>::from_iter name=v_from_streams ren=extend:v_extend_streams iter
#ret r
#spec
    ensures $0.items().len() == 0 ==> (match r { TokenStream::Compiler(d) => may(true) && d.all().len() == 0, TokenStream::Fallback(x) => may(false) && x == fallback::TokenStream::s_new() }),
        $0.items().len() > 0 ==> (match r {
            TokenStream::Compiler(d) => c_streams($0.items()) && d.all() == held_by($0.items()),
            TokenStream::Fallback(x) => f_streams($0.items()) && x == $0.items()[0]->Fallback_0.s_extend_streams(fbs($0.items().skip(1))),
        }),
#closure 0 |s: TokenStream| -> (o: proc_macro::TokenStream)
    ensures holds($a$) == Some(o.all())
#closure 1 |s: TokenStream| -> (o: fallback::TokenStream)
    ensures $a$ == TokenStream::Fallback(o)
#entry
    proof {
        let all = $0.items();
        if all.len() > 0 {
            lemma_held_first(all);
            let tail = all.skip(1);
                        assert forall|w: Seq<proc_macro::TokenStream>| w.len() == tail.len() && (forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> holds(tail[i]) == Some(w[i].all())) implies #[trigger] cat(w) == held_by(tail) && (all[0] is Compiler ==> c_streams(all)) by {
                lemma_held(tail, w);
                assert forall|i: int| 0 <= i < all.len() && all[0] is Compiler implies (#[trigger] all[i]) is Compiler by { if i > 0 { assert(all[i] == tail[i - 1]); let z = w[i - 1]; } }
            }
            assert forall|w: Seq<fallback::TokenStream>| w.len() == tail.len() && (forall|i: int| 0 <= i < w.len() ==> tail[i] == TokenStream::Fallback(#[trigger] w[i])) implies #[trigger] all[0]->Fallback_0.s_extend_streams(w) == all[0]->Fallback_0.s_extend_streams(fbs(tail)) && (all[0] is Fallback ==> f_streams(all)) by {
                assert(w =~= fbs(tail));
                assert forall|i: int| 0 <= i < all.len() && all[0] is Fallback implies (#[trigger] all[i]) is Fallback by { if i > 0 { assert(all[i] == tail[i - 1]); let z = w[i - 1]; } }
            }
        }
    }
#fn imp::<TokenStream as Extend<TokenTree>>::extend name=v_extend_trees ren=extend:v_extend_trees
#spec
    ensures match (*old(self), *final(self)) {
        (TokenStream::Compiler(a), TokenStream::Compiler(b)) => all_c($1.items()) && b.all() == a.all() + pieces(pmts($1.items())),
        (TokenStream::Fallback(a), TokenStream::Fallback(b)) => b == a.s_extend_trees($1.items()),
        _ => false,
    },
#loop 0 before
    let ghost fin = *final(tts);
    proof { assert($1.items().skip(0) =~= $1.items()); assert(pmts($1.items().take(0)) =~= Seq::empty()); assert(tts.extra@ + Seq::<proc_macro::TokenTree>::empty() =~= tts.extra@); }
#loop 0
    invariant
        *final(tts) == fin,
        $it.rest().len() <= $1.items().len(),
        $it.rest() == $1.items().skip($1.items().len() - $it.rest().len()),
        tts.stream == (*old(self))->Compiler_0.stream,
        all_c($1.items().take($1.items().len() - $it.rest().len())),
        tts.extra@ == (*old(self))->Compiler_0.extra@ + pmts($1.items().take($1.items().len() - $it.rest().len())),
    decreases $it.rest().len(),
#loop 0 top
    let ghost n = ($1.items().len() - $it.rest().len()) as int;
#loop 0 bottom
    proof {
        let all = $1.items();
        assert(all.take(n + 1) =~= all.take(n).push(all[n]));
        assert(pmts(all.take(n + 1)) =~= pmts(all.take(n)).push(pmt(all[n])));
        assert(tts.extra@ =~= (*old(self))->Compiler_0.extra@ + pmts(all.take(n + 1)));
    }
#loop 0 after
    proof {
        let all = $1.items();
        assert(all.take(all.len() as int) =~= all);
        lemma_pieces((*old(self))->Compiler_0.extra@, pmts(all));
        assert(tts.all() =~= (*old(self))->Compiler_0.all() + pieces(pmts(all)));
    }
#fn imp::<TokenStream as Extend<TokenStream>>::extend name=v_extend_streams ren=extend:v_extend_streams iter
#spec
    ensures match (*old(self), *final(self)) {
        (TokenStream::Compiler(a), TokenStream::Compiler(b)) => c_streams($1.items()) && b.all() == a.all() + held_by($1.items()),
        (TokenStream::Fallback(a), TokenStream::Fallback(b)) => f_streams($1.items()) && b == a.s_extend_streams(fbs($1.items())),
        _ => false,
    },
#closure 0 |s: TokenStream| -> (o: proc_macro::TokenStream)
    ensures holds($a$) == Some(o.all())
#closure 1 |s: TokenStream| -> (o: fallback::TokenStream)
    ensures $a$ == TokenStream::Fallback(o)
#entry
    proof {
        let all = $1.items();
                assert forall|w: Seq<proc_macro::TokenStream>| w.len() == all.len() && (forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> holds(all[i]) == Some(w[i].all())) implies #[trigger] cat(w) == held_by(all) && c_streams(all) by {
            lemma_held(all, w);
            assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]) is Compiler by { let z = w[i]; }
        }
        assert forall|x: fallback::TokenStream, w: Seq<fallback::TokenStream>| w.len() == all.len() && (forall|i: int| 0 <= i < w.len() ==> all[i] == TokenStream::Fallback(#[trigger] w[i])) implies #[trigger] x.s_extend_streams(w) == x.s_extend_streams(fbs(all)) && f_streams(all) by {
            assert(w =~= fbs(all));
            assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]) is Fallback by { let z = w[i]; }
        }
    }
#fn imp::LexError::span
#ret r
#spec
    ensures match *self {
        LexError::Fallback(e) => r == Span::Fallback(e.s_span()),
        _ => match r { Span::Compiler(x) => may(true) && x == proc_macro::Span::s_call_site(), Span::Fallback(x) => may(false) && x == fallback::Span::s_call_site() },
    },
#fn imp::<LexError as From<proc_macro::LexError>>::from name=v_from_pm
#ret r
#spec
    ensures r == LexError::Compiler($0),
#fn imp::<LexError as From<LexError>>::from name=v_from
#ret r
#spec
    ensures r == LexError::Fallback($0),
#fn imp::<LexError as Display>::fmt name=v_display
#ret r
#spec
    ensures prints(*old($1), *final($1), r, match *self { LexError::Compiler(e) => e.shown(), LexError::Fallback(e) => e.shown(), LexError::CompilerPanic => fallback::LexError::s_call_site().shown() }),
#fn imp::<LexError as Debug>::fmt name=v_debug
#ret r
#spec
    ensures prints(*old($1), *final($1), r, match *self { LexError::Compiler(e) => e.debugged(), LexError::Fallback(e) => e.debugged(), LexError::CompilerPanic => fallback::LexError::s_call_site().debugged() }),
#fn imp::<TokenStream as IntoIterator>::into_iter
#ret r
#spec
    ensures match (self, r) {
        (TokenStream::Compiler(d), TokenTreeIter::Compiler(it)) => it.rest() == proc_macro::trees(d.all()),
        (TokenStream::Fallback(x), TokenTreeIter::Fallback(it)) => it == x.s_into_iter(),
        _ => false,
    },
#fn imp::<TokenTreeIter as Iterator>::next
#ret r
#spec
    ensures match (*old(self), *final(self)) {
        (TokenTreeIter::Compiler(a), TokenTreeIter::Compiler(b)) => match r {
            None => a.rest().len() == 0 && b.rest() == a.rest(),
            Some(t) => a.rest().len() > 0 && is_c(t) && pmt(t) == a.rest()[0] && b.rest() == a.rest().skip(1),
        },
        (TokenTreeIter::Fallback(a), TokenTreeIter::Fallback(b)) => (r, b) == a.s_next(),
        _ => false,
    },
#fn imp::<TokenTreeIter as Iterator>::size_hint
#ret r
#spec
    ensures match *self { TokenTreeIter::Compiler(a) => r == a.s_size_hint(), TokenTreeIter::Fallback(a) => r == a.s_size_hint() },
#fn imp::Span::call_site
#ret r
#spec
    ensures match r { Span::Compiler(x) => may(true) && x == proc_macro::Span::s_call_site(), Span::Fallback(x) => may(false) && x == fallback::Span::s_call_site() },
#fn imp::Span::mixed_site
#ret r
#spec
    ensures match r { Span::Compiler(x) => may(true) && x == proc_macro::Span::s_mixed_site(), Span::Fallback(x) => may(false) && x == fallback::Span::s_mixed_site() },
#fn imp::Span::def_site
#ret r
#spec
    ensures match r { Span::Compiler(x) => may(true) && x == proc_macro::Span::s_def_site(), Span::Fallback(x) => may(false) && x == fallback::Span::s_def_site() },
#fn imp::Span::resolved_at
#ret r
#spec
    ensures match (*self, $1) { (Span::Compiler(a), Span::Compiler(b)) => r == Span::Compiler(a.s_resolved_at(b)), (Span::Fallback(a), Span::Fallback(b)) => r == Span::Fallback(a.s_resolved_at(b)), _ => false },
#fn imp::Span::resolved_at variant=same name=resolved_at_s call=mismatch=never
#ret r
#spec
    requires (self is Compiler) == ($1 is Compiler),
#fn imp::Span::located_at
#ret r
#spec
    ensures match (*self, $1) { (Span::Compiler(a), Span::Compiler(b)) => r == Span::Compiler(a.s_located_at(b)), (Span::Fallback(a), Span::Fallback(b)) => r == Span::Fallback(a.s_located_at(b)), _ => false },
#fn imp::Span::located_at variant=same name=located_at_s call=mismatch=never
#ret r
#spec
    requires (self is Compiler) == ($1 is Compiler),
#fn imp::Span::unwrap panic=allow
#ret r
#spec
    ensures self == Span::Compiler(r),
#fn imp::Span::unwrap variant=same name=unwrap_s panic=forbid
#ret r
#spec
    requires self is Compiler,
#fn imp::Span::unwrap_nightly
#ret r
#spec
    ensures self == Span::Compiler(r),
#fn imp::Span::unwrap_nightly variant=same name=unwrap_nightly_s call=mismatch=never
#ret r
#spec
    requires self is Compiler,
    ensures self == Span::Compiler(r),
#fn imp::Span::byte_range
#ret r
#spec
    ensures match *self { Span::Compiler(s) => r == s.s_byte_range(), Span::Fallback(s) => r == s.s_byte_range() },
#fn imp::Span::start
#ret r
#spec
    ensures match *self { Span::Compiler(s) => r.line == s.s_line() && r.column == (if s.s_column() > 0 { s.s_column() - 1 } else { 0 }), Span::Fallback(s) => r == s.s_start() },
#fn imp::Span::end
#ret r
#spec
    ensures match *self { Span::Compiler(s) => r.line == s.s_end().s_line() && r.column == (if s.s_end().s_column() > 0 { s.s_end().s_column() - 1 } else { 0 }), Span::Fallback(s) => r == s.s_end() },
#fn imp::Span::file
#ret r
#spec
    ensures match *self { Span::Compiler(s) => r@ == s.s_file(), Span::Fallback(s) => r@ == s.s_file() },
#fn imp::Span::local_file
#ret r
#spec
    ensures match *self { Span::Compiler(s) => r == s.s_local_file(), Span::Fallback(s) => r == s.s_local_file() },
#fn imp::Span::join
#ret r
#spec
    ensures match (*self, $1) {
        (Span::Compiler(a), Span::Compiler(b)) => r == (match a.s_join(b) { Some(x) => Some(Span::Compiler(x)), None => None }),
        (Span::Fallback(a), Span::Fallback(b)) => r == (match a.s_join(b) { Some(x) => Some(Span::Fallback(x)), None => None }),
        _ => r is None,
    },
#fn imp::Span::eq
#ret r
#spec
    ensures match (*self, *$1) { (Span::Compiler(a), Span::Compiler(b)) => r == a.s_eq(b), (Span::Fallback(a), Span::Fallback(b)) => r == a.s_eq(b), _ => !r },
#fn imp::Span::source_text
#ret r
#spec
    ensures match *self { Span::Compiler(s) => text_of(r) == s.s_source_text(), Span::Fallback(s) => text_of(r) == s.s_source_text() },
#fn imp::<Span as From<proc_macro::Span>>::from name=v_from_pm
#ret r
#spec
    ensures r.inner == Span::Compiler($0),
#fn imp::<Span as From<Span>>::from name=v_from
#ret r
#spec
    ensures r == Span::Fallback($0),
#fn imp::<Span as Debug>::fmt name=v_debug
#ret r
#spec
    ensures prints(*old($1), *final($1), r, match *self { Span::Compiler(s) => s.debugged(), Span::Fallback(s) => s.debugged() }),
#fn imp::Group::new
#ret r
#spec
    ensures match ($1, r) {
        (TokenStream::Compiler(d), Group::Compiler(g)) => exists|s: proc_macro::TokenStream| s.all() == d.all() && g == proc_macro::Group::s_new(delimiter_of($0), s),
        (TokenStream::Fallback(x), Group::Fallback(g)) => g == fallback::Group::s_new($0, x),
        _ => false,
    },
#fn imp::Group::delimiter
#ret r
#spec
    ensures match *self { Group::Compiler(g) => delimiter_of(r) == g.s_delimiter(), Group::Fallback(g) => r == g.s_delimiter() },
#fn imp::Group::stream
#ret r
#spec
    ensures match (*self, r) { (Group::Compiler(g), TokenStream::Compiler(d)) => d.all() == g.s_stream().all(), (Group::Fallback(g), TokenStream::Fallback(x)) => x == g.s_stream(), _ => false },
#fn imp::Group::span
#ret r
#spec
    ensures match *self { Group::Compiler(x) => r == Span::Compiler(x.s_span()), Group::Fallback(x) => r == Span::Fallback(x.s_span()) },
#fn imp::Group::span_open
#ret r
#spec
    ensures match *self { Group::Compiler(x) => r == Span::Compiler(x.s_span_open()), Group::Fallback(x) => r == Span::Fallback(x.s_span_open()) },
#fn imp::Group::span_close
#ret r
#spec
    ensures match *self { Group::Compiler(x) => r == Span::Compiler(x.s_span_close()), Group::Fallback(x) => r == Span::Fallback(x.s_span_close()) },
#fn imp::Ident::span
#ret r
#spec
    ensures match *self { Ident::Compiler(x) => r == Span::Compiler(x.s_span()), Ident::Fallback(x) => r == Span::Fallback(x.s_span()) },
#fn imp::Literal::span
#ret r
#spec
    ensures match *self { Literal::Compiler(x) => r == Span::Compiler(x.s_span()), Literal::Fallback(x) => r == Span::Fallback(x.s_span()) },
#fn imp::Group::set_span
#spec
    ensures match (*old(self), $1, *final(self)) {
        (Group::Compiler(a), Span::Compiler(s), Group::Compiler(b)) => b == a.s_set_span(s),
        (Group::Fallback(a), Span::Fallback(s), Group::Fallback(b)) => b == a.s_set_span(s),
        _ => false,
    },
#fn imp::Group::set_span variant=same name=set_span_s call=mismatch=never
#spec
    requires (*old(self) is Compiler) == ($1 is Compiler),
#fn imp::Ident::set_span
#spec
    ensures match (*old(self), $1, *final(self)) {
        (Ident::Compiler(a), Span::Compiler(s), Ident::Compiler(b)) => b == a.s_set_span(s),
        (Ident::Fallback(a), Span::Fallback(s), Ident::Fallback(b)) => b == a.s_set_span(s),
        _ => false,
    },
#fn imp::Ident::set_span variant=same name=set_span_s call=mismatch=never
#spec
    requires (*old(self) is Compiler) == ($1 is Compiler),
#fn imp::Literal::set_span
#spec
    ensures match (*old(self), $1, *final(self)) {
        (Literal::Compiler(a), Span::Compiler(s), Literal::Compiler(b)) => b == a.s_set_span(s),
        (Literal::Fallback(a), Span::Fallback(s), Literal::Fallback(b)) => b == a.s_set_span(s),
        _ => false,
    },
#fn imp::Literal::set_span variant=same name=set_span_s call=mismatch=never
#spec
    requires (*old(self) is Compiler) == ($1 is Compiler),
#fn imp::Group::unwrap_nightly
#ret r
#spec
    ensures self == Group::Compiler(r),
#fn imp::Group::unwrap_nightly variant=same name=unwrap_nightly_s call=mismatch=never
#ret r
#spec
    requires self is Compiler,
    ensures self == Group::Compiler(r),
#fn imp::Ident::unwrap_nightly
#ret r
#spec
    ensures self == Ident::Compiler(r),
#fn imp::Ident::unwrap_nightly variant=same name=unwrap_nightly_s call=mismatch=never
#ret r
#spec
    requires self is Compiler,
    ensures self == Ident::Compiler(r),
#fn imp::Literal::unwrap_nightly
#ret r
#spec
    ensures self == Literal::Compiler(r),
#fn imp::Literal::unwrap_nightly variant=same name=unwrap_nightly_s call=mismatch=never
#ret r
#spec
    requires self is Compiler,
    ensures self == Literal::Compiler(r),
#fn imp::<Group as From<Group>>::from name=v_from
#ret r
#spec
    ensures r == Group::Fallback($0),
#fn imp::<Ident as From<Ident>>::from name=v_from
#ret r
#spec
    ensures r == Ident::Fallback($0),
#fn imp::<Literal as From<Literal>>::from name=v_from
#ret r
#spec
    ensures r == Literal::Fallback($0),
#fn imp::Ident::new_checked
#ret r
#spec
    ensures match ($1, r) { (Span::Compiler(s), Ident::Compiler(i)) => i == proc_macro::Ident::s_new($0@, s), (Span::Fallback(s), Ident::Fallback(i)) => i == fallback::Ident::s_new($0@, s), _ => false },
#fn imp::Ident::new_raw_checked
#ret r
#spec
    ensures match ($1, r) { (Span::Compiler(s), Ident::Compiler(i)) => i == proc_macro::Ident::s_new_raw($0@, s), (Span::Fallback(s), Ident::Fallback(i)) => i == fallback::Ident::s_new_raw($0@, s), _ => false },
#fn imp::<Ident as PartialEq>::eq name=v_eq veq
#ret r
#spec
    ensures match (*self, *$1) { (Ident::Compiler(a), Ident::Compiler(b)) => r == (a.shown() == b.shown()), (Ident::Fallback(a), Ident::Fallback(b)) => r == a.s_eq(b), _ => false },
#fn imp::<Ident as PartialEq>::eq variant=same name=v_eq_s veq call=mismatch=never
#ret r
#spec
    requires (self is Compiler) == ($1 is Compiler),
#fn imp::<Ident as PartialEq<T>>::eq name=v_eq_str mono=T:str veq=v_eq_str
#ret r
#spec
    ensures match *self { Ident::Compiler(a) => r == (a.shown() == $1@), Ident::Fallback(a) => r == a.s_eq_str($1@) },
#fn imp::<Group as Display>::fmt name=v_display
#ret r
#spec
    ensures prints(*old($1), *final($1), r, match *self { Group::Compiler(x) => x.shown(), Group::Fallback(x) => x.shown() }),
#fn imp::<Group as Debug>::fmt name=v_debug
#ret r
#spec
    ensures prints(*old($1), *final($1), r, match *self { Group::Compiler(x) => x.debugged(), Group::Fallback(x) => x.debugged() }),
#fn imp::<Ident as Display>::fmt name=v_display
#ret r
#spec
    ensures prints(*old($1), *final($1), r, match *self { Ident::Compiler(x) => x.shown(), Ident::Fallback(x) => x.shown() }),
#fn imp::<Ident as Debug>::fmt name=v_debug
#ret r
#spec
    ensures prints(*old($1), *final($1), r, match *self { Ident::Compiler(x) => x.debugged(), Ident::Fallback(x) => x.debugged() }),
#fn imp::<Literal as Display>::fmt name=v_display
#ret r
#spec
    ensures prints(*old($1), *final($1), r, match *self { Literal::Compiler(x) => x.shown(), Literal::Fallback(x) => x.shown() }),
#fn imp::<Literal as Debug>::fmt name=v_debug
#ret r
#spec
    ensures prints(*old($1), *final($1), r, match *self { Literal::Compiler(x) => x.debugged(), Literal::Fallback(x) => x.debugged() }),
#fn imp::Literal::from_str_checked question=VLex::v_lex
#ret r
#spec
    ensures match r {
        Ok(Literal::Compiler(x)) => may(true) && fallback::Literal::grammatical($0@) && x == proc_macro::Literal::s_parse($0@),
        Ok(Literal::Fallback(x)) => may(false) && fallback::Literal::grammatical($0@) && x == fallback::Literal::s_parse($0@),
        Err(LexError::Fallback(e)) => may(false) && !fallback::Literal::grammatical($0@) && e == fallback::Literal::s_error($0@),
        Err(LexError::Compiler(_)) => may(true) && fallback::Literal::grammatical($0@) && !proc_macro::Literal::s_accepts($0@),
        Err(LexError::CompilerPanic) => may(true) && (!fallback::Literal::grammatical($0@) || compiler_panicked()),
    },
#fn imp::Literal::from_str_unchecked
#ret r
#spec
    ensures match r { Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_parse($0@), Literal::Fallback(x) => may(false) && x == fallback::Literal::s_unchecked($0@) },
#fn imp::Literal::u8_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_u8_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_u8_suffixed($0),
    },
#fn imp::Literal::u16_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_u16_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_u16_suffixed($0),
    },
#fn imp::Literal::u32_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_u32_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_u32_suffixed($0),
    },
#fn imp::Literal::u64_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_u64_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_u64_suffixed($0),
    },
#fn imp::Literal::u128_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_u128_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_u128_suffixed($0),
    },
#fn imp::Literal::usize_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_usize_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_usize_suffixed($0),
    },
#fn imp::Literal::i8_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_i8_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_i8_suffixed($0),
    },
#fn imp::Literal::i16_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_i16_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_i16_suffixed($0),
    },
#fn imp::Literal::i32_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_i32_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_i32_suffixed($0),
    },
#fn imp::Literal::i64_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_i64_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_i64_suffixed($0),
    },
#fn imp::Literal::i128_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_i128_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_i128_suffixed($0),
    },
#fn imp::Literal::isize_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_isize_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_isize_suffixed($0),
    },
#fn imp::Literal::u8_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_u8_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_u8_unsuffixed($0),
    },
#fn imp::Literal::u16_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_u16_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_u16_unsuffixed($0),
    },
#fn imp::Literal::u32_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_u32_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_u32_unsuffixed($0),
    },
#fn imp::Literal::u64_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_u64_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_u64_unsuffixed($0),
    },
#fn imp::Literal::u128_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_u128_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_u128_unsuffixed($0),
    },
#fn imp::Literal::usize_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_usize_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_usize_unsuffixed($0),
    },
#fn imp::Literal::i8_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_i8_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_i8_unsuffixed($0),
    },
#fn imp::Literal::i16_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_i16_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_i16_unsuffixed($0),
    },
#fn imp::Literal::i32_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_i32_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_i32_unsuffixed($0),
    },
#fn imp::Literal::i64_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_i64_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_i64_unsuffixed($0),
    },
#fn imp::Literal::i128_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_i128_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_i128_unsuffixed($0),
    },
#fn imp::Literal::isize_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_isize_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_isize_unsuffixed($0),
    },
#fn imp::Literal::f32_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_f32_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_f32_suffixed($0),
    },
#fn imp::Literal::f32_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_f32_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_f32_unsuffixed($0),
    },
#fn imp::Literal::f64_suffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_f64_suffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_f64_suffixed($0),
    },
#fn imp::Literal::f64_unsuffixed
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_f64_unsuffixed($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_f64_unsuffixed($0),
    },
#fn imp::Literal::string
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_string($0@),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_string($0@),
    },
#fn imp::Literal::character
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_character($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_character($0),
    },
#fn imp::Literal::byte_character
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_byte_character($0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_byte_character($0),
    },
#fn imp::Literal::byte_string
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_byte_string($0@),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_byte_string($0@),
    },
#fn imp::Literal::c_string
#ret r
#spec
    ensures match r {
        Literal::Compiler(x) => may(true) && x == proc_macro::Literal::s_c_string(*$0),
        Literal::Fallback(x) => may(false) && x == fallback::Literal::s_c_string(*$0),
    },
#fn imp::Literal::subspan mono=R:VBounds
#ret r
#spec
    ensures match *self {
        Literal::Compiler(a) => r == (match a.s_subspan($1) { Some(x) => Some(Span::Compiler(x)), None => None }),
        Literal::Fallback(a) => r == (match a.s_subspan($1) { Some(x) => Some(Span::Fallback(x)), None => None }),
    },
#fn imp::invalidate_current_thread_spans panic=allow
#spec
    ensures may(false),
