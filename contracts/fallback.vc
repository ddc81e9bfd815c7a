#mod fallback
use super::*;
broadcast use {vx_text, vx_tok, lemma_ints_push};

#fn fallback::is_ident_start
#ret r
#spec
    ensures r == id_start($0),
#fn fallback::is_ident_continue
#ret r
#spec
    ensures r == xid_continue($0),
#end
#only A
#mod -
#raw - fb
/// without wrapper.rs the inner value is the fallback value itself
impl fallback::TokenStream { pub open spec fn fb(self) -> fallback::TokenStream { self } }
impl fallback::LexError { pub open spec fn fb(self) -> fallback::LexError { self } }
impl fallback::Span { pub open spec fn fb(self) -> fallback::Span { self } }
impl fallback::Group { pub open spec fn fb(self) -> fallback::Group { self } }
impl fallback::Ident { pub open spec fn fb(self) -> fallback::Ident { self } }
impl fallback::Literal { pub open spec fn fb(self) -> fallback::Literal { self } }
impl<T> rcvec::RcVecIntoIter<T> { pub open spec fn fb(self) -> rcvec::RcVecIntoIter<T> { self } }
#end
#only B C
#mod -
#raw - fb
/// the fallback value inside; outside of a procedural macro there is no other kind
impl imp::TokenStream { pub open spec fn fb(self) -> fallback::TokenStream { match self { imp::TokenStream::Fallback(x) => x } } }
impl imp::LexError { pub open spec fn fb(self) -> fallback::LexError { match self { imp::LexError::Fallback(x) => x } } }
impl imp::TokenTreeIter { pub open spec fn fb(self) -> fallback::TokenTreeIter { match self { imp::TokenTreeIter::Fallback(x) => x } } }
impl imp::Span { pub open spec fn fb(self) -> fallback::Span { match self { imp::Span::Fallback(x) => x } } }
impl imp::Group { pub open spec fn fb(self) -> fallback::Group { match self { imp::Group::Fallback(x) => x } } }
impl imp::Ident { pub open spec fn fb(self) -> fallback::Ident { match self { imp::Ident::Fallback(x) => x } } }
impl imp::Literal { pub open spec fn fb(self) -> fallback::Literal { match self { imp::Literal::Fallback(x) => x } } }
#end
#only *
