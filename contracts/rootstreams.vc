#mod -
use crate::fallback::{put, puts, cat};
#raw - inners
pub open spec fn inners(v: Seq<TokenStream>) -> Seq<fallback::TokenStream> { v.map(|i: int, s: TokenStream| s.inner.fb()) }
pub open spec fn all_Group(v: Seq<Group>) -> Seq<TokenTree> { v.map(|i: int, x: Group| TokenTree::Group(x)) }
pub open spec fn all_Ident(v: Seq<Ident>) -> Seq<TokenTree> { v.map(|i: int, x: Ident| TokenTree::Ident(x)) }
pub open spec fn all_Punct(v: Seq<Punct>) -> Seq<TokenTree> { v.map(|i: int, x: Punct| TokenTree::Punct(x)) }
pub open spec fn all_Literal(v: Seq<Literal>) -> Seq<TokenTree> { v.map(|i: int, x: Literal| TokenTree::Literal(x)) }
#fn TokenStream::new
#ret r
#spec
    ensures toks(r.inner.fb()) == Seq::<Tok>::empty(),
#fn TokenStream::is_empty
#ret r
#spec
    ensures r == (toks(self.inner.fb()).len() == 0),
#fn <TokenStream as Default>::default name=v_default
#ret r
#spec
    ensures toks(r.inner.fb()) == Seq::<Tok>::empty(),
#fn <TokenStream as From<TokenTree>>::from name=v_from_tree ren=imp::TokenStream::from:v_from_tree
#ret r
#spec
    ensures toks(r.inner.fb()) == put(tok($0)),
#fn <TokenStream as Extend<TokenTree>>::extend name=v_extend_trees ren=extend:v_extend_trees
#spec
    ensures toks(final(self).inner.fb()) == toks(old(self).inner.fb()) + puts(tokv($1.items())),
#fn <TokenStream as Extend<TokenStream>>::extend name=v_extend_streams ren=extend:v_extend_streams iter
#spec
    ensures toks(final(self).inner.fb()) == toks(old(self).inner.fb()) + cat(inners($1.items())),
#closure 0 |s: TokenStream| -> (o: imp::TokenStream)
    ensures o == $a$.inner
#entry
    proof { assert forall|v: Seq<imp::TokenStream>| v.len() == $1.items().len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == $1.items()[i].inner) implies #[trigger] imp::fbs(v) == inners($1.items()) by { assert(imp::fbs(v) =~= inners($1.items())); } }
#fn <TokenStream as Extend<Group>>::extend name=v_extend_Group ren=extend:v_extend_trees iter
#spec
    ensures toks(final(self).inner.fb()) == toks(old(self).inner.fb()) + puts(tokv(all_Group($1.items()))),
#closure 0 |x: Group| -> (o: TokenTree)
    ensures o == TokenTree::Group($a$)
#entry
    proof { assert forall|v: Seq<TokenTree>| v.len() == $1.items().len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == TokenTree::Group($1.items()[i])) implies #[trigger] tokv(v) == tokv(all_Group($1.items())) by { assert(v =~= all_Group($1.items())); } }
#fn <TokenTree as From<Group>>::from name=v_from_Group
#ret r
#spec
    ensures r == TokenTree::Group($0),
#fn <TokenStream as Extend<Ident>>::extend name=v_extend_Ident ren=extend:v_extend_trees iter
#spec
    ensures toks(final(self).inner.fb()) == toks(old(self).inner.fb()) + puts(tokv(all_Ident($1.items()))),
#closure 0 |x: Ident| -> (o: TokenTree)
    ensures o == TokenTree::Ident($a$)
#entry
    proof { assert forall|v: Seq<TokenTree>| v.len() == $1.items().len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == TokenTree::Ident($1.items()[i])) implies #[trigger] tokv(v) == tokv(all_Ident($1.items())) by { assert(v =~= all_Ident($1.items())); } }
#fn <TokenTree as From<Ident>>::from name=v_from_Ident
#ret r
#spec
    ensures r == TokenTree::Ident($0),
#fn <TokenStream as Extend<Punct>>::extend name=v_extend_Punct ren=extend:v_extend_trees iter
#spec
    ensures toks(final(self).inner.fb()) == toks(old(self).inner.fb()) + puts(tokv(all_Punct($1.items()))),
#closure 0 |x: Punct| -> (o: TokenTree)
    ensures o == TokenTree::Punct($a$)
#entry
    proof { assert forall|v: Seq<TokenTree>| v.len() == $1.items().len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == TokenTree::Punct($1.items()[i])) implies #[trigger] tokv(v) == tokv(all_Punct($1.items())) by { assert(v =~= all_Punct($1.items())); } }
#fn <TokenTree as From<Punct>>::from name=v_from_Punct
#ret r
#spec
    ensures r == TokenTree::Punct($0),
#fn <TokenStream as Extend<Literal>>::extend name=v_extend_Literal ren=extend:v_extend_trees iter
#spec
    ensures toks(final(self).inner.fb()) == toks(old(self).inner.fb()) + puts(tokv(all_Literal($1.items()))),
#closure 0 |x: Literal| -> (o: TokenTree)
    ensures o == TokenTree::Literal($a$)
#entry
    proof { assert forall|v: Seq<TokenTree>| v.len() == $1.items().len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == TokenTree::Literal($1.items()[i])) implies #[trigger] tokv(v) == tokv(all_Literal($1.items())) by { assert(v =~= all_Literal($1.items())); } }
#fn <TokenTree as From<Literal>>::from name=v_from_Literal
#ret r
#spec
    ensures r == TokenTree::Literal($0),
#fn <TokenStream as FromIterator<TokenTree>>::from_iter name=v_from_trees collect=imp::TokenStream::v_from_trees
#ret r
#spec
    ensures toks(r.inner.fb()) == puts(tokv($0.items())),
#fn <TokenStream as FromIterator<TokenStream>>::from_iter name=v_from_streams collect=imp::TokenStream::v_from_streams iter
#ret r
#spec
    ensures toks(r.inner.fb()) == cat(inners($0.items())),
#closure 0 |s: TokenStream| -> (o: imp::TokenStream)
    ensures o == $a$.inner
#entry
    proof { assert forall|v: Seq<imp::TokenStream>| v.len() == $0.items().len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == $0.items()[i].inner) implies #[trigger] imp::fbs(v) == inners($0.items()) by { assert(imp::fbs(v) =~= inners($0.items())); } }
#end
#mod token_stream
use super::*;
#type token_stream::IntoIter
#fn token_stream::<IntoIter as Iterator>::next
#ret r
#spec
    ensures match r {
        None => old(self).inner.fb().inner.rest().len() == 0 && final(self).inner.fb().inner.rest() == old(self).inner.fb().inner.rest(),
        Some(x) => old(self).inner.fb().inner.rest().len() > 0 && x == old(self).inner.fb().inner.rest()[0] && final(self).inner.fb().inner.rest() == old(self).inner.fb().inner.rest().skip(1),
    },
#fn token_stream::<IntoIter as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn token_stream::<IntoIter as Iterator>::size_hint
#ret r
#spec
    ensures r.0 == self.inner.fb().inner.rest().len(), r.1 == Some(r.0),
#fn token_stream::<TokenStream as IntoIterator>::into_iter
#ret r
#spec
    ensures tokv(r.inner.fb().inner.rest()) == toks(self.inner.fb()),
#end
