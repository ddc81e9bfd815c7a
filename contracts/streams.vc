#mod rcvec
#type rcvec::RcVecIntoIter mono=IntoIter:VIt
#raw rcvec iter
impl<T> VIter<T> for RcVecBuilder<T> {
    open spec fn items(&self) -> Seq<T> { self.inner@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> VIt<T> { unimplemented!() }
}
#fn rcvec::<RcVecBuilder as IntoIterator>::into_iter mono=IntoIter:RcVecIntoIter<T>
#ret r
#spec
    ensures r.inner.rest() == $0.inner@,
#fn rcvec::<RcVecIntoIter as Iterator>::next mono=Item:T
#ret r
#spec
    ensures match r {
        None => old($0).inner.rest().len() == 0 && final($0).inner.rest() == old($0).inner.rest(),
        Some(x) => old($0).inner.rest().len() > 0 && x == old($0).inner.rest()[0] && final($0).inner.rest() == old($0).inner.rest().skip(1),
    },
#fn rcvec::<RcVecIntoIter as Clone>::clone
#ret r
#spec
    ensures r == *$0,
#fn rcvec::<RcVecIntoIter as Iterator>::size_hint
#ret r
#spec
    ensures r.0 == $0.inner.rest().len(), r.1 == Some(r.0),
#end
#mod fallback
#type fallback::TokenTreeIter
#raw fallback puts
/// what a caller's token turns into: a negative number becomes two tokens
pub open spec fn put(t: Tok) -> Seq<Tok> {
    match t {
        Tok::Lit(x, lo, hi) => if p1(x, '-') { Seq::<Tok>::empty().push(Tok::Punct('-', false, lo, hi)).push(Tok::Lit(x.skip(1), lo, hi)) } else { Seq::<Tok>::empty().push(t) },
        _ => Seq::<Tok>::empty().push(t),
    }
}
pub open spec fn puts(v: Seq<Tok>) -> Seq<Tok>
    decreases v.len(),
{
    if v.len() == 0 { Seq::<Tok>::empty() } else { put(v[0]) + puts(v.skip(1)) }
}
pub open spec fn cat(v: Seq<TokenStream>) -> Seq<Tok>
    decreases v.len(),
{
    if v.len() == 0 { Seq::<Tok>::empty() } else { toks(v[0]) + cat(v.skip(1)) }
}
impl VIter<TokenTree> for TokenStream {
    open spec fn items(&self) -> Seq<TokenTree> { self.inner.inner@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> VIt<TokenTree> { unimplemented!() }
}
/// nothing to unwrap here (as in imp::fbs of wrapper.vc)
pub open spec fn fbs(v: Seq<TokenStream>) -> Seq<TokenStream> { v }
pub proof fn lemma_flat(v: Seq<TokenStream>)
    ensures tokv(flat::<TokenTree, TokenStream>(v)) == cat(v),
    decreases v.len(),
{ if v.len() > 0 { lemma_flat(v.skip(1)); } }
#fn fallback::TokenStream::new
#ret r
#spec
    ensures toks(r) == Seq::<Tok>::empty(),
#fn fallback::TokenStream::is_empty
#ret r
#spec
    ensures r == (toks(*self).len() == 0),
#fn fallback::TokenStream::take_inner
#ret r
#spec
    ensures r.inner@ == self.inner.inner@,
#fn fallback::push_negative_literal
#spec
    requires p1($1.repr@, '-'),
    ensures tokv(final($0.inner)@) == tokv(old($0.inner)@) + put(Tok::Lit($1.repr@, fsp($1.span).0, fsp($1.span).1)),
#fn fallback::push_token_from_proc_macro
#spec
    ensures tokv(final($0.inner)@) == tokv(old($0.inner)@) + put(tok($1)),
#fn fallback::<TokenStream as From<TokenTree>>::from name=v_from_tree
#ret r
#spec
    ensures toks(r) == put(tok($0)),
#fn fallback::<TokenStream as Extend<TokenTree>>::extend name=v_extend_trees
#spec
    ensures toks(*final(self)) == toks(*old(self)) + puts(tokv($1.items())),
#loop 0
    invariant tokv(vec.inner@) + puts(tokv($it.rest())) == toks(*old(self)) + puts(tokv($1.items())), final(vec.inner)@ == fin,
    decreases $it.rest().len(),
#loop 0 before
    let ghost fin = final(vec.inner)@;
#loop 0 top
    let ghost was = vec.inner@;
    let ghost rest = $it.rest();
#loop 0 bottom
    proof {
        assert(tokv(rest.skip(1)) =~= tokv(rest).skip(1));
        assert(tokv(rest)[0] == tok(rest[0]));
        assert(tokv(vec.inner@) + puts(tokv($it.rest())) =~= tokv(was) + (put(tok(rest[0])) + puts(tokv($it.rest()))));
    }
#loop 0 after
    proof { assert(tokv(vec.inner@) + Seq::<Tok>::empty() =~= tokv(vec.inner@)); }
#fn fallback::<TokenStream as FromIterator<TokenTree>>::from_iter name=v_from_trees ren=extend:v_extend_trees
#ret r
#spec
    ensures toks(r) == puts(tokv($0.items())),
#fn fallback::<TokenStream as Extend<TokenStream>>::extend name=v_extend_streams
#spec
    ensures toks(*final(self)) == toks(*old(self)) + cat(fbs($1.items())),
#entry
    proof { lemma_flat($1.items()); }
#fn fallback::<TokenStream as FromIterator<TokenStream>>::from_iter name=v_from_streams
#ret r
#spec
    ensures toks(r) == cat(fbs($0.items())),
#loop 0
    invariant tokv(v.inner@) + cat($it.rest()) == cat($0.items()),
    decreases $it.rest().len(),
#fn fallback::<TokenStream as IntoIterator>::into_iter
#ret r
#spec
    ensures r.inner.rest() == $0.inner.inner@, tokv(r.inner.rest()) == toks(self),
#end
