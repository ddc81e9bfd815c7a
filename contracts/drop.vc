#mod fallback
#raw fallback drops
// What may be dropped without walking into it: leaves, groups whose content is
// held elsewhere or has no groups. (C15)
pub open spec fn is_leaf(t: TokenTree) -> bool { !(t is Group) }
pub open spec fn flat_seq(v: Seq<TokenTree>) -> bool { held(v) || forall|i: int| 0 <= i < v.len() ==> is_leaf(#[trigger] v[i]) }
impl Ends for TokenStream { open spec fn light(self) -> bool { flat_seq(self.inner.inner@) } }
impl Ends for RcVec<TokenTree> { open spec fn light(self) -> bool { flat_seq(self.inner@) } }
impl Ends for Group { open spec fn light(self) -> bool { self.stream.light() } }
#only B C
impl Ends for crate::imp::Group { open spec fn light(self) -> bool { self.fb().light() } }
#only *
impl Ends for crate::Group { open spec fn light(self) -> bool { self.inner.light() } }
impl Ends for TokenTree { open spec fn light(self) -> bool { match self { TokenTree::Group(g) => g.light(), _ => true } } }
impl Ends for RcVecBuilder<TokenTree> { open spec fn light(self) -> bool { self.inner.light() } }
impl<'a> Ends for RcVecMut<'a, TokenTree> { open spec fn light(self) -> bool { true } }
impl Ends for RcVecIntoIter<TokenTree> { open spec fn light(self) -> bool { forall|i: int| 0 <= i < self.inner.rest().len() ==> (#[trigger] self.inner.rest()[i]).light() } }
/// how many tokens there are, at all depths
pub open spec fn weight(t: Tok) -> nat
    decreases t, 0int,
{
    match t { Tok::Group(_, c, _, _) => 1 + weights(c, c.len() as int), _ => 1 }
}
/// of the last n
pub open spec fn weights(v: Seq<Tok>, n: int) -> nat
    decreases v, n,
{
    if n <= 0 || n > v.len() { 0 } else { weight(v[v.len() - n]) + weights(v, n - 1) }
}
pub open spec fn all_weight(v: Seq<TokenTree>) -> nat { weights(tokv(v), v.len() as int) }
pub proof fn lemma_weights_skip(v: Seq<Tok>, n: int)
    requires 0 <= n < v.len(),
    ensures weights(v.skip(1), n) == weights(v, n),
    decreases n,
{ if n > 0 { lemma_weights_skip(v, n - 1); } }
pub proof fn lemma_first_weight(v: Seq<TokenTree>)
    requires v.len() > 0,
    ensures all_weight(v) == weight(tok(v[0])) + all_weight(v.skip(1)), weight(tok(v[0])) >= 1,
        match v[0] { TokenTree::Group(g) => weight(tok(v[0])) == 1 + all_weight(g.inner.fb().stream.inner.inner@), _ => true },
{
    if let TokenTree::Group(g) = v[0] { lemma_toks(g.inner.fb().stream); }
    lemma_weights_skip(tokv(v), v.len() - 1);
    assert(tokv(v.skip(1)) =~= tokv(v).skip(1));
}
pub open spec fn pending(v: Seq<RcVecIntoIter<TokenTree>>) -> nat
    decreases v.len(),
{ if v.len() == 0 { 0 } else { all_weight(v.last().inner.rest()) + pending(v.drop_last()) } }
pub proof fn lemma_pending_push(v: Seq<RcVecIntoIter<TokenTree>>, x: RcVecIntoIter<TokenTree>)
    ensures pending(v.push(x)) == all_weight(x.inner.rest()) + pending(v),
{ assert(v.push(x).drop_last() =~= v); }
#fn fallback::<TokenStream as Drop>::drop drops name=v_drop
#spec
    ensures (*final(self)).light(),
#loop 0
    invariant true,
    decreases all_weight(current.inner.rest()) + pending(stack@), stack@.len(),
#loop 0 top
    let ghost (w0, n0) = (all_weight(current.inner.rest()) + pending(stack@), stack@.len());
#loop 1
    invariant ({ let w = all_weight(current.inner.rest()) + pending(stack@); w < w0 || w == w0 && stack@.len() <= n0 }),
    ensures current.inner.rest().len() == 0,
    decreases all_weight(current.inner.rest()) + pending(stack@),
#loop 1 top
    let ghost (c0, s0) = (current.inner.rest(), stack@);
    proof { if c0.len() > 0 { lemma_first_weight(c0); } }
#loop 1 bottom
    proof { if stack@.len() > s0.len() { assert(stack@.drop_last() =~= s0); assert(stack@.last().inner.rest() == c0.skip(1)); } }
#end
