#mod rcvec
#fn rcvec::RcVec::iter mono=Iter:VSIter
#ret r
#spec
    ensures r.rest() == self.inner@, r.rest().len() <= isize::MAX as usize,
#end
#mod fallback
#raw fallback print
/// `f` got exactly `t` more, or refused
pub open spec fn wrote(a: VFmt, b: VFmt, r: fmt::Result, t: Seq<char>) -> bool {
    (r.is_ok() ==> b.text() == a.text() + t) && (a.never_fails() ==> r.is_ok()) && b.never_fails() == a.never_fails()
}
pub proof fn lemma_inside(s: TokenStream, i: int)
    requires 0 <= i < s.inner.inner@.len(),
    ensures decreases_to!(s => s.inner.inner@[i]), toks(s)[i] == tok(s.inner.inner@[i]), toks(s).len() == s.inner.inner@.len(),
{
    assert(decreases_to!(s => s.inner));
    assert(decreases_to!(s.inner => s.inner.inner));
    assert(decreases_to!(*s.inner.inner => s.inner.inner@));
    assert(decreases_to!(s.inner.inner@ => s.inner.inner@[i]));
}
#fn fallback::<TokenStream as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, show(toks(*self))),
    decreases *self,
#loop 0
    invariant $it.rest().len() + $it.at() == self.inner.inner@.len(), 0 <= $it.at(), $it.rest() == self.inner.inner@.skip($it.at()), self.inner.inner@.len() <= isize::MAX as usize,
        $1.text() == old($1).text() + show_n(toks(*self), $it.at()), $1.never_fails() == old($1).never_fails(),
        joint == ($it.at() > 0 && is_joint(toks(*self)[$it.at() - 1])), toks(*self).len() == self.inner.inner@.len(),
    decreases $it.rest().len(),
#loop 0 before
    proof { assert(self.inner.inner@.skip(0) =~= self.inner.inner@); assert($1.text() + Seq::<char>::empty() =~= $1.text()); }
#loop 0 top
    let ghost at = $it.at();
    let ghost was = $1.text();
    proof { if at < self.inner.inner@.len() { lemma_inside(*self, at); assert(self.inner.inner@.skip(at)[0] == self.inner.inner@[at]); assert(self.inner.inner@.skip(at).skip(1) =~= self.inner.inner@.skip(at + 1)); } }
#loop 0 bottom
    proof {
        let t = show_tok(toks(*self)[at]);
        assert(was + (seq![' '] + t) =~= was + seq![' '] + t);
        assert(old($1).text() + show_n(toks(*self), at) + t =~= old($1).text() + (show_n(toks(*self), at) + t));
        assert(old($1).text() + show_n(toks(*self), at) + seq![' '] + t =~= old($1).text() + (show_n(toks(*self), at) + seq![' '] + t));
    }
#fn fallback::<Group as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, show_tok(Tok::Group(delim_code(self.delimiter), toks(self.stream), 0, 0))),
    decreases *self,
#entry
    broadcast use vx_cat;
    proof { assert(seq![' '] + seq!['}'] =~= seq![' ', '}']); assert(toks(self.stream).len() == self.stream.inner.inner@.len()); }
#fn fallback::<Ident as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, show_tok(Tok::Ident(self.raw, self.sym@, 0, 0))),
#entry
    broadcast use vx_cat;
#fn fallback::<Literal as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, self.repr@),
#end
#mod -
use crate::fallback::wrote;
#fn <TokenStream as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, show(toks(self.inner.fb()))),
#fn <Group as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, show_tok(tok(TokenTree::Group(*self)))),
    decreases *self,
#fn <Ident as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, show_tok(tok(TokenTree::Ident(*self)))),
#fn <Punct as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, show_tok(tok(TokenTree::Punct(*self)))),
#fn <Literal as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, show_tok(tok(TokenTree::Literal(*self)))),
#fn <TokenTree as Display>::fmt name=v_display
#ret r
#spec
    ensures wrote(*old($1), *final($1), r, show_tok(tok(*self))),
#end
