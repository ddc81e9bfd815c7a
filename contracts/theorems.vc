#mod -
#raw - theorems
/// What a user of several operations together relies on: consequences of the
/// contracts of the public operations, whose bodies are not looked at here.
pub mod theorems {
use super::*;
use crate::relex::*;
use crate::fallback::{SourceMap, sm_wf, same_texts, known, in_file, file_of, text, base, room, span_text, call_site_span, lemma_file_of};
/// `to_string` on a Display type: a String never refuses
#[verifier::external_body]
pub fn v_sink() -> (f: VFmt) ensures f.text() == Seq::<char>::empty(), f.never_fails() { unimplemented!() }
#[verifier::external_body]
pub fn v_written(f: VFmt) -> (r: String) ensures r@ == f.text() { unimplemented!() }
pub fn printed(s: &TokenStream) -> (r: String)
    ensures r@ == show(toks(s.inner.fb())),
{
    let mut f = v_sink();
    let r = s.v_display(&mut f);
    proof { assert(Seq::<char>::empty() + show(toks(s.inner.fb())) =~= show(toks(s.inner.fb()))); }
    v_written(f)
}
/// C13: what came from a text, printed and parsed again, is the same (spans
/// aside) and never refused; `src` and `at` are as in the contract of `from_str`
pub fn t13_round_trip(a: &TokenStream, Ghost(src): Ghost<Seq<char>>, Ghost(at): Ghost<int>, vx_sm: &mut SourceMap) -> (r: Result<TokenStream, LexError>)
    requires lex_source(src, at) == LexR::Ok(toks(a.inner.fb())),
        sm_wf(*old(vx_sm)), room(*old(vx_sm), show(toks(a.inner.fb())).len() as int), show(toks(a.inner.fb())).len() < usize::MAX,
    ensures r is Ok, bares(toks(r->Ok_0.inner.fb())) == bares(toks(a.inner.fb())),
{
    let t = printed(a);
    let b = TokenStream::from_str(&t, vx_sm);
    proof { let us = lemma_round_trip(src, at, toks(a.inner.fb()), base(*vx_sm, old(vx_sm).files@.len() as int)); }
    b
}
pub proof fn lemma_bares_len(ts: Seq<Tok>, n: int)
    requires 0 <= n <= ts.len(),
    ensures bare_n(ts, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] bare_n(ts, n)[i] == bare(ts[i]),
    decreases n,
{ if n > 0 { lemma_bares_len(ts, n - 1); } }
pub proof fn lemma_good_cat(a: Seq<Tok>, b: Seq<Tok>, n: int)
    requires good(a), good_n(b, n), 0 <= n <= b.len(),
    ensures good_n(a + b.take(n), a.len() + n),
    decreases n,
{
    hide(good_leaf); hide(glued);
    if n == 0 { assert(a + b.take(0) =~= a); }
    else {
        lemma_good_cat(a, b, n - 1);
        let cur = a + b.take(n - 1);
        assert(a + b.take(n) =~= cur.push(b[n - 1]));
        if n >= 2 { assert(cur.last() == b[n - 2]); } else if a.len() > 0 { assert(cur.last() == a.last()); }
        reveal_with_fuel(good_n, 2);
        lemma_good_push(cur, b[n - 1]);
    }
}
/// C08, C14: a constructed literal (its contract: the text is one whole literal
/// token) put anywhere among tokens that came from texts is read back as that
/// token, and its neighbours as what they were
pub proof fn t08_constructed(l: Literal, a: Seq<Tok>, b: Seq<Tok>, at: int) -> (us: Seq<Tok>)
    requires whole(g_literal(lit_text(l))), good(a), good(b),
    ensures ({
        let all = a.push(tok(TokenTree::Literal(l))) + b;
        &&& good(all)
        &&& lex_source(show(all), at) == LexR::Ok(us)
        &&& bares(us) == bares(all)
        &&& us.len() == all.len() && bare(us[a.len() as int]) == Tok::Lit(lit_text(l), 0, 0)
    }),
{
    let t = tok(TokenTree::Literal(l));
    let x = a.push(t);
    assert(x.last() == t);
    assert(g_literal(lit_text(l)).unwrap() =~= Seq::<char>::empty());
    lemma_good_push(a, t);
    lemma_good_cat(x, b, b.len() as int);
    assert(b.take(b.len() as int) =~= b);
    let all = x + b;
    if b.len() > 0 { assert(all.last() == b.last()); } else { assert(all.last() == t); }
    let us = lemma_relex(all, at);
    lemma_bares_len(us, us.len() as int); lemma_bares_len(all, all.len() as int);
    assert(bares(us).len() == us.len());
    assert(bares(us)[a.len() as int] == bare(us[a.len() as int]));
    assert(all[a.len() as int] == t);
    us
}
pub proof fn lemma_verbatim_inj(x: Seq<char>, y: Seq<char>)
    requires verbatim(x, 0) == verbatim(y, 0),
    ensures x == y,
    decreases x.len(),
{
    reveal_with_fuel(verbatim, 1);
    let a = verbatim(x, 0);
    let b = verbatim(y, 0);
    if x.len() > 0 { assert(a == seq![cp(x[0])] + verbatim(x.skip(1), 0)); assert(a[0] == cp(x[0])); assert(a.skip(1) =~= verbatim(x.skip(1), 0)); }
    if y.len() > 0 { assert(b == seq![cp(y[0])] + verbatim(y.skip(1), 0)); assert(b[0] == cp(y[0])); assert(b.skip(1) =~= verbatim(y.skip(1), 0)); }
    if x.len() > 0 && y.len() > 0 {
        lemma_verbatim_inj(x.skip(1), y.skip(1));
        assert(x =~= seq![x[0]] + x.skip(1));
        assert(y =~= seq![y[0]] + y.skip(1));
    } else {
        assert(x =~= y);
    }
}
/// C08, C09: what `Literal::string` was given comes out of `str_value` again
/// (the hypothesis on `l` is the contract of `Literal::string(x)`)
pub fn t09_str(l: &Literal, Ghost(x): Ghost<Seq<char>>) -> (r: String)
    requires lit_val(l.inner.fb().repr@, 0) == Some(verbatim(x, 0)), whole(g_literal(l.inner.fb().repr@)), lit_text(*l).len() < 0x7fff_fff0,
    ensures r@ == x,
{
    match l.str_value() {
        Ok(v) => { proof { lemma_verbatim_inj(v@, x); } v }
        Err(_) => { proof { assert(false); } String::new() }
    }
}
/// C10: a token of a parsed text (k: its number in the table) has a known span
/// inside that text, and source_text gives back its spelling, or the doc comment it stands for
pub fn t10_source_text(t: &TokenTree, Ghost(k): Ghost<int>, vx_sm: &mut SourceMap) -> (r: Option<String>)
    requires sm_wf(*old(vx_sm)), 0 < k < old(vx_sm).files@.len(), placed(text(*old(vx_sm), k), base(*old(vx_sm), k), tok(*t)),
    ensures r is Some, ({
        let f = text(*old(vx_sm), k);
        let x = r->Some_0@;
        let a = tok_lo(tok(*t)) - base(*old(vx_sm), k);
        let b = tok_hi(tok(*t)) - base(*old(vx_sm), k);
        &&& x.len() > 0 && x == f.subrange(a, b)
        &&& doc_at(f, a, b) || match tok(*t) {
            Tok::Group(d, _, _, _) => x.len() >= 2 && open_code(x[0]) == d && close_code(x.last()) == d,
            _ => x == show_tok(tok(*t)),
        }
    }),
{
    let s = t.span();
    proof { assert(in_file(*vx_sm, k, s.inner.fb())); lemma_file_of(*vx_sm, k, s.inner.fb()); }
    s.source_text(vx_sm)
}
/// C02, C04, C10: every token of a parse, at every depth, lies in the text at
/// its own place and in order; an error lies in the text
pub fn t10_parse(src: &str, vx_sm: &mut SourceMap) -> (r: Result<TokenStream, LexError>)
    requires sm_wf(*old(vx_sm)), room(*old(vx_sm), src@.len() as int), src@.len() < usize::MAX,
    ensures ({
        let k = old(vx_sm).files@.len() as int;
        let at = base(*final(vx_sm), k);
        match r {
            Ok(s) => placed_all(src@, at, toks(s.inner.fb()), at, at + src@.len()),
            Err(e) => in_file(*final(vx_sm), k, e.inner.fb().span) && file_of(*final(vx_sm), e.inner.fb().span) == k,
        }
    }),
{
    let r = TokenStream::from_str(src, vx_sm);
    proof {
        let k = old(vx_sm).files@.len() as int;
        lemma_source_placed(src@, base(*vx_sm, k));
        assert(crate::fallback::fi_wf(vx_sm.files@[k]));
        match r { Ok(_) => {}, Err(ref e) => { assert(in_file(*vx_sm, k, e.inner.fb().span)); lemma_file_of(*vx_sm, k, e.inner.fb().span); } }
    }
    r
}
/// C07: whatever Ident::new and Ident::new_raw accept is, printed, read back as that identifier
pub proof fn t07_ident(raw: bool, name: Seq<char>, lo: int, hi: int)
    requires if raw { raw_name_ok(name) } else { name_ok(name) },
    ensures good_tok(Tok::Ident(raw, name, lo, hi)),
{
    let s = show_tok(Tok::Ident(raw, name, lo, hi));
    word_not_blank(name[0]);
    xid_ascii('#'); xid_ascii('"'); xid_ascii('\''); xid_ascii('r');
    if cp(name[0]) < 0x80 { xid_ascii(name[0]); }
    if name.len() > 1 { assert(name.skip(1)[0] == name[1]); }
    if raw { assert(s =~= seq!['r', '#'] + name); assert(s.skip(2) =~= name); assert(s[0] == 'r' && s[1] == '#' && s[2] == name[0]); } else { assert(s == name); }
    let r = cont_rest(name.skip(1));
    assert(r =~= Seq::<char>::empty());
    assert(head(name, Seq::<char>::empty()) =~= name);
    if name.len() > 1 { assert(xid_continue(name[1])); assert(name[1] != '#' && name[1] != '"' && name[1] != '\''); }
    if name.len() > 2 { assert(name.skip(1).skip(1)[0] == name[2]); reveal_with_fuel(cont_rest, 3); assert(xid_continue(name[2])); assert(name[2] != '#' && name[2] != '"'); }
    assert(!ws_char(s[0]));
    assert(!lit_prefix(s));
    assert(after_raw_mark(s) == name);
    assert(g_ident_any(s) == Some((Seq::<char>::empty(), raw, name)));
}
}
#end
