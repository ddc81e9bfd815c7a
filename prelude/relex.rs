// Printed tokens read back as the same tokens: what a scanner takes does not
// depend on what follows, as long as that is the end, a space or `)` or `]`.
pub mod relex {
use super::*;
verus! {
/// neither whitespace nor the byte order mark starts a word
pub axiom fn word_not_blank(c: char) ensures xid_start(c) ==> !ws_char(c) && c != '\u{feff}';
pub proof fn lemma_lit_start(t: Seq<char>)
    requires g_literal(t).is_some(),
    ensures t.len() > 0, t[0] == '"' || t[0] == 'r' || t[0] == 'b' || t[0] == 'c' || t[0] == '\'' || is_dec(t[0]),
{
    if t.len() > 0 && !(t[0] == '"' || t[0] == 'r' || t[0] == 'b' || t[0] == 'c' || t[0] == '\'' || is_dec(t[0])) {
        assert(base_of(t) == 10);
        assert(dg(t, 10, true).is_none()) by { if is_hex(t[0]) && !is_dec(t[0]) { assert(hexv(t[0]) >= 10); } }
    }
    if t.len() == 0 { assert(base_of(t) == 10); }
}
pub open spec fn stop(t: Seq<char>) -> bool { t.len() == 0 || t[0] == ' ' || t[0] == ')' || t[0] == ']' }
/// what is left when the tail `t0` of the text is replaced by `t`
pub open spec fn swap(r: Seq<char>, t0: Seq<char>, t: Seq<char>) -> Seq<char> { r.take(r.len() - t0.len()) + t }

pub broadcast proof fn lemma_cat_skip(a: Seq<char>, t: Seq<char>, k: int)
    requires 0 <= k <= a.len(),
    ensures #[trigger] (a + t).skip(k) == a.skip(k) + t,
{ assert((a + t).skip(k) =~= a.skip(k) + t); }
pub broadcast proof fn lemma_cat_none(a: Seq<char>, t: Seq<char>)
    requires a.len() == 0,
    ensures #[trigger] (a + t) == t,
{ assert(a + t =~= t); }
/// a rest of `a + t0` that reaches into `a`
pub proof fn lemma_split(a: Seq<char>, t0: Seq<char>, r: Seq<char>, t: Seq<char>)
    requires sfx(a + t0, r), r.len() >= t0.len(),
    ensures ({
        let k = a.len() + t0.len() - r.len();
        &&& 0 <= k <= a.len()
        &&& r == a.skip(k) + t0
        &&& a + t0 == a.take(k) + r
        &&& swap(r, t0, t) == a.skip(k) + t
        &&& a + t == a.take(k) + swap(r, t0, t)
        &&& a.take(k).len() == k
    }),
{
    reveal(sfx);
    let k = a.len() + t0.len() - r.len();
    assert(r =~= a.skip(k) + t0);
    assert(a + t0 =~= a.take(k) + r);
    assert(swap(r, t0, t) =~= a.skip(k) + t);
    assert(a + t =~= a.take(k) + swap(r, t0, t));
}
pub proof fn lemma_stop(t: Seq<char>)
    requires stop(t),
    ensures t.len() > 0 ==> !xid_continue(t[0]) && !id_start(t[0]) && !is_hex(t[0]) && t[0] != '_' && t[0] != '.' && t[0] != '+' && t[0] != '-' && t[0] != '#' && t[0] != '"' && t[0] != '\'' && !is_punct(t[0]),
        suffix(t) == t, word_end(t) == Some(t), cont_rest(t) == t,
{ if t.len() > 0 { xid_ascii(t[0]); } }

// ---- words
pub proof fn lemma_cont_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires cont_rest(a + t0) == t0, stop(t),
    ensures cont_rest(a + t) == t,
    decreases a.len(),
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    lemma_stop(t);
    if a.len() > 0 {
        assert((a + t0)[0] == a[0] && (a + t)[0] == a[0]);
        assert((a + t0).len() != t0.len());
        lemma_cont_ctx(a.skip(1), t0, t);
    }
}
pub proof fn lemma_cont_end(s: Seq<char>)
    ensures cont_rest(s).len() == 0 || !xid_continue(cont_rest(s)[0]),
    decreases s.len(),
{ if s.len() > 0 { lemma_cont_end(s.skip(1)); } }
pub proof fn lemma_suffix_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires suffix(a + t0) == t0, stop(t),
    ensures suffix(a + t) == t,
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    lemma_stop(t);
    if a.len() > 0 {
        assert((a + t0)[0] == a[0] && (a + t)[0] == a[0]);
        assert((a + t0).len() != t0.len());
        lemma_cont_ctx(a.skip(1), t0, t);
    }
}
pub proof fn lemma_num_suffix(x: Seq<char>)
    ensures num_suffix(x).is_some() == (x.len() == 0 || id_start(x[0]) || !xid_continue(x[0])),
        num_suffix(x).is_some() ==> num_suffix(x) == Some(suffix(x)) && (suffix(x).len() == 0 || !xid_continue(suffix(x)[0])),
{ if x.len() > 0 { lemma_cont_end(x.skip(1)); } }
pub proof fn lemma_num_suffix_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires num_suffix(a + t0) == Some(t0), stop(t),
    ensures num_suffix(a + t) == Some(t),
{ lemma_num_suffix(a + t0); lemma_suffix_ctx(a, t0, t); lemma_stop(t); }

// ---- quoted literals
pub proof fn lemma_u_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>, v: int, n: int)
    requires u_body(a + t0, v, n).is_some(), u_body(a + t0, v, n).unwrap().0 == t0,
    ensures u_body(a + t, v, n) == Some((t, u_body(a + t0, v, n).unwrap().1)),
    decreases a.len(),
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    lemma_u_body(a + t0, v, n);
    if a.len() > 0 {
        assert((a + t0)[0] == a[0] && (a + t)[0] == a[0]);
        if is_hex(a[0]) { lemma_u_ctx(a.skip(1), t0, t, v * 16 + hexv(a[0]), n + 1); }
        else if a[0] == '_' && n > 0 { lemma_u_ctx(a.skip(1), t0, t, v, n); }
        else { assert(a.skip(1).len() == 0); }
    }
}
pub proof fn lemma_u_esc_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires u_esc(a + t0).is_some(), u_esc(a + t0).unwrap().0 == t0,
    ensures u_esc(a + t) == Some((t, u_esc(a + t0).unwrap().1)), a.len() > 0,
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    lemma_u_body((a + t0).skip(1), 0, 0);
    lemma_sfx_len((a + t0).skip(1), t0);
    assert((a + t0)[0] == a[0] && (a + t)[0] == a[0]);
    lemma_u_ctx(a.skip(1), t0, t, 0, 0);
}
pub proof fn lemma_cont_ws_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>, l: int)
    requires cont_ws(a + t0, l) == Some(t0), t0.len() > 0, t.len() > 0, t[0] == t0[0],
    ensures cont_ws(a + t, l) == Some(t),
    decreases a.len(),
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    if a.len() > 0 {
        assert((a + t0)[0] == a[0] && (a + t)[0] == a[0]);
        assert((a + t0).len() != t0.len());
        if l == 13 { lemma_cont_ws_ctx(a.skip(1), t0, t, 10); } else { lemma_cont_ws_ctx(a.skip(1), t0, t, cp(a[0])); }
    } else {
        if l == 13 { lemma_cont_ws(t0.skip(1), 10); lemma_sfx_len(t0.skip(1), t0); }
        else if t0[0] == ' ' || t0[0] == '\t' || t0[0] == '\n' || t0[0] == '\r' { lemma_cont_ws(t0.skip(1), cp(t0[0])); lemma_sfx_len(t0.skip(1), t0); }
    }
}
pub proof fn lemma_cooked_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>, mode: int)
    requires cooked(a + t0, mode) == Some(t0),
    ensures cooked(a + t, mode) == Some(t), a.len() > 0,
    decreases a.len(),
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let s = a + t0;
    lemma_cooked(s, mode);
    lemma_sfx_len(s, t0);
    assert(a.len() > 0);
    assert(s[0] == a[0] && (a + t)[0] == a[0]);
    if a[0] == '"' { assert(a.skip(1).len() == 0); }
    else if a[0] == '\r' {
        lemma_cooked(s.skip(2), mode); lemma_sfx_len(s.skip(2), t0);
        assert(s[1] == a[1] && (a + t)[1] == a[1]);
        lemma_cooked_ctx(a.skip(2), t0, t, mode);
    }
    else if a[0] == '\\' {
        if s[1] == 'x' {
            lemma_cooked(s.skip(4), mode); lemma_sfx_len(s.skip(4), t0);
            assert(s[1] == a[1] && (a + t)[1] == a[1] && s[2] == a[2] && (a + t)[2] == a[2] && s[3] == a[3] && (a + t)[3] == a[3]);
            assert(x_ok((a + t).skip(2), mode) == x_ok(s.skip(2), mode));
            lemma_cooked_ctx(a.skip(4), t0, t, mode);
        } else if simple_esc(s[1]) || (s[1] == '0' && mode != 2) {
            lemma_cooked(s.skip(2), mode); lemma_sfx_len(s.skip(2), t0);
            assert(s[1] == a[1] && (a + t)[1] == a[1]);
            lemma_cooked_ctx(a.skip(2), t0, t, mode);
        } else if s[1] == 'u' && mode != 1 {
            let u = u_esc(s.skip(2)).unwrap();
            lemma_u_body(s.skip(2).skip(1), 0, 0);
            lemma_cooked(u.0, mode); lemma_sfx_len(u.0, t0); lemma_sfx_len(s.skip(2).skip(1), u.0);
            assert(s[1] == a[1] && (a + t)[1] == a[1]);
            lemma_sfx_skip(s.skip(2), 1);
            lemma_sfx_trans(s.skip(2), s.skip(2).skip(1), u.0);
            assert(s.skip(2) == a.skip(2) + t0);
            lemma_split(a.skip(2), t0, u.0, t);
            let k = a.skip(2).len() + t0.len() - u.0.len();
            lemma_u_esc_ctx(a.skip(2).take(k), u.0, swap(u.0, t0, t));
            lemma_cooked_ctx(a.skip(2).skip(k), t0, t, mode);
        } else {
            let c = cont_ws(s.skip(2), cp(s[1])).unwrap();
            lemma_cont_ws(s.skip(2), cp(s[1]));
            lemma_cooked(c, mode); lemma_sfx_len(c, t0); lemma_sfx_len(s.skip(2), c);
            assert(s[1] == a[1] && (a + t)[1] == a[1]);
            assert(s.skip(2) == a.skip(2) + t0);
            lemma_split(a.skip(2), t0, c, t);
            let k = a.skip(2).len() + t0.len() - c.len();
            assert(swap(c, t0, t)[0] == c[0]);
            lemma_cont_ws_ctx(a.skip(2).take(k), c, swap(c, t0, t), cp(s[1]));
            lemma_cooked_ctx(a.skip(2).skip(k), t0, t, mode);
        }
    }
    else {
        lemma_cooked(s.skip(1), mode); lemma_sfx_len(s.skip(1), t0);
        lemma_cooked_ctx(a.skip(1), t0, t, mode);
    }
}
/// hashes that end inside `a`, or reach its end
pub proof fn lemma_hashes_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    ensures hashes(a + t0) < a.len() ==> hashes(a + t) == hashes(a + t0),
        hashes(a + t0) >= a.len() ==> hashes(a + t) >= a.len(),
    decreases a.len(),
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    lemma_hashes(a + t0); lemma_hashes(a + t);
    if a.len() > 0 {
        assert((a + t0)[0] == a[0] && (a + t)[0] == a[0]);
        lemma_hashes_ctx(a.skip(1), t0, t);
    }
}
pub proof fn lemma_raw_body_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>, n: int, mode: int)
    requires raw_body(a + t0, n, mode) == Some(t0), n >= 0,
    ensures raw_body(a + t, n, mode) == Some(t), a.len() > n,
    decreases a.len(),
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let s = a + t0;
    lemma_raw_body(s, n, mode);
    lemma_sfx_len(s, t0);
    assert(a.len() > 0);
    assert(s[0] == a[0] && (a + t)[0] == a[0]);
    lemma_hashes_ctx(a.skip(1), t0, t);
    lemma_hashes(s.skip(1));
    if a[0] == '"' && hashes(s.skip(1)) >= n {
        assert(a.len() == 1 + n);
        assert((a + t).skip(1 + n) =~= t);
    } else if a[0] == '\r' {
        lemma_raw_body(s.skip(2), n, mode); lemma_sfx_len(s.skip(2), t0);
        assert(s[1] == a[1] && (a + t)[1] == a[1]);
        lemma_raw_body_ctx(a.skip(2), t0, t, n, mode);
    } else {
        lemma_raw_body(s.skip(1), n, mode); lemma_sfx_len(s.skip(1), t0);
        lemma_raw_body_ctx(a.skip(1), t0, t, n, mode);
    }
}
pub proof fn lemma_cooked_lit_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>, mode: int)
    requires cooked_lit(a + t0, mode) == Some(t0), stop(t),
    ensures cooked_lit(a + t, mode) == Some(t), a.len() > 0,
{
    let r = cooked(a + t0, mode).unwrap();
    lemma_cooked(a + t0, mode);
    lemma_suffix(r);
    lemma_sfx_len(r, t0);
    lemma_split(a, t0, r, t);
    let k = a.len() + t0.len() - r.len();
    lemma_cooked_ctx(a.take(k), r, swap(r, t0, t), mode);
    lemma_suffix_ctx(a.skip(k), t0, t);
}
pub proof fn lemma_raw_lit_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>, mode: int)
    requires raw_lit(a + t0, mode) == Some(t0), stop(t),
    ensures raw_lit(a + t, mode) == Some(t), a.len() > 0,
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let s = a + t0;
    let n = hashes(s);
    lemma_hashes(s);
    let o = s.skip(n + 1);
    let r = raw_body(o, n, mode).unwrap();
    lemma_raw_body(o, n, mode);
    lemma_suffix(r);
    lemma_sfx_len(r, t0); lemma_sfx_len(o, r);
    assert(o.len() == s.len() - n - 1);
    assert(n + 1 <= a.len());
    lemma_hashes_ctx(a, t0, t);
    assert(s[n] == a[n] && (a + t)[n] == a[n]);
    assert(o == a.skip(n + 1) + t0);
    assert((a + t).skip(n + 1) == a.skip(n + 1) + t);
    lemma_split(a.skip(n + 1), t0, r, t);
    let b = a.skip(n + 1);
    let k = b.len() + t0.len() - r.len();
    lemma_raw_body_ctx(b.take(k), r, swap(r, t0, t), n, mode);
    lemma_suffix_ctx(b.skip(k), t0, t);
}
pub proof fn lemma_close_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires close_quote(a + t0) == Some(t0), stop(t),
    ensures close_quote(a + t) == Some(t), a.len() > 0,
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let s = a + t0;
    lemma_suffix(s.skip(1)); lemma_sfx_len(s.skip(1), t0);
    assert(s[0] == a[0] && (a + t)[0] == a[0]);
    lemma_suffix_ctx(a.skip(1), t0, t);
}
pub proof fn lemma_char_body_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires char_body(a + t0) == Some(t0), stop(t),
    ensures char_body(a + t) == Some(t), a.len() > 0,
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let s = a + t0;
    assert forall|k: int| 0 <= k <= s.len() && #[trigger] close_quote(s.skip(k)) == Some(t0) implies k < a.len() by {
        lemma_suffix(s.skip(k).skip(1)); lemma_sfx_len(s.skip(k).skip(1), t0);
    }
    if s[0] == '\\' {
        if s[1] == 'x' {
            assert(close_quote(s.skip(4)) == Some(t0));
            assert(s[0] == a[0] && (a + t)[0] == a[0] && s[1] == a[1] && (a + t)[1] == a[1] && s[2] == a[2] && (a + t)[2] == a[2] && s[3] == a[3] && (a + t)[3] == a[3]);
            assert(x_ok((a + t).skip(2), 0) == x_ok(s.skip(2), 0));
            lemma_close_ctx(a.skip(4), t0, t);
        } else if s[1] == 'u' {
            let u = u_esc(s.skip(2)).unwrap();
            lemma_u_body(s.skip(2).skip(1), 0, 0);
            lemma_suffix(u.0.skip(1)); lemma_sfx_len(u.0.skip(1), t0); lemma_sfx_len(s.skip(2).skip(1), u.0);
            assert(s[0] == a[0] && (a + t)[0] == a[0] && s[1] == a[1] && (a + t)[1] == a[1]);
            lemma_sfx_skip(s.skip(2), 1);
            lemma_sfx_trans(s.skip(2), s.skip(2).skip(1), u.0);
            lemma_split(a.skip(2), t0, u.0, t);
            let k = a.skip(2).len() + t0.len() - u.0.len();
            lemma_u_esc_ctx(a.skip(2).take(k), u.0, swap(u.0, t0, t));
            lemma_close_ctx(a.skip(2).skip(k), t0, t);
        } else {
            assert(close_quote(s.skip(2)) == Some(t0));
            assert(s[0] == a[0] && (a + t)[0] == a[0] && s[1] == a[1] && (a + t)[1] == a[1]);
            lemma_close_ctx(a.skip(2), t0, t);
        }
    } else {
        assert(close_quote(s.skip(1)) == Some(t0));
        assert(s[0] == a[0] && (a + t)[0] == a[0]);
        lemma_close_ctx(a.skip(1), t0, t);
    }
}
pub proof fn lemma_byte_body_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires byte_body(a + t0) == Some(t0), stop(t),
    ensures byte_body(a + t) == Some(t), a.len() > 0,
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let s = a + t0;
    assert forall|k: int| 0 <= k <= s.len() && #[trigger] close_quote(s.skip(k)) == Some(t0) implies k < a.len() by {
        lemma_suffix(s.skip(k).skip(1)); lemma_sfx_len(s.skip(k).skip(1), t0);
    }
    if s[0] == '\\' {
        if s[1] == 'x' {
            assert(close_quote(s.skip(4)) == Some(t0));
            assert(s[0] == a[0] && (a + t)[0] == a[0] && s[1] == a[1] && (a + t)[1] == a[1] && s[2] == a[2] && (a + t)[2] == a[2] && s[3] == a[3] && (a + t)[3] == a[3]);
            assert(x_ok((a + t).skip(2), 1) == x_ok(s.skip(2), 1));
            lemma_close_ctx(a.skip(4), t0, t);
        } else {
            assert(close_quote(s.skip(2)) == Some(t0));
            assert(s[0] == a[0] && (a + t)[0] == a[0] && s[1] == a[1] && (a + t)[1] == a[1]);
            lemma_close_ctx(a.skip(2), t0, t);
        }
    } else {
        assert(close_quote(s.skip(1)) == Some(t0));
        assert(s[0] == a[0] && (a + t)[0] == a[0]);
        lemma_close_ctx(a.skip(1), t0, t);
    }
}
// ---- numbers
pub proof fn lemma_mant_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>, dot: bool)
    requires stop(t),
    ensures match mant(a + t0, dot) {
        Mant::Reject => true,
        Mant::Plain(r, d) => r.len() >= t0.len() ==> sfx(a + t0, r) && mant(a + t, dot) == Mant::Plain(swap(r, t0, t), d),
        Mant::Exp(r, d) => r.len() >= t0.len() ==> sfx(a + t0, r) && r.len() < (a + t0).len() && (a + t0)[(a + t0).len() - r.len() - 1] == (a + t)[(a + t0).len() - r.len() - 1]
            && ((a + t0)[(a + t0).len() - r.len() - 1] == 'e' || (a + t0)[(a + t0).len() - r.len() - 1] == 'E') && mant(a + t, dot) == Mant::Exp(swap(r, t0, t), d),
    },
    decreases a.len(),
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let s = a + t0;
    lemma_stop(t);
    lemma_mant(s, dot);
    lemma_sfx_refl(s);
    assert(swap(s, t0, t) =~= a + t);
    if a.len() > 0 {
        assert(s[0] == a[0] && (a + t)[0] == a[0]);
        lemma_sfx_skip(s, 1);
        let b = a.skip(1);
        assert(s.skip(1) == b + t0 && (a + t).skip(1) == b + t);
        assert(swap(s.skip(1), t0, t) =~= b + t);
        if is_dec(a[0]) || a[0] == '_' {
            lemma_mant_ctx(b, t0, t, dot);
            match mant(b + t0, dot) { Mant::Plain(r, d) => { if r.len() >= t0.len() { lemma_sfx_trans(s, s.skip(1), r); } }, Mant::Exp(r, d) => { if r.len() >= t0.len() { lemma_sfx_trans(s, s.skip(1), r); } }, _ => {} }
        }
        else if a[0] == '.' && !dot {
            if a.len() >= 2 { assert(s[1] == a[1] && (a + t)[1] == a[1]); } else if t.len() > 0 { assert((a + t)[1] == t[0]); }
            lemma_mant_ctx(b, t0, t, true);
            match mant(b + t0, true) { Mant::Plain(r, d) => { if r.len() >= t0.len() { lemma_sfx_trans(s, s.skip(1), r); } }, Mant::Exp(r, d) => { if r.len() >= t0.len() { lemma_sfx_trans(s, s.skip(1), r); } }, _ => {} }
        }
    } else {
        assert(s == t0);
        if t0.len() > 0 {
            lemma_mant(t0.skip(1), dot); lemma_mant(t0.skip(1), true);
            match mant(t0.skip(1), dot) { Mant::Plain(r, d) => { lemma_sfx_len(t0.skip(1), r); }, Mant::Exp(r, d) => { lemma_sfx_len(t0.skip(1), r); }, _ => {} }
            match mant(t0.skip(1), true) { Mant::Plain(r, d) => { lemma_sfx_len(t0.skip(1), r); }, Mant::Exp(r, d) => { lemma_sfx_len(t0.skip(1), r); }, _ => {} }
        }
        match mant(t0, dot) { Mant::Plain(r, d) => { lemma_sfx_len(t0, r); if r.len() >= t0.len() { assert(swap(r, t0, t) =~= t); } }, Mant::Exp(r, d) => {}, _ => {} }
    }
}
/// once digits were seen an exponent cannot fail
pub proof fn lemma_expo_some(s: Seq<char>, sign: bool)
    ensures expo(s, sign, true).is_some(),
    decreases s.len(),
{ if s.len() > 0 { lemma_expo_some(s.skip(1), sign); } }
pub proof fn lemma_expo_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>, sign: bool, val: bool)
    requires stop(t),
    ensures match expo(a + t0, sign, val) {
            Some(u) => u.len() >= t0.len() ==> sfx(a + t0, u) && expo(a + t, sign, val) == Some(swap(u, t0, t)),
            None => expo(a + t, sign, val).is_none(),
        },
        // and back, when no word goes on behind `a`
        (t0.len() == 0 || !xid_continue(t0[0])) && expo(a + t, sign, val).is_some() ==>
            expo(a + t0, sign, val).is_some() && expo(a + t0, sign, val).unwrap().len() >= t0.len(),
    decreases a.len(),
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let s = a + t0;
    lemma_stop(t);
    lemma_expo(s, sign, val);
    lemma_sfx_refl(s);
    assert(swap(s, t0, t) =~= a + t);
    if a.len() > 0 {
        assert(s[0] == a[0] && (a + t)[0] == a[0]);
        lemma_sfx_skip(s, 1);
        let b = a.skip(1);
        assert(s.skip(1) == b + t0 && (a + t).skip(1) == b + t);
        lemma_expo_ctx(b, t0, t, true, val);
        lemma_expo_ctx(b, t0, t, sign, true);
        lemma_expo_ctx(b, t0, t, sign, val);
        match expo(b + t0, true, val) { Some(u) => { if u.len() >= t0.len() { lemma_sfx_trans(s, s.skip(1), u); } }, None => {} }
        match expo(b + t0, sign, true) { Some(u) => { if u.len() >= t0.len() { lemma_sfx_trans(s, s.skip(1), u); } }, None => {} }
        match expo(b + t0, sign, val) { Some(u) => { if u.len() >= t0.len() { lemma_sfx_trans(s, s.skip(1), u); } }, None => {} }
    } else {
        if val { lemma_expo_some(t0, sign); }
        if t0.len() > 0 { if cp(t0[0]) < 0x80 { xid_ascii(t0[0]); } }
        assert(s == t0);
        if t0.len() > 0 {
            lemma_expo(t0.skip(1), true, val); lemma_expo(t0.skip(1), sign, true); lemma_expo(t0.skip(1), sign, val);
            match expo(t0.skip(1), true, val) { Some(u) => { lemma_sfx_len(t0.skip(1), u); }, None => {} }
            match expo(t0.skip(1), sign, true) { Some(u) => { lemma_sfx_len(t0.skip(1), u); }, None => {} }
            match expo(t0.skip(1), sign, val) { Some(u) => { lemma_sfx_len(t0.skip(1), u); }, None => {} }
        }
        match expo(t0, sign, val) { Some(u) => { lemma_sfx_len(t0, u); if u.len() >= t0.len() { assert(swap(u, t0, t) =~= t); } }, None => {} }
    }
}
pub proof fn lemma_float_digits_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires stop(t), g_float_digits(a + t0).is_some(), a.len() > 0, sfx(a + t0, g_float_digits(a + t0).unwrap()),
        ({ let r = g_float_digits(a + t0).unwrap(); r.len() > t0.len() || (r.len() == t0.len() && (r.len() == 0 || (r[0] != 'e' && r[0] != 'E'))) }),
    ensures g_float_digits(a + t) == Some(swap(g_float_digits(a + t0).unwrap(), t0, t)),
{
    hide(mant); hide(expo);
    let s = a + t0;
    let r = g_float_digits(s).unwrap();
    assert(s[0] == a[0] && (a + t)[0] == a[0]);
    let b = a.skip(1);
    lemma_cat_skip(a, t0, 1); lemma_cat_skip(a, t, 1);
    lemma_mant_ctx(b, t0, t, false);
    lemma_mant(b + t0, false);
    match mant(b + t0, false) {
        Mant::Reject => {},
        Mant::Plain(x, d) => {},
        Mant::Exp(x, d) => {
            let c = (b + t0).len() - x.len() - 1;
            lemma_expo(x, false, false);
            match expo(x, false, false) {
                Some(u) => {
                    lemma_sfx_len(x, u);
                    lemma_split(b, t0, x, t);
                    let k = b.len() + t0.len() - x.len();
                    lemma_expo_ctx(b.skip(k), t0, t, false, false);
                },
                None => {
                    assert(r == s.skip(s.len() - x.len() - 1));
                    assert(r.len() == x.len() + 1);
                    assert(r[0] == s[c + 1]);
                    assert(s[c + 1] == (b + t0)[c]);
                    assert(x.len() >= t0.len());
                    lemma_split(b, t0, x, t);
                    let k = b.len() + t0.len() - x.len();
                    lemma_expo_ctx(b.skip(k), t0, t, false, false);
                    assert((a + t).skip((a + t).len() - swap(x, t0, t).len() - 1) =~= swap(r, t0, t));
                },
            }
        },
    }
}
pub proof fn lemma_float_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires float_lit(a + t0) == Some(t0), stop(t),
    ensures float_lit(a + t) == Some(t), a.len() > 0,
{
    hide(g_float_digits);
    let s = a + t0;
    let r = g_float_digits(s).unwrap();
    lemma_numbers(s);
    lemma_sfx_len(s, t0);
    lemma_float_sfx(s);
    lemma_suffix(r);
    lemma_sfx_len(r, t0);
    lemma_num_suffix(r);
    if r.len() == t0.len() && r.len() > 0 && (r[0] == 'e' || r[0] == 'E') {
        xid_ascii(r[0]);
        lemma_cont_rest(r.skip(1));
        lemma_sfx_len(r.skip(1), cont_rest(r.skip(1)));
        assert(false);
    }
    lemma_float_digits_ctx(a, t0, t);
    lemma_split(a, t0, r, t);
    lemma_num_suffix_ctx(a.skip(a.len() + t0.len() - r.len()), t0, t);
}
pub proof fn lemma_float_sfx(s: Seq<char>)
    ensures match g_float_digits(s) { Some(r) => sfx(s, r), None => true },
{
    broadcast use vx_text;
    if s.len() > 0 {
        lemma_sfx_skip(s, 1);
        lemma_mant(s.skip(1), false);
        match mant(s.skip(1), false) {
            Mant::Exp(r, dot) => { lemma_expo(r, false, false); lemma_sfx_skip(s, s.len() - r.len() - 1); },
            _ => {},
        }
    }
}
pub proof fn lemma_dg_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>, base: int, empty: bool)
    requires stop(t),
    ensures match dg(a + t0, base, empty) {
        Some(r) => r.len() >= t0.len() ==> sfx(a + t0, r) && dg(a + t, base, empty) == Some(swap(r, t0, t))
            && (forall|i: int| 0 <= i < a.len() + t0.len() - r.len() ==> #[trigger] a[i] != '.'),
        None => true,
    },
    decreases a.len(),
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let s = a + t0;
    lemma_stop(t);
    lemma_dg(s, base, empty);
    lemma_sfx_refl(s);
    assert(swap(s, t0, t) =~= a + t);
    if a.len() > 0 {
        assert(s[0] == a[0] && (a + t)[0] == a[0]);
        lemma_sfx_skip(s, 1);
        let b = a.skip(1);
        assert(s.skip(1) == b + t0 && (a + t).skip(1) == b + t);
        lemma_dg_ctx(b, t0, t, base, false);
        lemma_dg_ctx(b, t0, t, base, empty);
        match dg(s, base, empty) {
            Some(r) => {
                if r.len() >= t0.len() {
                    assert forall|i: int| 0 <= i < a.len() + t0.len() - r.len() implies #[trigger] a[i] != '.' by { if i > 0 { assert(b[i - 1] == a[i]); } }
                }
            },
            None => {},
        }
    } else {
        assert(s == t0);
        if t0.len() > 0 {
            lemma_dg(t0.skip(1), base, false); lemma_dg(t0.skip(1), base, empty);
            match dg(t0.skip(1), base, false) { Some(u) => { lemma_sfx_len(t0.skip(1), u); }, None => {} }
            match dg(t0.skip(1), base, empty) { Some(u) => { lemma_sfx_len(t0.skip(1), u); }, None => {} }
        }
        match dg(t0, base, empty) { Some(u) => { lemma_sfx_len(t0, u); if u.len() >= t0.len() { assert(swap(u, t0, t) =~= t); } }, None => {} }
    }
}
pub proof fn lemma_cont_nodot(a: Seq<char>, t0: Seq<char>)
    requires cont_rest(a + t0) == t0,
    ensures forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != '.',
    decreases a.len(),
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    if a.len() > 0 {
        assert((a + t0)[0] == a[0]);
        assert((a + t0).len() != t0.len());
        lemma_cont_nodot(a.skip(1), t0);
        xid_ascii('.');
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != '.' by { if i > 0 { assert(a.skip(1)[i - 1] == a[i]); } }
    }
}
pub proof fn lemma_suffix_nodot(a: Seq<char>, t0: Seq<char>)
    requires suffix(a + t0) == t0,
    ensures forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != '.',
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    if a.len() > 0 {
        assert((a + t0)[0] == a[0]);
        assert((a + t0).len() != t0.len());
        lemma_cont_nodot(a.skip(1), t0);
        xid_ascii('.');
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != '.' by { if i > 0 { assert(a.skip(1)[i - 1] == a[i]); } }
    }
}
/// without a point in `a` the mantissa ends in `a`, the same way
pub proof fn lemma_mant_nodot(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != '.', stop(t),
    ensures match mant(a + t, false) {
        Mant::Reject => false,
        Mant::Plain(r, d) => !d,
        Mant::Exp(r, d) => !d && r.len() >= t.len() && sfx(a + t, r) && mant(a + t0, false) == Mant::Exp(swap(r, t, t0), false),
    },
    decreases a.len(),
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    lemma_stop(t);
    if a.len() > 0 {
        assert((a + t0)[0] == a[0] && (a + t)[0] == a[0]);
        let b = a.skip(1);
        assert((a + t0).skip(1) == b + t0 && (a + t).skip(1) == b + t);
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != '.' by { assert(b[i] == a[i + 1]); }
        lemma_mant_nodot(b, t0, t);
        lemma_sfx_skip(a + t, 1);
        assert(swap(b + t, t, t0) =~= b + t0);
        match mant(b + t, false) { Mant::Exp(r, d) => { lemma_sfx_trans(a + t, b + t, r); }, _ => {} }
    }
}
pub proof fn lemma_int_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires int_lit(a + t0) == Some(t0), stop(t),
    ensures int_lit(a + t) == Some(t), a.len() > 0, forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != '.',
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let s = a + t0;
    lemma_numbers(s);
    lemma_sfx_len(s, t0);
    assert(a.len() > 0);
    let r = int_digits(s).unwrap();
    lemma_suffix(r);
    lemma_sfx_len(r, t0);
    assert(s[0] == a[0] && (a + t)[0] == a[0]);
    if base_of(s) == 10 {
        lemma_dg_ctx(a, t0, t, 10, true);
        lemma_split(a, t0, r, t);
        let k = a.len() + t0.len() - r.len();
        assert(base_of(a + t) == 10) by {
            if a.len() >= 2 { assert(s[1] == a[1] && (a + t)[1] == a[1]); } else if t.len() > 0 { assert((a + t)[1] == t[0]); }
        }
        lemma_num_suffix_ctx(a.skip(k), t0, t);
        lemma_num_suffix(r);
        lemma_suffix_nodot(a.skip(k), t0);
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != '.' by { if i >= k { assert(a.skip(k)[i - k] == a[i]); } }
    } else {
        lemma_dg(s.skip(2), base_of(s), true);
        lemma_sfx_len(s.skip(2), r);
        assert(a.len() >= 2);
        assert(s[1] == a[1] && (a + t)[1] == a[1]);
        let b = a.skip(2);
        lemma_dg_ctx(b, t0, t, base_of(s), true);
        lemma_split(b, t0, r, t);
        let k = b.len() + t0.len() - r.len();
        lemma_num_suffix_ctx(b.skip(k), t0, t);
        lemma_num_suffix(r);
        lemma_suffix_nodot(b.skip(k), t0);
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != '.' by {
            if i >= 2 { assert(a[i] == b[i - 2]); if i >= k + 2 { assert(b.skip(k)[i - 2 - k] == b[i - 2]); } }
        }
    }
}
/// an integer stays an integer
pub proof fn lemma_int_not_float(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires int_lit(a + t0) == Some(t0), float_lit(a + t0).is_none(), stop(t),
    ensures float_lit(a + t).is_none(),
{
    hide(mant); hide(expo); hide(cont_rest); hide(dg); hide(suffix);
    lemma_int_ctx(a, t0, t);
    lemma_cat_skip(a, t0, 1); lemma_cat_skip(a, t, 1);
    lemma_stop(t);
    let s = a + t0;
    assert(s[0] == a[0] && (a + t)[0] == a[0]);
    let b = a.skip(1);
    assert(s.skip(1) == b + t0 && (a + t).skip(1) == b + t);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != '.' by { assert(b[i] == a[i + 1]); }
    lemma_mant_nodot(b, t0, t);
    // nothing that continues a word stands behind the literal
    assert(t0.len() == 0 || !xid_continue(t0[0])) by { lemma_num_suffix(int_digits(s).unwrap()); }
    match mant(b + t, false) {
        Mant::Exp(r, d) => {
            lemma_split(b, t, r, t0);
            let k = b.len() + t.len() - r.len();
            let c = b.skip(k);
            assert(r == c + t && swap(r, t, t0) == c + t0);
            lemma_expo_ctx(c, t0, t, false, false);
            if expo(c + t, false, false).is_some() {
                let u = expo(c + t0, false, false).unwrap();
                lemma_split(c, t0, u, t);
                let j = c.len() + t0.len() - u.len();
                let w = c.skip(j);
                lemma_num_suffix(w + t0);
                lemma_num_suffix(w + t);
                if w.len() > 0 { assert((w + t0)[0] == w[0] && (w + t)[0] == w[0]); }
            }
        },
        _ => {},
    }
}
pub proof fn lemma_literal_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires g_literal(a + t0) == Some(t0), stop(t),
    ensures g_literal(a + t) == Some(t), a.len() > 0,
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let s = a + t0;
    lemma_literal(s);
    lemma_sfx_len(s, t0);
    assert(a.len() > 0);
    lemma_stop(t);
    assert(s[0] == a[0] && (a + t)[0] == a[0]);
    if a.len() >= 2 { assert(s[1] == a[1] && (a + t)[1] == a[1]); } else if t.len() > 0 { assert((a + t)[1] == t[0]); }
    lemma_lit_start(s);
    if string_lit(s).is_some() {
        if p1(s, '"') { lemma_cooked_lit_ctx(a.skip(1), t0, t, 0); } else { lemma_raw_lit_ctx(a.skip(1), t0, t, 0); }
    } else if byte_string_lit(s).is_some() {
        lemma_quoted(s.skip(2), 1);
        if p2(s, 'b', '"') { lemma_sfx_len(s.skip(2), t0); lemma_cooked_lit_ctx(a.skip(2), t0, t, 1); } else { lemma_sfx_len(s.skip(2), t0); lemma_raw_lit_ctx(a.skip(2), t0, t, 1); }
    } else if c_string_lit(s).is_some() {
        lemma_quoted(s.skip(2), 2);
        if p2(s, 'c', '"') { lemma_sfx_len(s.skip(2), t0); lemma_cooked_lit_ctx(a.skip(2), t0, t, 2); } else { lemma_sfx_len(s.skip(2), t0); lemma_raw_lit_ctx(a.skip(2), t0, t, 2); }
    } else if byte_lit(s).is_some() {
        if a.len() < 2 {
            assert(s.skip(2).len() == t0.len() - 1);
            lemma_char_lits(s);
            lemma_byte_len(s.skip(2));
        }
        lemma_byte_body_ctx(a.skip(2), t0, t);
    } else if char_lit(s).is_some() {
        lemma_char_body_ctx(a.skip(1), t0, t);
    } else if float_lit(s).is_some() {
        lemma_float_ctx(a, t0, t);
    } else {
        lemma_int_not_float(a, t0, t);
        lemma_int_ctx(a, t0, t);
    }
}
pub proof fn lemma_byte_len(s: Seq<char>)
    ensures byte_body(s).is_some() ==> byte_body(s).unwrap().len() < s.len(),
{
    broadcast use vx_text;
    if s.len() > 0 { lemma_close_quote(s.skip(1)); }
    if s.len() > 1 { lemma_close_quote(s.skip(2)); }
    if s.len() > 3 { lemma_close_quote(s.skip(4)); }
}

// ---- identifiers
/// a name keeps its end when something that stops words is put behind the text
pub proof fn lemma_cont_more(n: Seq<char>, t: Seq<char>)
    requires stop(t),
    ensures cont_rest(n + t) == cont_rest(n) + t,
    decreases n.len(),
{
    broadcast use {lemma_cat_skip, lemma_cat_none};
    lemma_stop(t);
    if n.len() > 0 { assert((n + t)[0] == n[0]); lemma_cont_more(n.skip(1), t); }
}
pub proof fn lemma_ident_more(n: Seq<char>, t: Seq<char>)
    requires stop(t), g_ident_any(n).is_some(),
    ensures g_ident_any(n + t) == Some((g_ident_any(n).unwrap().0 + t, g_ident_any(n).unwrap().1, g_ident_any(n).unwrap().2)),
{
    hide(cont_rest);
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let m = after_raw_mark(n);
    assert(n.len() > 0 && (n + t)[0] == n[0]);
    if n.len() > 1 { assert((n + t)[1] == n[1]); } else { lemma_stop(t); if t.len() > 0 { assert((n + t)[1] == t[0]); } }
    assert(raw_mark(n + t) == raw_mark(n));
    assert(after_raw_mark(n + t) == m + t);
    assert(m.len() > 0 && (m + t)[0] == m[0]);
    lemma_cont_more(m.skip(1), t);
    lemma_cont_rest(m.skip(1));
    let r = cont_rest(m.skip(1));
    lemma_sfx_len(m.skip(1), r);
    assert(head(m + t, r + t) =~= head(m, r));
}
pub proof fn lemma_ident_ctx(a: Seq<char>, t0: Seq<char>, t: Seq<char>)
    requires g_ident(a + t0).is_some(), g_ident(a + t0).unwrap().0 == t0, stop(t),
    ensures g_ident(a + t) == Some((t, g_ident(a + t0).unwrap().1, g_ident(a + t0).unwrap().2)), a.len() > 0,
{
    hide(cont_rest);
    broadcast use {lemma_cat_skip, lemma_cat_none};
    let s = a + t0;
    let m = after_raw_mark(s);
    lemma_cont_rest(m.skip(1));
    lemma_sfx_len(m.skip(1), t0);
    assert(a.len() > 0);
    assert(s[0] == a[0] && (a + t)[0] == a[0]);
    lemma_stop(t);
    if raw_mark(s) { assert(a.len() > 2); }
    if a.len() > 1 { assert(s[1] == a[1] && (a + t)[1] == a[1]); } else if t.len() > 0 { assert((a + t)[1] == t[0]); }
    if a.len() > 2 { assert(s[2] == a[2] && (a + t)[2] == a[2]); } else if a.len() == 2 && t.len() > 0 { assert((a + t)[2] == t[0]); }
    let b = after_raw_mark(a);
    assert(after_raw_mark(s) == b + t0);
    assert(after_raw_mark(a + t) == b + t);
    assert((b + t0)[0] == b[0] && (b + t)[0] == b[0]);
    lemma_cont_ctx(b.skip(1), t0, t);
    assert(head(b + t0, t0) =~= b);
    assert(head(b + t, t) =~= b);
}
/// an identifier is not a literal
pub proof fn lemma_ident_start(s: Seq<char>)
    requires g_ident(s).is_some(),
    ensures g_literal(s).is_none(), g_punct(s).is_none(), s.len() > 0, id_start(s[0]),
{
    if cp(s[0]) < 0x80 { xid_ascii(s[0]); }
    xid_ascii('r'); xid_ascii('\''); xid_ascii('"');
    if g_literal(s).is_some() {
        lemma_lit_start(s);
        if s[0] == 'r' {
            assert(hashes(s.skip(1)) == if s.len() > 1 && s[1] == '#' { 1int } else { 0 }) by {
                if s.len() > 1 && s[1] == '#' { assert(s.skip(1).skip(1) =~= s.skip(2)); if s.len() > 2 { assert(s.skip(2)[0] == s[2]); } }
            }
        } else if s[0] == 'b' || s[0] == 'c' {
            if s.len() > 1 && s[1] == 'r' { assert(hashes(s.skip(2)) == 0); }
        }
    }
}
// ---- tokens
pub open spec fn err_text() -> Seq<char> { seq!['(', '/', '*', 'E', 'R', 'R', 'O', 'R', '*', '/', ')'] }
/// what may stand directly behind the joint punctuation character `c`
pub open spec fn glued(c: char, next: Tok) -> bool {
    if c == '\'' {
        let n = show_tok(next);
        &&& (next is Ident || next is Lit)
        &&& n.len() > 0 && n[0] != '\\' && (n.len() < 2 || n[1] != '\'')
        &&& match g_ident_any(n) { Some(i) => !p1(i.0, '\'') && (!p1(i.0, '#') || raw_mark(n)), None => false }
    } else {
        match next {
            Tok::Punct(d, _, _, _) => !(c == '/' && (d == '/' || d == '*')),
            Tok::Lit(x, _, _) => p1(x, '\''),
            _ => false,
        }
    }
}
pub open spec fn good_leaf(t: Tok) -> bool {
    match t {
        Tok::Ident(raw, name, _, _) => !ws_char(show_tok(t)[0]) && g_ident(show_tok(t)) == Some((Seq::<char>::empty(), raw, name)),
        Tok::Punct(c, j, _, _) => is_punct(c) && (c == '\'' ==> j),
        Tok::Lit(x, _, _) => g_literal(x) == Some(Seq::<char>::empty()) || x == err_text(),
        Tok::Group(d, inner, _, _) => 0 <= d <= 2,
    }
}
/// tokens as they come from a text
pub open spec fn good_tok(t: Tok) -> bool
    decreases t, 0int,
{ good_leaf(t) && match t { Tok::Group(d, inner, _, _) => good_n(inner, inner.len() as int) && (inner.len() > 0 ==> !is_joint(inner.last())), _ => true } }
/// the first `n` of them
pub open spec fn good_n(ts: Seq<Tok>, n: int) -> bool
    decreases ts, n,
{
    if n <= 0 || n > ts.len() { true }
    else { good_n(ts, n - 1) && good_tok(ts[n - 1]) && (n >= 2 ==> match ts[n - 2] { Tok::Punct(c, true, _, _) => glued(c, ts[n - 1]), _ => true }) }
}
pub open spec fn good(ts: Seq<Tok>) -> bool { good_n(ts, ts.len() as int) && (ts.len() > 0 ==> !is_joint(ts.last())) }
/// a token without its location
pub open spec fn bare(t: Tok) -> Tok
    decreases t, 0int,
{
    match t {
        Tok::Group(d, inner, _, _) => Tok::Group(d, bare_n(inner, inner.len() as int), 0, 0),
        Tok::Ident(raw, name, _, _) => Tok::Ident(raw, name, 0, 0),
        Tok::Punct(c, j, _, _) => Tok::Punct(c, j, 0, 0),
        Tok::Lit(x, _, _) => Tok::Lit(x, 0, 0),
    }
}
pub open spec fn bare_n(ts: Seq<Tok>, n: int) -> Seq<Tok>
    decreases ts, n,
{ if n <= 0 || n > ts.len() { Seq::<Tok>::empty() } else { bare_n(ts, n - 1).push(bare(ts[n - 1])) } }
pub open spec fn bares(ts: Seq<Tok>) -> Seq<Tok> { bare_n(ts, ts.len() as int) }

pub open spec fn no_comment(s: Seq<char>) -> bool { !p2(s, '/', '/') && !p2(s, '/', '*') }
/// `c` directly in front of `x` is read as joint punctuation
pub open spec fn joins(c: char, x: Seq<char>) -> bool {
    let s = seq![c] + x;
    g_punct(s) == Some((x, c, true)) && g_literal(s).is_none() && no_comment(s)
}
pub open spec fn follows(t: Tok, x: Seq<char>) -> bool {
    match t { Tok::Punct(c, true, _, _) => joins(c, x), _ => stop(x) }
}
/// `s` starts with a token that is not a group
pub open spec fn at_leaf(s: Seq<char>) -> bool {
    s.len() > 0 && !ws_char(s[0]) && no_comment(s) && (open_code(s[0]) < 0 || is_error(s)) && close_code(s[0]) < 0
}
pub proof fn lemma_at_leaf(s: Seq<char>)
    requires at_leaf(s),
    ensures skip_ws(s) == s, doc(s).is_none(), leaf(s, 0).is_some() ==> leaf(s, 0).unwrap().0.len() < s.len(),
{ lemma_leaf(s, 0); }
pub proof fn lemma_joins(c: char, next: Tok, x: Seq<char>)
    requires is_punct(c), glued(c, next), good_leaf(next), follows(next, x),
    ensures joins(c, show_tok(next) + x),
{
    let n = show_tok(next);
    let y = n + x;
    let s = seq![c] + y;
    assert(s.skip(1) =~= y);
    assert(s[0] == c);
    assert(n.len() > 0 && y[0] == n[0]);
    assert(s[1] == n[0]);
    if c == '\'' {
        assert(stop(x));
        lemma_ident_more(n, x);
        lemma_stop(x);
        let i = g_ident_any(n).unwrap();
        if i.0.len() > 0 { assert((i.0 + x)[0] == i.0[0]); } else { assert(i.0 + x =~= x); }
        if n.len() > 1 { assert(y[1] == n[1]); } else if x.len() > 0 { assert(y[1] == x[0]); }
        assert(raw_mark(y) == raw_mark(n));
        assert(g_punct(s) == Some((y, c, true)));
        assert(char_lit(s).is_none()) by {
            assert(char_body(y) == close_quote(y.skip(1)));
            if y.len() > 1 { assert(y.skip(1)[0] == y[1]); }
        }
        lemma_quote_lit(s);
    } else {
        if g_literal(s).is_some() { lemma_lit_start(s); }
        match next {
            Tok::Punct(d, j, _, _) => {
                assert(n =~= seq![d]);
                assert(y =~= seq![d] + x);
                if j { assert(no_comment(y)); } else { lemma_stop(x); if x.len() > 0 { assert(y[1] == x[0]); } }
                assert(g_punct_char(y).is_some());
            },
            _ => { assert(y[0] == '\''); assert(g_punct_char(y).is_some()); },
        }
        assert(g_punct(s) == Some((y, c, true)));
    }
}
/// a literal that starts with a quote is a character
pub proof fn lemma_quote_lit(s: Seq<char>)
    requires p1(s, '\''), char_lit(s).is_none(),
    ensures g_literal(s).is_none(),
{
    assert(base_of(s) == 10);
}
pub proof fn lemma_err_text(x: Seq<char>)
    ensures is_error(err_text() + x), (err_text() + x).skip(11) == x, (err_text() + x).take(11) == err_text(), g_literal(err_text() + x).is_none(), g_punct(err_text() + x).is_none(), g_ident(err_text() + x).is_none(),
        (err_text() + x)[0] == '(', (err_text() + x)[1] == '/',
{
    let e = err_text();
    let s = e + x;
    assert(e.len() == 11);
    assert(s.skip(11) =~= x);
    assert(s.take(11) =~= e);
    assert(s[0] == '(' && s[1] == '/' && s[2] == '*' && s[3] == 'E' && s[4] == 'R' && s[5] == 'R' && s[6] == 'O' && s[7] == 'R' && s[8] == '*' && s[9] == '/' && s[10] == ')');
    xid_ascii('(');
    if g_literal(s).is_some() { lemma_lit_start(s); }
}
pub proof fn lemma_ident_step(a: Seq<char>, raw: bool, name: Seq<char>, x: Seq<char>, off: int)
    requires !ws_char(a[0]), g_ident(a) == Some((Seq::<char>::empty(), raw, name)), stop(x),
    ensures at_leaf(a + x), leaf(a + x, off) == Some((x, Tok::Ident(raw, name, off, off + a.len()))),
{
    hide(g_literal); hide(g_punct); hide(is_error); hide(ws_char);
    let s = a + x;
    let e = Seq::<char>::empty();
    assert(a + e =~= a);
    lemma_ident_ctx(a, e, x);
    lemma_ident_start(s);
    assert(s[0] == a[0]);
    if cp(s[0]) < 0x80 { xid_ascii(s[0]); }
}
pub proof fn lemma_punct_step(c: char, j: bool, x: Seq<char>, off: int)
    requires is_punct(c), c == '\'' ==> j, if j { joins(c, x) } else { stop(x) },
    ensures at_leaf(seq![c] + x), leaf(seq![c] + x, off) == Some((x, Tok::Punct(c, j, off, off + 1))),
{
    hide(g_literal); hide(g_ident);
    let s = seq![c] + x;
    assert(s.skip(1) =~= x);
    assert(s[0] == c);
    if !j {
        lemma_stop(x);
        if x.len() > 0 { assert(s[1] == x[0]); }
        if g_literal(s).is_some() { lemma_lit_start(s); }
        assert(g_punct_char(x).is_none());
        assert(g_punct(s) == Some((x, c, false)));
    }
}
pub proof fn lemma_lit_step(a: Seq<char>, x: Seq<char>, off: int)
    requires g_literal(a) == Some(Seq::<char>::empty()) || a == err_text(), stop(x),
    ensures at_leaf(a + x), leaf(a + x, off) == Some((x, Tok::Lit(a, off, off + a.len()))),
{
    hide(g_literal); hide(g_punct); hide(g_ident);
    let s = a + x;
    let e = Seq::<char>::empty();
    assert(a + e =~= a);
    if a == err_text() { lemma_err_text(x); assert(a.len() == 11); }
    else {
        lemma_literal_ctx(a, e, x);
        lemma_lit_start(s);
        assert(head(s, x) =~= a);
    }
}
pub proof fn lemma_leaf_step(t: Tok, x: Seq<char>, off: int) -> (u: Tok)
    requires good_leaf(t), !(t is Group), follows(t, x),
    ensures at_leaf(show_tok(t) + x), leaf(show_tok(t) + x, off) == Some((x, u)), bare(u) == bare(t),
{
    hide(at_leaf); hide(leaf); hide(g_literal); hide(g_ident); hide(is_punct); hide(joins); hide(ws_char);
    let a = show_tok(t);
    match t {
        Tok::Ident(raw, name, _, _) => { lemma_ident_step(a, raw, name, x, off); Tok::Ident(raw, name, off, off + a.len()) },
        Tok::Punct(c, j, _, _) => { lemma_punct_step(c, j, x, off); Tok::Punct(c, j, off, off + 1) },
        Tok::Lit(w, _, _) => { lemma_lit_step(w, x, off); Tok::Lit(w, off, off + w.len()) },
        _ => t,
    }
}
pub proof fn lemma_lex_space(x: Seq<char>, off: int, st: Seq<(int, int, Seq<Tok>)>, cur: Seq<Tok>)
    ensures lex(seq![' '] + x, off, st, cur) == lex(x, off + 1, st, cur),
{
    let s = seq![' '] + x;
    assert(s[0] == ' ');
    assert(s.skip(1) =~= x);
    assert(skip_ws(s) == skip_ws(x));
    let t = skip_ws(x);
    lemma_skip_ws(x);
    lemma_sfx_len(x, t);
    lemma_doc(t);
    lemma_leaf(t, off + 1 + x.len() - t.len());
    assert(off + s.len() - t.len() == off + 1 + x.len() - t.len());
}
pub proof fn lemma_bare_push(ts: Seq<Tok>, n: int, us: Seq<Tok>, t: Tok)
    requires 0 <= n < ts.len(), us.len() == n, bare_n(us, n) == bare_n(ts, n), bare(t) == bare(ts[n]),
    ensures bare_n(us.push(t), n + 1) == bare_n(ts, n + 1),
{
    lemma_bare_prefix(us.push(t), us, n);
}
pub proof fn lemma_bare_prefix(a: Seq<Tok>, b: Seq<Tok>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i],
    ensures bare_n(a, n) == bare_n(b, n),
    decreases n,
{ if n > 0 { lemma_bare_prefix(a, b, n - 1); } }

pub proof fn lemma_good_at(ts: Seq<Tok>, n: int)
    requires 1 <= n <= ts.len(), good_n(ts, n),
    ensures good_tok(ts[n - 1]), good_leaf(ts[n - 1]), good_n(ts, n - 1), n >= 2 ==> good_leaf(ts[n - 2]), n >= 2 ==> match ts[n - 2] { Tok::Punct(c, true, _, _) => glued(c, ts[n - 1]), _ => true },
{
    hide(good_leaf);
    reveal_with_fuel(good_n, 4); reveal_with_fuel(good_tok, 4);
    assert(good_tok(ts[n - 1]));
    if n >= 2 { assert(good_n(ts, n - 1)); assert(good_tok(ts[n - 2])); }
}
pub proof fn lemma_lex_open(s: Seq<char>, off: int, st: Seq<(int, int, Seq<Tok>)>, cur: Seq<Tok>)
    requires s.len() > 0, open_code(s[0]) >= 0, !is_error(s),
    ensures lex(s, off, st, cur) == lex(s.skip(1), off + 1, st.push((off, open_code(s[0]), cur)), Seq::<Tok>::empty()),
{ assert(skip_ws(s) == s && doc(s).is_none()); }
pub proof fn lemma_lex_close(s: Seq<char>, off: int, st: Seq<(int, int, Seq<Tok>)>, cur: Seq<Tok>)
    requires s.len() > 0, close_code(s[0]) >= 0, st.len() > 0, st.last().1 == close_code(s[0]),
    ensures lex(s, off, st, cur) == lex(s.skip(1), off + 1, st.drop_last(), st.last().2.push(Tok::Group(close_code(s[0]), cur, st.last().0, off + 1))),
{ assert(skip_ws(s) == s && doc(s).is_none()); }
pub proof fn lemma_lex_leaf(s: Seq<char>, off: int, st: Seq<(int, int, Seq<Tok>)>, cur: Seq<Tok>)
    requires at_leaf(s), leaf(s, off).is_some(),
    ensures ({ let l = leaf(s, off).unwrap(); lex(s, off, st, cur) == lex(l.0, off + s.len() - l.0.len(), st, cur.push(l.1)) }),
{ lemma_at_leaf(s); lemma_leaf(s, off); }
pub proof fn lemma_no_comment(ts: Seq<Tok>, n: int, x: Seq<char>)
    requires 1 <= n <= ts.len(), good_n(ts, n), follows(ts[n - 1], x),
    ensures no_comment(show_n(ts, n) + x), (show_n(ts, n) + x).len() > 0,
    decreases n,
{
    let t = ts[n - 1];
    lemma_good_at(ts, n);
    let y = show_tok(t) + x;
    match t {
        Tok::Group(d, inner, _, _) => { assert(open_text(d).len() > 0); assert(y[0] == open_text(d)[0]); },
        _ => { let u = lemma_leaf_step(t, x, 0); },
    }
    if n == 1 {
        assert(show_n(ts, 0) =~= Seq::<char>::empty());
        assert(show_n(ts, 1) + x =~= y);
    } else {
        lemma_sep(ts, n, x);
        lemma_no_comment(ts, n - 1, sep(ts, n) + y);
    }
}
/// between token n - 2 and token n - 1
pub open spec fn sep(ts: Seq<Tok>, n: int) -> Seq<char> { if n >= 2 && !is_joint(ts[n - 2]) { seq![' '] } else { Seq::<char>::empty() } }
pub proof fn lemma_sep(ts: Seq<Tok>, n: int, x: Seq<char>)
    requires 1 <= n <= ts.len(), good_n(ts, n), follows(ts[n - 1], x),
    ensures show_n(ts, n) + x == show_n(ts, n - 1) + (sep(ts, n) + (show_tok(ts[n - 1]) + x)),
        n >= 2 ==> follows(ts[n - 2], sep(ts, n) + (show_tok(ts[n - 1]) + x)),
{
    hide(good_leaf); hide(glued); hide(joins); hide(good_n);
    let y = show_tok(ts[n - 1]) + x;
    lemma_good_at(ts, n);
    assert(show_n(ts, n) + x =~= show_n(ts, n - 1) + (sep(ts, n) + y));
    if n >= 2 {
        if is_joint(ts[n - 2]) {
            assert(sep(ts, n) + y =~= y);
            match ts[n - 2] { Tok::Punct(c, j, _, _) => { assert(is_punct(c)) by { reveal(good_leaf); } lemma_joins(c, ts[n - 1], x); }, _ => {} }
        } else { assert((sep(ts, n) + y)[0] == ' '); }
    }
}
pub proof fn lemma_relex_tok(t: Tok, x: Seq<char>, off: int, st: Seq<(int, int, Seq<Tok>)>, cur: Seq<Tok>) -> (u: Tok)
    requires good_tok(t), follows(t, x),
    ensures lex(show_tok(t) + x, off, st, cur) == lex(x, off + show_tok(t).len(), st, cur.push(u)), bare(u) == bare(t),
    decreases t, 0int,
{
    hide(lex); hide(g_literal); hide(g_punct); hide(g_ident); hide(is_punct); hide(leaf); hide(at_leaf); hide(joins); hide(glued); hide(show_n); hide(bare_n); hide(good_n);
    let s = show_tok(t) + x;
    match t {
        Tok::Group(d, inner, _, _) => {
            let n = inner.len() as int;
            let body = show_n(inner, n);
            let y = close_text(d, n == 0) + x;
            let w = body + y;
            let st2 = st.push((off, d, cur));
            let e = Seq::<Tok>::empty();
            let k = open_text(d).len() as int;
            assert(good_leaf(t) && good_n(inner, n)) by { reveal(good_n); }
            assert(show_tok(t) == open_text(d) + body + close_text(d, n == 0)) by { reveal(show_n); }
            assert(s =~= open_text(d) + w);
            assert(s[0] == open_text(d)[0]);
            assert(y.len() > 0 && y[0] == close_text(d, n == 0)[0]);
            if n > 0 { assert(stop(y)); assert(follows(inner[n - 1], y)); lemma_no_comment(inner, n, y); } else { assert(w =~= y); }
            if d == 1 { assert(s.skip(1) =~= seq![' '] + w); lemma_lex_space(w, off + 1, st2, e); } else { assert(s.skip(1) =~= w); }
            assert(!is_error(s)) by { if d == 0 { if w.len() > 1 { assert(w[0] == s[1] && w[1] == s[2]); } } }
            lemma_lex_open(s, off, st, cur);
            assert(lex(s, off, st, cur) == lex(w, off + k, st2, e));
            let us = lemma_relex_n(inner, n, y, off + k, st2, e);
            let o = off + k + body.len();
            assert(e + us =~= us);
            // the closing delimiter
            let h: int = if d == 1 && n > 0 { 1 } else { 0 };
            let z = y.skip(h);
            if h == 1 { assert(y =~= seq![' '] + z); lemma_lex_space(z, o, st2, us); } else { assert(z =~= y); }
            assert(z.skip(1) =~= x);
            assert(st2.drop_last() =~= st);
            lemma_lex_close(z, o + h, st2, us);
            let u = Tok::Group(d, us, off, o + h + 1);
            assert(lex(s, off, st, cur) == lex(x, o + h + 1, st, cur.push(u)));
            assert(show_tok(t).len() == k + body.len() + h + 1);
            assert(bare(u) == bare(t)) by { reveal(bare_n); }
            u
        },
        _ => {
            let u = lemma_leaf_step(t, x, off);
            lemma_lex_leaf(s, off, st, cur);
            u
        },
    }
}
pub proof fn lemma_relex_n(ts: Seq<Tok>, n: int, x: Seq<char>, off: int, st: Seq<(int, int, Seq<Tok>)>, cur: Seq<Tok>) -> (us: Seq<Tok>)
    requires 0 <= n <= ts.len(), good_n(ts, n), n > 0 ==> follows(ts[n - 1], x),
    ensures lex(show_n(ts, n) + x, off, st, cur) == lex(x, off + show_n(ts, n).len(), st, cur + us), us.len() == n, bare_n(us, n) == bare_n(ts, n),
    decreases ts, n,
{
    hide(lex); hide(good_leaf); hide(glued); hide(joins); hide(good_n);
    if n == 0 {
        assert(show_n(ts, 0) + x =~= x);
        assert(cur + Seq::<Tok>::empty() =~= cur);
        Seq::<Tok>::empty()
    } else {
        let t = ts[n - 1];
        let y = show_tok(t) + x;
        lemma_sep(ts, n, x);
        lemma_good_at(ts, n);
        let v = lemma_relex_n(ts, n - 1, sep(ts, n) + y, off, st, cur);
        let o = off + show_n(ts, n - 1).len();
        if sep(ts, n).len() > 0 { lemma_lex_space(y, o, st, cur + v); } else { assert(sep(ts, n) + y =~= y); }
        let u = lemma_relex_tok(t, x, o + sep(ts, n).len(), st, cur + v);
        assert((cur + v).push(u) =~= cur + v.push(u));
        lemma_bare_push(ts, n - 1, v, u);
        v.push(u)
    }
}
/// printing and reading again
pub proof fn lemma_relex(ts: Seq<Tok>, off: int) -> (us: Seq<Tok>)
    requires good(ts),
    ensures lex_source(show(ts), off) == LexR::Ok(us), bares(us) == bares(ts),
{
    let n = ts.len() as int;
    let e = Seq::<char>::empty();
    let no = Seq::<(int, int, Seq<Tok>)>::empty();
    let us = lemma_relex_n(ts, n, e, off, no, Seq::<Tok>::empty());
    assert(show(ts) + e =~= show(ts));
    assert(Seq::<Tok>::empty() + us =~= us);
    assert(lex(e, off + show(ts).len(), no, us) == LexR::Ok(us));
    if n > 0 { lemma_first(ts, n); }
    us
}
pub proof fn lemma_first(ts: Seq<Tok>, n: int)
    requires 1 <= n <= ts.len(), good_n(ts, n),
    ensures show_n(ts, n).len() > 0, show_n(ts, n)[0] != '\u{feff}',
    decreases n,
{
    lemma_good_at(ts, n);
    if n > 1 { lemma_first(ts, n - 1); assert(show_n(ts, n)[0] == show_n(ts, n - 1)[0]); }
    else {
        assert(show_n(ts, 0) =~= Seq::<char>::empty());
        assert(show_n(ts, 1) =~= show_tok(ts[0]));
        match ts[0] {
            Tok::Ident(raw, name, _, _) => { lemma_ident_start(show_tok(ts[0])); word_not_blank('\u{feff}'); },
            Tok::Lit(x, _, _) => { if x != err_text() { lemma_lit_start(x); } },
            Tok::Group(d, inner, _, _) => { assert(show_tok(ts[0])[0] == open_text(d)[0]); },
            _ => {},
        }
    }
}

// ---- the tokens of a text are good
pub proof fn lemma_skip_ws_end(s: Seq<char>)
    ensures skip_ws(s).len() > 0 ==> !ws_char(skip_ws(s)[0]),
    decreases s.len(),
{
    lemma_line_rest(s);
    if s.len() > 0 {
        if is_line_comment(s) { if line_rest(s).len() < s.len() { lemma_skip_ws_end(line_rest(s)); } }
        else if p4(s, '/', '*', '*', '/') { lemma_skip_ws_end(s.skip(4)); }
        else if is_block_comment(s) { match block_rest(s) { Some(r) => { if r.len() < s.len() { lemma_skip_ws_end(r); } }, None => {} } }
        else if ws_char(s[0]) { lemma_skip_ws_end(s.skip(1)); }
    }
}
pub open spec fn pending(cur: Seq<Tok>, s: Seq<char>) -> bool {
    cur.len() > 0 ==> match cur.last() { Tok::Punct(c, true, _, _) => joins(c, s), _ => true }
}
pub open spec fn good_stack(st: Seq<(int, int, Seq<Tok>)>) -> bool {
    forall|i: int| 0 <= i < st.len() ==> good((#[trigger] st[i]).2) && 0 <= st[i].1 <= 2
}
/// what stands behind a joint character
pub proof fn lemma_joins_at(c: char, s: Seq<char>)
    requires joins(c, s), is_punct(c),
    ensures !ws_char(c), s.len() > 0,
        c != '\'' ==> is_punct(s[0]) && no_comment(s) && !(c == '/' && (s[0] == '/' || s[0] == '*')),
        c == '\'' ==> g_ident_any(s).is_some() && !p1(g_ident_any(s).unwrap().0, '\'') && (!p1(g_ident_any(s).unwrap().0, '#') || raw_mark(s)) && s[0] != '\\' && (s.len() < 2 || s[1] != '\'') && id_start(s[0]),
{
    let x = seq![c] + s;
    assert(x[0] == c);
    assert(x.skip(1) =~= s);
    if c == '\'' {
        xid_ascii('r'); xid_ascii('\\');
        assert(g_ident_any(s).is_some());
        assert(s.len() > 0);
        assert(char_lit(x).is_none());
        assert(char_body(s).is_none());
        assert(s[0] != '\\');
        assert(char_body(s) == close_quote(s.skip(1)));
    } else {
        assert(g_punct_char(s).is_some());
        assert(x[1] == s[0]);
    }
}
pub proof fn lemma_lit_good(s: Seq<char>, r: Seq<char>)
    requires g_literal(s) == Some(r),
    ensures g_literal(head(s, r)) == Some(Seq::<char>::empty()), s == head(s, r) + r, head(s, r).len() > 0,
{
    hide(g_literal);
    let a = head(s, r);
    let e = Seq::<char>::empty();
    lemma_literal(s);
    assert(s =~= a + r) by { reveal(sfx); }
    lemma_literal_ctx(a, r, e);
    assert(a + e =~= a);
}
pub proof fn lemma_ident_good(s: Seq<char>, off: int)
    requires g_ident(s).is_some(),
    ensures ({ let i = g_ident(s).unwrap(); let a = if i.1 { seq!['r', '#'] + i.2 } else { i.2 };
        g_ident(a) == Some((Seq::<char>::empty(), i.1, i.2)) && s == a + i.0 && a.len() > 0 && a[0] == s[0] && id_start(s[0]) }),
{
    hide(cont_rest); hide(never_raw);
    let i = g_ident(s).unwrap();
    let a = if i.1 { seq!['r', '#'] + i.2 } else { i.2 };
    let e = Seq::<char>::empty();
    let m = after_raw_mark(s);
    lemma_cont_rest(m.skip(1));
    lemma_sfx_len(m.skip(1), i.0);
    assert(m =~= i.2 + i.0) by { reveal(sfx); }
    if i.1 { assert(s =~= seq!['r', '#'] + m); assert(s =~= a + i.0); } else { assert(s == m); }
    lemma_ident_ctx(a, i.0, e);
    assert(a + e =~= a);
    lemma_ident_start(s);
}
pub proof fn lemma_leaf_good(s: Seq<char>, off: int)
    requires leaf(s, off).is_some(), s.len() > 0, !ws_char(s[0]),
    ensures ({ let l = leaf(s, off).unwrap();
        &&& good_leaf(l.1) && good_tok(l.1)
        &&& !(l.1 is Group)
        &&& s == show_tok(l.1) + l.0
        &&& show_tok(l.1).len() > 0
        &&& match l.1 { Tok::Punct(c, true, _, _) => joins(c, l.0), _ => true }
        &&& (l.1 is Ident ==> id_start(s[0]))
        &&& (l.1 is Lit ==> g_literal(s) == Some(l.0) || s[0] == '(')
    }),
{
    hide(g_literal); hide(g_ident); hide(ws_char);
    let l = leaf(s, off).unwrap();
    let r = l.0;
    match l.1 {
        Tok::Lit(x, _, _) => {
            if g_literal(s).is_some() { lemma_lit_good(s, r); }
            else {
                lemma_error(s, err_text());
                assert(s =~= s.take(11) + s.skip(11));
            }
        },
        Tok::Punct(c, j, _, _) => {
            assert(show_tok(l.1) =~= seq![c]);
            assert(s =~= seq![c] + r);
        },
        Tok::Ident(raw, name, _, _) => { lemma_ident_good(s, off); },
        _ => {},
    }
}
/// a literal behind the quote of a lifetime: the name is its prefix
pub proof fn lemma_quote_then_lit(s: Seq<char>, r: Seq<char>)
    requires g_literal(s) == Some(r), g_ident_any(s).is_some(), !p1(g_ident_any(s).unwrap().0, '\''), !p1(g_ident_any(s).unwrap().0, '#') || raw_mark(s), id_start(s[0]), s.len() > 0,
    ensures match g_ident_any(head(s, r)) { Some(i) => !p1(i.0, '\'') && (!p1(i.0, '#') || raw_mark(head(s, r))), None => false },
{
    broadcast use vx_text;
    lemma_lit_start(s);
    lemma_literal(s);
    let n = head(s, r);
    if cp(s[0]) < 0x80 { xid_ascii(s[0]); }
    xid_ascii('"'); xid_ascii('r'); xid_ascii('#'); xid_ascii('\'');
    assert(s[0] == 'r' || s[0] == 'b' || s[0] == 'c');
    if s.len() > 1 {
        lemma_quoted(s.skip(1), 0);
        lemma_cont_rest(s.skip(1));
        if s.len() > 2 && s[1] == 'r' { lemma_quoted(s.skip(2), 1); lemma_quoted(s.skip(2), 2); }
        if s[1] == '"' || s[1] == '\'' || s[1] == '#' { assert(cont_rest(s.skip(1)) == s.skip(1)); }
    }
    if s[0] == 'r' {
        assert(string_lit(s) == raw_lit(s.skip(1), 0));
        if s.len() > 1 && s[1] == '#' {
            assert(raw_mark(s));
            assert(s.len() > 2 && id_start(s.skip(2)[0]));
            assert(s.skip(1).skip(1) == s.skip(2));
            assert(hashes(s.skip(2)) == 0);
            assert(hashes(s.skip(1)) == 1);
            assert(false);
        }
        assert(hashes(s.skip(1)) == 0);
        assert(s[1] == '"');
        assert(r.len() < s.len() - 1);
        lemma_word_quote(n, 1);
    } else if s[1] == '"' {
        lemma_quoted(s.skip(2), 1); lemma_quoted(s.skip(2), 2);
        assert(r.len() < s.len() - 1);
        lemma_word_quote(n, 1);
    } else if s[1] == 'r' {
        assert(s.len() > 2);
        assert(cont_rest(s.skip(1)) == cont_rest(s.skip(2)));
        if s[2] == '#' { assert(cont_rest(s.skip(2)) == s.skip(2)); assert(false); }
        assert(hashes(s.skip(2)) == 0);
        assert(s[2] == '"');
        assert(r.len() < s.len() - 2);
        lemma_word_quote(n, 2);
    } else {
        assert(s[1] == '\'');
        assert(false);
    }
}
/// `r"`, `b"`, `c"`, `br"`, `cr"`
pub proof fn lemma_word_quote(n: Seq<char>, k: int)
    requires n.len() > k, 1 <= k <= 2, n[k] == '"', n[0] == 'r' || n[0] == 'b' || n[0] == 'c', k == 2 ==> n[1] == 'r',
    ensures g_ident_any(n) == Some((n.skip(k), false, n.take(k))),
{
    xid_ascii('"'); xid_ascii('r'); xid_ascii(n[0]);
    assert(cont_rest(n.skip(k)) == n.skip(k));
    if k == 2 { assert(n.skip(1).skip(1) =~= n.skip(2)); assert(n.skip(1)[0] == 'r'); assert(cont_rest(n.skip(1)) == n.skip(2)); }
    assert(head(n, n.skip(k)) =~= n.take(k));
    assert(n.take(k) != seq!['_']) by { assert(n.take(k)[0] == n[0]); }
}
pub proof fn lemma_glued(c: char, s: Seq<char>, off: int)
    requires joins(c, s), is_punct(c), at_leaf(s), leaf(s, off).is_some(),
    ensures glued(c, leaf(s, off).unwrap().1),
{
    lemma_joins_at(c, s);
    lemma_leaf_good(s, off);
    let l = leaf(s, off).unwrap();
    let n = show_tok(l.1);
    assert(n[0] == s[0]);
    if n.len() > 1 { assert(n[1] == s[1]); }
    xid_ascii('('); xid_ascii('\'');
    match l.1 {
        Tok::Lit(x, _, _) => {
            if g_literal(s).is_some() {
                lemma_lit_start(s);
                if c == '\'' { lemma_quote_then_lit(s, l.0); assert(x == head(s, l.0)); }
            }
        },
        Tok::Ident(raw, name, _, _) => {
            if cp(s[0]) < 0x80 { xid_ascii(s[0]); }
        },
        Tok::Punct(d, j, _, _) => {
            if c == '\'' { if cp(s[0]) < 0x80 { xid_ascii(s[0]); } assert(false); }
        },
        _ => {},
    }
}

pub proof fn lemma_joint_leaf(c: char, s: Seq<char>)
    requires joins(c, s), is_punct(c),
    ensures at_leaf(s),
{
    lemma_joins_at(c, s);
    word_not_blank(s[0]);
    if cp(s[0]) < 0x80 { xid_ascii(s[0]); }
}
pub proof fn lemma_good_prefix(a: Seq<Tok>, b: Seq<Tok>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i],
    ensures good_n(a, n) == good_n(b, n),
    decreases n,
{ if n > 0 { lemma_good_prefix(a, b, n - 1); } }
pub proof fn lemma_good_push(cur: Seq<Tok>, t: Tok)
    requires good_n(cur, cur.len() as int), good_tok(t), cur.len() > 0 ==> match cur.last() { Tok::Punct(c, true, _, _) => glued(c, t), _ => true },
    ensures good_n(cur.push(t), cur.len() as int + 1),
{
    hide(good_leaf); hide(glued);
    let n = cur.len() as int;
    let u = cur.push(t);
    lemma_good_prefix(u, cur, n);
    assert(u[n] == t);
    if n > 0 { assert(u[n - 1] == cur.last()); }
    reveal_with_fuel(good_n, 2);
}
pub proof fn lemma_good_group(d: int, cur: Seq<Tok>, lo: int, hi: int)
    requires good(cur), 0 <= d <= 2,
    ensures good_tok(Tok::Group(d, cur, lo, hi)),
{}
pub proof fn lemma_good_doc(cur: Seq<Tok>, text: Seq<char>, inner: bool, lo: int, hi: int)
    requires good(cur),
    ensures good(doc_onto(cur, text, inner, lo, hi)),
{
    hide(good_n);
    let e = Seq::<Tok>::empty();
    let d = Tok::Ident(false, seq!['d', 'o', 'c'], lo, hi);
    let q = Tok::Punct('=', false, lo, hi);
    let l = Tok::Lit(str_repr(text), lo, hi);
    lemma_doc_word();
    assert(good_tok(d));
    assert(good_tok(q));
    lemma_den_esc(text, 0);
    lemma_quoted_lit(esc_str(text), verbatim(text, 0), 0);
    assert(kind_mark(0) + str_repr(text) =~= str_repr(text));
    assert(g_literal(str_repr(text)).unwrap() =~= Seq::<char>::empty());
    assert(good_tok(l));
    assert(good_n(e, 0)) by { reveal(good_n); }
    lemma_good_push(e, d);
    lemma_good_push(e.push(d), q);
    lemma_good_push(e.push(d).push(q), l);
    let g = Tok::Group(2, doc_body(text, lo, hi), lo, hi);
    lemma_good_group(2, doc_body(text, lo, hi), lo, hi);
    let h = Tok::Punct('#', false, lo, hi);
    assert(good_tok(h));
    lemma_good_push(cur, h);
    if inner {
        let b = Tok::Punct('!', false, lo, hi);
        assert(good_tok(b));
        lemma_good_push(cur.push(h), b);
        lemma_good_push(cur.push(h).push(b), g);
    } else { lemma_good_push(cur.push(h), g); }
}
pub proof fn lemma_doc_word()
    ensures ({ let w = seq!['d', 'o', 'c']; !ws_char(w[0]) && g_ident(w) == Some((Seq::<char>::empty(), false, w)) }),
{
    let w = seq!['d', 'o', 'c'];
    xid_ascii('d'); xid_ascii('o'); xid_ascii('c');
    reveal_with_fuel(cont_rest, 4);
    assert(cont_rest(w.skip(1)) =~= Seq::<char>::empty());
    assert(head(w, Seq::<char>::empty()) =~= w);
}
pub proof fn lemma_lex_good(s: Seq<char>, off: int, st: Seq<(int, int, Seq<Tok>)>, cur: Seq<Tok>)
    requires good_n(cur, cur.len() as int), pending(cur, s), good_stack(st),
    ensures match lex(s, off, st, cur) { LexR::Ok(ts) => good(ts), LexR::Err(_) => true },
    decreases s.len(),
{
    hide(good_n); hide(good_tok); hide(g_literal); hide(g_punct); hide(g_ident); hide(is_punct); hide(doc); hide(is_error); hide(glued); hide(good_leaf); hide(ws_char);
    let t = skip_ws(s);
    let o = off + s.len() - t.len();
    let joint = cur.len() > 0 && is_joint(cur.last());
    if joint {
        lemma_good_at(cur, cur.len() as int);
        match cur.last() { Tok::Punct(c, j, _, _) => {
            assert(is_punct(c)) by { reveal(good_leaf); }
            lemma_joint_leaf(c, s); lemma_at_leaf(s);
        }, _ => {} }
        assert(t == s);
    } else { assert(good(cur)); }
    lemma_skip_ws(s); lemma_sfx_len(s, t); lemma_skip_ws_end(s);
    lemma_doc(t);
    match doc(t) {
        Some(d) => {
            let hi = o + t.len() - d.0.len();
            lemma_good_doc(cur, d.1, d.2, o, hi);
            if d.0.len() < s.len() { lemma_lex_good(d.0, hi, st, doc_onto(cur, d.1, d.2, o, hi)); }
        },
        None => {
            if t.len() == 0 {}
            else if open_code(t[0]) >= 0 && !is_error(t) {
                let st2 = st.push((o, open_code(t[0]), cur));
                let e = Seq::<Tok>::empty();
                assert(good_n(e, 0)) by { reveal(good_n); }
                lemma_lex_good(t.skip(1), o + 1, st2, e);
            } else if close_code(t[0]) >= 0 {
                if st.len() > 0 && st.last().1 == close_code(t[0]) {
                    let g = Tok::Group(close_code(t[0]), cur, st.last().0, o + 1);
                    let below = st.last().2;
                    assert(st[st.len() - 1] == st.last());
                    lemma_good_group(close_code(t[0]), cur, st.last().0, o + 1);
                    assert(good(below));
                    lemma_good_push(below, g);
                    assert(st.drop_last().len() == st.len() - 1);
                    assert forall|i: int| 0 <= i < st.drop_last().len() implies good((#[trigger] st.drop_last()[i]).2) && 0 <= st.drop_last()[i].1 <= 2 by { assert(st.drop_last()[i] == st[i]); }
                    lemma_lex_good(t.skip(1), o + 1, st.drop_last(), below.push(g));
                }
            } else {
                match leaf(t, o) {
                    Some(l) => {
                        lemma_leaf(t, o); lemma_leaf_good(t, o);
                        if joint { match cur.last() { Tok::Punct(c, j, _, _) => { lemma_glued(c, s, o); }, _ => {} } }
                        lemma_good_push(cur, l.1);
                        lemma_lex_good(l.0, o + t.len() - l.0.len(), st, cur.push(l.1));
                    },
                    None => {},
                }
            }
        },
    }
}
pub proof fn lemma_source_good(s: Seq<char>, off: int)
    ensures match lex_source(s, off) { LexR::Ok(ts) => good(ts), LexR::Err(_) => true },
{
    let no = Seq::<(int, int, Seq<Tok>)>::empty();
    lemma_lex_good(s, off, no, Seq::<Tok>::empty());
    if s.len() > 0 { lemma_lex_good(s.skip(1), off + 1, no, Seq::<Tok>::empty()); }
}
/// a text that was read, printed and read again gives the same tokens
pub proof fn lemma_round_trip(s: Seq<char>, off: int, ts: Seq<Tok>, again: int) -> (us: Seq<Tok>)
    requires lex_source(s, off) == LexR::Ok(ts),
    ensures lex_source(show(ts), again) == LexR::Ok(us), bares(us) == bares(ts),
{
    lemma_source_good(s, off);
    lemma_relex(ts, again)
}

// ---- where the tokens of a text lie in it
pub open spec fn tok_lo(t: Tok) -> int { match t { Tok::Group(_, _, lo, _) => lo, Tok::Ident(_, _, lo, _) => lo, Tok::Punct(_, _, lo, _) => lo, Tok::Lit(_, lo, _) => lo } }
pub open spec fn tok_hi(t: Tok) -> int { match t { Tok::Group(_, _, _, hi) => hi, Tok::Ident(_, _, _, hi) => hi, Tok::Punct(_, _, _, hi) => hi, Tok::Lit(_, _, hi) => hi } }
/// the stretch from a to b is one doc comment
pub open spec fn doc_at(f: Seq<char>, a: int, b: int) -> bool {
    0 <= a < b <= f.len() && match doc(f.skip(a)) { Some(d) => d.0 == f.skip(b), None => false }
}
/// The token is read from its own stretch of `f` (whose first character has
/// position `base`): that text is its spelling, or the delimiters around its
/// content; or the token stands for the doc comment that the stretch is.
pub open spec fn placed(f: Seq<char>, base: int, t: Tok) -> bool
    decreases t, 0int,
{
    let a = tok_lo(t) - base;
    let b = tok_hi(t) - base;
    0 <= a < b <= f.len() && (doc_at(f, a, b) || match t {
        Tok::Group(d, inner, lo, hi) => b - a >= 2 && 0 <= d <= 2 && open_code(f[a]) == d && close_code(f[b - 1]) == d && placed_n(f, base, inner, inner.len() as int, lo + 1, hi - 1),
        _ => f.subrange(a, b) == show_tok(t),
    })
}
/// the first n tokens lie in order between lo and hi
pub open spec fn placed_n(f: Seq<char>, base: int, ts: Seq<Tok>, n: int, lo: int, hi: int) -> bool
    decreases ts, n,
{
    if n <= 0 || n > ts.len() { lo <= hi }
    else {
        let t = ts[n - 1];
        &&& placed(f, base, t)
        &&& tok_hi(t) <= hi
        &&& (placed_n(f, base, ts, n - 1, lo, tok_lo(t))
            || (n >= 2 && doc_at(f, tok_lo(t) - base, tok_hi(t) - base) && tok_lo(ts[n - 2]) == tok_lo(t) && tok_hi(ts[n - 2]) == tok_hi(t) && placed_n(f, base, ts, n - 1, lo, tok_hi(t))))
    }
}
pub open spec fn placed_all(f: Seq<char>, base: int, ts: Seq<Tok>, lo: int, hi: int) -> bool { placed_n(f, base, ts, ts.len() as int, lo, hi) }
pub proof fn lemma_placed_prefix(f: Seq<char>, base: int, a: Seq<Tok>, b: Seq<Tok>, n: int, lo: int, hi: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i],
    ensures placed_n(f, base, a, n, lo, hi) == placed_n(f, base, b, n, lo, hi),
    decreases n,
{
    hide(doc_at);
    if n > 0 {
        lemma_placed_prefix(f, base, a, b, n - 1, lo, tok_lo(a[n - 1]));
        lemma_placed_prefix(f, base, a, b, n - 1, lo, tok_hi(a[n - 1]));
        if n >= 2 { assert(a[n - 2] == b[n - 2]); }
    }
}
pub proof fn lemma_placed_wider(f: Seq<char>, base: int, ts: Seq<Tok>, n: int, lo: int, hi: int, h2: int)
    requires placed_n(f, base, ts, n, lo, hi), hi <= h2,
    ensures placed_n(f, base, ts, n, lo, h2),
{ hide(doc_at); hide(show_tok); }
pub proof fn lemma_placed_push(f: Seq<char>, base: int, cur: Seq<Tok>, t: Tok, lo: int)
    requires placed(f, base, t),
        placed_all(f, base, cur, lo, tok_lo(t)) || (cur.len() > 0 && doc_at(f, tok_lo(t) - base, tok_hi(t) - base) && tok_lo(cur.last()) == tok_lo(t) && tok_hi(cur.last()) == tok_hi(t) && placed_all(f, base, cur, lo, tok_hi(t))),
    ensures placed_all(f, base, cur.push(t), lo, tok_hi(t)),
{
    hide(doc_at); hide(show_tok);
    let n = cur.len() as int;
    let u = cur.push(t);
    assert(u[n] == t);
    if n > 0 { assert(u[n - 1] == cur.last()); }
    lemma_placed_prefix(f, base, u, cur, n, lo, tok_lo(t));
    lemma_placed_prefix(f, base, u, cur, n, lo, tok_hi(t));
    reveal_with_fuel(placed_n, 2);
}
pub proof fn lemma_placed_doc(f: Seq<char>, base: int, cur: Seq<Tok>, text: Seq<char>, inner: bool, at: int, lo: int, hi: int)
    requires placed_all(f, base, cur, at, lo), doc_at(f, lo - base, hi - base),
    ensures placed_all(f, base, doc_onto(cur, text, inner, lo, hi), at, hi),
{
    hide(placed_n); hide(show_tok);
    let g = Tok::Group(2, doc_body(text, lo, hi), lo, hi);
    let h = Tok::Punct('#', false, lo, hi);
    let b = Tok::Punct('!', false, lo, hi);
    assert(placed(f, base, g) && placed(f, base, h) && placed(f, base, b)) by { reveal(placed_n); }
    lemma_placed_push(f, base, cur, h, at);
    if inner {
        lemma_placed_push(f, base, cur.push(h), b, at);
        lemma_placed_push(f, base, cur.push(h).push(b), g, at);
    } else { lemma_placed_push(f, base, cur.push(h), g, at); }
}
/// the groups still open: each frame's tokens lie in front of its delimiter
pub open spec fn placed_stack(f: Seq<char>, base: int, st: Seq<(int, int, Seq<Tok>)>, n: int) -> bool
    decreases n,
{
    n <= 0 || n > st.len() || {
        let x = st[n - 1];
        &&& 0 <= x.0 - base < f.len() && 0 <= x.1 <= 2 && open_code(f[x.0 - base]) == x.1
        &&& placed_all(f, base, x.2, if n == 1 { base } else { st[n - 2].0 + 1 }, x.0)
        &&& placed_stack(f, base, st, n - 1)
    }
}
pub proof fn lemma_placed_stack_prefix(f: Seq<char>, base: int, a: Seq<(int, int, Seq<Tok>)>, b: Seq<(int, int, Seq<Tok>)>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i],
    ensures placed_stack(f, base, a, n) == placed_stack(f, base, b, n),
    decreases n,
{ hide(placed_n); if n > 0 { lemma_placed_stack_prefix(f, base, a, b, n - 1); assert(a[n - 1] == b[n - 1]); if n > 1 { assert(a[n - 2] == b[n - 2]); } } }
pub open spec fn inside_of(base: int, st: Seq<(int, int, Seq<Tok>)>) -> int { if st.len() == 0 { base } else { st.last().0 + 1 } }
pub proof fn lemma_leaf_at(s: Seq<char>, off: int)
    ensures match leaf(s, off) { Some(l) => tok_lo(l.1) == off && tok_hi(l.1) == off + s.len() - l.0.len() && !(l.1 is Group), None => true },
{
    hide(g_literal); hide(g_punct); hide(g_ident);
    lemma_error(s, err_text());
}
pub proof fn lemma_lex_placed(f: Seq<char>, base: int, s: Seq<char>, off: int, st: Seq<(int, int, Seq<Tok>)>, cur: Seq<Tok>)
    requires 0 <= off - base <= f.len(), s == f.skip(off - base), placed_stack(f, base, st, st.len() as int), placed_all(f, base, cur, inside_of(base, st), off),
    ensures match lex(s, off, st, cur) { LexR::Ok(ts) => placed_all(f, base, ts, base, base + f.len()), LexR::Err(e) => base <= e <= base + f.len() },
    decreases s.len(),
{
    hide(placed_n); hide(placed); hide(g_literal); hide(g_punct); hide(g_ident); hide(doc); hide(is_error); hide(leaf); hide(show_tok); hide(ws_char);
    let t = skip_ws(s);
    let o = off + s.len() - t.len();
    lemma_skip_ws(s); lemma_sfx_len(s, t); lemma_skip_ws_end(s);
    assert(t =~= f.skip(o - base)) by { reveal(sfx); }
    let at = inside_of(base, st);
    lemma_placed_wider(f, base, cur, cur.len() as int, at, off, o);
    lemma_doc(t);
    match doc(t) {
        Some(d) => {
            let hi = o + t.len() - d.0.len();
            assert(d.0 =~= f.skip(hi - base)) by { reveal(sfx); }
            assert(doc_at(f, o - base, hi - base));
            lemma_placed_doc(f, base, cur, d.1, d.2, at, o, hi);
            if d.0.len() < s.len() { lemma_lex_placed(f, base, d.0, hi, st, doc_onto(cur, d.1, d.2, o, hi)); }
        },
        None => {
            if t.len() == 0 {
                lemma_placed_wider(f, base, cur, cur.len() as int, at, o, base + f.len());
                if st.len() > 0 { assert(placed_stack(f, base, st, st.len() as int)); }
            }
            else if open_code(t[0]) >= 0 && !is_error(t) {
                let st2 = st.push((o, open_code(t[0]), cur));
                let e = Seq::<Tok>::empty();
                assert(placed_all(f, base, e, o + 1, o + 1)) by { reveal(placed_n); }
                lemma_placed_stack_prefix(f, base, st2, st, st.len() as int);
                assert(f[o - base] == t[0]);
                assert(st2.last() == (o, open_code(t[0]), cur));
                if st.len() > 0 { assert(st2[st.len() - 1] == st.last()); }
                assert(t.skip(1) =~= f.skip(o + 1 - base));
                lemma_lex_placed(f, base, t.skip(1), o + 1, st2, e);
            } else if close_code(t[0]) >= 0 {
                if st.len() > 0 && st.last().1 == close_code(t[0]) {
                    let x = st.last();
                    let g = Tok::Group(x.1, cur, x.0, o + 1);
                    let below = x.2;
                    let st2 = st.drop_last();
                    assert(placed_stack(f, base, st, st.len() as int));
                    assert(f[o - base] == t[0]);
                    assert(x.0 < o) by { lemma_placed_order(f, base, cur, cur.len() as int, x.0 + 1, o); }
                    assert(placed(f, base, g)) by { reveal(placed); reveal(placed_n); }
                    lemma_placed_push(f, base, below, g, inside_of(base, st2));
                    lemma_placed_stack_prefix(f, base, st2, st, st2.len() as int);
                    assert(t.skip(1) =~= f.skip(o + 1 - base));
                    lemma_lex_placed(f, base, t.skip(1), o + 1, st2, below.push(g));
                }
            } else {
                match leaf(t, o) {
                    Some(l) => {
                        lemma_leaf(t, o); lemma_leaf_good(t, o); lemma_leaf_at(t, o);
                        let hi = o + t.len() - l.0.len();
                        assert(l.0 =~= f.skip(hi - base)) by { reveal(sfx); }
                        let a = show_tok(l.1);
                        assert(a.len() == t.len() - l.0.len());
                        assert(f.subrange(o - base, hi - base) =~= a) by {
                            assert forall|i: int| 0 <= i < a.len() implies f.subrange(o - base, hi - base)[i] == a[i] by { assert(t[i] == a[i]); }
                        }
                        assert(placed(f, base, l.1)) by { reveal(placed); }
                        lemma_placed_push(f, base, cur, l.1, at);
                        lemma_lex_placed(f, base, l.0, hi, st, cur.push(l.1));
                    },
                    None => {},
                }
            }
        },
    }
}
pub proof fn lemma_placed_order(f: Seq<char>, base: int, ts: Seq<Tok>, n: int, lo: int, hi: int)
    requires placed_n(f, base, ts, n, lo, hi),
    ensures lo <= hi,
    decreases n,
{
    hide(doc_at); hide(show_tok);
    if 0 < n <= ts.len() {
        let t = ts[n - 1];
        assert(placed(f, base, t));
        if placed_n(f, base, ts, n - 1, lo, tok_lo(t)) { lemma_placed_order(f, base, ts, n - 1, lo, tok_lo(t)); } else { lemma_placed_order(f, base, ts, n - 1, lo, tok_hi(t)); }
    }
}
/// every token of a text lies where it was read, errors lie in the text
pub proof fn lemma_source_placed(s: Seq<char>, base: int)
    ensures match lex_source(s, base) { LexR::Ok(ts) => placed_all(s, base, ts, base, base + s.len()), LexR::Err(e) => base <= e <= base + s.len() },
{
    let no = Seq::<(int, int, Seq<Tok>)>::empty();
    let e = Seq::<Tok>::empty();
    assert(s.skip(0) =~= s);
    lemma_lex_placed(s, base, s, base, no, e);
    if s.len() > 0 { assert(s.skip(1) == s.skip(base + 1 - base)); lemma_lex_placed(s, base, s.skip(1), base + 1, no, e); }
}
} // verus!
}
