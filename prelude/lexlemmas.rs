verus! {
// ------------------------------------------- facts about the grammar functions
pub broadcast proof fn lemma_line_rest(s: Seq<char>)
    ensures sfx(s, #[trigger] line_rest(s)), s.len() > 0 && s[0] != '\n' && s[0] != '\r' ==> line_rest(s).len() < s.len(),
    decreases s.len(),
{ broadcast use vx_text; if s.len() > 0 { lemma_line_rest(s.skip(1)); lemma_sfx_skip(s, 1); lemma_sfx_trans(s, s.skip(1), line_rest(s.skip(1))); lemma_sfx_refl(s); } }
pub broadcast proof fn lemma_line_len(s: Seq<char>)
    ensures 0 <= #[trigger] line_len(s) <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_line_len(s.skip(1)); } }
pub broadcast proof fn lemma_block_end(s: Seq<char>, d: int)
    ensures match #[trigger] block_end(s, d) { Some(r) => sfx(s, r) && r.len() + 2 <= s.len(), None => true },
    decreases s.len(),
{
    broadcast use vx_text;
    if s.len() >= 2 {
        lemma_block_end(s.skip(2), d + 1);
        lemma_block_end(s.skip(2), d - 1);
        lemma_block_end(s.skip(1), d);
        lemma_sfx_skip(s, 1);
        lemma_sfx_skip(s, 2);
    }
}
pub broadcast proof fn lemma_cont_rest(s: Seq<char>)
    ensures sfx(s, #[trigger] cont_rest(s)),
    decreases s.len(),
{ broadcast use vx_text; if s.len() > 0 { lemma_cont_rest(s.skip(1)); lemma_sfx_skip(s, 1); lemma_sfx_refl(s); } else { lemma_sfx_refl(s); } }
pub broadcast proof fn lemma_u_body(t: Seq<char>, v: int, n: int)
    ensures match #[trigger] u_body(t, v, n) { Some(u) => sfx(t, u.0) && u.0.len() < t.len(), None => true },
    decreases t.len(),
{
    broadcast use vx_text;
    if t.len() > 0 { lemma_u_body(t.skip(1), v * 16 + hexv(t[0]), n + 1); lemma_u_body(t.skip(1), v, n); lemma_sfx_skip(t, 1); }
}
pub broadcast proof fn lemma_cont_ws(t: Seq<char>, l: int)
    ensures match #[trigger] cont_ws(t, l) { Some(u) => sfx(t, u) && u.len() > 0, None => true },
    decreases t.len(),
{
    broadcast use vx_text;
    if t.len() > 0 { lemma_cont_ws(t.skip(1), 10); lemma_cont_ws(t.skip(1), cp(t[0])); lemma_sfx_skip(t, 1); lemma_sfx_refl(t); }
}
pub broadcast proof fn lemma_hashes(s: Seq<char>)
    ensures 0 <= #[trigger] hashes(s) <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_hashes(s.skip(1)); } }
pub open spec fn all_hash(d: Seq<char>) -> bool { forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == '#' }
/// starting with n hashes
pub broadcast proof fn lemma_hash_pre(s: Seq<char>, d: Seq<char>)
    requires all_hash(d),
    ensures #[trigger] pre(s, d) == (hashes(s) >= d.len()),
    decreases d.len(),
{
    reveal(pre);
    lemma_hashes(s);
    if d.len() > 0 && s.len() > 0 {
        lemma_hash_pre(s.skip(1), d.skip(1));
        assert(d[0] == '#');
        if s[0] == '#' {
            if pre(s.skip(1), d.skip(1)) {
                assert forall|i: int| 0 <= i < d.len() implies s[i] == #[trigger] d[i] by { if i > 0 { assert(s.skip(1)[i - 1] == d.skip(1)[i - 1]); } }
            }
            if pre(s, d) {
                assert forall|i: int| 0 <= i < d.skip(1).len() implies s.skip(1)[i] == #[trigger] d.skip(1)[i] by { assert(s[i + 1] == d[i + 1]); }
            }
        }
    }
}
/// everything of `s` in front of `r` is hashes
#[verifier::opaque]
pub open spec fn hash_at(s: Seq<char>, r: Seq<char>) -> bool { sfx(s, r) && all_hash(head(s, r)) }
pub broadcast proof fn lemma_hash_start(s: Seq<char>)
    ensures #[trigger] hash_at(s, s),
{ broadcast use vx_text; reveal(hash_at); }
pub broadcast proof fn lemma_hash_step(s: Seq<char>, r: Seq<char>)
    requires #[trigger] hash_at(s, r), p1(r, '#'),
    ensures hash_at(s, #[trigger] r.skip(1)),
{
    broadcast use vx_text;
    reveal(hash_at); reveal(sfx);
    let k = s.len() - r.len();
    lemma_sfx_skip(r, 1);
    lemma_sfx_trans(s, r, r.skip(1));
    assert forall|i: int| 0 <= i < head(s, r.skip(1)).len() implies #[trigger] head(s, r.skip(1))[i] == '#' by {
        if i < k { assert(head(s, r)[i] == '#'); } else { assert(s.skip(k)[0] == '#'); }
    }
}
pub broadcast proof fn lemma_hash_done(s: Seq<char>, r: Seq<char>)
    requires #[trigger] hash_at(s, r),
    ensures sfx(s, r), all_hash(head(s, r)), blen(s) - blen(r) == s.len() - r.len(), hashes(s) == s.len() - r.len() + hashes(r),
        !p1(r, '#') ==> s.skip(hashes(s)) == r && hashes(s) == s.len() - r.len(),
    decreases s.len() - r.len(),
{
    broadcast use vx_text;
    reveal(hash_at); reveal(sfx);
    let k = s.len() - r.len();
    lemma_at_skip(s, k);
    lemma_ascii_blen(s.take(k));
    if k > 0 {
        assert(head(s, r)[0] == '#');
        lemma_skip_skip(s, 1, k - 1);
        assert(head(s.skip(1), r) =~= head(s, r).skip(1));
        assert(hash_at(s.skip(1), r));
        lemma_hash_done(s.skip(1), r);
    }
}
/// in front of an exponent's text stands its letter
pub proof fn lemma_mant(s: Seq<char>, dot: bool)
    ensures match mant(s, dot) {
        Mant::Exp(r, d) => sfx(s, r) && r.len() < s.len() && (s[s.len() - r.len() - 1] == 'e' || s[s.len() - r.len() - 1] == 'E'),
        Mant::Plain(r, d) => sfx(s, r),
        Mant::Reject => true,
    },
    decreases s.len(),
{
    broadcast use vx_text;
    if s.len() > 0 { lemma_mant(s.skip(1), dot); lemma_mant(s.skip(1), true); lemma_sfx_skip(s, 1); }
}

pub broadcast group vx_lex { lemma_line_rest, lemma_line_len, lemma_block_end, lemma_cont_rest, lemma_u_body, lemma_cont_ws, lemma_hashes, lemma_hash_pre, lemma_hash_start, lemma_hash_step, lemma_hash_done }
} // verus!
verus! {
// ------------------------------------- every token takes something off the text
pub broadcast proof fn lemma_cooked(s: Seq<char>, mode: int)
    ensures match #[trigger] cooked(s, mode) { Some(r) => sfx(s, r) && r.len() < s.len(), None => true },
    decreases s.len(),
{
    broadcast use {vx_text, vx_lex};
    if s.len() > 0 {
        lemma_cooked(s.skip(1), mode);
        lemma_sfx_skip(s, 1);
        if s.len() >= 2 {
            lemma_cooked(s.skip(2), mode); lemma_sfx_skip(s, 2);
            if s.len() >= 4 { lemma_cooked(s.skip(4), mode); lemma_sfx_skip(s, 4); }
            match u_esc(s.skip(2)) { Some(u) => { lemma_sfx_skip(s.skip(2), 1); if u.0.len() < s.len() { lemma_cooked(u.0, mode); } }, None => {} }
            match cont_ws(s.skip(2), cp(s[1])) { Some(t) => { if t.len() < s.len() { lemma_cooked(t, mode); } }, None => {} }
        }
    }
}
pub broadcast proof fn lemma_raw_body(s: Seq<char>, n: int, mode: int)
    requires n >= 0,
    ensures match #[trigger] raw_body(s, n, mode) { Some(r) => sfx(s, r) && r.len() < s.len(), None => true },
    decreases s.len(),
{
    broadcast use {vx_text, vx_lex};
    if s.len() > 0 {
        lemma_raw_body(s.skip(1), n, mode);
        lemma_sfx_skip(s, 1);
        if s.len() >= 2 { lemma_raw_body(s.skip(2), n, mode); lemma_sfx_skip(s, 2); }
        if s[0] == '"' && hashes(s.skip(1)) >= n { lemma_hashes(s.skip(1)); lemma_sfx_skip(s, 1 + n); }
    }
}
pub proof fn lemma_expo(s: Seq<char>, sign: bool, val: bool)
    ensures match expo(s, sign, val) { Some(r) => sfx(s, r), None => true },
    decreases s.len(),
{
    broadcast use {vx_text, vx_lex};
    if s.len() > 0 { lemma_expo(s.skip(1), true, val); lemma_expo(s.skip(1), sign, true); lemma_expo(s.skip(1), sign, val); lemma_sfx_skip(s, 1); }
}
pub proof fn lemma_dg(s: Seq<char>, base: int, empty: bool)
    ensures match dg(s, base, empty) { Some(r) => sfx(s, r) && (empty ==> r.len() < s.len()), None => true },
    decreases s.len(),
{
    broadcast use {vx_text, vx_lex};
    if s.len() > 0 { lemma_dg(s.skip(1), base, false); lemma_dg(s.skip(1), base, empty); lemma_sfx_skip(s, 1); }
}
pub broadcast proof fn lemma_suffix(s: Seq<char>)
    ensures sfx(s, #[trigger] suffix(s)),
{
    broadcast use {vx_text, vx_lex};
    if s.len() > 0 { lemma_sfx_skip(s, 1); lemma_cont_rest(s.skip(1)); }
}
/// `r` is what is left of `s` after at least one character
pub open spec fn shorter(s: Seq<char>, r: Option<Seq<char>>) -> bool {
    match r { Some(t) => sfx(s, t) && t.len() < s.len(), None => true }
}
pub proof fn lemma_quoted(s: Seq<char>, mode: int)
    ensures shorter(s, cooked_lit(s, mode)), shorter(s, raw_lit(s, mode)),
{
    broadcast use {vx_text, vx_lex};
    lemma_cooked(s, mode);
    match cooked(s, mode) { Some(r) => { lemma_suffix(r); }, None => {} }
    match raw_open(s) {
        Some(o) => {
            lemma_hashes(s);
            lemma_sfx_skip(s, hashes(s) + 1);
            lemma_raw_body(o.1, o.0, mode);
            match raw_body(o.1, o.0, mode) { Some(r) => { lemma_suffix(r); }, None => {} }
        },
        None => {},
    }
}
pub proof fn lemma_close_quote(s: Seq<char>)
    ensures shorter(s, close_quote(s)),
{ broadcast use {vx_text, vx_lex}; if s.len() > 0 { lemma_sfx_skip(s, 1); lemma_suffix(s.skip(1)); } }
pub proof fn lemma_shorter_skip(s: Seq<char>, k: int, r: Option<Seq<char>>)
    requires 0 <= k <= s.len(), shorter(s.skip(k), r),
    ensures shorter(s, r),
{ broadcast use {vx_text, vx_lex}; lemma_sfx_skip(s, k); }
pub proof fn lemma_char_lits(s: Seq<char>)
    ensures shorter(s, byte_lit(s)), shorter(s, char_lit(s)),
{
    broadcast use {vx_text, vx_lex};
    if s.len() >= 2 { lemma_close_quote(s.skip(2)); lemma_shorter_skip(s, 2, close_quote(s.skip(2))); }
    if s.len() >= 3 {
        lemma_close_quote(s.skip(3)); lemma_shorter_skip(s, 3, close_quote(s.skip(3)));
        match u_esc(s.skip(3)) { Some(u) => { lemma_sfx_skip(s, 3); lemma_sfx_skip(s.skip(3), 1); lemma_close_quote(u.0); }, None => {} }
    }
    if s.len() >= 4 { lemma_close_quote(s.skip(4)); lemma_shorter_skip(s, 4, close_quote(s.skip(4))); }
    if s.len() >= 5 { lemma_close_quote(s.skip(5)); lemma_shorter_skip(s, 5, close_quote(s.skip(5))); }
    if s.len() >= 6 { lemma_close_quote(s.skip(6)); lemma_shorter_skip(s, 6, close_quote(s.skip(6))); }
}
pub proof fn lemma_numbers(s: Seq<char>)
    ensures shorter(s, float_lit(s)), shorter(s, int_lit(s)),
{
    broadcast use {vx_text, vx_lex};
    if s.len() > 0 {
        lemma_sfx_skip(s, 1);
        lemma_mant(s.skip(1), false);
        match mant(s.skip(1), false) {
            Mant::Exp(r, dot) => { lemma_expo(r, false, false); lemma_sfx_skip(s, s.len() - r.len() - 1); },
            _ => {},
        }
        match g_float_digits(s) { Some(r) => { lemma_suffix(r); }, None => {} }
        lemma_dg(s, 10, true);
        if s.len() >= 2 { lemma_sfx_skip(s, 2); lemma_dg(s.skip(2), base_of(s), true); }
        match int_digits(s) { Some(r) => { lemma_suffix(r); }, None => {} }
    }
}
pub proof fn lemma_literal(s: Seq<char>)
    ensures shorter(s, g_literal(s)),
{
    broadcast use {vx_text, vx_lex};
    if s.len() >= 1 { lemma_quoted(s.skip(1), 0); lemma_shorter_skip(s, 1, cooked_lit(s.skip(1), 0)); lemma_shorter_skip(s, 1, raw_lit(s.skip(1), 0)); }
    if s.len() >= 2 {
        lemma_quoted(s.skip(2), 1); lemma_shorter_skip(s, 2, cooked_lit(s.skip(2), 1)); lemma_shorter_skip(s, 2, raw_lit(s.skip(2), 1));
        lemma_quoted(s.skip(2), 2); lemma_shorter_skip(s, 2, cooked_lit(s.skip(2), 2)); lemma_shorter_skip(s, 2, raw_lit(s.skip(2), 2));
    }
    lemma_char_lits(s);
    lemma_numbers(s);
}
pub proof fn lemma_leaf(s: Seq<char>, off: int)
    ensures match leaf(s, off) { Some(l) => sfx(s, l.0) && l.0.len() < s.len(), None => true },
{
    broadcast use {vx_text, vx_lex};
    lemma_literal(s);
    if s.len() > 0 { lemma_sfx_skip(s, 1); lemma_cont_rest(s.skip(1)); }
    if s.len() > 2 { lemma_sfx_skip(s, 2); lemma_sfx_skip(s.skip(2), 1); lemma_cont_rest(s.skip(2).skip(1)); }
    if s.len() >= 11 { lemma_sfx_skip(s, 11); }
}
pub proof fn lemma_skip_ws(s: Seq<char>)
    ensures sfx(s, skip_ws(s)), !p4(skip_ws(s), '/', '*', '*', '/'),
    decreases s.len(),
{
    broadcast use {vx_text, vx_lex};
    if s.len() > 0 {
        lemma_sfx_skip(s, 1);
        lemma_skip_ws(s.skip(1));
        if s.len() >= 4 { lemma_sfx_skip(s, 4); lemma_skip_ws(s.skip(4)); }
        lemma_line_rest(s);
        if line_rest(s).len() < s.len() { lemma_skip_ws(line_rest(s)); }
        match block_rest(s) { Some(r) => { if r.len() < s.len() { lemma_skip_ws(r); } }, None => {} }
    }
}
// ---------------------------------------------------------------- doc comments
/// a block comment ends with its closing mark
pub proof fn lemma_block_tail(s: Seq<char>, d: int)
    ensures match block_end(s, d) { Some(r) => r.len() + 2 <= s.len() && s[s.len() - r.len() - 2] == '*' && s[s.len() - r.len() - 1] == '/', None => true },
    decreases s.len(),
{
    broadcast use {vx_text, vx_lex};
    if s.len() >= 2 {
        lemma_block_tail(s.skip(2), d + 1);
        lemma_block_tail(s.skip(2), d - 1);
        lemma_block_tail(s.skip(1), d);
    }
}
/// three ASCII characters in front, two behind
pub proof fn lemma_cut(t: Seq<char>)
    requires t.len() >= 5, cp(t[0]) < 0x80, cp(t[1]) < 0x80, cp(t[2]) < 0x80, cp(t[t.len() - 1]) < 0x80, cp(t[t.len() - 2]) < 0x80,
    ensures bdry(t, 3), bdry(t, blen(t) - 2), blen(t) >= 5, rest_at(take_b(t, blen(t) - 2), 3) == t.subrange(3, t.len() - 2),
        bdry(take_b(t, blen(t) - 2), 3),
{
    broadcast use vx_text;
    let n = t.len() as int;
    lemma_at_skip(t, 3);
    lemma_lit_blen3(t.take(3));
    assert(at(t, t.skip(3), 3));
    lemma_at_rest(t, t.skip(3), 3);
    lemma_at_skip(t, n - 2);
    lemma_lit_blen2(t.skip(n - 2));
    lemma_at_rest(t, t.skip(n - 2), blen(t) - 2);
    assert(take_b(t, blen(t) - 2) =~= t.take(n - 2));
    let u = t.take(n - 2);
    lemma_at_skip(u, 3);
    assert(u.take(3) =~= t.take(3));
    lemma_at_rest(u, u.skip(3), 3);
    assert(u.skip(3) =~= t.subrange(3, n - 2));
}
pub proof fn lemma_doc_block(s: Seq<char>)
    requires p3(s, '/', '*', '!') || (p3(s, '/', '*', '*') && !p4(s, '/', '*', '*', '*') && !p4(s, '/', '*', '*', '/')),
    ensures match block_rest(s) {
        Some(r) => r.len() + 5 <= s.len() && ({
            let t = head(s, r);
            bdry(t, 3) && bdry(t, blen(t) - 2) && blen(t) >= 5 && rest_at(take_b(t, blen(t) - 2), 3) == s.subrange(3, s.len() - r.len() - 2) }),
        None => true,
    },
{
    broadcast use {vx_text, vx_lex};
    match block_rest(s) {
        Some(r) => {
            reveal_with_fuel(block_end, 3);
            let u = s.skip(3);
            assert(block_end(s.skip(2), 1) == Some(r));
            assert(s.skip(2)[0] == s[2]);
            if s.skip(2).len() >= 2 { assert(s.skip(2)[1] == s[3]); }
            assert(block_end(u, 1) == Some(r));
            lemma_block_end(u, 1);
            lemma_block_tail(s, 0);
            let t = head(s, r);
            lemma_cut(t);
            assert(t.subrange(3, t.len() - 2) =~= s.subrange(3, s.len() - r.len() - 2));
        },
        None => {},
    }
}
/// nothing in front of the first carriage return matters
pub broadcast proof fn lemma_bare_cr_at(s: Seq<char>, i: int)
    requires bdry(s, i), !(#[trigger] take_b(s, i)).contains('\r'),
    ensures bare_cr(s) == bare_cr(rest_at(s, i)),
    decreases s.len(),
{
    broadcast use vx_text;
    lemma_bare_cr(s, rest_at(s, i));
}
pub proof fn lemma_bare_cr(s: Seq<char>, r: Seq<char>)
    requires sfx(s, r), !head(s, r).contains('\r'),
    ensures bare_cr(s) == bare_cr(r),
    decreases s.len(),
{
    broadcast use vx_text;
    reveal(sfx);
    if r.len() < s.len() {
        let h = head(s, r);
        assert(h[0] == s[0]);
        assert(h.contains(h[0]));
        assert(s[0] != '\r');
        lemma_skip_skip(s, 1, s.skip(1).len() - r.len());
        assert(sfx(s.skip(1), r));
        assert forall|c: char| head(s.skip(1), r).contains(c) implies #[trigger] h.contains(c) by {
            let k = choose|k: int| 0 <= k < head(s.skip(1), r).len() && head(s.skip(1), r)[k] == c;
            assert(h[k + 1] == c);
        }
        lemma_bare_cr(s.skip(1), r);
    } else { assert(r =~= s); }
}
pub proof fn lemma_bare_cr_none(s: Seq<char>)
    requires !s.contains('\r'),
    ensures !bare_cr(s),
    decreases s.len(),
{
    broadcast use vx_text;
    lemma_sfx_skip(s, s.len() as int);
    assert(head(s, s.skip(s.len() as int)) =~= s);
    lemma_bare_cr(s, s.skip(s.len() as int));
}
pub proof fn lemma_error(s: Seq<char>, l: Seq<char>)
    requires l == seq!['(', '/', '*', 'E', 'R', 'R', 'O', 'R', '*', '/', ')'],
    ensures pre(s, l) == is_error(s), is_error(s) ==> s.take(11) == l && s.len() >= 11,
{
    broadcast use vx_text;
    reveal(pre);
    if is_error(s) {
        assert(s.len() >= 11);
        assert(s.skip(8)[2] == ')');
        assert(s.take(11) =~= l);
    }
}
pub proof fn lemma_doc(s: Seq<char>)
    ensures match doc(s) { Some(d) => sfx(s, d.0) && d.0.len() < s.len(), None => true },
{
    broadcast use {vx_text, vx_lex};
    if s.len() >= 3 { lemma_sfx_skip(s, 3); lemma_line_rest(s.skip(3)); }
    lemma_block_end(s, 0);
}
} // verus!
