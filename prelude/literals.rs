verus! {
// ---- numbers
pub open spec fn all_dec(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_dec(#[trigger] s[i]) }
pub proof fn lemma_dec(n: int)
    requires n >= 0,
    ensures dec(n).len() > 0, all_dec(dec(n)),
    decreases n,
{ if n >= 10 { lemma_dec(n / 10); } }
/// the digits read as a number
pub open spec fn dec_value(s: Seq<char>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { dec_value(s.drop_last()) * 10 + hexv(s.last()) } }
pub proof fn lemma_dec_value(n: int)
    requires n >= 0,
    ensures dec_value(dec(n)) == n,
    decreases n,
{
    if n >= 10 {
        lemma_dec_value(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
    } else {
        assert(dec(n).drop_last() =~= Seq::<char>::empty());
        assert(dec_value(Seq::<char>::empty()) == 0);
    }
}
pub proof fn lemma_mant_digits(d: Seq<char>, t: Seq<char>, dot: bool)
    requires all_dec(d),
    ensures mant(d + t, dot) == mant(t, dot),
    decreases d.len(),
{
    if d.len() == 0 { assert(d + t =~= t); }
    else { assert((d + t).skip(1) =~= d.skip(1) + t); lemma_mant_digits(d.skip(1), t, dot); }
}
pub proof fn lemma_dg_digits(d: Seq<char>, t: Seq<char>, e: bool)
    requires all_dec(d), e ==> d.len() > 0,
    ensures dg(d + t, 10, e) == dg(t, 10, false),
    decreases d.len(),
{
    if d.len() == 0 { assert(d + t =~= t); }
    else {
        assert((d + t).skip(1) =~= d.skip(1) + t);
        if d.len() == 1 { assert(d.skip(1) + t =~= t); } else { lemma_dg_digits(d.skip(1), t, false); }
    }
}
/// a type name behind a number
pub open spec fn ty_name(x: Seq<char>) -> bool {
    x == seq!['u', '8'] || x == seq!['u', '1', '6'] || x == seq!['u', '3', '2'] || x == seq!['u', '6', '4'] || x == seq!['u', '1', '2', '8'] || x == seq!['u', 's', 'i', 'z', 'e']
    || x == seq!['i', '8'] || x == seq!['i', '1', '6'] || x == seq!['i', '3', '2'] || x == seq!['i', '6', '4'] || x == seq!['i', '1', '2', '8'] || x == seq!['i', 's', 'i', 'z', 'e']
    || x == seq!['f', '3', '2'] || x == seq!['f', '6', '4']
}
pub proof fn lemma_cont_all(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_dec(#[trigger] s[i]) || ('a' <= s[i] && s[i] <= 'z'),
    ensures cont_rest(s).len() == 0,
    decreases s.len(),
{ if s.len() > 0 { xid_ascii(s[0]); lemma_cont_all(s.skip(1)); } }
pub proof fn lemma_ty_suffix(x: Seq<char>)
    requires ty_name(x) || x.len() == 0,
    ensures whole(num_suffix(x)), x.len() > 0 ==> x[0] == 'u' || x[0] == 'i' || x[0] == 'f',
{
    if x.len() > 0 {
        xid_ascii(x[0]);
        assert(forall|i: int| 0 <= i < x.skip(1).len() ==> is_dec(#[trigger] x.skip(1)[i]) || ('a' <= x.skip(1)[i] && x.skip(1)[i] <= 'z'));
        lemma_cont_all(x.skip(1));
    }
}
pub proof fn lemma_not_quoted(s: Seq<char>)
    requires s.len() > 0, is_dec(s[0]),
    ensures string_lit(s).is_none(), byte_string_lit(s).is_none(), c_string_lit(s).is_none(), byte_lit(s).is_none(), char_lit(s).is_none(),
{}
/// an integer, with or without a type name, is one literal
pub proof fn lemma_int_whole(d: Seq<char>, x: Seq<char>)
    requires all_dec(d), d.len() > 0, ty_name(x) || x.len() == 0,
    ensures whole(g_literal(d + x)), is_dec((d + x)[0]),
{
    let s = d + x;
    lemma_ty_suffix(x);
    lemma_not_quoted(s);
    assert(s.skip(1) =~= d.skip(1) + x);
    lemma_mant_digits(d.skip(1), x, false);
    assert(mant(x, false) == Mant::Plain(x, false));
    assert(float_lit(s).is_none());
    if d.len() > 1 { assert(s[1] == d[1]); } else if x.len() > 0 { assert(s[1] == x[0]); }
    lemma_dg_digits(d, x, true);
    assert(dg(x, 10, false) == Some(x));
}
/// a number with a decimal point is one float literal
pub proof fn lemma_float_whole(a: Seq<char>, b: Seq<char>, x: Seq<char>)
    requires all_dec(a), a.len() > 0, all_dec(b), b.len() > 0, ty_name(x) || x.len() == 0,
    ensures whole(g_literal(a + (seq!['.'] + (b + x)))), whole(float_lit(a + (seq!['.'] + (b + x)))), is_dec((a + (seq!['.'] + (b + x)))[0]),
{
    let t = seq!['.'] + (b + x);
    let s = a + t;
    lemma_ty_suffix(x);
    lemma_not_quoted(s);
    assert(s.skip(1) =~= a.skip(1) + t);
    lemma_mant_digits(a.skip(1), t, false);
    xid_ascii(b[0]);
    assert(t[1] == b[0]);
    assert(t.skip(1) =~= b + x);
    lemma_mant_digits(b, x, true);
    assert(mant(x, true) == Mant::Plain(x, true));
}
// ---- floats as std prints them
pub uninterp spec fn finite32(x: f32) -> bool;
pub uninterp spec fn finite64(x: f64) -> bool;
/// an optional minus, digits, and maybe a point and digits
pub open spec fn dec_shape(s: Seq<char>) -> bool {
    exists|m: bool, a: Seq<char>, b: Seq<char>| #[trigger] dec_text(m, a, b) == s && all_dec(a) && a.len() > 0 && all_dec(b)
}
pub open spec fn dec_text(m: bool, a: Seq<char>, b: Seq<char>) -> Seq<char> {
    (if m { seq!['-'] } else { Seq::<char>::empty() }) + (if b.len() == 0 { a } else { a + (seq!['.'] + b) })
}
/// `{}` of a finite float never uses an exponent (std documents it), and
/// reads back as the same float.
pub axiom fn show_f32_shape(x: f32) requires finite32(x) ensures dec_shape(show_f32(x));
pub axiom fn show_f64_shape(x: f64) requires finite64(x) ensures dec_shape(show_f64(x));
/// `.0` is added where there is no point, so that it is a float literal
pub open spec fn float_text(s: Seq<char>) -> Seq<char> { if s.contains('.') { s } else { s + seq!['.', '0'] } }
pub proof fn lemma_float_text(s: Seq<char>)
    requires dec_shape(s),
    ensures literal_source(float_text(s)), float_text(s).contains('.'),
{
    let (m, a, b) = choose|m: bool, a: Seq<char>, b: Seq<char>| #[trigger] dec_text(m, a, b) == s && all_dec(a) && a.len() > 0 && all_dec(b);
    let b1 = if b.len() == 0 { seq!['0'] } else { b };
    let t = a + (seq!['.'] + (b1 + Seq::<char>::empty()));
    let pre = if m { seq!['-'] } else { Seq::<char>::empty() };
    lemma_float_whole(a, b1, Seq::<char>::empty());
    if b.len() == 0 {
        assert(!s.contains('.')) by {
            if s.contains('.') { let i = choose|i: int| 0 <= i < s.len() && s[i] == '.'; let k = i - pre.len(); assert(k >= 0 ==> s[i] == a[k]); }
        }
        assert(float_text(s) =~= pre + t);
    } else {
        assert(s[(pre.len() + a.len()) as int] == '.');
        assert(s =~= pre + t);
    }
    assert((pre + t)[(pre.len() + a.len()) as int] == '.');
    if m { assert((pre + t).skip(1) =~= t); } else { assert(pre + t =~= t); }
}
pub proof fn lemma_float_suffixed(s: Seq<char>, x: Seq<char>)
    requires dec_shape(s), ty_name(x),
    ensures literal_source(s + x),
{
    let (m, a, b) = choose|m: bool, a: Seq<char>, b: Seq<char>| #[trigger] dec_text(m, a, b) == s && all_dec(a) && a.len() > 0 && all_dec(b);
    let pre = if m { seq!['-'] } else { Seq::<char>::empty() };
    let t = if b.len() == 0 { a + x } else { a + (seq!['.'] + (b + x)) };
    if b.len() == 0 { lemma_int_whole(a, x); } else { lemma_float_whole(a, b, x); }
    assert(s + x =~= pre + t);
    if m { assert((pre + t).skip(1) =~= t); } else { assert(pre + t =~= t); }
}
pub proof fn lemma_int_text(n: int, x: Seq<char>)
    requires ty_name(x) || x.len() == 0,
    ensures literal_source(dec_int(n) + x),
{
    let m = if n < 0 { -n } else { n };
    lemma_dec(m);
    lemma_int_whole(dec(m), x);
    if n < 0 { assert((dec_int(n) + x).skip(1) =~= dec(m) + x); }
}
pub trait VFloat { spec fn finite(&self) -> bool; fn v_is_finite(&self) -> (r: bool) ensures r == self.finite(); }
impl VFloat for f32 { open spec fn finite(&self) -> bool { finite32(*self) } #[verifier::external_body] fn v_is_finite(&self) -> bool { self.is_finite() } }
impl VFloat for f64 { open spec fn finite(&self) -> bool { finite64(*self) } #[verifier::external_body] fn v_is_finite(&self) -> bool { self.is_finite() } }

// ---- quoted literals
pub open spec fn cat_val(v: Seq<int>, o: Option<Seq<int>>) -> Option<Seq<int>> { match o { Some(w) => Some(v + w), None => None } }
/// `a`, between the quotes of a literal, stands for exactly `v`, whatever follows
#[verifier::opaque]
pub open spec fn den(a: Seq<char>, v: Seq<int>, mode: int) -> bool {
    forall|b: Seq<char>| cooked(#[trigger] (a + b), mode) == cooked(b, mode) && cooked_val(a + b, mode) == cat_val(v, cooked_val(b, mode))
}
pub proof fn lemma_den_empty(mode: int)
    ensures den(Seq::<char>::empty(), Seq::<int>::empty(), mode),
{
    reveal(den);
    let e = Seq::<char>::empty();
    assert forall|b: Seq<char>| cooked(#[trigger] (e + b), mode) == cooked(b, mode) && cooked_val(e + b, mode) == cat_val(Seq::<int>::empty(), cooked_val(b, mode)) by {
        assert(Seq::<char>::empty() + b =~= b);
        if let Some(w) = cooked_val(b, mode) { assert(Seq::<int>::empty() + w =~= w); }
    }
}
pub proof fn lemma_den_cat(a: Seq<char>, v: Seq<int>, b: Seq<char>, w: Seq<int>, mode: int)
    requires den(a, v, mode), den(b, w, mode),
    ensures den(a + b, v + w, mode),
{
    reveal(den);
    assert forall|c: Seq<char>| cooked(#[trigger] ((a + b) + c), mode) == cooked(c, mode) && cooked_val((a + b) + c, mode) == cat_val(v + w, cooked_val(c, mode)) by {
        assert((a + b) + c =~= a + (b + c));
        assert(cooked(b + c, mode) == cooked(c, mode));
        if let Some(x) = cooked_val(c, mode) { assert((v + w) + x =~= v + (w + x)); }
    }
}
/// what may stand unescaped
pub open spec fn plain(c: char, mode: int) -> bool {
    c != '\\' && c != '"' && c != '\r' && (mode != 1 || cp(c) < 0x80) && (mode != 2 || c != '\0')
}
pub proof fn lemma_den_plain(c: char, mode: int)
    requires plain(c, mode),
    ensures den(seq![c], unit(cp(c), mode), mode),
{
    reveal(den);
    let a = seq![c];
    assert forall|b: Seq<char>| cooked(#[trigger] (a + b), mode) == cooked(b, mode) && cooked_val(a + b, mode) == cat_val(unit(cp(c), mode), cooked_val(b, mode)) by {
        let s = a + b;
        assert(s.skip(1) =~= b);
        assert(s[0] == c);
    }
}
pub proof fn lemma_den_simple(c: char, mode: int)
    requires simple_esc(c) || (c == '0' && mode != 2),
    ensures den(seq!['\\', c], seq![simple_val(c)], mode),
{
    reveal(den);
    let a = seq!['\\', c];
    assert forall|b: Seq<char>| cooked(#[trigger] (a + b), mode) == cooked(b, mode) && cooked_val(a + b, mode) == cat_val(seq![simple_val(c)], cooked_val(b, mode)) by {
        let s = a + b;
        assert(s.skip(2) =~= b);
        assert(s.skip(1).skip(1) =~= b);
        assert(s.skip(1)[0] == c);
    }
}
pub proof fn lemma_den_x(h: char, l: char, mode: int)
    requires x_ok(seq![h, l], mode),
    ensures den(seq!['\\', 'x', h, l], seq![hexv(h) * 16 + hexv(l)], mode),
{
    reveal(den);
    let a = seq!['\\', 'x', h, l];
    assert forall|b: Seq<char>| cooked(#[trigger] (a + b), mode) == cooked(b, mode) && cooked_val(a + b, mode) == cat_val(seq![hexv(h) * 16 + hexv(l)], cooked_val(b, mode)) by {
        let s = a + b;
        assert(s.skip(4) =~= b);
        assert(s.skip(1).skip(3) =~= b);
        assert(s.skip(2)[0] == h && s.skip(2)[1] == l);
        assert(s.skip(1).skip(1) =~= s.skip(2));
        assert(s.skip(1)[0] == 'x' && s.skip(1)[1] == h && s.skip(1)[2] == l);
    }
}
pub open spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
pub open spec fn hex_fold(h: Seq<char>, v: int) -> int
    decreases h.len(),
{ if h.len() == 0 { v } else { hex_fold(h.skip(1), v * 16 + hexv(h[0])) } }
pub proof fn lemma_u_read(h: Seq<char>, b: Seq<char>, v: int, n: int)
    requires all_hex(h), 0 <= n, n + h.len() <= 6, n + h.len() > 0, is_scalar(hex_fold(h, v)),
    ensures u_body(h + (seq!['}'] + b), v, n) == Some((b, hex_fold(h, v))),
    decreases h.len(),
{
    let t = seq!['}'] + b;
    if h.len() == 0 { assert(h + t =~= t); assert(t.skip(1) =~= b); }
    else { assert((h + t).skip(1) =~= h.skip(1) + t); lemma_u_read(h.skip(1), b, v * 16 + hexv(h[0]), n + 1); }
}
pub open spec fn u_text(h: Seq<char>) -> Seq<char> { seq!['\\', 'u', '{'] + h + seq!['}'] }
pub proof fn lemma_den_u(h: Seq<char>, v: int, mode: int)
    requires mode != 1, all_hex(h), 1 <= h.len() <= 6, hex_fold(h, 0) == v, is_scalar(v), mode == 2 ==> v != 0,
    ensures den(u_text(h), unit(v, mode), mode),
{
    reveal(den);
    assert forall|b: Seq<char>| cooked(#[trigger] (u_text(h) + b), mode) == cooked(b, mode) && cooked_val(u_text(h) + b, mode) == cat_val(unit(v, mode), cooked_val(b, mode)) by {
        let s = u_text(h) + b;
        lemma_u_read(h, b, 0, 0);
        assert(s.skip(2).skip(1) =~= h + (seq!['}'] + b));
        assert(s.skip(1).skip(1) =~= s.skip(2));
        assert(s[0] == '\\' && s[1] == 'u' && s.skip(1)[0] == 'u' && s.skip(2)[0] == '{');
        assert(u_esc(s.skip(2)) == Some((b, v)));
    }
}
/// What std documents of char::escape_debug (checked for every character by
/// the search crate's `axioms` command).
pub open spec fn esc_shape(c: char, e: Seq<char>) -> bool {
    if c == '\0' { e == seq!['\\', '0'] }
    else if c == '\t' { e == seq!['\\', 't'] }
    else if c == '\n' { e == seq!['\\', 'n'] }
    else if c == '\r' { e == seq!['\\', 'r'] }
    else if c == '\\' { e == seq!['\\', '\\'] }
    else if c == '\'' { e == seq!['\\', '\''] }
    else if c == '"' { e == seq!['\\', '"'] }
    else { e == seq![c] || exists|h: Seq<char>| all_hex(h) && 1 <= h.len() <= 6 && hex_fold(h, 0) == cp(c) && e == #[trigger] u_text(h) }
}
pub axiom fn esc_debug_shape(c: char) ensures esc_shape(c, esc_debug(c));
pub axiom fn char_is_scalar(c: char) ensures is_scalar(cp(c));

/// one character of a string, escaped as `esc_str` does
pub proof fn lemma_den_one(s: Seq<char>, mode: int)
    requires s.len() > 0, mode == 0 || (mode == 2 && s[0] != '\0'),
    ensures den(esc_one(s), unit(cp(s[0]), mode), mode),
{
    let c = s[0];
    esc_debug_shape(c);
    char_is_scalar(c);
    if c == '\0' {
        if s.len() > 1 && oct(s[1]) { lemma_den_x('0', '0', mode); } else { lemma_den_simple('0', mode); }
    } else if c == '\'' { lemma_den_plain(c, mode); }
    else if c == '\t' { lemma_den_simple('t', mode); }
    else if c == '\n' { lemma_den_simple('n', mode); }
    else if c == '\r' { lemma_den_simple('r', mode); }
    else if c == '\\' || c == '"' { lemma_den_simple(c, mode); }
    else if esc_debug(c) == seq![c] { lemma_den_plain(c, mode); }
    else {
        let h = choose|h: Seq<char>| all_hex(h) && 1 <= h.len() <= 6 && hex_fold(h, 0) == cp(c) && esc_debug(c) == #[trigger] u_text(h);
        lemma_den_u(h, cp(c), mode);
    }
}
pub open spec fn no_nul(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\0' }
pub proof fn lemma_den_esc(s: Seq<char>, mode: int)
    requires mode == 0 || (mode == 2 && no_nul(s)),
    ensures den(esc_str(s), verbatim(s, mode), mode),
    decreases s.len(),
{
    if s.len() == 0 { lemma_den_empty(mode); }
    else {
        lemma_den_one(s, mode);
        lemma_den_esc(s.skip(1), mode);
        lemma_den_cat(esc_one(s), unit(cp(s[0]), mode), esc_str(s.skip(1)), verbatim(s.skip(1), mode), mode);
    }
}
/// a body that denotes `v`, in quotes: one literal of the kind, denoting `v`
pub proof fn lemma_den_quoted(a: Seq<char>, v: Seq<int>, mode: int)
    requires den(a, v, mode),
    ensures
        ({ let q = seq!['"'] + a + seq!['"'];
           &&& quoted_val(q, mode) == Some(v)
           &&& whole(cooked_lit(q.skip(1), mode)) }),
{
    reveal(den);
    let q = seq!['"'] + a + seq!['"'];
    let e = Seq::<char>::empty();
    assert(q.subrange(1, q.len() - 1) =~= a + e);
    assert(cooked_val(e, mode) == Some(Seq::<int>::empty()));
    assert(v + Seq::<int>::empty() =~= v);
    assert(q.skip(1) =~= a + seq!['"']);
    assert(cooked(seq!['"'], mode) == Some(seq!['"'].skip(1)));
    assert(seq!['"'].skip(1).len() == 0);
    assert(suffix(seq!['"'].skip(1)).len() == 0);
}
pub open spec fn kind_mark(mode: int) -> Seq<char> { if mode == 1 { seq!['b'] } else if mode == 2 { seq!['c'] } else { Seq::<char>::empty() } }
pub proof fn lemma_quoted_lit(a: Seq<char>, v: Seq<int>, mode: int)
    requires den(a, v, mode), 0 <= mode <= 2,
    ensures
        ({ let t = kind_mark(mode) + (seq!['"'] + a + seq!['"']);
           &&& lit_val(t, mode) == Some(v)
           &&& whole(g_literal(t)) }),
{
    let q = seq!['"'] + a + seq!['"'];
    let t = kind_mark(mode) + q;
    lemma_den_quoted(a, v, mode);
    if mode == 0 { assert(t =~= q); assert(string_lit(t) == cooked_lit(t.skip(1), 0)); }
    else {
        assert(t.skip(1) =~= q);
        assert(t.skip(2) =~= q.skip(1));
        assert(t[1] == '"');
        assert(string_lit(t).is_none());
        if mode == 2 { assert(byte_string_lit(t).is_none()); }
    }
}
/// one escape or character in single quotes
pub proof fn lemma_char_lit(e: Seq<char>, c: char)
    requires esc_shape(c, e) || (c == '"' && e == seq!['"']),
    ensures
        ({ let t = seq!['\''] + e + seq!['\''];
           &&& char_val(t, 0) == Some(cp(c))
           &&& whole(g_literal(t)) }),
{
    let t = seq!['\''] + e + seq!['\''];
    char_is_scalar(c);
    assert(t[0] == '\'' && t.last() == '\'');
    assert(string_lit(t).is_none() && byte_string_lit(t).is_none() && c_string_lit(t).is_none() && byte_lit(t).is_none());
    let q = seq!['\''];
    assert(q.skip(1).len() == 0);
    assert(whole(close_quote(q)));
    if e.len() == 1 {
        assert(t.skip(1).skip(1) =~= q);
        assert(t[1] == e[0] && t.skip(1)[0] == e[0]);
        if exists|h: Seq<char>| all_hex(h) && 1 <= h.len() <= 6 && hex_fold(h, 0) == cp(c) && e == #[trigger] u_text(h) {
            let h = choose|h: Seq<char>| all_hex(h) && 1 <= h.len() <= 6 && hex_fold(h, 0) == cp(c) && e == #[trigger] u_text(h);
            assert(u_text(h).len() >= 4);
        }
    } else if e.len() == 2 && !(exists|h: Seq<char>| e == #[trigger] u_text(h)) {
        assert(t.skip(1).skip(2) =~= q);
        assert(t.skip(2).skip(1) =~= q);
        assert(t[1] == '\\' && t[2] == e[1] && t.skip(1)[1] == e[1] && t.skip(2)[0] == e[1] && t.skip(1)[0] == '\\');
    } else {
        let h = choose|h: Seq<char>| all_hex(h) && 1 <= h.len() <= 6 && hex_fold(h, 0) == cp(c) && e == #[trigger] u_text(h);
        assert(t[1] == '\\' && t.skip(1)[0] == '\\' && t.skip(1)[1] == 'u' && t.skip(2)[0] == 'u');
        assert(t.skip(1).skip(2).skip(1) =~= h + (seq!['}'] + q));
        assert(t.skip(2).skip(1) =~= t.skip(1).skip(2));
        lemma_u_read(h, q, 0, 0);
        assert(t.skip(1).skip(2)[0] == '{');
        assert(u_esc(t.skip(1).skip(2)) == Some((q, cp(c))));
    }
}
/// one byte, escaped: b'..' takes what b".." takes, but for the quotes
pub open spec fn byte_one(e: Seq<char>, v: int) -> bool {
    (e.len() == 1 && e[0] != '\\' && e[0] != '\'' && e[0] != '\n' && e[0] != '\r' && e[0] != '\t' && cp(e[0]) < 0x80 && cp(e[0]) == v)
    || (e.len() == 2 && e[0] == '\\' && (simple_esc(e[1]) || e[1] == '0') && simple_val(e[1]) == v)
    || (e.len() == 4 && e[0] == '\\' && e[1] == 'x' && is_hex(e[2]) && is_hex(e[3]) && hexv(e[2]) * 16 + hexv(e[3]) == v)
}
pub proof fn lemma_byte_lit(e: Seq<char>, v: int)
    requires byte_one(e, v),
    ensures
        ({ let t = seq!['b', '\''] + e + seq!['\''];
           &&& char_val(t, 1) == Some(v)
           &&& whole(g_literal(t)) }),
{
    let t = seq!['b', '\''] + e + seq!['\''];
    let q = seq!['\''];
    assert(q.skip(1).len() == 0);
    assert(whole(close_quote(q)));
    assert(t[0] == 'b' && t[1] == '\'' && t.last() == '\'');
    assert(string_lit(t).is_none() && byte_string_lit(t).is_none() && c_string_lit(t).is_none());
    assert(t.skip(1).last() == '\'');
    assert(t.skip(2)[0] == e[0] && t.skip(1)[1] == e[0] && t.skip(1)[0] == '\'');
    if e.len() == 1 { assert(t.skip(2).skip(1) =~= q); }
    else if e.len() == 2 {
        assert(t.skip(2)[1] == e[1] && t.skip(1).skip(2)[0] == e[1]);
        assert(t.skip(2).skip(2) =~= q && t.skip(1).skip(2).skip(1) =~= q);
    } else {
        assert(t.skip(2)[1] == 'x' && t.skip(1).skip(2)[0] == 'x');
        assert(t.skip(2).skip(2)[0] == e[2] && t.skip(2).skip(2)[1] == e[3]);
        assert(t.skip(1).skip(2)[1] == e[2] && t.skip(1).skip(2)[2] == e[3]);
        assert(t.skip(1).skip(2).skip(1) =~= t.skip(2).skip(2));
        assert(t.skip(2).skip(4) =~= q && t.skip(1).skip(2).skip(3) =~= q);
    }
}
pub proof fn lemma_hex2(b: u8)
    ensures ({ let h = b.hex2(); h.len() == 2 && is_hex(h[0]) && is_hex(h[1]) && hexv(h[0]) * 16 + hexv(h[1]) == b as int && (h[0] == '0' && h[1] == '0' ==> b == 0) }),
{}
pub open spec fn bytes_v(s: Seq<u8>) -> Seq<int> { s.map(|i: int, x: u8| x as int) }
// ---- UTF-8 as bytes
pub open spec fn valid_utf8(b: Seq<u8>) -> bool { exists|s: Seq<char>| #[trigger] verbatim(s, 2) == bytes_v(b) }
#[verifier::external_body]
pub struct VUtf8Error { x: u8 }
#[verifier::external]
impl core::fmt::Debug for VUtf8Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl VUtf8Error {
    pub uninterp spec fn upto(&self) -> int;
    pub uninterp spec fn bad(&self) -> Option<usize>;
    #[verifier::external_body]
    pub fn v_valid_up_to(&self) -> (r: usize) ensures r == self.upto() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_error_len(&self) -> (r: Option<usize>) ensures r == self.bad() { unimplemented!() }
}
/// str::from_utf8
#[verifier::external_body]
pub fn v_from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, VUtf8Error>)
    ensures match r {
        Ok(s) => verbatim(s@, 2) == bytes_v(b@),
        Err(e) => !valid_utf8(b@) && 0 <= e.upto() < b@.len() && valid_utf8(b@.take(e.upto()))
            && (match e.bad() { Some(n) => 1 <= n && e.upto() + n <= b@.len(), None => true }),
    },
{ unimplemented!() }
/// a C string: bytes without a zero
#[verifier::external_body]
pub struct VCStr { x: u8 }
impl VCStr {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn v_to_bytes<'a>(&'a self) -> (r: &'a [u8])
        ensures r@ == self.bytes(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] != 0,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_no_bytes<'a>() -> (r: &'a [u8]) ensures r@.len() == 0 { b"" }
pub proof fn lemma_verbatim_len(s: Seq<char>)
    ensures verbatim(s, 2).len() == blen(s),
    decreases s.len(),
{ reveal(blen); if s.len() > 0 { lemma_verbatim_len(s.skip(1)); } }
pub proof fn lemma_verbatim_nul(s: Seq<char>, b: Seq<u8>)
    requires verbatim(s, 2) == bytes_v(b), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 0,
    ensures no_nul(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let u = utf8(cp(s[0]));
        assert(verbatim(s, 2)[0] == u[0]);
        assert(bytes_v(b)[0] == b[0] as int);
        assert(s[0] != '\0');
        let k = u.len() as int;
        lemma_verbatim_len(s);
        assert(verbatim(s.skip(1), 2) =~= verbatim(s, 2).skip(k));
        assert(bytes_v(b.skip(k)) =~= bytes_v(b).skip(k));
        lemma_verbatim_nul(s.skip(1), b.skip(k));
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\0' by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    }
}
// ---- for the value accessors
/// NonZeroU8
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VNz { x: u8 }
impl VNz {
    pub uninterp spec fn v(&self) -> u8;
    #[verifier::external_body]
    pub fn new(b: u8) -> (r: Option<VNz>) ensures match r { Some(n) => b != 0 && n.v() == b, None => b == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn v_get(self) -> (r: u8) ensures r == self.v(), r != 0 { unimplemented!() }
}
/// u8 as char, through From
#[verifier::external_body]
pub fn v_byte_char(b: u8) -> (r: char) ensures cp(r) == b { b as char }
pub trait VDigit {
    spec fn dc(&self) -> char;
    fn v_to_digit(&self, radix: u32) -> (r: Option<u32>)
        requires 2 <= radix <= 16,
        ensures match r { Some(d) => is_hex(self.dc()) && d == hexv(self.dc()) && d < radix, None => !is_hex(self.dc()) || hexv(self.dc()) >= radix };
    fn v_encode_utf8(&self) -> (r: String) ensures r@ == seq![self.dc()];
}
impl VDigit for char {
    open spec fn dc(&self) -> char { *self }
    #[verifier::external_body] fn v_to_digit(&self, radix: u32) -> Option<u32> { self.to_digit(radix) }
    #[verifier::external_body] fn v_encode_utf8(&self) -> String { unimplemented!() }
}
/// the bytes of a str, as UTF-8 encodes them
pub trait VUtf { spec fn us(&self) -> Seq<char>; fn v_utf8<'a>(&'a self) -> (r: &'a [u8]) ensures bytes_v(r@) == verbatim(self.us(), 2); }
impl VUtf for str { open spec fn us(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_utf8<'a>(&'a self) -> &'a [u8] { self.as_bytes() } }
impl VUtf for String { open spec fn us(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_utf8<'a>(&'a self) -> &'a [u8] { self.as_bytes() } }
pub trait VOwned { spec fn os(&self) -> Seq<u8>; fn v_to_owned(&self) -> (r: Vec<u8>) ensures r@ == self.os(); }
impl VOwned for [u8] { open spec fn os(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_to_owned(&self) -> Vec<u8> { self.to_owned() } }
pub trait VExt { spec fn xs(&self) -> Seq<u8>; fn v_extend_from_slice(&mut self, o: &[u8]) ensures final(self).xs() == old(self).xs() + o@; }
impl VExt for Vec<u8> { open spec fn xs(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_extend_from_slice(&mut self, o: &[u8]) { self.extend_from_slice(o) } }
// ---- raw strings by their ends
/// `##"..."##` judged by its first and last characters
pub open spec fn raw_shape(s: Seq<char>) -> bool {
    let n = hashes(s);
    s.len() >= 2 * n + 2 && s[n] == '"' && trail(s, '#') == n && s[s.len() - n - 1] == '"'
}
pub open spec fn raw_inside(s: Seq<char>) -> Seq<char> { s.subrange(hashes(s) + 1, s.len() - hashes(s) - 1) }
pub proof fn lemma_lead(s: Seq<char>)
    ensures lead(s, '#') == hashes(s), 0 <= hashes(s) <= s.len(), forall|i: int| 0 <= i < hashes(s) ==> #[trigger] s[i] == '#', hashes(s) < s.len() ==> s[hashes(s)] != '#',
    decreases s.len(),
{
    if s.len() > 0 && s[0] == '#' {
        lemma_lead(s.skip(1));
        assert forall|i: int| 0 <= i < hashes(s) implies #[trigger] s[i] == '#' by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
        if hashes(s) < s.len() { assert(s.skip(1)[hashes(s) - 1] == s[hashes(s)]); }
    }
}
pub proof fn lemma_trail(s: Seq<char>)
    ensures 0 <= trail(s, '#') <= s.len(), forall|i: int| s.len() - trail(s, '#') <= i < s.len() ==> #[trigger] s[i] == '#',
        trail(s, '#') < s.len() ==> s[s.len() - trail(s, '#') - 1] != '#',
    decreases s.len(),
{
    if s.len() > 0 && s.last() == '#' {
        lemma_trail(s.drop_last());
        assert forall|i: int| s.len() - trail(s, '#') <= i < s.len() implies #[trigger] s[i] == '#' by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } }
        if trail(s, '#') < s.len() { assert(s.drop_last()[s.len() - trail(s, '#') - 1] == s[s.len() - trail(s, '#') - 1]); }
    }
}
/// the byte offsets get_raw works with
pub proof fn lemma_raw_ends(s: Seq<char>)
    ensures ({ let n = hashes(s); let m = trail(s, '#'); let z = s.len();
        lead(s, '#') == n && 0 <= n <= z && 0 <= m <= z && at(s, s.skip(n), n) && blen(s) - blen(s.skip(n)) == n
        && blen(s.take(z - m)) == blen(s) - m && at(s, s.skip(z - m), blen(s) - m)
        && (n < z && s[n] == '"' ==> at(s, s.skip(n + 1), n + 1))
        && (m < z && s[z - m - 1] == '"' ==> at(s, s.skip(z - m - 1), blen(s) - m - 1))
        && (blen(s) >= 2 * n + 2 && n < z && s[n] == '"' && m == n && m < z && s[z - m - 1] == '"' ==> raw_shape(s)
            && rest_at(take_b(s, blen(s) - n - 1), n + 1) == raw_inside(s) && n + 1 <= blen(s) - n - 1)
        && (raw_shape(s) ==> blen(s) >= 2 * n + 2) }),
{
    broadcast use vx_text;
    let n = hashes(s); let m = trail(s, '#'); let z = s.len() as int;
    lemma_lead(s); lemma_trail(s);
    lemma_at_skip(s, n);
    assert forall|i: int| 0 <= i < s.take(n).len() implies cp(#[trigger] s.take(n)[i]) < 0x80 by { assert(s.take(n)[i] == s[i]); }
    lemma_ascii_blen(s.take(n));
    lemma_at_skip(s, z - m);
    assert forall|i: int| 0 <= i < s.skip(z - m).len() implies cp(#[trigger] s.skip(z - m)[i]) < 0x80 by { assert(s.skip(z - m)[i] == s[z - m + i]); }
    lemma_ascii_blen(s.skip(z - m));
    if n < z && s[n] == '"' { assert(s.skip(n)[0] == s[n]); lemma_at_step(s, s.skip(n), n); }
    if m < z && s[z - m - 1] == '"' { lemma_at_back(s, s.skip(z - m), blen(s) - m); }
    if n < z && s[n] == '"' && m == n && m < z && s[z - m - 1] == '"' {
        if z < 2 * n + 2 {
            // one quote for both
            if z - m - 1 < n { assert(s[z - m - 1] == '#'); }
            if z - m - 1 > n {}
            assert(z - m - 1 == n);
            assert(blen(s) == blen(s.take(n + 1)) + blen(s.skip(n + 1))) by { lemma_at_skip(s, n + 1); }
        }
        if z >= 2 * n + 2 {
            let b = take_b(s, blen(s) - n - 1);
            assert(b =~= s.take(z - n - 1));
            lemma_at_skip(b, n + 1);
            assert(b.take(n + 1) =~= s.take(n + 1));
            lemma_at_skip(s, n + 1);
            assert(b.skip(n + 1) =~= raw_inside(s));
            lemma_blen_nonneg(b.skip(n + 1));
            lemma_at_skip(s, z - n - 1);
            assert(s.take(z - n - 1) =~= b);
        }
    }
    if raw_shape(s) { lemma_blen_nonneg(s); }
}
pub open spec fn raw_closed(b: Seq<char>, r: Seq<char>, n: int) -> bool {
    sfx(b, r) && b.len() - r.len() >= n + 1 && b[b.len() - r.len() - n - 1] == '"'
    && forall|i: int| b.len() - r.len() - n <= i < b.len() - r.len() ==> #[trigger] b[i] == '#'
}
pub proof fn lemma_raw_closed_more(b: Seq<char>, r: Seq<char>, n: int, k: int)
    requires 0 <= k <= b.len(), raw_closed(b.skip(k), r, n), n >= 0,
    ensures raw_closed(b, r, n),
{
    lemma_sfx_skip(b, k); lemma_sfx_trans(b, b.skip(k), r); lemma_sfx_len(b.skip(k), r);
    let e = b.len() - r.len();
    assert(b.skip(k)[e - k - n - 1] == b[e - n - 1]);
    assert forall|i: int| e - n <= i < e implies #[trigger] b[i] == '#' by { assert(b.skip(k)[i - k] == b[i]); }
}
pub proof fn lemma_raw_body_end(b: Seq<char>, n: int, mode: int)
    requires n >= 0,
    ensures match raw_body(b, n, mode) { Some(r) => raw_body(b, n, 0) == Some(r) && raw_closed(b, r, n), None => true },
    decreases b.len(),
{
    if b.len() > 0 {
        if b[0] == '"' && hashes(b.skip(1)) >= n {
            lemma_lead(b.skip(1));
            lemma_sfx_skip(b, 1 + n);
            assert forall|i: int| 1 <= i < 1 + n implies #[trigger] b[i] == '#' by { assert(b.skip(1)[i - 1] == b[i]); }
            assert(raw_closed(b, b.skip(1 + n), n));
        } else {
            let k: int = if b[0] == '\r' { 2 } else { 1 };
            if k <= b.len() && raw_body(b, n, mode).is_some() {
                lemma_raw_body_end(b.skip(k), n, mode);
                lemma_raw_closed_more(b, raw_body(b, n, mode).unwrap(), n, k);
            }
        }
    }
}
pub proof fn lemma_cont_last(s: Seq<char>)
    requires cont_rest(s).len() == 0, s.len() > 0,
    ensures xid_continue(s.last()),
    decreases s.len(),
{ if s.len() > 1 { lemma_cont_last(s.skip(1)); assert(s.skip(1).last() == s.last()); } }
pub proof fn lemma_suffix_last(s: Seq<char>)
    requires suffix(s).len() == 0, s.len() > 0,
    ensures s.last() != '#', s.last() != '"',
{
    xid_ascii('#'); xid_ascii('"');
    if s.len() > 1 { lemma_cont_last(s.skip(1)); assert(s.skip(1).last() == s.last()); }
}
/// behind the `r` of a raw string literal, judging by the ends is enough
pub proof fn lemma_raw_value(t: Seq<char>, mode: int)
    requires whole(raw_lit(t, mode)),
    ensures match raw_text(t) { Some(x) => raw_shape(t) && raw_inside(t) == x, None => !raw_shape(t) },
{
    broadcast use {vx_text, vx_lex};
    let n = hashes(t);
    let b = t.skip(n + 1);
    lemma_lead(t); lemma_trail(t);
    lemma_raw_body_end(b, n, mode);
    let r = raw_body(b, n, mode).unwrap();
    let z = t.len() as int;
    let m = trail(t, '#');
    assert(t.skip(n)[0] == t[n]);
    lemma_sfx_skip(t, n + 1); lemma_sfx_trans(t, b, r);
    if r.len() == 0 {
        assert(b[b.len() - n - 1] == t[z - n - 1]);
        assert forall|i: int| z - n <= i < z implies #[trigger] t[i] == '#' by { assert(b[i - n - 1] == t[i]); }
        if m < n { assert(t[z - m - 1] == '#'); }
        if m > n { assert(t[z - n - 1] == '#'); }
        assert(raw_inside(t) =~= b.take(b.len() - 1 - n));
    } else {
        lemma_suffix_last(r);
        reveal(sfx);
        assert(r.last() == t.last());
        if m > 0 { assert(t[z - 1] == '#'); }
    }
}
/// which literal a text starting with r, br or cr can be
pub proof fn lemma_raw_kind(s: Seq<char>)
    requires whole(g_literal(s)),
    ensures p1(s, 'r') ==> whole(raw_lit(s.skip(1), 0)),
        p2(s, 'b', 'r') ==> whole(raw_lit(s.skip(2), 1)),
        p2(s, 'c', 'r') ==> whole(raw_lit(s.skip(2), 2)),
{
    assert(base_of(s) == 10 || is_dec(s[0]));
    if p1(s, 'r') || p2(s, 'b', 'r') || p2(s, 'c', 'r') { assert(dg(s, 10, true).is_none()) by { if is_hex(s[0]) && !is_dec(s[0]) { assert(hexv(s[0]) >= 10); } } }
}
pub open spec fn cooked_start(s: Seq<char>, mode: int) -> bool { if mode == 0 { p1(s, '"') } else if mode == 1 { p2(s, 'b', '"') } else { p2(s, 'c', '"') } }
pub open spec fn raw_start(s: Seq<char>, mode: int) -> bool { if mode == 0 { p1(s, 'r') } else if mode == 1 { p2(s, 'b', 'r') } else { p2(s, 'c', 'r') } }
/// the value by the cases the accessors distinguish; `k` characters stand in front of the text
pub proof fn lemma_value_cases(s: Seq<char>, mode: int, k: int)
    requires literal_source(s), 0 <= mode <= 2, k == (if mode == 0 { 1int } else { 2 }),
    ensures
        cooked_start(s, mode) || raw_start(s, mode) ==> at(s, s.skip(k), k) && rest_at(s, k) == s.skip(k) && k <= s.len(),
        cooked_start(s, mode) && s.skip(k).len() > 0 && s.skip(k).last() == '"' ==>
            at(s, rest_at(s, blen(s) - 1), blen(s) - 1) && k <= blen(s) - 1
            && rest_at(take_b(s, blen(s) - 1), k).len() < s.len()
            && lit_val(s, mode) == cooked_val(rest_at(take_b(s, blen(s) - 1), k), mode),
        cooked_start(s, mode) && !(s.skip(k).len() > 0 && s.skip(k).last() == '"') ==> lit_val(s, mode).is_none(),
        raw_start(s, mode) ==> lit_val(s, mode) == (if raw_shape(s.skip(k)) { Some(verbatim(raw_inside(s.skip(k)), mode)) } else { None }),
        !cooked_start(s, mode) && !raw_start(s, mode) ==> lit_val(s, mode).is_none(),
        !(cooked_start(s, mode) && raw_start(s, mode)),
{
    broadcast use vx_text;
    let z = s.len() as int;
    if cooked_start(s, mode) || raw_start(s, mode) {
        lemma_at_skip(s, k);
        assert forall|i: int| 0 <= i < s.take(k).len() implies cp(#[trigger] s.take(k)[i]) < 0x80 by {}
        lemma_ascii_blen(s.take(k));
        if mode != 0 { assert(s.skip(1)[0] == s[1]); assert(s.skip(1).skip(1) =~= s.skip(2)); }
    } else {
        if mode != 0 && s.len() > 1 { assert(s.skip(1)[0] == s[1]); }
    }
    if cooked_start(s, mode) {
        let q = s.skip(k - 1);
        lemma_skip_skip(s, k - 1, 1);
        assert(q =~= (if mode == 0 { s } else { s.skip(1) }));
        if s.skip(k).len() > 0 { assert(s.skip(k).last() == s.last() && q.last() == s.last()); }
        if s.skip(k).len() > 0 && s.last() == '"' {
            lemma_at_skip(s, z - 1);
            lemma_lit_blen1(s.skip(z - 1));
            let b = take_b(s, blen(s) - 1);
            assert(b =~= s.take(z - 1));
            lemma_at_skip(b, k);
            assert(b.take(k) =~= s.take(k));
            assert(b.skip(k) =~= q.subrange(1, q.len() - 1));
            lemma_blen_nonneg(b.skip(k));
        }
    }
    if raw_start(s, mode) {
        lemma_raw_kind(s);
        lemma_raw_value(s.skip(k), mode);
    }
}
} // verus!
