#mod fallback
#raw fallback quoted
/// `repr` begins with the mark of its kind and a quote, and what follows stands for `v` so far
pub open spec fn so_far(repr: Seq<char>, v: Seq<int>, mode: int) -> bool {
    let k = kind_mark(mode).len() + 1;
    repr.len() >= k && repr.take(k as int) == kind_mark(mode) + seq!['"'] && den(repr.skip(k as int), v, mode)
}
pub proof fn lemma_more(r: Seq<char>, v: Seq<int>, e: Seq<char>, w: Seq<int>, mode: int)
    requires so_far(r, v, mode), den(e, w, mode),
    ensures so_far(r + e, v + w, mode),
{
    let k = kind_mark(mode).len() as int + 1;
    lemma_den_cat(r.skip(k), v, e, w, mode);
    assert((r + e).skip(k) =~= r.skip(k) + e);
    assert((r + e).take(k) =~= r.take(k));
}
pub proof fn lemma_first(r: Seq<char>, mode: int)
    requires r == kind_mark(mode) + seq!['"'],
    ensures so_far(r, Seq::<int>::empty(), mode),
{
    let k = kind_mark(mode).len() as int + 1;
    lemma_den_empty(mode);
    assert(r.skip(k) =~= Seq::<char>::empty());
    assert(r.take(k) =~= r);
}
/// with the closing quote it is a literal that denotes `v`
pub proof fn lemma_closed(r: Seq<char>, v: Seq<int>, mode: int)
    requires so_far(r, v, mode), 0 <= mode <= 2,
    ensures lit_val(r.push('"'), mode) == Some(v), whole(g_literal(r.push('"'))),
{
    let k = kind_mark(mode).len() as int + 1;
    let a = r.skip(k);
    lemma_quoted_lit(a, v, mode);
    assert(r =~= r.take(k) + a);
    assert(r.push('"') =~= kind_mark(mode) + (seq!['"'] + a + seq!['"']));
}
/// how one byte may be written between double quotes
pub proof fn lemma_byte_den(e: Seq<char>, b: u8)
    requires byte_one(e, b as int) && e != seq!['"'] || e == seq!['\''] && b == 39,
    ensures den(e, seq![b as int], 1),
{
    if e.len() == 1 { assert(e =~= seq![e[0]]); lemma_den_plain(e[0], 1); }
    else if e.len() == 2 { assert(e =~= seq!['\\', e[1]]); lemma_den_simple(e[1], 1); }
    else { assert(e =~= seq!['\\', 'x', e[2], e[3]]); lemma_den_x(e[2], e[3], 1); }
}
/// the bytes given as `\xHH`
pub open spec fn hex_all(b: Seq<u8>) -> Seq<char>
    decreases b.len(),
{ if b.len() == 0 { Seq::<char>::empty() } else { seq!['\\', 'x'] + b[0].hex2() + hex_all(b.skip(1)) } }
pub open spec fn nonzero(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 0 }
pub proof fn lemma_cstr_valid(all: Seq<u8>, n: int, b0: Seq<u8>, g: Seq<char>, valid: Seq<char>)
    requires 0 <= n <= all.len(), b0 == all.skip(n), so_far(g, bytes_v(all.take(n)), 2), nonzero(all),
        blen(valid) <= b0.len(), verbatim(valid, 2) == bytes_v(b0.take(blen(valid) as int)),
    ensures so_far(g + esc_str(valid), bytes_v(all.take(n + blen(valid))), 2),
{
    let k = blen(valid) as int;
    assert forall|i: int| 0 <= i < k implies #[trigger] b0.take(k)[i] != 0 by { assert(b0[i] == all[n + i]); }
    lemma_verbatim_nul(valid, b0.take(k));
    lemma_den_esc(valid, 2);
    lemma_more(g, bytes_v(all.take(n)), esc_str(valid), verbatim(valid, 2), 2);
    assert(bytes_v(all.take(n + k)) =~= bytes_v(all.take(n)) + bytes_v(b0.take(k)));
}
pub proof fn lemma_cstr_byte(all: Seq<u8>, m: int, g: Seq<char>)
    requires 0 <= m < all.len(), so_far(g, bytes_v(all.take(m)), 2), nonzero(all),
    ensures so_far(g + seq!['\\', 'x'] + all[m].hex2(), bytes_v(all.take(m + 1)), 2),
{
    let b = all[m];
    lemma_hex2(b);
    assert(bytes_v(all.take(m + 1)) =~= bytes_v(all.take(m)) + seq![b as int]);
    lemma_den_x(b.hex2()[0], b.hex2()[1], 2);
    let e = seq!['\\', 'x'] + b.hex2();
    assert(e =~= seq!['\\', 'x', b.hex2()[0], b.hex2()[1]]);
    lemma_more(g, bytes_v(all.take(m)), e, seq![b as int], 2);
    assert(g + seq!['\\', 'x'] + b.hex2() =~= g + e);
}
#fn fallback::Literal::character
#ret r
#spec
    ensures char_val(r.repr@, 0) == Some(cp($0)), whole(g_literal(r.repr@)), fsp(r.span) == (0int, 0int),
#entry
    proof {
        esc_debug_shape($0);
        lemma_char_lit(esc_debug($0), $0);
        if $0 == '"' { lemma_char_lit(seq!['"'], $0); }
        let e = Seq::<char>::empty();
        assert(e.push('\'').push($0).push('\'') =~= seq!['\''] + seq![$0] + seq!['\'']);
        assert((e.push('\'') + esc_debug($0)).push('\'') =~= seq!['\''] + esc_debug($0) + seq!['\'']);
    }
#fn fallback::Literal::byte_character
#ret r
#spec
    ensures char_val(r.repr@, 1) == Some($0 as int), whole(g_literal(r.repr@)), fsp(r.span) == (0int, 0int),
#entry
    proof {
        lemma_hex2($0);
        let p = seq!['b', '\''];
        assert forall|e: Seq<char>| byte_one(e, $0 as int) implies char_val(#[trigger] (p + e).push('\''), 1) == Some($0 as int) && whole(g_literal((p + e).push('\''))) by {
            lemma_byte_lit(e, $0 as int);
            assert((p + e).push('\'') =~= p + e + seq!['\'']);
        }
        let h = $0.hex2();
        assert(p + seq!['\\', 'x'] + h =~= p + (seq!['\\', 'x'] + h));
        assert(byte_one(seq!['\\', 'x'] + h, $0 as int));
        assert(p.push($0 as char) =~= p + seq![$0 as char]);
    }
#fn fallback::Literal::byte_string
#ret r
#spec
    ensures lit_val(r.repr@, 1) == Some(bytes_v($0@)), whole(g_literal(r.repr@)), fsp(r.span) == (0int, 0int),
#entry
    let ghost all = $0@;
#loop 0 before
    proof { assert(repr@ =~= kind_mark(1) + seq!['"']); lemma_first(repr@, 1); assert(bytes_v(all.take(0)) =~= Seq::<int>::empty()); assert(all.skip(0) =~= all); }
#loop 0
    invariant $it.rest().len() <= all.len(), $it.rest() == all.skip(all.len() - $it.rest().len()), so_far(repr@, bytes_v(all.take(all.len() - $it.rest().len())), 1),
    ensures $it.rest().len() == 0,
    decreases $it.rest().len(),
#loop 0 top
    let ghost g = repr@;
    proof {
        if $it.rest().len() > 0 {
            let n = all.len() - $it.rest().len();
            let b = all[n];
            lemma_hex2(b);
            assert(all.skip(n)[0] == b);
            assert(all.skip(n).skip(1) =~= all.skip(n + 1));
            assert(bytes_v(all.take(n + 1)) =~= bytes_v(all.take(n)) + seq![b as int]);
            assert forall|e: Seq<char>| (byte_one(e, b as int) && e != seq!['"'] || e == seq!['\''] && b == 39) implies so_far(#[trigger] (g + e), bytes_v(all.take(n + 1)), 1) by {
                lemma_byte_den(e, b);
                lemma_more(g, bytes_v(all.take(n)), e, seq![b as int], 1);
            }
            assert(g.push(b as char) =~= g + seq![b as char]);
            assert(g + seq!['\\', 'x'] + b.hex2() =~= g + (seq!['\\', 'x'] + b.hex2()));
            assert(byte_one(seq!['\\', 'x'] + b.hex2(), b as int));
            assert(byte_one(seq!['\\', 'x', '0', '0'], 0));
        }
    }
#loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); lemma_closed(repr@, bytes_v(all), 1); }
#fn fallback::Literal::c_string
#ret r
#spec
    ensures lit_val(r.repr@, 2) == Some(bytes_v($0.bytes())), whole(g_literal(r.repr@)), fsp(r.span) == (0int, 0int),
#entry
    hide(so_far); hide(lit_val); hide(g_literal); hide(verbatim); hide(utf8);
    let ghost all = $0.bytes();
#loop 0 before
    proof { assert(repr@ =~= kind_mark(2) + seq!['"']); lemma_first(repr@, 2); assert(bytes_v(all.take(0)) =~= Seq::<int>::empty()); assert(all.skip(0) =~= all); assert(nonzero(all)); }
#loop 0
    invariant bytes@.len() <= all.len(), bytes@ == all.skip(all.len() - bytes@.len()), so_far(repr@, bytes_v(all.take(all.len() - bytes@.len())), 2), nonzero(all),
    decreases bytes@.len(),
#loop 0 top
    let ghost g = repr@;
    let ghost b0 = bytes@;
    let ghost n = all.len() - bytes@.len();
    proof {
        assert forall|s: Seq<char>| (#[trigger] verbatim(s, 2)).len() == blen(s) by { lemma_verbatim_len(s); }
        assert forall|b: Seq<u8>| (#[trigger] bytes_v(b)).len() == b.len() by {}
        assert(b0.take(b0.len() as int) =~= b0);
    }
#loop 1 before
    let ghost k = blen(valid@) as int;
    proof {
        assert(verbatim(valid@, 2) == bytes_v(b0.take(k)));
        lemma_cstr_valid(all, n, b0, g, valid@);
        assert(invalid@ =~= all.subrange(n + k, n + k + invalid@.len()));
        assert(bytes@ =~= all.skip(n + k + invalid@.len()));
        assert(invalid@.skip(0) =~= invalid@);
    }
#loop 1
    invariant $it.rest().len() <= invalid@.len(), $it.rest() == invalid@.skip(invalid@.len() - $it.rest().len()),
        so_far(repr@, bytes_v(all.take(n + k + invalid@.len() - $it.rest().len())), 2),
    ensures $it.rest().len() == 0,
    decreases $it.rest().len(),
#loop 1 top
    proof {
        if $it.rest().len() > 0 {
            let j = invalid@.len() - $it.rest().len();
            assert(invalid@[j] == all[n + k + j]);
            assert(invalid@.skip(j)[0] == invalid@[j]);
            assert(invalid@.skip(j).skip(1) =~= invalid@.skip(j + 1));
            lemma_cstr_byte(all, n + k + j, repr@);
        }
    }
#loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); lemma_closed(repr@, bytes_v(all), 2); }
#end
#mod -
#fn Literal::string
#ret r
#spec
    ensures lit_val(r.inner.fb().repr@, 0) == Some(verbatim($0@, 0)), whole(g_literal(r.inner.fb().repr@)), fsp(r.inner.fb().span) == (0int, 0int),
#entry
    proof { lemma_den_esc($0@, 0); lemma_quoted_lit(esc_str($0@), verbatim($0@, 0), 0); assert(kind_mark(0) + str_repr($0@) =~= str_repr($0@)); }
#fn Literal::character
#ret r
#spec
    ensures char_val(r.inner.fb().repr@, 0) == Some(cp($0)), whole(g_literal(r.inner.fb().repr@)), fsp(r.inner.fb().span) == (0int, 0int),
#fn Literal::byte_character
#ret r
#spec
    ensures char_val(r.inner.fb().repr@, 1) == Some($0 as int), whole(g_literal(r.inner.fb().repr@)), fsp(r.inner.fb().span) == (0int, 0int),
#fn Literal::byte_string
#ret r
#spec
    ensures lit_val(r.inner.fb().repr@, 1) == Some(bytes_v($0@)), whole(g_literal(r.inner.fb().repr@)), fsp(r.inner.fb().span) == (0int, 0int),
#fn Literal::c_string
#ret r
#spec
    ensures lit_val(r.inner.fb().repr@, 2) == Some(bytes_v($0.bytes())), whole(g_literal(r.inner.fb().repr@)), fsp(r.inner.fb().span) == (0int, 0int),
#end
