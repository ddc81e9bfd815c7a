#mod fallback
#fn fallback::Literal::u8_suffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int) + seq!['u', '8'], literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { lemma_int_text($0 as int, seq!['u', '8']); assert(Seq::<char>::empty() + dec_int($0 as int) =~= dec_int($0 as int)); }
#fn fallback::Literal::u8_unsuffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int), literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    proof { lemma_int_text($0 as int, Seq::<char>::empty()); assert(dec_int($0 as int) + Seq::<char>::empty() =~= dec_int($0 as int)); }
#fn fallback::Literal::u16_suffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int) + seq!['u', '1', '6'], literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { lemma_int_text($0 as int, seq!['u', '1', '6']); assert(Seq::<char>::empty() + dec_int($0 as int) =~= dec_int($0 as int)); }
#fn fallback::Literal::u16_unsuffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int), literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    proof { lemma_int_text($0 as int, Seq::<char>::empty()); assert(dec_int($0 as int) + Seq::<char>::empty() =~= dec_int($0 as int)); }
#fn fallback::Literal::u32_suffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int) + seq!['u', '3', '2'], literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { lemma_int_text($0 as int, seq!['u', '3', '2']); assert(Seq::<char>::empty() + dec_int($0 as int) =~= dec_int($0 as int)); }
#fn fallback::Literal::u32_unsuffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int), literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    proof { lemma_int_text($0 as int, Seq::<char>::empty()); assert(dec_int($0 as int) + Seq::<char>::empty() =~= dec_int($0 as int)); }
#fn fallback::Literal::u64_suffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int) + seq!['u', '6', '4'], literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { lemma_int_text($0 as int, seq!['u', '6', '4']); assert(Seq::<char>::empty() + dec_int($0 as int) =~= dec_int($0 as int)); }
#fn fallback::Literal::u64_unsuffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int), literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    proof { lemma_int_text($0 as int, Seq::<char>::empty()); assert(dec_int($0 as int) + Seq::<char>::empty() =~= dec_int($0 as int)); }
#fn fallback::Literal::u128_suffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int) + seq!['u', '1', '2', '8'], literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { lemma_int_text($0 as int, seq!['u', '1', '2', '8']); assert(Seq::<char>::empty() + dec_int($0 as int) =~= dec_int($0 as int)); }
#fn fallback::Literal::u128_unsuffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int), literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    proof { lemma_int_text($0 as int, Seq::<char>::empty()); assert(dec_int($0 as int) + Seq::<char>::empty() =~= dec_int($0 as int)); }
#fn fallback::Literal::usize_suffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int) + seq!['u', 's', 'i', 'z', 'e'], literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { lemma_int_text($0 as int, seq!['u', 's', 'i', 'z', 'e']); assert(Seq::<char>::empty() + dec_int($0 as int) =~= dec_int($0 as int)); }
#fn fallback::Literal::usize_unsuffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int), literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    proof { lemma_int_text($0 as int, Seq::<char>::empty()); assert(dec_int($0 as int) + Seq::<char>::empty() =~= dec_int($0 as int)); }
#fn fallback::Literal::i8_suffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int) + seq!['i', '8'], literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { lemma_int_text($0 as int, seq!['i', '8']); assert(Seq::<char>::empty() + dec_int($0 as int) =~= dec_int($0 as int)); }
#fn fallback::Literal::i8_unsuffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int), literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    proof { lemma_int_text($0 as int, Seq::<char>::empty()); assert(dec_int($0 as int) + Seq::<char>::empty() =~= dec_int($0 as int)); }
#fn fallback::Literal::i16_suffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int) + seq!['i', '1', '6'], literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { lemma_int_text($0 as int, seq!['i', '1', '6']); assert(Seq::<char>::empty() + dec_int($0 as int) =~= dec_int($0 as int)); }
#fn fallback::Literal::i16_unsuffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int), literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    proof { lemma_int_text($0 as int, Seq::<char>::empty()); assert(dec_int($0 as int) + Seq::<char>::empty() =~= dec_int($0 as int)); }
#fn fallback::Literal::i32_suffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int) + seq!['i', '3', '2'], literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { lemma_int_text($0 as int, seq!['i', '3', '2']); assert(Seq::<char>::empty() + dec_int($0 as int) =~= dec_int($0 as int)); }
#fn fallback::Literal::i32_unsuffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int), literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    proof { lemma_int_text($0 as int, Seq::<char>::empty()); assert(dec_int($0 as int) + Seq::<char>::empty() =~= dec_int($0 as int)); }
#fn fallback::Literal::i64_suffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int) + seq!['i', '6', '4'], literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { lemma_int_text($0 as int, seq!['i', '6', '4']); assert(Seq::<char>::empty() + dec_int($0 as int) =~= dec_int($0 as int)); }
#fn fallback::Literal::i64_unsuffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int), literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    proof { lemma_int_text($0 as int, Seq::<char>::empty()); assert(dec_int($0 as int) + Seq::<char>::empty() =~= dec_int($0 as int)); }
#fn fallback::Literal::i128_suffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int) + seq!['i', '1', '2', '8'], literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { lemma_int_text($0 as int, seq!['i', '1', '2', '8']); assert(Seq::<char>::empty() + dec_int($0 as int) =~= dec_int($0 as int)); }
#fn fallback::Literal::i128_unsuffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int), literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    proof { lemma_int_text($0 as int, Seq::<char>::empty()); assert(dec_int($0 as int) + Seq::<char>::empty() =~= dec_int($0 as int)); }
#fn fallback::Literal::isize_suffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int) + seq!['i', 's', 'i', 'z', 'e'], literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { lemma_int_text($0 as int, seq!['i', 's', 'i', 'z', 'e']); assert(Seq::<char>::empty() + dec_int($0 as int) =~= dec_int($0 as int)); }
#fn fallback::Literal::isize_unsuffixed
#ret r
#spec
    ensures r.repr@ == dec_int($0 as int), literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    proof { lemma_int_text($0 as int, Seq::<char>::empty()); assert(dec_int($0 as int) + Seq::<char>::empty() =~= dec_int($0 as int)); }
#fn fallback::Literal::f32_suffixed
#ret r
#spec
    ensures r.repr@ == show_f32($0) + seq!['f', '3', '2'], finite32($0) ==> literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { if finite32($0) { show_f32_shape($0); lemma_float_suffixed(show_f32($0), seq!['f', '3', '2']); } assert(Seq::<char>::empty() + show_f32($0) =~= show_f32($0)); }
#fn fallback::Literal::f32_unsuffixed
#ret r
#spec
    ensures r.repr@ == float_text(show_f32($0)), finite32($0) ==> literal_source(r.repr@) && r.repr@.contains('.'), fsp(r.span) == (0int, 0int),
#entry
    proof { if finite32($0) { show_f32_shape($0); lemma_float_text(show_f32($0)); } }
#fn fallback::Literal::f64_suffixed
#ret r
#spec
    ensures r.repr@ == show_f64($0) + seq!['f', '6', '4'], finite64($0) ==> literal_source(r.repr@), fsp(r.span) == (0int, 0int),
#entry
    broadcast use vx_cat;
    proof { if finite64($0) { show_f64_shape($0); lemma_float_suffixed(show_f64($0), seq!['f', '6', '4']); } assert(Seq::<char>::empty() + show_f64($0) =~= show_f64($0)); }
#fn fallback::Literal::f64_unsuffixed
#ret r
#spec
    ensures r.repr@ == float_text(show_f64($0)), finite64($0) ==> literal_source(r.repr@) && r.repr@.contains('.'), fsp(r.span) == (0int, 0int),
#entry
    proof { if finite64($0) { show_f64_shape($0); lemma_float_text(show_f64($0)); } }
#end
#mod -
#fn Literal::u8_suffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int) + seq!['u', '8'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::u8_unsuffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int), 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::u16_suffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int) + seq!['u', '1', '6'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::u16_unsuffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int), 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::u32_suffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int) + seq!['u', '3', '2'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::u32_unsuffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int), 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::u64_suffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int) + seq!['u', '6', '4'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::u64_unsuffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int), 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::u128_suffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int) + seq!['u', '1', '2', '8'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::u128_unsuffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int), 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::usize_suffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int) + seq!['u', 's', 'i', 'z', 'e'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::usize_unsuffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int), 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::i8_suffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int) + seq!['i', '8'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::i8_unsuffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int), 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::i16_suffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int) + seq!['i', '1', '6'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::i16_unsuffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int), 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::i32_suffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int) + seq!['i', '3', '2'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::i32_unsuffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int), 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::i64_suffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int) + seq!['i', '6', '4'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::i64_unsuffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int), 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::i128_suffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int) + seq!['i', '1', '2', '8'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::i128_unsuffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int), 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::isize_suffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int) + seq!['i', 's', 'i', 'z', 'e'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::isize_unsuffixed
#ret r
#spec
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(dec_int($0 as int), 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::f32_suffixed panic=forbid
#ret r
#spec
    requires finite32($0),
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(show_f32($0) + seq!['f', '3', '2'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::f32_suffixed variant=refuses name=f32_suffixed_p panic=allow
#ret r
#spec
    ensures finite32($0),
#fn Literal::f32_unsuffixed panic=forbid
#ret r
#spec
    requires finite32($0),
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(float_text(show_f32($0)), 0, 0), literal_source(r.inner.fb().repr@), r.inner.fb().repr@.contains('.'),
#fn Literal::f32_unsuffixed variant=refuses name=f32_unsuffixed_p panic=allow
#ret r
#spec
    ensures finite32($0),
#fn Literal::f64_suffixed panic=forbid
#ret r
#spec
    requires finite64($0),
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(show_f64($0) + seq!['f', '6', '4'], 0, 0), literal_source(r.inner.fb().repr@),
#fn Literal::f64_suffixed variant=refuses name=f64_suffixed_p panic=allow
#ret r
#spec
    ensures finite64($0),
#fn Literal::f64_unsuffixed panic=forbid
#ret r
#spec
    requires finite64($0),
    ensures tok(TokenTree::Literal(r)) == Tok::Lit(float_text(show_f64($0)), 0, 0), literal_source(r.inner.fb().repr@), r.inner.fb().repr@.contains('.'),
#fn Literal::f64_unsuffixed variant=refuses name=f64_unsuffixed_p panic=allow
#ret r
#spec
    ensures finite64($0),
#end
