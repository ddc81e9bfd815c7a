"""Which functions each property depends on, and what the notes say.

CONTRACTS / PRELUDE: the contract and prelude files, in order.
CONE[p]: regular expressions over function ids; a failed obligation in a
matching function is a violation of p. (All functions under contract are
verified on every run whatever the property; the cone only says whose failure
is reported under which property.)
"""
CONTRACTS = ["tokens.vc", "fallback.vc", "parse.vc", "spans.vc", "root.vc", "streams.vc", "drop.vc", "rootstreams.vc", "print.vc", "idents.vc", "numbers.vc", "quoted.vc", "values.vc", "wrapper.vc", "nospans.vc"]
PRELUDE = ["core.rs", "lex.rs", "lexlemmas.rs", "spans.rs", "fmt.rs", "literals.rs"]
# C16: the dispatch, both sides opaque (configuration D)
D_CONTRACTS = ["inside.vc"]
D_PRELUDE = ["core.rs", "fmt.rs", "inside.rs"]
# lemmas about the grammar alone and clients of the contracts: (prelude, contracts)
THEOREMS = (["relex.rs"], ["theorems.vc"])

F = r"((fallback|imp)::)?"
CURSOR = [r"parse::Cursor::.*"]
WS = [r"parse::(skip_whitespace|block_comment|is_whitespace|take_until_newline_or_eof)"]
IDENT = [r"parse::(ident|ident_any|ident_not_raw)", r"fallback::is_ident_(start|continue)"]
QUOTED = [r"parse::(string|cooked_string|raw_string|byte_string|cooked_byte_string|delimiter_of_raw_string|raw_byte_string|c_string|raw_c_string|cooked_c_string|byte|character|backslash_.*|trailing_backslash)"]
NUMBER = [r"parse::(float|float_digits|int|digits)"]
LITERAL = QUOTED + NUMBER + [r"parse::(literal|literal_nocapture|literal_suffix|word_break|ident_not_raw)", r"fallback::is_ident_(start|continue)"]
PUNCT = [r"parse::(punct|punct_char)", r"Punct::(new|as_char|spacing)"]
DOC = [r"parse::(doc_comment|doc_comment_contents)", r"fallback::(Literal::string|escape_utf8)", r"(imp::)?Literal::string"]
MAIN = [r"parse::(token_stream|leaf_token|lex_error)"]
BUILD = [r"fallback::TokenStreamBuilder::.*", r"rcvec::RcVecBuilder::(new|with_capacity|push|build)",
         F + r"(Group|Ident|Literal)::(new|_new|_new_fallback|new_unchecked|new_raw_unchecked|delimiter|stream|span|set_span)", r"Span::_new.*", r"TokenTree::(span|set_span)", r"TokenStream::_new",
         r"<TokenTree as From<.*>>::from", r"imp::<(Group|Ident|Literal|Span) as From<.*"]
ENTRY = [F + r"<TokenStream as FromStr>::from_str", r"(fallback|imp)::TokenStream::from_str_checked", r"fallback::get_cursor", r"imp::<(TokenStream|LexError) as From<.*"]
LITENTRY = [F + r"<Literal as FromStr>::from_str", r"(fallback|imp)::Literal::from_str_(un)?checked", r"imp::<(Literal|LexError) as From<.*"]
ERROR = [F + r"LexError::.*"]
SOURCES = [r"fallback::(SOURCE_MAP_init|lines_offsets|FileInfo::.*|SourceMap::.*|get_cursor|invalidate_current_thread_spans)", r"(extra|imp)::invalidate_current_thread_spans", r"imp::<Span as From<.*"]
CLONE = [F + r"<(TokenStream|TokenTree|Group|Ident|Literal|Punct|Span|Spacing|Delimiter) as Clone>::clone", r"rcvec::<RcVec as Clone>::clone"]
NUMTY = r"(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f32|f64)"
CONE = {
    # everything that runs while a text is parsed
    "C01": [r"parse::.*", r"fallback::(escape_utf8|Literal::string|is_ident_.*|SOURCE_MAP_init|lines_offsets|SourceMap::(add_file|next_start_pos))"] + ENTRY + LITENTRY + BUILD + ERROR,
    "C02": CURSOR + WS + IDENT + PUNCT + MAIN + BUILD + ENTRY + [r"parse::(literal|literal_nocapture|doc_comment|doc_comment_contents)"],
    "C03": CURSOR + LITERAL + LITENTRY + [r"parse::(leaf_token|ident)", F + r"Literal::_new"],
    "C04": CURSOR + MAIN + BUILD + ENTRY + ERROR,
    "C05": CURSOR + WS + DOC + [r"parse::token_stream"] + BUILD,
    "C06": CURSOR + PUNCT + [r"parse::(leaf_token|ident_any)"],
    "C07": CURSOR + IDENT + [r"fallback::(ident_ok|validate_ident.*)", F + r"Ident::.*", F + r"<Ident as (PartialEq|PartialEq<T>|PartialOrd|Ord|Hash|Display)>::.*"],
    "C08": [F + r"Literal::(string|character|byte_character|byte_string|c_string|_new|_new_fallback)", r"fallback::escape_utf8", F + r"<Literal as Display>::fmt"],
    "C09": [r"get_raw", r"Literal::(str_value|byte_str_value|cstr_value)", r"rustc_literal_escaper::.*", r"num::.*", F + r"<Literal as Display>::fmt"],
    "C10": CURSOR + MAIN + SOURCES + [F + r"Span::(byte_range|start|end|file|source_text|is_call_site|call_site|_new.*)", r"parse::doc_comment"] + ENTRY + LITENTRY,
    "C11": [F + r"Span::(join|first_byte|last_byte|eq|resolved_at|located_at|mixed_site|def_site|call_site|is_call_site)", F + r"<Span as PartialEq>::eq", F + r"Group::(span.*|set_span|delim_span|new)", F + r"(Ident|Literal|Punct|TokenTree)::(span|set_span)",
            F + r"Literal::subspan", r"extra::DelimSpan::.*", r"location::.*", r"fallback::(FileInfo::span_within|SourceMap::.*)"],
    "C12": [r"rcvec::.*", F + r"TokenStream::(new|is_empty|take_inner|_new|unwrap_stable)", r"imp::<(TokenTreeIter|Group) as .*", F + r"<TokenStream as (Default|From|Extend|FromIterator|IntoIterator).*", r"fallback::(push_negative_literal|push_token_from_proc_macro|TokenStreamBuilder::.*)",
            r"token_stream::.*", F + r"Group::(new|stream|delimiter|_new.*)", r"<TokenTree as From<.*>>::from"] + CLONE,
    "C13": [F + r"<(TokenStream|Group|Ident|Punct|Literal|TokenTree) as Display>::fmt", r"rcvec::RcVec::iter"],
    "C14": [F + r"Literal::" + NUMTY + r"_(un)?suffixed", F + r"Literal::_new.*", F + r"<Literal as Display>::fmt"],
}
CONE["C15"] = [r"fallback::<TokenStream as Drop>::drop", r"rcvec::(RcVec::get_mut|RcVecMut::take|<RcVecBuilder as IntoIterator>::into_iter|<RcVecIntoIter as Iterator>::next)"]
# functions that must not be recursive
NO_RECURSION = {"C15": CONE["C01"] + [r"rcvec::.*", r"fallback::<TokenStream as (Drop|IntoIterator)>::.*", F + r"TokenStream::.*"]}
# the functions under contract in configuration D: all of them
CONE["C16"] = [r".*"]
NA = {}
NOTES = {
    "*": {"assumptions": [
        "Verus and Z3 are sound; rustc's macro expansion is what the compiler compiles",
        "the extraction rules of tools/vx (DESIGN.md) preserve meaning",
        "contracts assumed on std (listed in trusted_base) describe std",
        "unicode-ident computes XID_Start/XID_Continue",
    ]},
}

T = ["contracts/*.vc of the functions in the cone"]
PROVED = {
    "C01": "Proved for all texts below the stated 4 GiB: termination measures, no panic, slices on character boundaries, no overflow, in every function that runs during parsing.",
    "C02": "Proved for all texts: from_str returns exactly the token sequence of the recursive grammar lex_source, whose tokens carry the text they were read from.",
    "C03": "Proved for all texts: every literal scanner accepts and ends exactly as the grammar g_literal; stand-alone literals against literal_source.",
    "C04": "Proved for all texts: grouping, extent and error position of token_stream against the grammar's explicit nesting.",
    "C05": "Proved for all texts: skip_whitespace/block_comment/doc_comment against skip_ws/doc; the doc attribute's string literal denotes the comment's text.",
    "C06": "Proved for all texts and characters: punct, punct_char, Punct::new and accessors.",
    "C07": "Proved for all strings and pairs of identifiers: lexer, constructors (panic exactly on invalid names), equality, order, hash and display; what the constructors accept is read back when printed (theorem t07_ident).",
    "C08": "Proved for all values: the constructed text is exactly one literal of its kind and denotes the value; printed among any tokens that came from texts it is read back as that literal (theorem t08_constructed).",
    "C09": "Proved for all literals below 0x7ffffff0 characters: the accessors return lit_val of the text or an error. CRLF in cooked literals is refused by the code: known finding.",
    "C10": "Proved for all histories of parses and queries below 4 GiB: the source map invariant and every query relative to it; every token of a parse lies in order at its own place in the text, whose source_text is its spelling or the doc comment it stands for (theorems t10_parse, t10_source_text).",
    "C11": "Proved for all spans, groups, literals and ranges. subspan counts characters: known finding.",
    "C12": "Proved for all sequences: every stream operation against concatenation of token sequences; sharing through the contracts of Rc.",
    "C13": "Proved for all streams (printed form is show) and all texts: what a parse gave, printed and parsed again, is the same apart from spans and never refused (theorem t13_round_trip over the contracts).",
    "C15": "Proved for all texts and all streams: no function that runs while a text is parsed is recursive (the verifier refuses recursion without a measure, and none is given), and dropping a stream hands to the drop glue only leaves, and groups whose content is held elsewhere or without groups (drop elaborated by vx), so the depth is constant. The verifier has no model of stack bytes: constant depth is what is proved.",
    "C16": "Proved for all values, spans, streams and histories of force/unforce, every function of wrapper.rs, detection.rs and the FromStr2 and From code between the two sides, with both sides opaque: which operation of which side is carried out on what, where a mixture panics and that nothing else does, and that tokens appended to a compiler-backed stream keep their order (configuration D, DESIGN.md 3).",
    "C14": "Proved for all values; float text reads back as the float by the assumed contract of std's Display.",
}
BOUNDED = {
    "C14": ["decimal text of a float reads back as that float (std, assumed)"],
}
ASSUMED = {
    "C16": ["proc_macro::is_available() gives the same answer whenever asked in the process",
            "the compiler's TokenStream is a sequence of pieces: extend, from and collect append, is_empty says whether there are any, and into_iter gives what was appended",
            "interleavings of WORKS and INIT: whoever reads WORKS finds 0 or a value some thread of the process stored (rely), and every store is of an agreed value (guarantee, proved); Once runs its closure",
            "the source verified is that of the nightly toolchain with proc_macro_span; the arms for older compilers (no_is_available, not(proc_macro_span)) are run by the search only where the stable toolchain compiles them"],
}
for p in CONE:
    NOTES[p] = {"level": "proof", "assumptions": ASSUMED.get(p, []), "bounded": BOUNDED.get(p, []),
                "note": PROVED[p] + " Obligations are generated from /repo's current source on every run and discharged by Verus/Z3; contracts on std, unicode-ident and the extraction rules are trusted (DESIGN.md 3, 5)." + (" Bounded only: " + "; ".join(BOUNDED[p]) + "." if p in BOUNDED else "")}
