#!/usr/bin/env python3
"""Writes properties.jsonl (the single place the texts live)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Parsing is total: every text yields a result, never a panic or a hang",
  "Parsing any text as a token stream, or as a single literal, terminates and returns either a value or a lex error. It never panics, never reads outside the text or inside a character, and never overflows its position counters as long as the text parsed on the thread stays below 4 GiB.",
  ["inputs"],"every string, including malformed, truncated and non-ASCII ones",
  "The tests feed a few hundred hand-written snippets; byte/character boundary mistakes and missing end-of-text handling only show on particular malformed inputs out of an infinite set.",
  ["src/parse.rs","src/fallback.rs","src/lib.rs"],
  [("cursor arithmetic","src/parse.rs: Cursor::advance and every slice of the text"),("termination of every scanning loop","src/parse.rs")],
  ["<TokenStream as FromStr>::from_str","<Literal as FromStr>::from_str"])
p("C02","Parsed tokens spell the source: nothing lost, added or reordered",
  "When a text parses, its tokens in order spell exactly the text with whitespace and comments left out: each identifier and literal carries the exact characters of the stretch it was read from, each punctuation token its one character, and each group the matching pair of delimiters around its content. Nothing is dropped, duplicated, merged or reordered, and doc comments are the only tokens that are not verbatim text.",
  ["inputs"],"every text that parses",
  "Tests compare a handful of snippets with expected token counts or printed forms; losing or altering a character on some other input passes them.",
  ["src/parse.rs","src/fallback.rs"],
  [("main loop","src/parse.rs: token_stream, leaf_token"),("text taken by byte ranges","src/parse.rs: literal, ident_any")],
  ["TokenStream::into_iter","Ident/Literal/Punct Display","Group::stream"])
p("C03","Literals are recognised exactly, with the right extent",
  "A text is taken as a literal exactly when it follows Rust's literal grammar (string, raw string, byte string, C string, byte, character, float, integer, each with escapes, digit rules and optional suffix; a character or byte literal without escape may hold any one character, ASCII for a byte), and the literal extends over exactly the characters that grammar gives it. The same decision is made whether the literal is read within a token stream or on its own, where one leading minus sign in front of a number is also allowed and nothing may follow.",
  ["inputs"],"every text at every position of a source",
  "Lexical grammars have unboundedly many corner cases (escape value ranges, digit separators, exponent and suffix interplay, hash counts, carriage returns); tests list a few dozen good and bad examples.",
  ["src/parse.rs","src/fallback.rs"],
  [("literal lexers","src/parse.rs: string .. digits, backslash_x, backslash_u, trailing_backslash"),("stand-alone literals","src/fallback.rs: Literal::from_str_checked")],
  ["<Literal as FromStr>::from_str","<TokenStream as FromStr>::from_str"])
p("C04","Delimiters decide grouping and whether a text is balanced",
  "A text whose tokens are all valid parses exactly when its round, square and curly delimiters are balanced and properly nested, and the resulting groups mirror that nesting with the right delimiter, content and extent. Otherwise the error points at the place that is wrong: the unexpected closing delimiter, the character that starts no token, or the innermost opening delimiter left open at the end.",
  ["inputs"],"every text, any nesting depth",
  "Tests check shallow nestings and a few error positions; correctness of the stack discipline is a statement over all nestings.",
  ["src/parse.rs","src/fallback.rs"],
  [("explicit stack of open groups","src/parse.rs: token_stream")],
  ["Group::delimiter/stream/span","LexError::span"])
p("C05","Whitespace and comments vanish; doc comments become doc attributes",
  "Whitespace, line comments and (nested) block comments separate tokens and leave no other trace. A doc comment, and nothing else, becomes the attribute tokens for its style, outer or inner, whose string literal denotes exactly the comment's text, and every one of those tokens is located at the whole comment.",
  ["inputs"],"every text containing comments or whitespace, in any position and nesting",
  "Comment forms interact with line endings, slashes and stars in many ways (`/**/`, `/***/`, `////`, bare carriage returns, nesting); tests fix about a dozen.",
  ["src/parse.rs","src/fallback.rs"],
  [("whitespace skipping","src/parse.rs: skip_whitespace, block_comment"),("doc comments","src/parse.rs: doc_comment, doc_comment_contents"),("quoting of the text","src/fallback.rs: Literal::string")],
  ["TokenStream::into_iter"])
p("C06","Punctuation: one character each, joint exactly when adjacent",
  "Each punctuation character of Rust becomes one token; it is joint exactly when the next character starts another punctuation token, or when it is the quote of a lifetime, which is always glued to the identifier behind it. Punctuation tokens can only be built from those characters, and keep the character and spacing they were built with.",
  ["inputs"],"every text and every (character, spacing) pair",
  "Tests look at a few operators and lifetimes; adjacency with comments, quotes, raw identifiers and end of text is a case analysis over all contexts.",
  ["src/parse.rs","src/lib.rs"],
  [("punctuation lexer","src/parse.rs: punct, punct_char"),("constructor validation","src/lib.rs: Punct::new")],
  ["Punct::new","Punct::as_char","Punct::spacing"])
p("C07","Identifiers: exactly the valid names, compared by spelling",
  "Identifiers are accepted, by the parser and by the constructors alike, exactly when they are an underscore or XID_Start character followed by XID_Continue characters, with the raw form refused for the five words that cannot be raw; everything else makes a constructor panic. Equality, ordering and hashing of identifiers, and comparison with strings, agree with the printed spelling, raw prefix included, and ignore location.",
  ["inputs"],"every string and every pair of identifiers",
  "The valid names are an unbounded set and comparison is a relation over pairs; tests try a few names.",
  ["src/parse.rs","src/fallback.rs","src/lib.rs"],
  [("lexing","src/parse.rs: ident, ident_any, ident_not_raw"),("validation","src/fallback.rs: validate_ident, validate_ident_raw"),("comparison","src/fallback.rs and src/lib.rs: PartialEq, Ord, Hash for Ident")],
  ["Ident::new","Ident::new_raw","Ident ==, cmp, hash, Display"])
p("C08","Literals built from strings, characters and bytes denote that value",
  "The literal built from any string, character, byte, byte string or C string is one well-formed Rust literal of that kind and denotes exactly the given value, byte for byte. It stays so when placed in a token stream, printed and parsed again.",
  ["inputs"],"every value",
  "Escaping has value- and neighbour-dependent cases (NUL before a digit, quotes, non-printable, invalid UTF-8 between valid parts); tests check about twenty values.",
  ["src/fallback.rs"],
  [("escaping","src/fallback.rs: Literal::string, character, byte_character, byte_string, c_string, escape_utf8")],
  ["Literal::string","Literal::character","Literal::byte_character","Literal::byte_string","Literal::c_string"])
p("C09","Literal value accessors decode exactly what the literal denotes",
  "For a string, byte-string or C-string literal without suffix, cooked or raw, the value accessor of its kind returns exactly the value the literal denotes under Rust's escape rules, and reading back a literal built from a value returns that value. For every other literal the accessor reports an error and never a wrong value.",
  ["inputs"],"every literal",
  "Decoding covers all escapes, line continuations, raw hashes and every other literal kind as a refusal; tests decode a handful.",
  ["src/lib.rs","src/rustc_literal_escaper.rs"],
  [("accessors","src/lib.rs: Literal::str_value, cstr_value, byte_str_value, get_raw"),("unescaping","src/rustc_literal_escaper.rs")],
  ["Literal::str_value","Literal::byte_str_value","Literal::cstr_value"])
p("C10","Spans locate tokens: text, byte range, line and column",
  "The span of every parsed token names the stretch of its own source text that the token was read from: source text, byte range, and start and end line and column (characters, lines from 1) all agree with that stretch. This holds for every text parsed on the thread no matter how many others were parsed before or after and in which order spans are queried, until spans are explicitly invalidated, after which newly parsed texts are located correctly.",
  ["inputs","histories"],"every sequence of parses and span queries on one thread",
  "The lookup goes through a shared table of files and a lazily filled cache, so the answer depends on the history of parses and queries; tests exercise few short histories.",
  ["src/fallback.rs","src/lib.rs","src/parse.rs"],
  [("source map","src/fallback.rs: SourceMap, FileInfo, lines_offsets"),("character to byte cache","src/fallback.rs: FileInfo::byte"),("positions set by the parser","src/parse.rs: token_stream")],
  ["Span::source_text","Span::byte_range","Span::start","Span::end","Span::file"],
  [("source map","files parsed on this thread, in disjoint position ranges","src/fallback.rs: SOURCE_MAP")])
p("C11","Span arithmetic: join, open and close, subspan, set and get",
  "Joining two spans of one text gives the smallest span covering both and spans of different texts do not join; a group's open and close spans cover exactly its first and last character; a literal's subspan is the requested part of the literal or nothing when that is not within it. Setting a token's span changes its location and nothing else, and reading it back gives what was set.",
  ["inputs"],"every pair of spans, every group, every literal and range, including inverted and huge ranges",
  "Ranges, bounds kinds and relative positions multiply; tests check a few.",
  ["src/fallback.rs","src/lib.rs","src/extra.rs","src/location.rs"],
  [("join","src/fallback.rs: Span::join"),("delimiter spans","src/fallback.rs: first_byte, last_byte; src/extra.rs: DelimSpan"),("subspan","src/fallback.rs: Literal::subspan")],
  ["Span::join","Group::span_open/span_close","DelimSpan","Literal::subspan","set_span"])
p("C12","Token streams behave as persistent sequences of tokens",
  "Building, extending, collecting, concatenating and iterating token streams behave as the same operations on plain sequences of token trees, with one documented exception: a negative number literal put into a stream by a caller becomes a minus sign followed by the positive literal. Clones are independent: no operation on a stream, or on a group's content, is visible through any other stream that shares storage with it.",
  ["inputs","histories"],"every sequence of stream operations, with arbitrary sharing between streams",
  "Storage is shared and copied on write, so a mistake needs a particular history of clones and edits to show; tests cover few.",
  ["src/fallback.rs","src/rcvec.rs","src/lib.rs"],
  [("copy on write","src/rcvec.rs"),("stream operations","src/fallback.rs: From, FromIterator, Extend, IntoIterator, take_inner, push_token_from_proc_macro")],
  ["TokenStream::new/from/extend/collect/into_iter/clone/is_empty","Group::new/stream"])
p("C13","Printing spells the tokens, and printed parses come back the same",
  "Printing a token stream writes each token's exact spelling in order, with a space between neighbours except behind joint punctuation, and with the delimiters around each group's content. Printing a stream that came from parsing and parsing it again gives the same tokens.",
  ["inputs"],"every token stream; for the round trip, every parsed text",
  "Whether glued or separated spellings read back as the same tokens depends on every pair of neighbouring tokens; tests print a few snippets.",
  ["src/fallback.rs","src/lib.rs"],
  [("Display","src/fallback.rs: Display for TokenStream, Group, Ident, Literal; src/lib.rs: Display for Punct, TokenTree")],
  ["TokenStream::to_string","TokenTree::to_string"])
p("C14","Number literals are written with the exact value and type given",
  "The literal built from an integer spells its decimal value, followed by the type name when suffixed and nothing otherwise. The literal built from a finite float spells a decimal that reads back as exactly that float, with a type suffix when suffixed and always as a float literal otherwise, and non-finite floats are refused by a panic.",
  ["inputs"],"every value of every numeric type",
  "The value space is astronomically large; tests use a few values per type.",
  ["src/fallback.rs","src/lib.rs"],
  [("constructors","src/fallback.rs: suffixed_numbers!, unsuffixed_numbers!, f32_unsuffixed, f64_unsuffixed; src/lib.rs: is_finite checks")],
  ["Literal::u8_suffixed .. Literal::f64_unsuffixed"])
p("C15","Deeply nested streams are parsed, shared and dropped in bounded stack",
  "Parsing a text with arbitrarily deep delimiter nesting, and dropping the resulting stream, uses a bounded amount of call stack, whatever other streams share parts of it.",
  ["inputs","histories"],"every nesting depth and sharing pattern",
  "Tests nest to one fixed depth.",
  ["src/fallback.rs","src/parse.rs"],
  [("explicit stack","src/fallback.rs: Drop for TokenStream; src/parse.rs: token_stream")],
  ["drop(TokenStream)"])
p("C16","Inside a macro the compiler's tokens are used faithfully, and the two kinds never mix",
  "Inside a procedural macro every constructor and parse gives the compiler's own value, the one proc_macro gives for the same arguments, unless fallback::force() is in effect; when forced, and outside of a macro, it gives the fallback's. A value keeps its kind: accessors, span methods, printing, set_span and stream operations on a compiler-backed value do what the same operation of proc_macro does, and tokens appended to a compiler-backed stream come back complete and in order. Combining the two kinds (resolved_at, located_at, set_span, comparing identifiers, putting a fallback token into a compiler-backed stream, concatenating streams) panics, and joining spans of different kinds gives nothing. Text the fallback lexer refuses is an error and is never handed to the compiler.",
  ["inputs","histories","schedules"],"every value, span, text and history of stream operations and of force/unforce, every interleaving of first uses",
  "The compiler-backed half only runs inside a macro expansion, where the test suite does not run at all; every operation exists twice and each arm can go to the wrong side or drop tokens that are still held back.",
  ["src/detection.rs","src/wrapper.rs","src/extra.rs"],
  [("detection","src/detection.rs"),("dispatch and deferred appends","src/wrapper.rs"),("parsing for the compiler","src/fallback.rs: FromStr2"),("delimiter spans","src/extra.rs: DelimSpan")],
  ["every public operation inside a procedural macro","proc_macro2::fallback::force/unforce"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
