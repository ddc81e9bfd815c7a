// Configuration D: the dispatch between the compiler's token API and the
// fallback (wrapper.rs, detection.rs), nothing left out. Both sides are opaque
// here: what an operation of either gives is an uninterpreted function of its
// arguments, so the contracts say which operation of which side is carried out
// on what. (What the fallback's operations do is configurations A to C.)
verus! {
/// proc_macro::is_available(): a fact about the process
pub uninterp spec fn available() -> bool;
/// fallback::force() is called at some point of the process
pub uninterp spec fn forced() -> bool;
/// a value of this kind (true: the compiler's) may be made
pub open spec fn may(compiler: bool) -> bool { compiler == available() || (!compiler && forced()) }
/// the compiler panicked where it was asked to parse
pub uninterp spec fn compiler_panicked() -> bool;

pub open spec fn is_punct(c: char) -> bool {
    c == '~' || c == '!' || c == '@' || c == '#' || c == '$' || c == '%' || c == '^' || c == '&' || c == '*' || c == '-' || c == '=' || c == '+' || c == '|' || c == ';' || c == ':' || c == ',' || c == '<' || c == '.' || c == '>' || c == '/' || c == '?' || c == '\''
}
#[verifier::external_body]
pub struct VCStr { x: u8 }
/// impl RangeBounds<usize>
#[verifier::external_body]
pub struct VBounds { x: u8 }
// named in the shims shared with the other configurations, not used here
pub uninterp spec fn is_hex(c: char) -> bool;
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub uninterp spec fn digit(n: int) -> char;
pub trait VEqStr { fn v_eq_str(&self, o: &&str) -> (r: bool); }
impl VEqStr for String { #[verifier::external_body] fn v_eq_str(&self, o: &&str) -> (r: bool) ensures r == (self@ == (**o)@) { unimplemented!() } }
pub open spec fn text_of(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub trait VDebug {
    spec fn debugged(&self) -> Seq<char>;
    fn v_debug<S: VSink>(&self, f: &mut S) -> (r: fmt::Result)
        ensures r.is_ok() ==> final(f).out() == old(f).out() + self.debugged(), old(f).sure() ==> r.is_ok(), final(f).sure() == old(f).sure();
}
/// what a formatter got
pub open spec fn prints(a: VFmt, b: VFmt, r: fmt::Result, t: Seq<char>) -> bool { (r.is_ok() ==> b.out() == a.out() + t) && (a.sure() ==> r.is_ok()) && b.sure() == a.sure() }

// ---- the two globals of detection.rs, under any interleaving: whoever writes
// WORKS writes an agreed value, so whoever reads it finds 0 or an agreed value.
pub open spec fn agreed(v: usize) -> bool { v == (if available() { 2usize } else { 1usize }) || (v == 1 && forced()) }
#[verifier::external_body]
pub fn catch_unwind<R, F: FnOnce() -> R>(f: F) -> (r: Result<R, u8>)
    requires f.requires(()),
    ensures match r { Ok(x) => f.ensures((), x), Err(_) => compiler_panicked() },
{ unimplemented!() }
/// Result::unwrap, where a panic is what is meant
pub trait VUnwrap<T> { spec fn good(&self, r: T) -> bool; fn v_unwrap(self) -> (r: T) ensures self.good(r); }
impl<T, E> VUnwrap<T> for Result<T, E> { open spec fn good(&self, r: T) -> bool { *self == Ok::<T, E>(r) } #[verifier::external_body] fn v_unwrap(self) -> T { unimplemented!() } }
pub trait VCollect<T>: Sized { spec fn collected(v: Seq<T>, r: Self) -> bool; }
#[verifier::external_body]
pub fn v_collect<T, C: VCollect<T>>(it: VIt<T>) -> (r: C) ensures C::collected(it.rest(), r) { unimplemented!() }
pub trait VDrain<T> { fn v_drain(&mut self) -> (r: VIt<T>); }

/// the compiler's side
pub mod proc_macro {
use super::*;
#[verifier::external_body]
pub fn is_available() -> (r: bool) ensures r == available() { unimplemented!() }
pub enum Delimiter { Parenthesis, Brace, Bracket, None }
pub enum Spacing { Joint, Alone }
pub enum TokenTree { Group(Group), Ident(Ident), Punct(Punct), Literal(Literal) }
/// what the compiler keeps of a token
#[verifier::external_body]
pub struct Piece { x: u8 }
pub uninterp spec fn piece(t: TokenTree) -> Seq<Piece>;
pub open spec fn pieces(v: Seq<TokenTree>) -> Seq<Piece> decreases v.len() { if v.len() == 0 { Seq::empty() } else { pieces(v.drop_last()) + piece(v.last()) } }
#[verifier::external_body]
pub proof fn axiom_piece(t: TokenTree) ensures piece(t).len() > 0 {}
pub broadcast proof fn lemma_pieces_len(v: Seq<TokenTree>)
    ensures (#[trigger] pieces(v)).len() >= v.len(),
    decreases v.len(),
{ if v.len() > 0 { lemma_pieces_len(v.drop_last()); axiom_piece(v.last()); } }
pub broadcast proof fn lemma_nothing_left(a: Seq<Piece>, v: Seq<TokenTree>)
    ensures v.len() == 0 ==> #[trigger] (a + pieces(v)) == a,
{ if v.len() == 0 { assert(a + pieces(v) =~= a); } }
/// what the compiler gives back of it
pub uninterp spec fn trees(v: Seq<Piece>) -> Seq<TokenTree>;
pub proof fn lemma_pieces(a: Seq<TokenTree>, b: Seq<TokenTree>)
    ensures pieces(a + b) == pieces(a) + pieces(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(pieces(a) + pieces(b) =~= pieces(a)); }
    else { lemma_pieces(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(pieces(a + b) =~= pieces(a) + pieces(b)); }
}
pub open spec fn cat(v: Seq<TokenStream>) -> Seq<Piece> decreases v.len() { if v.len() == 0 { Seq::empty() } else { cat(v.drop_last()) + v.last().all() } }
#[verifier::external_body]
pub struct LexError { x: u8 }
#[verifier::external_body]
pub struct TokenStream { x: u8 }
impl TokenStream {
    /// what it holds; nothing else of it can be seen
    pub uninterp spec fn all(self) -> Seq<Piece>;
    pub uninterp spec fn s_accepts(t: Seq<char>) -> bool;
    pub uninterp spec fn s_parse(t: Seq<char>) -> Seq<Piece>;
    #[verifier::external_body] pub fn new() -> (r: TokenStream) ensures r.all().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn v_is_empty(&self) -> (r: bool) ensures r == (self.all().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn v_extend_trees<I: VIter<TokenTree>>(&mut self, v: I) ensures final(self).all() == old(self).all() + pieces(v.items()) { unimplemented!() }
    #[verifier::external_body] pub fn v_extend_streams<I: VIter<TokenStream>>(&mut self, v: I) ensures final(self).all() == old(self).all() + cat(v.items()) { unimplemented!() }
    #[verifier::external_body] pub fn v_from_tree(t: TokenTree) -> (r: TokenStream) ensures r.all() == piece(t) { unimplemented!() }
    #[verifier::external_body] pub fn v_into_iter(self) -> (r: token_stream::IntoIter) ensures r.rest() == trees(self.all()) { unimplemented!() }
    /// text the compiler may be asked about: what it does with other text cannot be undone
    #[verifier::external_body] pub fn from_str(t: &str) -> (r: Result<TokenStream, LexError>)
        requires fallback::TokenStream::grammatical(t@),
        ensures r.is_ok() == Self::s_accepts(t@), r.is_ok() ==> r->Ok_0.all() == Self::s_parse(t@),
    { unimplemented!() }
    #[verifier::external_body] pub fn from_str_any(t: &str) -> (r: Result<TokenStream, LexError>)
        ensures r.is_ok() == Self::s_accepts(t@), r.is_ok() ==> r->Ok_0.all() == Self::s_parse(t@),
    { unimplemented!() }
}
impl VCollect<TokenTree> for TokenStream { open spec fn collected(v: Seq<TokenTree>, r: TokenStream) -> bool { r.all() == pieces(v) } }
impl VClone for LexError { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
pub mod token_stream {
    use super::*;
    #[verifier::external_body]
    pub struct IntoIter { x: u8 }
    impl IntoIter {
        pub uninterp spec fn rest(self) -> Seq<TokenTree>;
        #[verifier::external_body] pub fn next(&mut self) -> (r: Option<TokenTree>)
            ensures match r { None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(), Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) },
        { unimplemented!() }
        pub uninterp spec fn s_size_hint(self) -> (usize, Option<usize>);
        #[verifier::external_body] pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r == self.s_size_hint() { unimplemented!() }
    }
    impl VClone for IntoIter { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
}
pub struct Punct { pub ch: char, pub spacing: Spacing, pub span: Span }
impl Punct {
    #[verifier::external_body] pub fn new(ch: char, spacing: Spacing) -> (r: Punct) ensures r.ch == ch, r.spacing == spacing { unimplemented!() }
    #[verifier::external_body] pub fn as_char(&self) -> (r: char) ensures r == self.ch, is_punct(r) { unimplemented!() }
    #[verifier::external_body] pub fn spacing(&self) -> (r: Spacing) ensures r == self.spacing { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == self.span { unimplemented!() }
    #[verifier::external_body] pub fn set_span(&mut self, s: Span) ensures *final(self) == (Punct { span: s, ..*old(self) }) { unimplemented!() }
}
impl Literal {
    pub uninterp spec fn s_accepts(t: Seq<char>) -> bool;
    pub uninterp spec fn s_parse(t: Seq<char>) -> Literal;
    #[verifier::external_body] pub fn from_str(t: &str) -> (r: Result<Literal, LexError>)
        requires fallback::Literal::grammatical(t@),
        ensures r.is_ok() == Self::s_accepts(t@), r.is_ok() ==> r->Ok_0 == Self::s_parse(t@),
    { unimplemented!() }
    #[verifier::external_body] pub fn from_str_any(t: &str) -> (r: Result<Literal, LexError>)
        ensures r.is_ok() == Self::s_accepts(t@), r.is_ok() ==> r->Ok_0 == Self::s_parse(t@),
    { unimplemented!() }
}
impl VDrain<TokenTree> for Vec<TokenTree> { #[verifier::external_body] fn v_drain(&mut self) -> (r: VIt<TokenTree>) ensures r.rest() == old(self)@, final(self)@ == Seq::<TokenTree>::empty() { unimplemented!() } }
pub trait VCloneV: Sized { fn v_clone(&self) -> (r: Self); }
impl VCloneV for Vec<TokenTree> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Span { x: u8 }
impl Span {
    pub uninterp spec fn s_call_site() -> Span;
    #[verifier::external_body] pub fn call_site() -> (r: Span) ensures r == Self::s_call_site() { unimplemented!() }
    pub uninterp spec fn s_mixed_site() -> Span;
    #[verifier::external_body] pub fn mixed_site() -> (r: Span) ensures r == Self::s_mixed_site() { unimplemented!() }
    pub uninterp spec fn s_def_site() -> Span;
    #[verifier::external_body] pub fn def_site() -> (r: Span) ensures r == Self::s_def_site() { unimplemented!() }
    pub uninterp spec fn s_resolved_at(self, o: Span) -> Span;
    #[verifier::external_body] pub fn resolved_at(&self, o: Span) -> (r: Span) ensures r == self.s_resolved_at(o) { unimplemented!() }
    pub uninterp spec fn s_located_at(self, o: Span) -> Span;
    #[verifier::external_body] pub fn located_at(&self, o: Span) -> (r: Span) ensures r == self.s_located_at(o) { unimplemented!() }
    pub uninterp spec fn s_join(self, o: Span) -> Option<Span>;
    #[verifier::external_body] pub fn join(&self, o: Span) -> (r: Option<Span>) ensures r == self.s_join(o) { unimplemented!() }
    pub uninterp spec fn s_byte_range(self) -> core::ops::Range<usize>;
    #[verifier::external_body] pub fn byte_range(&self) -> (r: core::ops::Range<usize>) ensures r == self.s_byte_range() { unimplemented!() }
    pub uninterp spec fn s_local_file(self) -> Option<PathBuf>;
    #[verifier::external_body] pub fn local_file(&self) -> (r: Option<PathBuf>) ensures r == self.s_local_file() { unimplemented!() }
    pub uninterp spec fn s_file(self) -> Seq<char>;
    pub uninterp spec fn s_source_text(self) -> Option<Seq<char>>;
    pub uninterp spec fn s_eq(self, o: Span) -> bool;
    #[verifier::external_body] pub fn file(&self) -> (r: String) ensures r@ == self.s_file() { unimplemented!() }
    #[verifier::external_body] pub fn source_text(&self) -> (r: Option<String>) ensures text_of(r) == self.s_source_text() { unimplemented!() }
    #[verifier::external_body] pub fn eq(&self, o: &Span) -> (r: bool) ensures r == self.s_eq(*o) { unimplemented!() }
    pub uninterp spec fn s_start(self) -> Span;
    #[verifier::external_body] pub fn start(&self) -> (r: Span) ensures r == self.s_start() { unimplemented!() }
    pub uninterp spec fn s_end(self) -> Span;
    #[verifier::external_body] pub fn end(&self) -> (r: Span) ensures r == self.s_end() { unimplemented!() }
    pub uninterp spec fn s_line(self) -> usize;
    #[verifier::external_body] pub fn line(&self) -> (r: usize) ensures r == self.s_line() { unimplemented!() }
    pub uninterp spec fn s_column(self) -> usize;
    #[verifier::external_body] pub fn column(&self) -> (r: usize) ensures r == self.s_column() { unimplemented!() }
}
#[verifier::external_body]
pub struct Group { x: u8 }
impl Group {
    pub uninterp spec fn s_new(d: Delimiter, t: TokenStream) -> Group;
    #[verifier::external_body] pub fn new(d: Delimiter, t: TokenStream) -> (r: Group) ensures r == Self::s_new(d, t) { unimplemented!() }
    pub uninterp spec fn s_delimiter(self) -> Delimiter;
    #[verifier::external_body] pub fn delimiter(&self) -> (r: Delimiter) ensures r == self.s_delimiter() { unimplemented!() }
    pub uninterp spec fn s_stream(self) -> TokenStream;
    #[verifier::external_body] pub fn stream(&self) -> (r: TokenStream) ensures r == self.s_stream() { unimplemented!() }
    pub uninterp spec fn s_span(self) -> Span;
    #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == self.s_span() { unimplemented!() }
    pub uninterp spec fn s_span_open(self) -> Span;
    #[verifier::external_body] pub fn span_open(&self) -> (r: Span) ensures r == self.s_span_open() { unimplemented!() }
    pub uninterp spec fn s_span_close(self) -> Span;
    #[verifier::external_body] pub fn span_close(&self) -> (r: Span) ensures r == self.s_span_close() { unimplemented!() }
    pub uninterp spec fn s_set_span(self, s: Span) -> Group;
    #[verifier::external_body] pub fn set_span(&mut self, s: Span) ensures *final(self) == old(self).s_set_span(s) { unimplemented!() }
}
#[verifier::external_body]
pub struct Ident { x: u8 }
impl Ident {
    pub uninterp spec fn s_new(t: Seq<char>, s: Span) -> Ident;
    #[verifier::external_body] pub fn new(t: &str, s: Span) -> (r: Ident) ensures r == Self::s_new(t@, s) { unimplemented!() }
    pub uninterp spec fn s_new_raw(t: Seq<char>, s: Span) -> Ident;
    #[verifier::external_body] pub fn new_raw(t: &str, s: Span) -> (r: Ident) ensures r == Self::s_new_raw(t@, s) { unimplemented!() }
    pub uninterp spec fn s_span(self) -> Span;
    #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == self.s_span() { unimplemented!() }
    pub uninterp spec fn s_set_span(self, s: Span) -> Ident;
    #[verifier::external_body] pub fn set_span(&mut self, s: Span) ensures *final(self) == old(self).s_set_span(s) { unimplemented!() }
}
#[verifier::external_body]
pub struct Literal { x: u8 }
impl Literal {
    pub uninterp spec fn s_u8_suffixed(n: u8) -> Literal;
    #[verifier::external_body] pub fn u8_suffixed(n: u8) -> (r: Literal) ensures r == Self::s_u8_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u16_suffixed(n: u16) -> Literal;
    #[verifier::external_body] pub fn u16_suffixed(n: u16) -> (r: Literal) ensures r == Self::s_u16_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u32_suffixed(n: u32) -> Literal;
    #[verifier::external_body] pub fn u32_suffixed(n: u32) -> (r: Literal) ensures r == Self::s_u32_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u64_suffixed(n: u64) -> Literal;
    #[verifier::external_body] pub fn u64_suffixed(n: u64) -> (r: Literal) ensures r == Self::s_u64_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u128_suffixed(n: u128) -> Literal;
    #[verifier::external_body] pub fn u128_suffixed(n: u128) -> (r: Literal) ensures r == Self::s_u128_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_usize_suffixed(n: usize) -> Literal;
    #[verifier::external_body] pub fn usize_suffixed(n: usize) -> (r: Literal) ensures r == Self::s_usize_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i8_suffixed(n: i8) -> Literal;
    #[verifier::external_body] pub fn i8_suffixed(n: i8) -> (r: Literal) ensures r == Self::s_i8_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i16_suffixed(n: i16) -> Literal;
    #[verifier::external_body] pub fn i16_suffixed(n: i16) -> (r: Literal) ensures r == Self::s_i16_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i32_suffixed(n: i32) -> Literal;
    #[verifier::external_body] pub fn i32_suffixed(n: i32) -> (r: Literal) ensures r == Self::s_i32_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i64_suffixed(n: i64) -> Literal;
    #[verifier::external_body] pub fn i64_suffixed(n: i64) -> (r: Literal) ensures r == Self::s_i64_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i128_suffixed(n: i128) -> Literal;
    #[verifier::external_body] pub fn i128_suffixed(n: i128) -> (r: Literal) ensures r == Self::s_i128_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_isize_suffixed(n: isize) -> Literal;
    #[verifier::external_body] pub fn isize_suffixed(n: isize) -> (r: Literal) ensures r == Self::s_isize_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u8_unsuffixed(n: u8) -> Literal;
    #[verifier::external_body] pub fn u8_unsuffixed(n: u8) -> (r: Literal) ensures r == Self::s_u8_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u16_unsuffixed(n: u16) -> Literal;
    #[verifier::external_body] pub fn u16_unsuffixed(n: u16) -> (r: Literal) ensures r == Self::s_u16_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u32_unsuffixed(n: u32) -> Literal;
    #[verifier::external_body] pub fn u32_unsuffixed(n: u32) -> (r: Literal) ensures r == Self::s_u32_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u64_unsuffixed(n: u64) -> Literal;
    #[verifier::external_body] pub fn u64_unsuffixed(n: u64) -> (r: Literal) ensures r == Self::s_u64_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u128_unsuffixed(n: u128) -> Literal;
    #[verifier::external_body] pub fn u128_unsuffixed(n: u128) -> (r: Literal) ensures r == Self::s_u128_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_usize_unsuffixed(n: usize) -> Literal;
    #[verifier::external_body] pub fn usize_unsuffixed(n: usize) -> (r: Literal) ensures r == Self::s_usize_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i8_unsuffixed(n: i8) -> Literal;
    #[verifier::external_body] pub fn i8_unsuffixed(n: i8) -> (r: Literal) ensures r == Self::s_i8_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i16_unsuffixed(n: i16) -> Literal;
    #[verifier::external_body] pub fn i16_unsuffixed(n: i16) -> (r: Literal) ensures r == Self::s_i16_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i32_unsuffixed(n: i32) -> Literal;
    #[verifier::external_body] pub fn i32_unsuffixed(n: i32) -> (r: Literal) ensures r == Self::s_i32_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i64_unsuffixed(n: i64) -> Literal;
    #[verifier::external_body] pub fn i64_unsuffixed(n: i64) -> (r: Literal) ensures r == Self::s_i64_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i128_unsuffixed(n: i128) -> Literal;
    #[verifier::external_body] pub fn i128_unsuffixed(n: i128) -> (r: Literal) ensures r == Self::s_i128_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_isize_unsuffixed(n: isize) -> Literal;
    #[verifier::external_body] pub fn isize_unsuffixed(n: isize) -> (r: Literal) ensures r == Self::s_isize_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_f32_suffixed(n: f32) -> Literal;
    #[verifier::external_body] pub fn f32_suffixed(n: f32) -> (r: Literal) ensures r == Self::s_f32_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_f32_unsuffixed(n: f32) -> Literal;
    #[verifier::external_body] pub fn f32_unsuffixed(n: f32) -> (r: Literal) ensures r == Self::s_f32_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_f64_suffixed(n: f64) -> Literal;
    #[verifier::external_body] pub fn f64_suffixed(n: f64) -> (r: Literal) ensures r == Self::s_f64_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_f64_unsuffixed(n: f64) -> Literal;
    #[verifier::external_body] pub fn f64_unsuffixed(n: f64) -> (r: Literal) ensures r == Self::s_f64_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_string(s: Seq<char>) -> Literal;
    #[verifier::external_body] pub fn string(s: &str) -> (r: Literal) ensures r == Self::s_string(s@) { unimplemented!() }
    pub uninterp spec fn s_character(c: char) -> Literal;
    #[verifier::external_body] pub fn character(c: char) -> (r: Literal) ensures r == Self::s_character(c) { unimplemented!() }
    pub uninterp spec fn s_byte_character(b: u8) -> Literal;
    #[verifier::external_body] pub fn byte_character(b: u8) -> (r: Literal) ensures r == Self::s_byte_character(b) { unimplemented!() }
    pub uninterp spec fn s_byte_string(b: Seq<u8>) -> Literal;
    #[verifier::external_body] pub fn byte_string(b: &[u8]) -> (r: Literal) ensures r == Self::s_byte_string(b@) { unimplemented!() }
    pub uninterp spec fn s_c_string(c: VCStr) -> Literal;
    #[verifier::external_body] pub fn c_string(c: &VCStr) -> (r: Literal) ensures r == Self::s_c_string(*c) { unimplemented!() }
    pub uninterp spec fn s_span(self) -> Span;
    #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == self.s_span() { unimplemented!() }
    pub uninterp spec fn s_set_span(self, s: Span) -> Literal;
    #[verifier::external_body] pub fn set_span(&mut self, s: Span) ensures *final(self) == old(self).s_set_span(s) { unimplemented!() }
    pub uninterp spec fn s_subspan(self, b: VBounds) -> Option<Span>;
    #[verifier::external_body] pub fn subspan(&self, b: VBounds) -> (r: Option<Span>) ensures r == self.s_subspan(b) { unimplemented!() }
}
impl VDisplay for TokenStream { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDebug for TokenStream { uninterp spec fn debugged(&self) -> Seq<char>; #[verifier::external_body] fn v_debug<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDisplay for Group { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDebug for Group { uninterp spec fn debugged(&self) -> Seq<char>; #[verifier::external_body] fn v_debug<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDisplay for Ident { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDebug for Ident { uninterp spec fn debugged(&self) -> Seq<char>; #[verifier::external_body] fn v_debug<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDisplay for Literal { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDebug for Literal { uninterp spec fn debugged(&self) -> Seq<char>; #[verifier::external_body] fn v_debug<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDebug for Span { uninterp spec fn debugged(&self) -> Seq<char>; #[verifier::external_body] fn v_debug<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDisplay for LexError { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDebug for LexError { uninterp spec fn debugged(&self) -> Seq<char>; #[verifier::external_body] fn v_debug<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VClone for TokenStream { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
impl VClone for Group { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
impl VClone for Ident { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
impl VClone for Literal { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
impl VToString for TokenStream { open spec fn spelled(&self) -> Seq<char> { self.shown() } #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VToString for Ident { open spec fn spelled(&self) -> Seq<char> { self.shown() } #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
} // proc_macro

/// the fallback's side
pub mod fallback {
use super::*;
use crate::{Delimiter, TokenTree};
use crate::location::LineColumn;
#[verifier::external_body]
pub struct LexError { x: u8 }
impl LexError {
    pub uninterp spec fn s_span(self) -> Span;
    #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == self.s_span() { unimplemented!() }
    pub uninterp spec fn s_call_site() -> LexError;
    #[verifier::external_body] pub fn call_site() -> (r: LexError) ensures r == Self::s_call_site() { unimplemented!() }
}
#[verifier::external_body]
pub struct TokenStream { x: u8 }
impl TokenStream {
    pub uninterp spec fn s_new() -> TokenStream;
    pub uninterp spec fn s_is_empty(self) -> bool;
    /// the text lexes
    pub uninterp spec fn grammatical(t: Seq<char>) -> bool;
    pub uninterp spec fn s_parse(t: Seq<char>) -> TokenStream;
    pub uninterp spec fn s_error(t: Seq<char>) -> LexError;
    pub uninterp spec fn s_from_tree(t: TokenTree) -> TokenStream;
    pub uninterp spec fn s_extend_trees(self, v: Seq<TokenTree>) -> TokenStream;
    pub uninterp spec fn s_extend_streams(self, v: Seq<TokenStream>) -> TokenStream;
    pub uninterp spec fn s_collect(v: Seq<TokenTree>) -> TokenStream;
    pub uninterp spec fn s_into_iter(self) -> TokenTreeIter;
    #[verifier::external_body] pub fn new() -> (r: TokenStream) ensures r == Self::s_new() { unimplemented!() }
    #[verifier::external_body] pub fn v_is_empty(&self) -> (r: bool) ensures r == self.s_is_empty() { unimplemented!() }
    #[verifier::external_body] pub fn from_str_checked(t: &str) -> (r: Result<TokenStream, LexError>)
        ensures r.is_ok() == Self::grammatical(t@), match r { Ok(x) => x == Self::s_parse(t@), Err(e) => e == Self::s_error(t@) },
    { unimplemented!() }
    #[verifier::external_body] pub fn v_from_tree(t: TokenTree) -> (r: TokenStream) ensures r == Self::s_from_tree(t) { unimplemented!() }
    #[verifier::external_body] pub fn v_extend_trees<I: VIter<TokenTree>>(&mut self, v: I) ensures *final(self) == old(self).s_extend_trees(v.items()) { unimplemented!() }
    #[verifier::external_body] pub fn v_extend_streams<I: VIter<TokenStream>>(&mut self, v: I) ensures *final(self) == old(self).s_extend_streams(v.items()) { unimplemented!() }
    #[verifier::external_body] pub fn v_into_iter(self) -> (r: TokenTreeIter) ensures r == self.s_into_iter() { unimplemented!() }
}
impl VCollect<TokenTree> for TokenStream { open spec fn collected(v: Seq<TokenTree>, r: TokenStream) -> bool { r == Self::s_collect(v) } }
#[verifier::external_body]
pub struct TokenTreeIter { x: u8 }
impl TokenTreeIter {
    pub uninterp spec fn s_next(self) -> (Option<TokenTree>, TokenTreeIter);
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<TokenTree>) ensures (r, *final(self)) == old(self).s_next() { unimplemented!() }
    pub uninterp spec fn s_size_hint(self) -> (usize, Option<usize>);
    #[verifier::external_body] pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r == self.s_size_hint() { unimplemented!() }
}
impl VClone for TokenTreeIter { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
impl Literal {
    pub uninterp spec fn grammatical(t: Seq<char>) -> bool;
    pub uninterp spec fn s_parse(t: Seq<char>) -> Literal;
    pub uninterp spec fn s_error(t: Seq<char>) -> LexError;
    pub uninterp spec fn s_unchecked(t: Seq<char>) -> Literal;
    #[verifier::external_body] pub fn from_str_checked(t: &str) -> (r: Result<Literal, LexError>)
        ensures r.is_ok() == Self::grammatical(t@), match r { Ok(x) => x == Self::s_parse(t@), Err(e) => e == Self::s_error(t@) },
    { unimplemented!() }
    #[verifier::external_body] pub unsafe fn from_str_unchecked(t: &str) -> (r: Literal) ensures r == Self::s_unchecked(t@) { unimplemented!() }
}
#[verifier::external_body]
pub fn invalidate_current_thread_spans() { unimplemented!() }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Span { x: u8 }
impl Span {
    pub uninterp spec fn s_call_site() -> Span;
    #[verifier::external_body] pub fn call_site() -> (r: Span) ensures r == Self::s_call_site() { unimplemented!() }
    pub uninterp spec fn s_mixed_site() -> Span;
    #[verifier::external_body] pub fn mixed_site() -> (r: Span) ensures r == Self::s_mixed_site() { unimplemented!() }
    pub uninterp spec fn s_def_site() -> Span;
    #[verifier::external_body] pub fn def_site() -> (r: Span) ensures r == Self::s_def_site() { unimplemented!() }
    pub uninterp spec fn s_resolved_at(self, o: Span) -> Span;
    #[verifier::external_body] pub fn resolved_at(&self, o: Span) -> (r: Span) ensures r == self.s_resolved_at(o) { unimplemented!() }
    pub uninterp spec fn s_located_at(self, o: Span) -> Span;
    #[verifier::external_body] pub fn located_at(&self, o: Span) -> (r: Span) ensures r == self.s_located_at(o) { unimplemented!() }
    pub uninterp spec fn s_join(self, o: Span) -> Option<Span>;
    #[verifier::external_body] pub fn join(&self, o: Span) -> (r: Option<Span>) ensures r == self.s_join(o) { unimplemented!() }
    pub uninterp spec fn s_byte_range(self) -> core::ops::Range<usize>;
    #[verifier::external_body] pub fn byte_range(&self) -> (r: core::ops::Range<usize>) ensures r == self.s_byte_range() { unimplemented!() }
    pub uninterp spec fn s_local_file(self) -> Option<PathBuf>;
    #[verifier::external_body] pub fn local_file(&self) -> (r: Option<PathBuf>) ensures r == self.s_local_file() { unimplemented!() }
    pub uninterp spec fn s_file(self) -> Seq<char>;
    pub uninterp spec fn s_source_text(self) -> Option<Seq<char>>;
    pub uninterp spec fn s_eq(self, o: Span) -> bool;
    #[verifier::external_body] pub fn file(&self) -> (r: String) ensures r@ == self.s_file() { unimplemented!() }
    #[verifier::external_body] pub fn source_text(&self) -> (r: Option<String>) ensures text_of(r) == self.s_source_text() { unimplemented!() }
    #[verifier::external_body] pub fn eq(&self, o: &Span) -> (r: bool) ensures r == self.s_eq(*o) { unimplemented!() }
    pub uninterp spec fn s_start(self) -> LineColumn;
    #[verifier::external_body] pub fn start(&self) -> (r: LineColumn) ensures r == self.s_start() { unimplemented!() }
    pub uninterp spec fn s_end(self) -> LineColumn;
    #[verifier::external_body] pub fn end(&self) -> (r: LineColumn) ensures r == self.s_end() { unimplemented!() }
    pub uninterp spec fn s_first_byte(self) -> Span;
    #[verifier::external_body] pub fn first_byte(&self) -> (r: Span) ensures r == self.s_first_byte() { unimplemented!() }
    pub uninterp spec fn s_last_byte(self) -> Span;
    #[verifier::external_body] pub fn last_byte(&self) -> (r: Span) ensures r == self.s_last_byte() { unimplemented!() }
}
#[verifier::external_body]
pub struct Group { x: u8 }
impl Group {
    pub uninterp spec fn s_new(d: Delimiter, t: TokenStream) -> Group;
    #[verifier::external_body] pub fn new(d: Delimiter, t: TokenStream) -> (r: Group) ensures r == Self::s_new(d, t) { unimplemented!() }
    pub uninterp spec fn s_delimiter(self) -> Delimiter;
    #[verifier::external_body] pub fn delimiter(&self) -> (r: Delimiter) ensures r == self.s_delimiter() { unimplemented!() }
    pub uninterp spec fn s_stream(self) -> TokenStream;
    #[verifier::external_body] pub fn stream(&self) -> (r: TokenStream) ensures r == self.s_stream() { unimplemented!() }
    pub uninterp spec fn s_span(self) -> Span;
    #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == self.s_span() { unimplemented!() }
    pub uninterp spec fn s_span_open(self) -> Span;
    #[verifier::external_body] pub fn span_open(&self) -> (r: Span) ensures r == self.s_span_open() { unimplemented!() }
    pub uninterp spec fn s_span_close(self) -> Span;
    #[verifier::external_body] pub fn span_close(&self) -> (r: Span) ensures r == self.s_span_close() { unimplemented!() }
    pub uninterp spec fn s_set_span(self, s: Span) -> Group;
    #[verifier::external_body] pub fn set_span(&mut self, s: Span) ensures *final(self) == old(self).s_set_span(s) { unimplemented!() }
}
#[verifier::external_body]
pub struct Ident { x: u8 }
impl Ident {
    pub uninterp spec fn s_new(t: Seq<char>, s: Span) -> Ident;
    #[verifier::external_body] pub fn new_checked(t: &str, s: Span) -> (r: Ident) ensures r == Self::s_new(t@, s) { unimplemented!() }
    pub uninterp spec fn s_new_raw(t: Seq<char>, s: Span) -> Ident;
    #[verifier::external_body] pub fn new_raw_checked(t: &str, s: Span) -> (r: Ident) ensures r == Self::s_new_raw(t@, s) { unimplemented!() }
    pub uninterp spec fn s_span(self) -> Span;
    #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == self.s_span() { unimplemented!() }
    pub uninterp spec fn s_set_span(self, s: Span) -> Ident;
    #[verifier::external_body] pub fn set_span(&mut self, s: Span) ensures *final(self) == old(self).s_set_span(s) { unimplemented!() }
    pub uninterp spec fn s_eq(self, o: Ident) -> bool;
    #[verifier::external_body] pub fn v_eq(&self, o: &&Ident) -> (r: bool) ensures r == self.s_eq(**o) { unimplemented!() }
    pub uninterp spec fn s_eq_str(self, o: Seq<char>) -> bool;
    #[verifier::external_body] pub fn v_eq_str(&self, o: &&str) -> (r: bool) ensures r == self.s_eq_str((**o)@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Literal { x: u8 }
impl Literal {
    pub uninterp spec fn s_u8_suffixed(n: u8) -> Literal;
    #[verifier::external_body] pub fn u8_suffixed(n: u8) -> (r: Literal) ensures r == Self::s_u8_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u16_suffixed(n: u16) -> Literal;
    #[verifier::external_body] pub fn u16_suffixed(n: u16) -> (r: Literal) ensures r == Self::s_u16_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u32_suffixed(n: u32) -> Literal;
    #[verifier::external_body] pub fn u32_suffixed(n: u32) -> (r: Literal) ensures r == Self::s_u32_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u64_suffixed(n: u64) -> Literal;
    #[verifier::external_body] pub fn u64_suffixed(n: u64) -> (r: Literal) ensures r == Self::s_u64_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u128_suffixed(n: u128) -> Literal;
    #[verifier::external_body] pub fn u128_suffixed(n: u128) -> (r: Literal) ensures r == Self::s_u128_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_usize_suffixed(n: usize) -> Literal;
    #[verifier::external_body] pub fn usize_suffixed(n: usize) -> (r: Literal) ensures r == Self::s_usize_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i8_suffixed(n: i8) -> Literal;
    #[verifier::external_body] pub fn i8_suffixed(n: i8) -> (r: Literal) ensures r == Self::s_i8_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i16_suffixed(n: i16) -> Literal;
    #[verifier::external_body] pub fn i16_suffixed(n: i16) -> (r: Literal) ensures r == Self::s_i16_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i32_suffixed(n: i32) -> Literal;
    #[verifier::external_body] pub fn i32_suffixed(n: i32) -> (r: Literal) ensures r == Self::s_i32_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i64_suffixed(n: i64) -> Literal;
    #[verifier::external_body] pub fn i64_suffixed(n: i64) -> (r: Literal) ensures r == Self::s_i64_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i128_suffixed(n: i128) -> Literal;
    #[verifier::external_body] pub fn i128_suffixed(n: i128) -> (r: Literal) ensures r == Self::s_i128_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_isize_suffixed(n: isize) -> Literal;
    #[verifier::external_body] pub fn isize_suffixed(n: isize) -> (r: Literal) ensures r == Self::s_isize_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u8_unsuffixed(n: u8) -> Literal;
    #[verifier::external_body] pub fn u8_unsuffixed(n: u8) -> (r: Literal) ensures r == Self::s_u8_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u16_unsuffixed(n: u16) -> Literal;
    #[verifier::external_body] pub fn u16_unsuffixed(n: u16) -> (r: Literal) ensures r == Self::s_u16_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u32_unsuffixed(n: u32) -> Literal;
    #[verifier::external_body] pub fn u32_unsuffixed(n: u32) -> (r: Literal) ensures r == Self::s_u32_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u64_unsuffixed(n: u64) -> Literal;
    #[verifier::external_body] pub fn u64_unsuffixed(n: u64) -> (r: Literal) ensures r == Self::s_u64_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_u128_unsuffixed(n: u128) -> Literal;
    #[verifier::external_body] pub fn u128_unsuffixed(n: u128) -> (r: Literal) ensures r == Self::s_u128_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_usize_unsuffixed(n: usize) -> Literal;
    #[verifier::external_body] pub fn usize_unsuffixed(n: usize) -> (r: Literal) ensures r == Self::s_usize_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i8_unsuffixed(n: i8) -> Literal;
    #[verifier::external_body] pub fn i8_unsuffixed(n: i8) -> (r: Literal) ensures r == Self::s_i8_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i16_unsuffixed(n: i16) -> Literal;
    #[verifier::external_body] pub fn i16_unsuffixed(n: i16) -> (r: Literal) ensures r == Self::s_i16_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i32_unsuffixed(n: i32) -> Literal;
    #[verifier::external_body] pub fn i32_unsuffixed(n: i32) -> (r: Literal) ensures r == Self::s_i32_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i64_unsuffixed(n: i64) -> Literal;
    #[verifier::external_body] pub fn i64_unsuffixed(n: i64) -> (r: Literal) ensures r == Self::s_i64_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_i128_unsuffixed(n: i128) -> Literal;
    #[verifier::external_body] pub fn i128_unsuffixed(n: i128) -> (r: Literal) ensures r == Self::s_i128_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_isize_unsuffixed(n: isize) -> Literal;
    #[verifier::external_body] pub fn isize_unsuffixed(n: isize) -> (r: Literal) ensures r == Self::s_isize_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_f32_suffixed(n: f32) -> Literal;
    #[verifier::external_body] pub fn f32_suffixed(n: f32) -> (r: Literal) ensures r == Self::s_f32_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_f32_unsuffixed(n: f32) -> Literal;
    #[verifier::external_body] pub fn f32_unsuffixed(n: f32) -> (r: Literal) ensures r == Self::s_f32_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_f64_suffixed(n: f64) -> Literal;
    #[verifier::external_body] pub fn f64_suffixed(n: f64) -> (r: Literal) ensures r == Self::s_f64_suffixed(n) { unimplemented!() }
    pub uninterp spec fn s_f64_unsuffixed(n: f64) -> Literal;
    #[verifier::external_body] pub fn f64_unsuffixed(n: f64) -> (r: Literal) ensures r == Self::s_f64_unsuffixed(n) { unimplemented!() }
    pub uninterp spec fn s_string(s: Seq<char>) -> Literal;
    #[verifier::external_body] pub fn string(s: &str) -> (r: Literal) ensures r == Self::s_string(s@) { unimplemented!() }
    pub uninterp spec fn s_character(c: char) -> Literal;
    #[verifier::external_body] pub fn character(c: char) -> (r: Literal) ensures r == Self::s_character(c) { unimplemented!() }
    pub uninterp spec fn s_byte_character(b: u8) -> Literal;
    #[verifier::external_body] pub fn byte_character(b: u8) -> (r: Literal) ensures r == Self::s_byte_character(b) { unimplemented!() }
    pub uninterp spec fn s_byte_string(b: Seq<u8>) -> Literal;
    #[verifier::external_body] pub fn byte_string(b: &[u8]) -> (r: Literal) ensures r == Self::s_byte_string(b@) { unimplemented!() }
    pub uninterp spec fn s_c_string(c: VCStr) -> Literal;
    #[verifier::external_body] pub fn c_string(c: &VCStr) -> (r: Literal) ensures r == Self::s_c_string(*c) { unimplemented!() }
    pub uninterp spec fn s_span(self) -> Span;
    #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == self.s_span() { unimplemented!() }
    pub uninterp spec fn s_set_span(self, s: Span) -> Literal;
    #[verifier::external_body] pub fn set_span(&mut self, s: Span) ensures *final(self) == old(self).s_set_span(s) { unimplemented!() }
    pub uninterp spec fn s_subspan(self, b: VBounds) -> Option<Span>;
    #[verifier::external_body] pub fn subspan(&self, b: VBounds) -> (r: Option<Span>) ensures r == self.s_subspan(b) { unimplemented!() }
}
impl VDisplay for TokenStream { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDebug for TokenStream { uninterp spec fn debugged(&self) -> Seq<char>; #[verifier::external_body] fn v_debug<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDisplay for Group { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDebug for Group { uninterp spec fn debugged(&self) -> Seq<char>; #[verifier::external_body] fn v_debug<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDisplay for Ident { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDebug for Ident { uninterp spec fn debugged(&self) -> Seq<char>; #[verifier::external_body] fn v_debug<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDisplay for Literal { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDebug for Literal { uninterp spec fn debugged(&self) -> Seq<char>; #[verifier::external_body] fn v_debug<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDebug for Span { uninterp spec fn debugged(&self) -> Seq<char>; #[verifier::external_body] fn v_debug<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDisplay for LexError { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDebug for LexError { uninterp spec fn debugged(&self) -> Seq<char>; #[verifier::external_body] fn v_debug<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VClone for TokenStream { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
impl VClone for Group { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
impl VClone for Ident { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
impl VClone for Literal { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
impl VToString for TokenStream { open spec fn spelled(&self) -> Seq<char> { self.shown() } #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VToString for Ident { open spec fn spelled(&self) -> Seq<char> { self.shown() } #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
} // fallback
} // verus!
