// The token grammar, as functions from the text still to be read to what is
// left of it (None: not a token of this kind). No quantifiers: this text is
// both the specification the verifier proves the lexer against and, translated
// mechanically, the oracle the counterexample search runs.


// ---- whitespace and comments
pub open spec fn ws_char(c: char) -> bool {
    c == ' ' || (9 <= cp(c) && cp(c) <= 13)
    || (cp(c) >= 0x80 && (uni_ws(c) || c == '\u{200e}' || c == '\u{200f}'))
}
/// Length of the line that starts `s`, without its line break (LF or CRLF).
pub open spec fn line_len(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 }
    else if s[0] == '\n' { 0 }
    else if p2(s, '\r', '\n') { 0 }
    else { 1 + line_len(s.skip(1)) }
}
/// Reading a line stops in front of its LF.
pub open spec fn line_rest(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else if s[0] == '\n' { s }
    else if p2(s, '\r', '\n') { s.skip(1) }
    else { line_rest(s.skip(1)) }
}
/// Behind the `*/` that closes the block comment; comments nest.
pub open spec fn block_end(s: Seq<char>, depth: int) -> Option<Seq<char>>
    decreases s.len(),
{
    if s.len() < 2 { None }
    else if p2(s, '/', '*') { block_end(s.skip(2), depth + 1) }
    else if p2(s, '*', '/') {
        if depth <= 1 { Some(s.skip(2)) } else { block_end(s.skip(2), depth - 1) }
    }
    else { block_end(s.skip(1), depth) }
}
pub open spec fn block_rest(s: Seq<char>) -> Option<Seq<char>> {
    if p2(s, '/', '*') { block_end(s, 0) } else { None }
}
pub open spec fn is_line_comment(s: Seq<char>) -> bool {
    p2(s, '/', '/') && (!p3(s, '/', '/', '/') || p4(s, '/', '/', '/', '/')) && !p3(s, '/', '/', '!')
}
pub open spec fn is_block_comment(s: Seq<char>) -> bool {
    p2(s, '/', '*') && (!p3(s, '/', '*', '*') || p4(s, '/', '*', '*', '*')) && !p3(s, '/', '*', '!')
}
pub open spec fn skip_ws(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else if is_line_comment(s) { if line_rest(s).len() < s.len() { skip_ws(line_rest(s)) } else { s } }
    else if p4(s, '/', '*', '*', '/') { skip_ws(s.skip(4)) }
    else if is_block_comment(s) {
        match block_rest(s) {
            Some(r) => if r.len() < s.len() { skip_ws(r) } else { s },
            None => s,
        }
    }
    else if ws_char(s[0]) { skip_ws(s.skip(1)) }
    else { s }
}

// ---- identifiers
pub open spec fn id_start(c: char) -> bool { c == '_' || xid_start(c) }
pub open spec fn cont_rest(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && xid_continue(s[0]) { cont_rest(s.skip(1)) } else { s }
}
pub open spec fn ident_nr(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() > 0 && id_start(s[0]) { Some(cont_rest(s.skip(1))) } else { None }
}
/// the part of `s` in front of its suffix `r`
pub open spec fn head(s: Seq<char>, r: Seq<char>) -> Seq<char> { s.take(s.len() - r.len()) }
/// words that cannot be raw identifiers
pub open spec fn never_raw(w: Seq<char>) -> bool {
    w == seq!['_']
    || w == seq!['s', 'u', 'p', 'e', 'r']
    || w == seq!['s', 'e', 'l', 'f']
    || w == seq!['S', 'e', 'l', 'f']
    || w == seq!['c', 'r', 'a', 't', 'e']
}
pub open spec fn raw_mark(s: Seq<char>) -> bool { p2(s, 'r', '#') }
pub open spec fn after_raw_mark(s: Seq<char>) -> Seq<char> { if raw_mark(s) { s.skip(2) } else { s } }
/// (rest, raw, name)
pub open spec fn g_ident_any(s: Seq<char>) -> Option<(Seq<char>, bool, Seq<char>)> {
    match ident_nr(after_raw_mark(s)) {
        None => None,
        Some(r) =>
            if raw_mark(s) && never_raw(head(after_raw_mark(s), r)) { None }
            else { Some((r, raw_mark(s), head(after_raw_mark(s), r))) },
    }
}
/// what looks like the start of a string or byte literal is not an identifier
pub open spec fn lit_prefix(s: Seq<char>) -> bool {
    p2(s, 'r', '"') || p3(s, 'r', '#', '"') || p3(s, 'r', '#', '#')
    || p2(s, 'b', '"') || p2(s, 'b', '\'') || p3(s, 'b', 'r', '"') || p3(s, 'b', 'r', '#')
    || p2(s, 'c', '"') || p3(s, 'c', 'r', '"') || p3(s, 'c', 'r', '#')
}
pub open spec fn g_ident(s: Seq<char>) -> Option<(Seq<char>, bool, Seq<char>)> {
    if lit_prefix(s) { None } else { g_ident_any(s) }
}
pub open spec fn suffix(s: Seq<char>) -> Seq<char> {
    match ident_nr(s) { Some(r) => r, None => s }
}
/// not followed by something that would continue a word
pub open spec fn word_end(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() > 0 && xid_continue(s[0]) { None } else { Some(s) }
}

// ---- quoted literals. mode 0: string, 1: byte string, 2: C string
pub open spec fn is_dec(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_hex(c: char) -> bool { is_dec(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub open spec fn hexv(c: char) -> int {
    if is_dec(c) { cp(c) - 48 } else if 'a' <= c && c <= 'f' { cp(c) - 87 } else { cp(c) - 55 }
}
pub open spec fn x_ok(t: Seq<char>, mode: int) -> bool {
    t.len() >= 2 && is_hex(t[0]) && is_hex(t[1])
    && (mode != 0 || ('0' <= t[0] && t[0] <= '7'))
    && (mode != 2 || !(t[0] == '0' && t[1] == '0'))
}
/// `\u{...}` behind the brace: up to six hex digits, underscores between
pub open spec fn u_body(t: Seq<char>, value: int, len: int) -> Option<(Seq<char>, int)>
    decreases t.len(),
{
    if t.len() == 0 { None }
    else if is_hex(t[0]) { if len == 6 { None } else { u_body(t.skip(1), value * 16 + hexv(t[0]), len + 1) } }
    else if t[0] == '_' && len > 0 { u_body(t.skip(1), value, len) }
    else if t[0] == '}' && len > 0 { if is_scalar(value) { Some((t.skip(1), value)) } else { None } }
    else { None }
}
pub open spec fn u_esc(t: Seq<char>) -> Option<(Seq<char>, int)> {
    if p1(t, '{') { u_body(t.skip(1), 0, 0) } else { None }
}
/// string continuation: whitespace behind an escaped line break
pub open spec fn cont_ws(t: Seq<char>, last: int) -> Option<Seq<char>>
    decreases t.len(),
{
    if last == 13 { if p1(t, '\n') { cont_ws(t.skip(1), 10) } else { None } }
    else if t.len() == 0 { None }
    else if t[0] == ' ' || t[0] == '\t' || t[0] == '\n' || t[0] == '\r' { cont_ws(t.skip(1), cp(t[0])) }
    else { Some(t) }
}
pub open spec fn simple_esc(c: char) -> bool {
    c == 'n' || c == 'r' || c == 't' || c == '\\' || c == '\'' || c == '"'
}
/// behind the closing quote
pub open spec fn cooked(s: Seq<char>, mode: int) -> Option<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { None }
    else if s[0] == '"' { Some(s.skip(1)) }
    else if s[0] == '\r' { if p2(s, '\r', '\n') { cooked(s.skip(2), mode) } else { None } }
    else if s[0] == '\\' {
        if s.len() < 2 { None }
        else if s[1] == 'x' { if x_ok(s.skip(2), mode) { cooked(s.skip(4), mode) } else { None } }
        else if simple_esc(s[1]) || (s[1] == '0' && mode != 2) { cooked(s.skip(2), mode) }
        else if s[1] == 'u' && mode != 1 {
            match u_esc(s.skip(2)) {
                Some(u) => if mode == 2 && u.1 == 0 { None } else if u.0.len() < s.len() { cooked(u.0, mode) } else { None },
                None => None,
            }
        }
        else if s[1] == '\n' || s[1] == '\r' {
            match cont_ws(s.skip(2), cp(s[1])) {
                Some(t) => if t.len() < s.len() { cooked(t, mode) } else { None },
                None => None,
            }
        }
        else { None }
    }
    else if mode == 1 && cp(s[0]) >= 0x80 { None }
    else if mode == 2 && s[0] == '\0' { None }
    else { cooked(s.skip(1), mode) }
}
pub open spec fn hashes(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() > 0 && s[0] == '#' { 1 + hashes(s.skip(1)) } else { 0 }
}
/// (number of hashes, text behind the opening quote)
pub open spec fn raw_open(s: Seq<char>) -> Option<(int, Seq<char>)> {
    if hashes(s) <= 255 && p1(s.skip(hashes(s)), '"') { Some((hashes(s), s.skip(hashes(s) + 1))) } else { None }
}
pub open spec fn raw_body(s: Seq<char>, n: int, mode: int) -> Option<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { None }
    else if s[0] == '"' && hashes(s.skip(1)) >= n { Some(s.skip(1 + n)) }
    else if s[0] == '\r' { if p2(s, '\r', '\n') { raw_body(s.skip(2), n, mode) } else { None } }
    else if mode == 1 && cp(s[0]) >= 0x80 { None }
    else if mode == 2 && s[0] == '\0' { None }
    else { raw_body(s.skip(1), n, mode) }
}
pub open spec fn cooked_lit(s: Seq<char>, mode: int) -> Option<Seq<char>> {
    match cooked(s, mode) { Some(r) => Some(suffix(r)), None => None }
}
pub open spec fn raw_lit(s: Seq<char>, mode: int) -> Option<Seq<char>> {
    match raw_open(s) {
        Some(o) => match raw_body(o.1, o.0, mode) { Some(r) => Some(suffix(r)), None => None },
        None => None,
    }
}
pub open spec fn string_lit(s: Seq<char>) -> Option<Seq<char>> {
    if p1(s, '"') { cooked_lit(s.skip(1), 0) } else if p1(s, 'r') { raw_lit(s.skip(1), 0) } else { None }
}
pub open spec fn byte_string_lit(s: Seq<char>) -> Option<Seq<char>> {
    if p2(s, 'b', '"') { cooked_lit(s.skip(2), 1) } else if p2(s, 'b', 'r') { raw_lit(s.skip(2), 1) } else { None }
}
pub open spec fn c_string_lit(s: Seq<char>) -> Option<Seq<char>> {
    if p2(s, 'c', '"') { cooked_lit(s.skip(2), 2) } else if p2(s, 'c', 'r') { raw_lit(s.skip(2), 2) } else { None }
}
pub open spec fn close_quote(s: Seq<char>) -> Option<Seq<char>> {
    if p1(s, '\'') { Some(suffix(s.skip(1))) } else { None }
}
/// behind the opening quote
pub open spec fn byte_body(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() == 0 { None }
    else if s[0] == '\\' {
        if s.len() < 2 { None }
        else if s[1] == 'x' { if x_ok(s.skip(2), 1) { close_quote(s.skip(4)) } else { None } }
        else if simple_esc(s[1]) || s[1] == '0' { close_quote(s.skip(2)) }
        else { None }
    }
    else if cp(s[0]) >= 0x80 { None }
    else { close_quote(s.skip(1)) }
}
pub open spec fn byte_lit(s: Seq<char>) -> Option<Seq<char>> {
    if p2(s, 'b', '\'') { byte_body(s.skip(2)) } else { None }
}
pub open spec fn char_body(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() == 0 { None }
    else if s[0] == '\\' {
        if s.len() < 2 { None }
        else if s[1] == 'x' { if x_ok(s.skip(2), 0) { close_quote(s.skip(4)) } else { None } }
        else if s[1] == 'u' { match u_esc(s.skip(2)) { Some(u) => close_quote(u.0), None => None } }
        else if simple_esc(s[1]) || s[1] == '0' { close_quote(s.skip(2)) }
        else { None }
    }
    else { close_quote(s.skip(1)) }
}
pub open spec fn char_lit(s: Seq<char>) -> Option<Seq<char>> {
    if p1(s, '\'') { char_body(s.skip(1)) } else { None }
}

// ---- numbers
pub enum Mant { Reject, Plain(Seq<char>, bool), Exp(Seq<char>, bool) }
/// digits and at most one dot; Exp: just behind an exponent letter
pub open spec fn mant(s: Seq<char>, dot: bool) -> Mant
    decreases s.len(),
{
    if s.len() == 0 { Mant::Plain(s, dot) }
    else if is_dec(s[0]) || s[0] == '_' { mant(s.skip(1), dot) }
    else if s[0] == '.' {
        if dot { Mant::Plain(s, dot) }
        else if s.len() >= 2 && (s[1] == '.' || id_start(s[1])) { Mant::Reject }
        else { mant(s.skip(1), true) }
    }
    else if s[0] == 'e' || s[0] == 'E' { Mant::Exp(s.skip(1), dot) }
    else { Mant::Plain(s, dot) }
}
pub open spec fn expo(s: Seq<char>, sign: bool, val: bool) -> Option<Seq<char>>
    decreases s.len(),
{
    if s.len() > 0 && (s[0] == '+' || s[0] == '-') {
        if val { Some(s) } else if sign { None } else { expo(s.skip(1), true, val) }
    }
    else if s.len() > 0 && is_dec(s[0]) { expo(s.skip(1), sign, true) }
    else if s.len() > 0 && s[0] == '_' { expo(s.skip(1), sign, val) }
    else if val { Some(s) } else { None }
}
pub open spec fn g_float_digits(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() == 0 || !is_dec(s[0]) { None }
    else {
        match mant(s.skip(1), false) {
            Mant::Reject => None,
            Mant::Plain(r, dot) => if dot { Some(r) } else { None },
            // an exponent without digits is not part of the number: `1.0e` is `1.0` followed by `e`
            Mant::Exp(r, dot) => match expo(r, false, false) {
                Some(t) => Some(t),
                None => if dot { Some(s.skip(s.len() - r.len() - 1)) } else { None },
            },
        }
    }
}
pub open spec fn num_suffix(s: Seq<char>) -> Option<Seq<char>> { word_end(suffix(s)) }
pub open spec fn float_lit(s: Seq<char>) -> Option<Seq<char>> {
    match g_float_digits(s) { Some(r) => num_suffix(r), None => None }
}
pub open spec fn base_of(s: Seq<char>) -> int {
    if p2(s, '0', 'x') { 16 } else if p2(s, '0', 'o') { 8 } else if p2(s, '0', 'b') { 2 } else { 10 }
}
pub open spec fn dg(s: Seq<char>, base: int, empty: bool) -> Option<Seq<char>>
    decreases s.len(),
{
    if s.len() > 0 && is_dec(s[0]) { if hexv(s[0]) >= base { None } else { dg(s.skip(1), base, false) } }
    else if s.len() > 0 && is_hex(s[0]) && hexv(s[0]) < base { dg(s.skip(1), base, false) }
    else if s.len() > 0 && s[0] == '_' { if empty && base == 10 { None } else { dg(s.skip(1), base, empty) } }
    else if empty { None } else { Some(s) }
}
pub open spec fn int_digits(s: Seq<char>) -> Option<Seq<char>> {
    if base_of(s) == 10 { dg(s, 10, true) } else { dg(s.skip(2), base_of(s), true) }
}
pub open spec fn int_lit(s: Seq<char>) -> Option<Seq<char>> {
    match int_digits(s) { Some(r) => num_suffix(r), None => None }
}
pub open spec fn g_literal(s: Seq<char>) -> Option<Seq<char>> {
    match string_lit(s) { Some(r) => Some(r), None =>
    match byte_string_lit(s) { Some(r) => Some(r), None =>
    match c_string_lit(s) { Some(r) => Some(r), None =>
    match byte_lit(s) { Some(r) => Some(r), None =>
    match char_lit(s) { Some(r) => Some(r), None =>
    match float_lit(s) { Some(r) => Some(r), None => int_lit(s) } } } } } }
}

// ---- punctuation
pub open spec fn is_punct(c: char) -> bool {
    c == '~' || c == '!' || c == '@' || c == '#' || c == '$' || c == '%' || c == '^' || c == '&' || c == '*'
    || c == '-' || c == '=' || c == '+' || c == '|' || c == ';' || c == ':' || c == ',' || c == '<' || c == '.'
    || c == '>' || c == '/' || c == '?' || c == '\''
}
pub open spec fn g_punct_char(s: Seq<char>) -> Option<Seq<char>> {
    if p2(s, '/', '/') || p2(s, '/', '*') { None }
    else if s.len() > 0 && is_punct(s[0]) { Some(s.skip(1)) }
    else { None }
}
/// (rest, character, joint)
pub open spec fn g_punct(s: Seq<char>) -> Option<(Seq<char>, char, bool)> {
    match g_punct_char(s) {
        None => None,
        Some(r) =>
            if s[0] == '\'' {
                // the quote of a lifetime: glued to the identifier behind it
                match g_ident_any(r) {
                    None => None,
                    Some(i) => if p1(i.0, '\'') || (p1(i.0, '#') && !raw_mark(r)) { None } else { Some((r, '\'', true)) },
                }
            } else { Some((r, s[0], g_punct_char(r).is_some())) },
    }
}

// ---- doc comments: (rest, text, inner)
pub open spec fn bare_cr(s: Seq<char>) -> bool
    decreases s.len(),
{
    if s.len() == 0 { false }
    else if s[0] == '\r' && !p2(s, '\r', '\n') { true }
    else { bare_cr(s.skip(1)) }
}
pub open spec fn doc_contents(s: Seq<char>) -> Option<(Seq<char>, Seq<char>, bool)> {
    if p3(s, '/', '/', '!') { Some((line_rest(s.skip(3)), s.skip(3).take(line_len(s.skip(3))), true)) }
    else if p3(s, '/', '*', '!') {
        match block_rest(s) { Some(r) => Some((r, s.subrange(3, s.len() - r.len() - 2), true)), None => None }
    }
    else if p3(s, '/', '/', '/') {
        if p4(s, '/', '/', '/', '/') { None }
        else { Some((line_rest(s.skip(3)), s.skip(3).take(line_len(s.skip(3))), false)) }
    }
    else if p3(s, '/', '*', '*') && !p4(s, '/', '*', '*', '*') {
        match block_rest(s) { Some(r) => Some((r, s.subrange(3, s.len() - r.len() - 2), false)), None => None }
    }
    else { None }
}
pub open spec fn doc(s: Seq<char>) -> Option<(Seq<char>, Seq<char>, bool)> {
    match doc_contents(s) { Some(d) => if bare_cr(d.1) { None } else { Some(d) }, None => None }
}

// ---- quoting a string value
pub open spec fn oct(c: char) -> bool { '0' <= c && c <= '7' }
pub open spec fn esc_one(s: Seq<char>) -> Seq<char> {
    if s[0] == '\0' { if s.len() > 1 && oct(s[1]) { seq!['\\', 'x', '0', '0'] } else { seq!['\\', '0'] } }
    else if s[0] == '\'' { seq!['\''] }
    else { esc_debug(s[0]) }
}
pub open spec fn esc_str(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::<char>::empty() } else { esc_one(s) + esc_str(s.skip(1)) }
}
pub open spec fn str_repr(s: Seq<char>) -> Seq<char> { seq!['"'] + esc_str(s) + seq!['"'] }

// ---- tokens: positions are character offsets (lo, hi)
pub enum Tok {
    Group(int, Seq<Tok>, int, int),        // delimiter code, content
    Ident(bool, Seq<char>, int, int),      // raw, name
    Punct(char, bool, int, int),           // joint
    Lit(Seq<char>, int, int),
}
pub enum LexR { Ok(Seq<Tok>), Err(int) }

pub open spec fn open_code(c: char) -> int { if c == '(' { 0 } else if c == '{' { 1 } else if c == '[' { 2 } else { -1 } }
pub open spec fn close_code(c: char) -> int { if c == ')' { 0 } else if c == '}' { 1 } else if c == ']' { 2 } else { -1 } }
/// `(/*ERROR*/)`
pub open spec fn is_error(s: Seq<char>) -> bool {
    p4(s, '(', '/', '*', 'E') && p4(s.skip(4), 'R', 'R', 'O', 'R') && p3(s.skip(8), '*', '/', ')')
}
/// a doc comment stands for an attribute: `#[doc = "..."]` or `#![doc = "..."]`
pub open spec fn doc_body(text: Seq<char>, lo: int, hi: int) -> Seq<Tok> {
    Seq::<Tok>::empty().push(Tok::Ident(false, seq!['d', 'o', 'c'], lo, hi)).push(Tok::Punct('=', false, lo, hi)).push(Tok::Lit(str_repr(text), lo, hi))
}
pub open spec fn doc_onto(cur: Seq<Tok>, text: Seq<char>, inner: bool, lo: int, hi: int) -> Seq<Tok> {
    if inner { cur.push(Tok::Punct('#', false, lo, hi)).push(Tok::Punct('!', false, lo, hi)).push(Tok::Group(2, doc_body(text, lo, hi), lo, hi)) }
    else { cur.push(Tok::Punct('#', false, lo, hi)).push(Tok::Group(2, doc_body(text, lo, hi), lo, hi)) }
}
/// one token that is not a delimiter: (rest, token)
pub open spec fn leaf(s: Seq<char>, off: int) -> Option<(Seq<char>, Tok)> {
    match g_literal(s) {
        Some(r) => Some((r, Tok::Lit(head(s, r), off, step(off, s.len() - r.len())))),
        None => match g_punct(s) {
            Some(p) => Some((p.0, Tok::Punct(p.1, p.2, off, step(off, s.len() - p.0.len())))),
            None => match g_ident(s) {
                Some(i) => Some((i.0, Tok::Ident(i.1, i.2, off, step(off, s.len() - i.0.len())))),
                None => if is_error(s) { Some((s.skip(11), Tok::Lit(s.take(11), off, step(off, 11)))) } else { None },
            },
        },
    }
}
/// The stream read so far is `cur`; `stack` holds (position, delimiter, tokens
/// in front) of the groups still open.
pub open spec fn lex(s: Seq<char>, off: int, stack: Seq<(int, int, Seq<Tok>)>, cur: Seq<Tok>) -> LexR
    decreases s.len(),
{
    let t = skip_ws(s);
    let o = step(off, s.len() - t.len());
    match doc(t) {
        Some(d) =>
            if d.0.len() < s.len() { lex(d.0, step(o, t.len() - d.0.len()), stack, doc_onto(cur, d.1, d.2, o, step(o, t.len() - d.0.len()))) }
            else { LexR::Err(o) },
        None =>
            if t.len() == 0 { if stack.len() == 0 { LexR::Ok(cur) } else { LexR::Err(stack.last().0) } }
            else if open_code(t[0]) >= 0 && !is_error(t) {
                if t.skip(1).len() < s.len() { lex(t.skip(1), step(o, 1), stack.push((o, open_code(t[0]), cur)), Seq::<Tok>::empty()) }
                else { LexR::Err(o) }
            }
            else if close_code(t[0]) >= 0 {
                if stack.len() == 0 || stack.last().1 != close_code(t[0]) { LexR::Err(o) }
                else if t.skip(1).len() < s.len() {
                    lex(t.skip(1), step(o, 1), stack.drop_last(), stack.last().2.push(Tok::Group(close_code(t[0]), cur, stack.last().0, step(o, 1))))
                } else { LexR::Err(o) }
            }
            else {
                match leaf(t, o) {
                    None => LexR::Err(o),
                    Some(l) => if l.0.len() < s.len() { lex(l.0, step(o, t.len() - l.0.len()), stack, cur.push(l.1)) } else { LexR::Err(o) },
                }
            },
    }
}
/// A whole source text; a byte order mark in front of it is ignored.
pub open spec fn lex_source(s: Seq<char>, off: int) -> LexR {
    if p1(s, '\u{feff}') { lex(s.skip(1), step(off, 1), Seq::<(int, int, Seq<Tok>)>::empty(), Seq::<Tok>::empty()) }
    else { lex(s, off, Seq::<(int, int, Seq<Tok>)>::empty(), Seq::<Tok>::empty()) }
}
/// A literal on its own, optionally a negative number: the whole text must be one literal.
pub open spec fn whole(r: Option<Seq<char>>) -> bool { match r { Some(t) => t.len() == 0, None => false } }
pub open spec fn literal_source(s: Seq<char>) -> bool {
    if p1(s, '-') { s.len() > 1 && is_dec(s[1]) && whole(g_literal(s.skip(1))) }
    else { whole(g_literal(s)) }
}
