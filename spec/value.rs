// What a quoted literal denotes: scalar values for strings and characters,
// bytes for byte strings and C strings.
pub open spec fn utf8(v: int) -> Seq<int> {
    if v < 0x80 { seq![v] }
    else if v < 0x800 { seq![0xC0 + v / 64, 0x80 + v % 64] }
    else if v < 0x10000 { seq![0xE0 + v / 4096, 0x80 + v / 64 % 64, 0x80 + v % 64] }
    else { seq![0xF0 + v / 262144, 0x80 + v / 4096 % 64, 0x80 + v / 64 % 64, 0x80 + v % 64] }
}
pub open spec fn unit(v: int, mode: int) -> Seq<int> { if mode == 2 { utf8(v) } else { seq![v] } }
pub open spec fn simple_val(c: char) -> int {
    if c == 'n' { 10 } else if c == 'r' { 13 } else if c == 't' { 9 } else if c == '0' { 0 } else { cp(c) }
}
/// behind an escaped line break
pub open spec fn skip_blank(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && (s[0] == ' ' || s[0] == '\t' || s[0] == '\n' || s[0] == '\r') { skip_blank(s.skip(1)) } else { s }
}
/// one escape, behind the backslash: (rest, value)
pub open spec fn esc_val(s: Seq<char>, mode: int) -> Option<(Seq<char>, Seq<int>)> {
    if s.len() == 0 { None }
    else if s[0] == 'x' {
        if x_ok(s.skip(1), mode) { Some((s.skip(3), seq![hexv(s[1]) * 16 + hexv(s[2])])) } else { None }
    }
    else if simple_esc(s[0]) || (s[0] == '0' && mode != 2) { Some((s.skip(1), seq![simple_val(s[0])])) }
    else if s[0] == 'u' && mode != 1 {
        match u_esc(s.skip(1)) {
            Some(u) => if mode == 2 && u.1 == 0 { None } else { Some((u.0, unit(u.1, mode))) },
            None => None,
        }
    }
    else { None }
}
/// the text between the quotes; no carriage return may stand in it
pub open spec fn cooked_val(s: Seq<char>, mode: int) -> Option<Seq<int>>
    decreases s.len(),
{
    if s.len() == 0 { Some(Seq::<int>::empty()) }
    else if p2(s, '\\', '\n') {
        if skip_blank(s.skip(2)).len() < s.len() { cooked_val(skip_blank(s.skip(2)), mode) } else { None }
    }
    else if s[0] == '\\' {
        match esc_val(s.skip(1), mode) {
            Some(e) =>
                if e.0.len() < s.len() {
                    match cooked_val(e.0, mode) { Some(v) => Some(e.1 + v), None => None }
                } else { None },
            None => None,
        }
    }
    else if s[0] == '"' || s[0] == '\r' || (mode == 1 && cp(s[0]) >= 0x80) || (mode == 2 && s[0] == '\0') { None }
    else { match cooked_val(s.skip(1), mode) { Some(v) => Some(unit(cp(s[0]), mode) + v), None => None } }
}
pub open spec fn verbatim(s: Seq<char>, mode: int) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { Seq::<int>::empty() } else { (if mode == 0 { seq![cp(s[0])] } else { utf8(cp(s[0])) }) + verbatim(s.skip(1), mode) }
}
/// `##"..."##` and nothing behind it
pub open spec fn raw_text(s: Seq<char>) -> Option<Seq<char>> {
    match raw_open(s) {
        Some(o) => match raw_body(o.1, o.0, 0) {
            Some(r) => if r.len() == 0 { Some(o.1.take(o.1.len() - 1 - o.0)) } else { None },
            None => None,
        },
        None => None,
    }
}
pub open spec fn quoted_val(s: Seq<char>, mode: int) -> Option<Seq<int>> {
    if p1(s, '"') && s.len() >= 2 && s.last() == '"' { cooked_val(s.subrange(1, s.len() - 1), mode) }
    else if p1(s, 'r') { match raw_text(s.skip(1)) { Some(t) => Some(verbatim(t, mode)), None => None } }
    else { None }
}
/// value of a literal of the given kind; None: not a literal of that kind, suffixed, or malformed
pub open spec fn lit_val(s: Seq<char>, mode: int) -> Option<Seq<int>> {
    if mode == 0 { quoted_val(s, 0) }
    else if mode == 1 { if p1(s, 'b') { quoted_val(s.skip(1), 1) } else { None } }
    else { if p1(s, 'c') { quoted_val(s.skip(1), 2) } else { None } }
}
/// `'c'` or (mode 1) `b'c'`
pub open spec fn char_val(s: Seq<char>, mode: int) -> Option<int> {
    if mode == 1 && !p1(s, 'b') { None }
    else if mode == 1 { quote_val(s.skip(1), 1) }
    else { quote_val(s, 0) }
}
/// What Rust does not let stand for itself between single quotes.
pub open spec fn must_escape(c: char) -> bool { c == '\'' || c == '\n' || c == '\r' || c == '\t' }
pub open spec fn quote_val(s: Seq<char>, mode: int) -> Option<int> {
    if !p1(s, '\'') || s.len() < 3 || s.last() != '\'' { None }
    else if s[1] == '\\' {
        match esc_val(s.skip(2), mode) {
            Some(e) => if e.0.len() == 1 && e.1.len() == 1 { Some(e.1[0]) } else { None },
            None => None,
        }
    }
    else if s.len() == 3 && must_escape(s[1]) { None }
    else if s.len() == 3 && (mode == 0 || cp(s[1]) < 0x80) { Some(cp(s[1])) }
    else { None }
}
