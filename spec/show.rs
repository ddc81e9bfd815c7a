// How tokens are printed.
pub open spec fn is_joint(t: Tok) -> bool { match t { Tok::Punct(_c, j, _lo, _hi) => j, _ => false } }
pub open spec fn open_text(d: int) -> Seq<char> {
    if d == 0 { seq!['('] } else if d == 1 { seq!['{', ' '] } else if d == 2 { seq!['['] } else { Seq::<char>::empty() }
}
pub open spec fn close_text(d: int, empty: bool) -> Seq<char> {
    if d == 0 { seq![')'] } else if d == 1 { if empty { seq!['}'] } else { seq![' ', '}'] } }
    else if d == 2 { seq![']'] } else { Seq::<char>::empty() }
}
pub open spec fn show_tok(t: Tok) -> Seq<char>
    decreases t, 0int,
{
    match t {
        Tok::Group(d, inner, _lo, _hi) => open_text(d) + show_n(inner, inner.len() as int) + close_text(d, inner.len() == 0),
        Tok::Ident(raw, name, _lo, _hi) => if raw { seq!['r', '#'] + name } else { name },
        Tok::Punct(c, _j, _lo, _hi) => seq![c],
        Tok::Lit(text, _lo, _hi) => text,
    }
}
/// the first `n` tokens
pub open spec fn show_n(ts: Seq<Tok>, n: int) -> Seq<char>
    decreases ts, n,
{
    if n <= 0 || n > ts.len() { Seq::<char>::empty() }
    else if n == 1 || is_joint(ts[n - 2]) { show_n(ts, n - 1) + show_tok(ts[n - 1]) }
    else { show_n(ts, n - 1) + seq![' '] + show_tok(ts[n - 1]) }
}
pub open spec fn show(ts: Seq<Tok>) -> Seq<char> { show_n(ts, ts.len() as int) }
