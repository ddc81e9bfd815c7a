//! The specification text of /verif/spec, translated by `vx --exec`.
#![allow(dead_code, unused_parens, clippy::all)]
pub use crate::seq::{int, Seq};
use crate::seq;
fn xid_start(c: char) -> bool { unicode_ident::is_xid_start(c) }
fn xid_continue(c: char) -> bool { unicode_ident::is_xid_continue(c) }
fn uni_ws(c: char) -> bool { c.is_whitespace() }
fn esc_debug(c: char) -> Seq<char> { Seq::of(c.escape_debug().collect()) }
include!(env!("VX_ORACLE"));
