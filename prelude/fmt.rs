verus! {
// ---- formatting. A formatter without flags; a sink may refuse (only for a
// String it never does), and then nothing is promised about what was written.
pub struct VFmtErr {}
pub mod fmt { pub type Result = core::result::Result<(), super::VFmtErr>; }
pub trait VSink {
    spec fn out(&self) -> Seq<char>;
    spec fn sure(&self) -> bool;
    fn v_write_str(&mut self, s: &str) -> (r: fmt::Result)
        ensures r.is_ok() ==> final(self).out() == old(self).out() + s@, old(self).sure() ==> r.is_ok(), final(self).sure() == old(self).sure();
}
impl VSink for String {
    open spec fn out(&self) -> Seq<char> { self@ }
    open spec fn sure(&self) -> bool { true }
    #[verifier::external_body] fn v_write_str(&mut self, s: &str) -> fmt::Result { unimplemented!() }
}
#[verifier::external_body]
pub struct VFmt { x: u8 }
impl VFmt { pub uninterp spec fn text(&self) -> Seq<char>; pub uninterp spec fn never_fails(&self) -> bool; }
impl VSink for VFmt {
    open spec fn out(&self) -> Seq<char> { self.text() }
    open spec fn sure(&self) -> bool { self.never_fails() }
    #[verifier::external_body] fn v_write_str(&mut self, s: &str) -> fmt::Result { unimplemented!() }
}
pub trait VDisplay {
    spec fn shown(&self) -> Seq<char>;
    fn v_display<S: VSink>(&self, f: &mut S) -> (r: fmt::Result)
        ensures r.is_ok() ==> final(f).out() == old(f).out() + self.shown(), old(f).sure() ==> r.is_ok(), final(f).sure() == old(f).sure();
}
pub trait VToString {
    spec fn spelled(&self) -> Seq<char>;
    fn v_to_string(&self) -> (r: String) ensures r@ == self.spelled();
}
impl VDisplay for str { open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDisplay for String { open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDisplay for char { open spec fn shown(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
pub open spec fn dec_int(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec(-n) } else { dec(n) } }
/// {:02X}
pub open spec fn upper_hex(n: int) -> char { if n < 10 { digit(n) } else if n == 10 { 'A' } else if n == 11 { 'B' } else if n == 12 { 'C' } else if n == 13 { 'D' } else if n == 14 { 'E' } else { 'F' } }
pub trait VHex { fn v_upper_hex2<S: VSink>(&self, f: &mut S) -> (r: fmt::Result)
        ensures r.is_ok() ==> final(f).out() == old(f).out() + self.hex2(), old(f).sure() ==> r.is_ok(), final(f).sure() == old(f).sure();
    spec fn hex2(&self) -> Seq<char>; }
impl VHex for u8 { open spec fn hex2(&self) -> Seq<char> { seq![upper_hex((*self / 16) as int), upper_hex((*self % 16) as int)] }
    #[verifier::external_body] fn v_upper_hex2<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VDisplay for u8 { open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for u8 { open spec fn spelled(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VDisplay for u16 { open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for u16 { open spec fn spelled(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VDisplay for u32 { open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for u32 { open spec fn spelled(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VDisplay for u64 { open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for u64 { open spec fn spelled(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VDisplay for u128 { open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for u128 { open spec fn spelled(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VDisplay for usize { open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for usize { open spec fn spelled(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VDisplay for i8 { open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for i8 { open spec fn spelled(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VDisplay for i16 { open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for i16 { open spec fn spelled(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VDisplay for i32 { open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for i32 { open spec fn spelled(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VDisplay for i64 { open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for i64 { open spec fn spelled(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VDisplay for i128 { open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for i128 { open spec fn spelled(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
impl VDisplay for isize { open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for isize { open spec fn spelled(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
/// what `{}` prints for a float
pub uninterp spec fn show_f32(x: f32) -> Seq<char>;
impl VDisplay for f32 { open spec fn shown(&self) -> Seq<char> { show_f32(*self) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for f32 { open spec fn spelled(&self) -> Seq<char> { show_f32(*self) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
/// what `{}` prints for a float
pub uninterp spec fn show_f64(x: f64) -> Seq<char>;
impl VDisplay for f64 { open spec fn shown(&self) -> Seq<char> { show_f64(*self) }
    #[verifier::external_body] fn v_display<S: VSink>(&self, f: &mut S) -> fmt::Result { unimplemented!() } }
impl VToString for f64 { open spec fn spelled(&self) -> Seq<char> { show_f64(*self) }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() } }
pub broadcast proof fn lemma_add_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_add_empty(a: Seq<char>, b: Seq<char>)
    requires b.len() == 0,
    ensures #[trigger] (a + b) == a,
{ assert(a + b =~= a); }
pub broadcast group vx_cat { lemma_add_assoc, lemma_add_empty }
} // verus!
