#mod fallback
#raw fallback idents
/// XID_Start or underscore, then XID_Continue
pub open spec fn name_ok(s: Seq<char>) -> bool { s.len() > 0 && id_start(s[0]) && cont_rest(s.skip(1)).len() == 0 }
pub open spec fn raw_name_ok(s: Seq<char>) -> bool { name_ok(s) && !never_raw(s) }
/// how an identifier is spelled
pub open spec fn spell(raw: bool, name: Seq<char>) -> Seq<char> { if raw { seq!['r', '#'] + name } else { name } }
pub proof fn lemma_not_digits(s: Seq<char>)
    requires name_ok(s),
    ensures !('0' <= s[0] && s[0] <= '9'),
{ if cp(s[0]) < 0x80 { xid_ascii(s[0]); } }
#fn fallback::ident_ok
#ret r
#spec
    requires $0@.len() > 0,
    ensures r == name_ok($0@),
#loop 0
    invariant cont_rest($it.rest()).len() == 0 <==> cont_rest($0@.skip(1)).len() == 0, id_start($0@[0]), $0@.len() > 0,
    decreases $it.rest().len(),
#fn fallback::validate_ident panic=forbid
#spec
    requires name_ok($0@),
#closure 0 |digit: u8| -> (o: bool)
    ensures o == (48 <= $a$ && $a$ <= 57)
#entry
    proof { lemma_not_digits($0@); }
#fn fallback::validate_ident variant=refuses name=validate_ident_p panic=allow
#spec
    ensures name_ok($0@),
#closure 0 |digit: u8| -> (o: bool)
    ensures o == (48 <= $a$ && $a$ <= 57)
#fn fallback::validate_ident_raw panic=forbid
#spec
    requires raw_name_ok($0@),
#fn fallback::validate_ident_raw variant=refuses name=validate_ident_raw_p panic=allow ren=validate_ident:validate_ident_p
#spec
    ensures raw_name_ok($0@),
#fn fallback::Ident::new_checked
#ret r
#spec
    requires name_ok($0@),
    ensures r.sym@ == $0@, r.span == $1, !r.raw,
#fn fallback::Ident::new_checked variant=refuses name=new_checked_p ren=validate_ident:validate_ident_p
#ret r
#spec
    ensures name_ok($0@), r.sym@ == $0@, r.span == $1, !r.raw,
#fn fallback::Ident::new_raw_checked
#ret r
#spec
    requires raw_name_ok($0@),
    ensures r.sym@ == $0@, r.span == $1, r.raw,
#fn fallback::Ident::new_raw_checked variant=refuses name=new_raw_checked_p ren=validate_ident_raw:validate_ident_raw_p
#ret r
#spec
    ensures raw_name_ok($0@), r.sym@ == $0@, r.span == $1, r.raw,
#fn fallback::<Ident as PartialEq>::eq name=v_eq veq
#ret r
#spec
    ensures r == (self.raw == $1.raw && self.sym@ == $1.sym@),
#fn fallback::<Ident as PartialEq<T>>::eq name=v_eq_str mono=T:str
#ret r
#spec
    ensures r == (spell(self.raw, self.sym@) == $1@),
#entry
    proof { if self.raw && p2($1@, 'r', '#') { assert($1@ =~= seq!['r', '#'] + $1@.skip(2)); assert((seq!['r', '#'] + self.sym@).skip(2) =~= self.sym@); } else if self.raw { let x = seq!['r', '#'] + self.sym@; assert(x[0] == 'r' && x[1] == '#'); } }
#end
#mod -
use crate::fallback::{name_ok, raw_name_ok, spell};
#raw - ident_text
/// `to_string()` gives what Display writes (<Ident as Display>::fmt above)
impl VToString for Ident {
    open spec fn spelled(&self) -> Seq<char> { show_tok(tok(TokenTree::Ident(*self))) }
    #[verifier::external_body]
    fn v_to_string(&self) -> String { unimplemented!() }
}
#fn Ident::new
#ret r
#spec
    requires name_ok($0@),
    ensures tok(TokenTree::Ident(r)) == Tok::Ident(false, $0@, sp($1).0, sp($1).1),
#fn Ident::new variant=refuses name=new_p ren=imp::Ident::new_checked:new_checked_p
#ret r
#spec
    ensures name_ok($0@),
#fn Ident::new_raw
#ret r
#spec
    requires raw_name_ok($0@),
    ensures tok(TokenTree::Ident(r)) == Tok::Ident(true, $0@, sp($1).0, sp($1).1),
#fn Ident::new_raw variant=refuses name=new_raw_p ren=imp::Ident::new_raw_checked:new_raw_checked_p
#ret r
#spec
    ensures raw_name_ok($0@),
#fn Punct::new variant=refuses name=new_p panic=allow
#ret r
#spec
    ensures is_punct($0), tok(TokenTree::Punct(r)) == Tok::Punct($0, $1 == Spacing::Joint, 0, 0),
#fn <Ident as PartialEq>::eq name=v_eq veq
#ret r
#spec
    ensures r == (self.inner.fb().raw == $1.inner.fb().raw && self.inner.fb().sym@ == $1.inner.fb().sym@),
#fn <Ident as PartialEq<T>>::eq name=v_eq_str mono=T:str veq=v_eq_str
#ret r
#spec
    ensures r == (spell(self.inner.fb().raw, self.inner.fb().sym@) == $1@),
#fn <Ident as PartialOrd>::partial_cmp name=v_partial_cmp ren=cmp:v_cmp
#ret r
#spec
    ensures r == Some(text_cmp(spell(self.inner.fb().raw, self.inner.fb().sym@), spell($1.inner.fb().raw, $1.inner.fb().sym@))),
#fn <Ident as Ord>::cmp name=v_cmp ren=cmp:v_cmp
#ret r
#spec
    ensures r == text_cmp(spell(self.inner.fb().raw, self.inner.fb().sym@), spell($1.inner.fb().raw, $1.inner.fb().sym@)),
#fn <Ident as Hash>::hash name=v_hash mono=H:VHasher
#spec
    ensures final($1).fed() == old($1).fed().push(spell(self.inner.fb().raw, self.inner.fb().sym@)),
#end
