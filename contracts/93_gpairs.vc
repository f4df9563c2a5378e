@onlyprops C09 C10 C12 C23
@fileprops C09 C10 C23
@mod gpairs_spec
@broadcast lem_xp0 lem_xp1 lem_cat_take lem_cat0 ax_fp lem_take4
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{absolute, transaction, VarInt};
use bitcoin::bip32::{self, ChildNumber, KeySource, Fingerprint, DerivationPath, Xpub};
use crate::raw::{Key, Pair, ProprietaryKey};
use crate::v2::Global;
use crate::version::Version;
#[cfg(feature = "silent-payments")] use bitcoin::CompressedPublicKey;
#[cfg(feature = "silent-payments")] use crate::v2::dleq::DleqProof;
verus!{
// ---- rust-bitcoin: extended keys and their paths; values of four bytes ----
pub uninterp spec fn xpub_enc(x: Xpub) -> Seq<u8>;
pub broadcast axiom fn ax_xpub(x: Xpub) ensures (#[trigger] xpub_enc(x)).len() == 78, xpub_of(xpub_enc(x)) == Some(x);
pub assume_specification [Xpub::encode](x: &Xpub) -> (r: [u8; 78]) ensures r@ == xpub_enc(*x);
pub uninterp spec fn fp_bytes(f: Fingerprint) -> Seq<u8>;
pub broadcast axiom fn ax_fp(f: Fingerprint) ensures (#[trigger] fp_bytes(f)).len() == 4, fp_mk(fp_bytes(f)) == f;
pub trait VxFp { fn vx_as_bytes(&self) -> (r: Vec<u8>) ; }
impl VxFp for Fingerprint { #[verifier::external_body] fn vx_as_bytes(&self) -> (r: Vec<u8>) ensures r@ == fp_bytes(*self) { self.as_bytes().to_vec() } }
impl VxItems<u8> for &[u8; 4] { open spec fn items(self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_into(self) -> Vec<u8> { self.to_vec() } }
pub broadcast axiom fn ax_dp_mk(d: DerivationPath) ensures dp_mk(#[trigger] dp_seq(d)) == d;
#[verifier::external_body] pub fn vx_children(d: &DerivationPath) -> (r: &[ChildNumber]) ensures r@ == dp_seq(*d) { d.as_ref() }
pub assume_specification [<u32 as From<ChildNumber>>::from](c: ChildNumber) -> (r: u32) ensures cn_of(r) == c;
pub broadcast axiom fn ax_enc_u32(x: &u32) ensures (#[trigger] cons_ser::<&u32>(x)).len() == 4, le4(cons_ser::<&u32>(x)) == *x;
pub broadcast axiom fn ax_enc_txv(x: &transaction::Version) ensures (#[trigger] cons_ser::<&transaction::Version>(x)).len() == 4, cons_dec::<transaction::Version>(cons_ser::<&transaction::Version>(x)) == Some((*x, 4int));
pub broadcast axiom fn ax_enc_lock(x: &absolute::LockTime) ensures (#[trigger] cons_ser::<&absolute::LockTime>(x)).len() == 4, cons_dec::<absolute::LockTime>(cons_ser::<&absolute::LockTime>(x)) == Some((*x, 4int));
/// a version is written as its number (Serialize for Version is verified)
pub broadcast axiom fn def_ser_version(v: &Version) ensures #[trigger] ser_of::<&Version>(v) == cons_ser::<&u32>(&v.vx());
pub proof fn lem_vi_round(v: VarInt) ensures cons_dec::<VarInt>(cs(v.0 as int)) is Some, (cons_dec::<VarInt>(cs(v.0 as int))->0).0 == v
{ let b = cs(v.0 as int); ax_cs_dec(b); assert(cs(v.0 as int).is_prefix_of(b)); match cons_dec::<VarInt>(b) { Some((w, n)) => { assert(cs(w.0 as int) =~= b.take(n)); assert(cs(w.0 as int).is_prefix_of(b)); ax_cs_uniq(b, v.0, w.0); } None => {} } }
// ---- the value of an xpub field ----
pub open spec fn xp_val(k: KeySource, v: Seq<u8>) -> bool { xp_path(v, dp_seq(k.1), dp_seq(k.1).len() as int) && v.take(4) == fp_bytes(k.0) }
/// the first i children of the path follow the fingerprint
#[verifier::opaque]
pub open spec fn xp_path(v: Seq<u8>, d: Seq<ChildNumber>, i: int) -> bool { 0 <= i <= d.len() && v.len() == 4 + 4 * i && forall|j: int| 0 <= j < i ==> cn_of(le4(#[trigger] v.skip(4 + 4 * j))) == d[j] }
pub broadcast proof fn lem_xp0(v: Seq<u8>, d: Seq<ChildNumber>) requires v.len() == 4 ensures #[trigger] xp_path(v, d, 0) { reveal(xp_path); }
pub broadcast proof fn lem_xp1(v: Seq<u8>, d: Seq<ChildNumber>, i: int, n: Seq<u8>) requires #[trigger] xp_path(v, d, i), i < d.len(), n.len() == 4, cn_of(le4(n)) == d[i] ensures xp_path(#[trigger] (v + n), d, i + 1)
{ reveal(xp_path); let w = v + n; assert forall|j: int| 0 <= j < i + 1 implies cn_of(le4(#[trigger] w.skip(4 + 4 * j))) == d[j] by { let s = w.skip(4 + 4 * j); if j < i { let t = v.skip(4 + 4 * j); assert(s[0] == t[0] && s[1] == t[1] && s[2] == t[2] && s[3] == t[3]); assert(le4(s) == le4(t)); } else { assert(s =~= n); } } }
pub proof fn lem_xp_val(k: KeySource, p: Pair) requires xp_val(k, p.value@) ensures vf_xpub()(p) == Some(k)
{ broadcast use ax_fp, ax_dp_mk; reveal(xp_path); let v = p.value@; let d = dp_seq(k.1); let n = d.len() as int; assert(v.len() == 4 + 4 * n); assert(kids(v, n) =~= d); assert(v.len() as int / 4 - 1 == n); assert((k.0, k.1) == k); }
pub open spec fn w_xp() -> spec_fn(Xpub, KeySource, Pair) -> bool { |k: Xpub, v: KeySource, p: Pair| p.key.type_value == 0x01 && p.key.key@ == xpub_enc(k) && xp_val(v, p.value@) }
pub proof fn lem_all_xp(m: Map<Xpub, KeySource>, r0: Seq<Pair>, r1: Seq<Pair>) requires wrote_all(m, w_xp(), r0, r1) ensures seg(sel_t(0x01), r0, r1), absent(sel_t(0x01), r0) ==> x_gen(m, sel_t(0x01), kf_xpub(), vf_xpub(), r1)
{ broadcast use ax_xpub; let s = choose|s: Seq<(&Xpub, &KeySource)>| #[trigger] wrote(s, s.len() as int, w_xp(), r0, r1) && entries(s, m);
  assert forall|k: Xpub, p: Pair| #[trigger] m.contains_key(k) && #[trigger] w_xp()(k, m[k], p) implies sel_t(0x01)(p) && kf_xpub()(p) == Some(k) && vf_xpub()(p) == Some(m[k]) by { lem_xp_val(m[k], p); }
  lem_wrote_gen(s, m, w_xp(), sel_t(0x01), kf_xpub(), vf_xpub(), r0, r1); }
// ---- the fields ----
/// what a map says
pub open spec fn gl_from(y: Global) -> Gl { Gl { v: Some(y.version.vx()), tv: Some(y.tx_version), fb: y.fallback_lock_time, mf: Some(y.tx_modifiable_flags), ic: Some(y.input_count as u64), oc: Some(y.output_count as u64), xp: y.xpubs@, sp: gl_sp_from(y), pr: y.proprietaries@, un: y.unknowns@ } }
/// every field of the map can be written and read back
#[verifier::opaque]
pub open spec fn gl_enc(y: Global) -> bool { y.version.vx() == 2 && ok_prop(y.proprietaries@) && ok_unk(y.unknowns@, sel_gl_unk()) && forall|k: Key| #[trigger] y.unknowns@.contains_key(k) ==> k.type_value != 0 }
pub broadcast proof fn lem_gl_from(y: Global) ensures #[trigger] gl_res(gl_from(y), y) { }
pub open spec fn gl_field(y: Global, c: u8, ps: Seq<Pair>) -> bool {
    match c {
        0xfb => x_gen(opt_map(Some(2u32)), sel_t(0xfb), kf_opt(), vf_ver(), ps),
        0x02 => x_gen(opt_map(Some(y.tx_version)), sel_t(0x02), kf_opt(), vf_fix::<transaction::Version>(4), ps),
        0x04 => x_gen(opt_map(Some(y.input_count as u64)), sel_t(0x04), kf_opt(), vf_vi(), ps),
        0x05 => x_gen(opt_map(Some(y.output_count as u64)), sel_t(0x05), kf_opt(), vf_vi(), ps),
        0x06 => x_gen(opt_map(Some(y.tx_modifiable_flags)), sel_t(0x06), kf_opt(), vf_fix::<u8>(1), ps),
        0x03 => x_gen(opt_map(y.fallback_lock_time), sel_t(0x03), kf_opt(), vf_fix::<absolute::LockTime>(4), ps),
        0x01 => x_gen(y.xpubs@, sel_t(0x01), kf_xpub(), vf_xpub(), ps),
        0xfc => x_prop(y.proprietaries@, 0xfc, ps),
        c => gl_sp_t(c) ==> gl_sp_field(y, c, ps),
    }
}
/// the field of this type was written after r0
pub open spec fn gl_wrote(y: Global, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool {
    match c {
        0xfb => wrote_v(Some(2u32), c, vf_ver(), r0, r1),
        0x02 => wrote_v(Some(y.tx_version), c, vf_fix::<transaction::Version>(4), r0, r1),
        0x04 => wrote_v(Some(y.input_count as u64), c, vf_vi(), r0, r1),
        0x05 => wrote_v(Some(y.output_count as u64), c, vf_vi(), r0, r1),
        0x06 => wrote_v(Some(y.tx_modifiable_flags), c, vf_fix::<u8>(1), r0, r1),
        0x03 => wrote_opt(y.fallback_lock_time, c, r0, r1),
        0x01 => wrote_all(y.xpubs@, w_xp(), r0, r1),
        0xfc => wrote_all(y.proprietaries@, w_prop(), r0, r1),
        c => gl_sp_t(c) && gl_sp_wrote(y, c, r0, r1),
    }
}
#[cfg(feature = "silent-payments")] verus!{
pub open spec fn gl_sp_field(x: Global, c: u8, ps: Seq<Pair>) -> bool { if c == 0x07 { x_map::<CompressedPublicKey, CompressedPublicKey>(x.sp_ecdh_shares@, 0x07, ps) } else { x_map::<CompressedPublicKey, DleqProof>(x.sp_dleq_proofs@, 0x08, ps) } }
pub open spec fn gl_sp_wrote(x: Global, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool { if c == 0x07 { wrote_all(x.sp_ecdh_shares@, w_map(c), r0, r1) } else { wrote_all(x.sp_dleq_proofs@, w_map(c), r0, r1) } }
pub proof fn lem_gl_sp_fin(x: Global, r0: Seq<Pair>, r1: Seq<Pair>) requires seg(sel_gl_unk(), r0, r1), gl_sp_field(x, 0x07, r0), gl_sp_field(x, 0x08, r0) ensures gl_sp_exact(gl_from(x), r1) { broadcast use lem_gen_tu; }
}
#[cfg(not(feature = "silent-payments"))] verus!{
pub open spec fn gl_sp_field(x: Global, c: u8, ps: Seq<Pair>) -> bool { true }
pub open spec fn gl_sp_wrote(x: Global, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool { true }
pub proof fn lem_gl_sp_fin(x: Global, r0: Seq<Pair>, r1: Seq<Pair>) ensures gl_sp_exact(gl_from(x), r1) { }
}
/// the fields in s were written, the others not yet
#[verifier::opaque]
pub open spec fn gl_prog(y: Global, s: Set<u8>, ps: Seq<Pair>) -> bool { absent(sel_gl_unk(), ps) && forall|c: u8| #[trigger] gl_known(c) ==> if s.contains(c) { gl_field(y, c, ps) } else { absent(sel_t(c), ps) } }
pub open spec fn gl_pf(y: Global, s: Set<u8>, ps: Seq<Pair>) -> bool { gl_enc(y) ==> exists|t: Set<u8>| #[trigger] gl_prog(y, t, ps) && forall|c: u8| t.contains(c) == s.contains(c) }
impl VxMap for Global { open spec fn wf(self, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool { gl_wrote(self, c, r0, r1) } open spec fn pf(self, s: Set<u8>, ps: Seq<Pair>) -> bool { gl_pf(self, s, ps) } open spec fn known(self, c: u8) -> bool { gl_known(c) }
  proof fn step(self, s: Set<u8>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) { if gl_enc(self) { let t = choose|t: Set<u8>| #[trigger] gl_prog(self, t, r0) && forall|d: u8| t.contains(d) == s.contains(d); lem_gl_p1(self, t, c, r0, r1); } } }
pub broadcast proof fn lem_gl_p0(y: Global, ps: Seq<Pair>) requires ps.len() == 0 ensures #[trigger] gl_prog(y, Set::empty(), ps) { broadcast use lem_absent0; reveal(gl_prog); }
pub proof fn lem_gl_fseg(y: Global, c: u8, d: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires seg(sel_t(d), r0, r1), c != d, gl_field(y, c, r0) ensures gl_field(y, c, r1) { broadcast use lem_gen_tt; }
pub proof fn lem_gl_fw(y: Global, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires gl_wrote(y, c, r0, r1), absent(sel_t(c), r0), gl_enc(y), gl_known(c) ensures seg(sel_t(c), r0, r1), gl_field(y, c, r1)
{ broadcast use pairs_lemmas, sp_ok, codec_axioms, ax_enc_lock; reveal(gl_enc);
  if c == 0x01 { lem_all_xp(y.xpubs@, r0, r1); }
  if c == 0x03 { assert(wrote_v(y.fallback_lock_time, c, vf_fix::<absolute::LockTime>(4), r0, r1)); } }
pub proof fn lem_gl_p1(y: Global, s: Set<u8>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires gl_prog(y, s, r0), gl_wrote(y, c, r0, r1), gl_known(c), !s.contains(c), gl_enc(y) ensures gl_prog(y, s.insert(c), r1)
{ reveal(gl_prog); lem_gl_fw(y, c, r0, r1); lem_absent_seg(sel_gl_unk(), sel_t(c), r0, r1);
  assert forall|d: u8| #[trigger] gl_known(d) implies if s.insert(c).contains(d) { gl_field(y, d, r1) } else { absent(sel_t(d), r1) } by { if d != c { if s.contains(d) { lem_gl_fseg(y, d, c, r0, r1); } else { lem_absent_seg(sel_t(d), sel_t(c), r0, r1); } } } }
/// the mandatory fields
pub open spec fn gl_must(y: Global, p: Pair) -> bool { p.key.key@.len() == 0 && match p.key.type_value { 0xfb => p.value@ == ser_of(&y.version), 0x02 => p.value@ == ser_of(&y.tx_version), 0x04 => p.value@ == cs(y.input_count as int), 0x05 => p.value@ == cs(y.output_count as int), 0x06 => p.value@.len() == 1 && p.value@[0] == y.tx_modifiable_flags, _ => false } }
pub broadcast proof fn lem_gl_pm(y: Global, s: Set<u8>, r0: Seq<Pair>, p: Pair) requires #[trigger] gl_prog(y, s, r0), !s.contains(p.key.type_value), gl_enc(y), gl_must(y, p) ensures gl_prog(y, s.insert(p.key.type_value), #[trigger] r0.push(p))
{ broadcast use lem_push_drop, codec_axioms, def_ser_version, ax_enc_u32, ax_enc_txv, ax_u8_dec; reveal(gl_enc); lem_vi_round(VarInt(y.input_count as u64)); lem_vi_round(VarInt(y.output_count as u64)); assert(gl_wrote(y, p.key.type_value, r0, r0.push(p))); lem_gl_p1(y, s, p.key.type_value, r0, r0.push(p)); }
/// all fields were written
pub open spec fn gl_all(s: Set<u8>) -> bool { s.contains(0xfb) && s.contains(0x02) && s.contains(0x03) && s.contains(0x04) && s.contains(0x05) && s.contains(0x06) && s.contains(0x01) && s.contains(0xfc) && (sp_on() ==> s.contains(0x07) && s.contains(0x08)) }
pub proof fn lem_gl_pfin(y: Global, s: Set<u8>, r0: Seq<Pair>, r1: Seq<Pair>) requires gl_pf(y, s, r0), wrote_all(y.unknowns@, w_unk(), r0, r1), gl_enc(y), gl_all(s) ensures gl_exact(gl_from(y), r1)
{ broadcast use lem_gen_tu; let t = choose|t: Set<u8>| #[trigger] gl_prog(y, t, r0) && forall|d: u8| t.contains(d) == s.contains(d); reveal(gl_prog); reveal(gl_enc); lem_all_gunk(y.unknowns@, r0, r1); assert forall|c: u8| gl_known(c) implies #[trigger] gl_field(y, c, r0) by { assert(t.contains(c)); }
  if sp_on() { assert(gl_field(y, 0x07, r0)); assert(gl_field(y, 0x08, r0)); }
  lem_gl_sp_fin(y, r0, r1);
  assert(gl_field(y, 0xfb, r0)); assert(gl_field(y, 0x02, r0)); assert(gl_field(y, 0x03, r0)); assert(gl_field(y, 0x04, r0)); assert(gl_field(y, 0x05, r0)); assert(gl_field(y, 0x06, r0)); assert(gl_field(y, 0x01, r0)); assert(gl_field(y, 0xfc, r0)); }
pub proof fn lem_all_gunk(m: Map<Key, Vec<u8>>, r0: Seq<Pair>, r1: Seq<Pair>) requires wrote_all(m, w_unk(), r0, r1), ok_unk(m, sel_gl_unk()), forall|k: Key| #[trigger] m.contains_key(k) ==> k.type_value != 0 ensures seg(sel_gl_unk(), r0, r1), absent(sel_gl_unk(), r0) ==> x_gen(m, sel_gl_unk(), kf_gunk(), vf_any(), r1)
{ let s = choose|s: Seq<(&Key, &Vec<u8>)>| #[trigger] wrote(s, s.len() as int, w_unk(), r0, r1) && entries(s, m);
  assert forall|k: Key, p: Pair| #[trigger] m.contains_key(k) && #[trigger] w_unk()(k, m[k], p) implies sel_gl_unk()(p) && kf_gunk()(p) == Some(k) && vf_any()(p) == Some(m[k]) by { assert(p == Pair { key: k, value: m[k] }); }
  lem_wrote_gen(s, m, w_unk(), sel_gl_unk(), kf_gunk(), vf_any(), r0, r1); }
pub open spec fn gl_sp_set(s: Set<u8>) -> Set<u8> { if sp_on() { s.insert(0x07).insert(0x08) } else { s } }
pub proof fn lem_gl_sp_steps(y: Global, s: Set<u8>, ra: Seq<Pair>, rb: Seq<Pair>, rc: Seq<Pair>)
    requires y.pf(s, ra), !s.contains(0x07), !s.contains(0x08), if sp_on() { gl_sp_wrote(y, 0x07, ra, rb) && gl_sp_wrote(y, 0x08, rb, rc) } else { ra == rc } ensures y.pf(gl_sp_set(s), rc)
{ if sp_on() { assert(y.wf(0x07, ra, rb)); y.step(s, 0x07, ra, rb); assert(y.wf(0x08, rb, rc)); y.step(s.insert(0x07), 0x08, rb, rc); } }
pub broadcast group gl_pairs { lem_wrote0, lem_wrote1, lem_push_drop, lem_gl_p0, lem_gl_pm, lem_xp0, lem_xp1, codec_axioms, ax_enc_vi, ax_fp, lem_cat_take }
pub broadcast proof fn lem_cat0(a: Seq<u8>, b: Seq<u8>) requires a.len() == 0 ensures #[trigger] (a + b) == b { assert(a + b =~= b); }
pub broadcast proof fn lem_take4(f: Fingerprint) ensures (#[trigger] fp_bytes(f)).take(4) == fp_bytes(f) { ax_fp(f); assert(fp_bytes(f).take(4) =~= fp_bytes(f)); }
pub broadcast proof fn lem_cat_take(a: Seq<u8>, b: Seq<u8>) requires a.len() >= 4 ensures (#[trigger] (a + b)).take(4) == a.take(4) { assert((a + b).take(4) =~= a.take(4)); }
}
@fn src/version.rs Version::to_u32
@spec
r => ensures r == self.vx()
@fn src/version.rs Serialize for Version::serialize
@spec
r => ensures r@ == cons_ser::<&u32>(&self.vx())
@entry
broadcast use def_ser_version;
@fn src/v2/map/global.rs Map for Global::get_pairs
@props C09 C10 C12 C23
@attr #[verifier::rlimit(60)]
@inline src/macros.rs v2_impl_psbt_get_pair
@foreach
@rewrite derivation.into_iter() ==> vx_children(derivation)
@rewrite .to_le_bytes() ==> .vx_to_le()
@rewrite fingerprint.as_bytes() ==> fingerprint.vx_as_bytes()
@rewrite .extend( ==> .vx_extend(
@rewrite .clone() ==> .vx_clone()
@rewrite self.proprietaries.iter() ==> &self.proprietaries
@rewrite self.unknowns.iter() ==> &self.unknowns
@loop 1
it => invariant it.iter.obeys_prophetic_iter_laws(), entries(it.seq(), self.xpubs@), wrote(it.seq(), it.index(), w_xp(), vx_rx, rv@)
@loop 2
jt => invariant jt.seq() == dp_seq(*derivation).as_ref(), jt.seq().len() == dp_seq(*derivation).len(), xp_path(ret@, dp_seq(*derivation), jt.index() as int), ret@.len() >= 4, ret@.take(4) == fp_bytes(*fingerprint)
@loop 3
it => invariant it.iter.obeys_prophetic_iter_laws(), entries(it.seq(), self.sp_ecdh_shares@), wrote(it.seq(), it.index(), w_map(0x07), vx_ra, rv@)
@loop 4
it => invariant it.iter.obeys_prophetic_iter_laws(), entries(it.seq(), self.sp_dleq_proofs@), wrote(it.seq(), it.index(), w_map(0x08), vx_rb, rv@)
@loop 5
it => invariant it.iter.obeys_prophetic_iter_laws(), entries(it.seq(), self.proprietaries@), wrote(it.seq(), it.index(), w_prop(), vx_r1, rv@)
@loop 6
it => invariant it.iter.obeys_prophetic_iter_laws(), entries(it.seq(), self.unknowns@), wrote(it.seq(), it.index(), w_unk(), vx_r2, rv@)
@spec
r => ensures gl_enc(*self) ==> gl_exact(gl_from(*self), r@)
@entry
broadcast use gl_pairs, def_says; assert(gl_prog(*self, Set::empty(), Seq::empty()));
@decl
let ghost mut vx_l = Seq::<crate::raw::Pair>::empty(); let ghost mut vx_s = Set::<u8>::empty().insert(0xfb).insert(0x02);
@atloop 1
let ghost vx_rx = rv@; vx_s = vx_s.insert(0x04).insert(0x05).insert(0x06); assert(self.pf(vx_s, vx_rx));
@atloop 3
let ghost vx_ra = rv@; self.step(vx_s, 0x01, vx_rx, vx_ra); vx_s = vx_s.insert(0x01);
@atloop 4
let ghost vx_rb = rv@;
@atloop 5
let ghost vx_r1 = rv@; lem_gl_sp_steps(*self, vx_s, vx_ra, vx_rb, vx_r1); vx_s = gl_sp_set(vx_s);
@atloop 6
let ghost vx_r2 = rv@; self.step(vx_s, 0xfc, vx_r1, vx_r2); vx_s = vx_s.insert(0xfc);
@tail
assert(wrote_all(self.unknowns@, w_unk(), vx_r2, rv@)); if gl_enc(*self) { lem_gl_pfin(*self, vx_s, vx_r2, rv@); }
