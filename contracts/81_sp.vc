@onlyprops C09 C10 C12 C23
@fileprops C23
@mod sp_spec
@broadcast sp_axioms
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::CompressedPublicKey;
use crate::raw::{Key, Pair};
use crate::v2::{Input, Output};
#[cfg(feature = "silent-payments")] use crate::v2::dleq::DleqProof;
verus!{
// ---- silent payments (BIP-375): fields that are there only with the feature ----
#[cfg(feature = "silent-payments")] pub open spec fn sp_on() -> bool { true }
#[cfg(not(feature = "silent-payments"))] pub open spec fn sp_on() -> bool { false }
/// a public key of 33 or 65 bytes (rust-bitcoin)
pub uninterp spec fn cpk_of(b: Seq<u8>) -> Option<CompressedPublicKey>;
pub uninterp spec fn cpk_bytes(k: CompressedPublicKey) -> Seq<u8>;
pub broadcast axiom fn ax_cpk(k: CompressedPublicKey) ensures (#[trigger] cpk_bytes(k)).len() == 33, cpk_of(cpk_bytes(k)) == Some(k);
pub assume_specification [CompressedPublicKey::from_slice] (b: &[u8]) -> (r: Result<CompressedPublicKey, bitcoin::secp256k1::Error>) ensures match r { Ok(x) => cpk_of(b@) == Some(x), Err(_) => cpk_of(b@) is None };
pub assume_specification [CompressedPublicKey::to_bytes] (k: &CompressedPublicKey) -> (r: [u8; 33]) ensures r@ == cpk_bytes(*k);
/// in a PSBT: a compressed key
pub broadcast axiom fn def_de_cpk(b: Seq<u8>) ensures #[trigger] de_of::<CompressedPublicKey>(b) == (if b.len() == 33 { cpk_of(b) } else { None });
pub broadcast axiom fn def_ser_cpk(k: &CompressedPublicKey) ensures #[trigger] ser_of::<&CompressedPublicKey>(k) == cpk_bytes(*k);
pub open spec fn le4(b: Seq<u8>) -> u32 { (b[0] as int + 0x100 * b[1] as int + 0x1_0000 * b[2] as int + 0x100_0000 * b[3] as int) as u32 }
#[verifier::external_body] pub fn vx_from_le(b: [u8; 4]) -> (r: u32) ensures r == le4(b@) { u32::from_le_bytes(b) }
/// a value of n bytes, taken as it is
pub open spec fn vf_len(n: int) -> spec_fn(Pair) -> Option<Vec<u8>> { |p: Pair| if p.value@.len() == n { Some(p.value) } else { None } }
/// a value of four bytes, little endian
pub open spec fn vf_le4() -> spec_fn(Pair) -> Option<u32> { |p: Pair| if p.value@.len() == 4 { Some(le4(p.value@)) } else { None } }
#[cfg(feature = "silent-payments")] verus!{
/// a DLEQ proof is 64 bytes
pub uninterp spec fn dleq_of(b: Seq<u8>) -> Option<DleqProof>;
pub broadcast axiom fn ax_dleq(d: DleqProof) ensures dleq_of(#[trigger] d.0@) == Some(d);
pub broadcast axiom fn ax_dleq_len(b: Seq<u8>) ensures #[trigger] dleq_of(b) is Some <==> b.len() == 64;
pub broadcast axiom fn def_de_dleq(b: Seq<u8>) ensures #[trigger] de_of::<DleqProof>(b) == dleq_of(b);
pub broadcast axiom fn def_ser_dleq(k: &DleqProof) ensures #[trigger] ser_of::<&DleqProof>(k) == k.0@;
pub open spec fn in_sp_ok(x: Input, p: Pair) -> bool { if p.key.type_value == 0x1d { map_ok::<CompressedPublicKey, CompressedPublicKey>(x.sp_ecdh_shares@, p) } else { map_ok::<CompressedPublicKey, DleqProof>(x.sp_dleq_proofs@, p) } }
pub open spec fn in_sp_ins(x: Input, p: Pair, y: Input) -> bool {
    if p.key.type_value == 0x1d { y == (Input { sp_ecdh_shares: y.sp_ecdh_shares, ..x }) && map_set(x.sp_ecdh_shares@, p, y.sp_ecdh_shares@) } else { y == (Input { sp_dleq_proofs: y.sp_dleq_proofs, ..x }) && map_set(x.sp_dleq_proofs@, p, y.sp_dleq_proofs@) } }
pub open spec fn out_sp_ok(x: Output, p: Pair) -> bool { p.key.key@.len() == 0 && if p.key.type_value == 0x09 { x.sp_v0_info is None && p.value@.len() == 66 } else { x.sp_v0_label is None && p.value@.len() == 4 } }
pub open spec fn out_sp_ins(x: Output, p: Pair, y: Output) -> bool { if p.key.type_value == 0x09 { y == (Output { sp_v0_info: Some(p.value), ..x }) } else { y == (Output { sp_v0_label: Some(le4(p.value@)), ..x }) } }
/// shares come with proofs
pub open spec fn in_sp_fin(x: Input) -> bool { x.sp_ecdh_shares@.is_empty() == x.sp_dleq_proofs@.is_empty() }
/// a label comes with an address
pub open spec fn out_sp_fin(x: Output) -> bool { x.sp_v0_label is Some ==> x.sp_v0_info is Some }
}
#[cfg(not(feature = "silent-payments"))] verus!{
pub open spec fn in_sp_ok(x: Input, p: Pair) -> bool { true }
pub open spec fn in_sp_ins(x: Input, p: Pair, y: Input) -> bool { true }
pub open spec fn out_sp_ok(x: Output, p: Pair) -> bool { true }
pub open spec fn out_sp_ins(x: Output, p: Pair, y: Output) -> bool { true }
pub open spec fn in_sp_fin(x: Input) -> bool { true }
pub open spec fn out_sp_fin(x: Output) -> bool { true }
}
pub open spec fn in_sp_t(c: u8) -> bool { sp_on() && (c == 0x1d || c == 0x1e) }
pub open spec fn out_sp_t(c: u8) -> bool { sp_on() && (c == 0x09 || c == 0x0a) }
#[cfg(not(feature = "silent-payments"))] verus!{ pub broadcast group sp_axioms { ax_cpk, def_de_cpk, def_ser_cpk } }
#[cfg(feature = "silent-payments")] verus!{ pub broadcast group sp_axioms { ax_cpk, def_de_cpk, def_ser_cpk, ax_dleq, ax_dleq_len, def_de_dleq, def_ser_dleq } }
}
@macro src/macros.rs v2_impl_psbt_insert_sp_pair
@replace .map_err(|_| ==> .map_err(|vx_e|
@const src/consts.rs PSBT_IN_SP_ECDH_SHARE
@spec
ensures PSBT_IN_SP_ECDH_SHARE == 0x1d
@const src/consts.rs PSBT_IN_SP_DLEQ
@spec
ensures PSBT_IN_SP_DLEQ == 0x1e
@const src/consts.rs PSBT_OUT_SP_V0_INFO
@spec
ensures PSBT_OUT_SP_V0_INFO == 0x09
@const src/consts.rs PSBT_OUT_SP_V0_LABEL
@spec
ensures PSBT_OUT_SP_V0_LABEL == 0x0a
@append src/v2/dleq.rs
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a [u8]> for DleqProof { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(k: &'a [u8]) -> Result<Self, InvalidLengthError> { arbitrary() } }
@fn src/v2/dleq.rs TryFrom<&[u8]> for DleqProof::try_from
@trust
@spec
r => ensures match r { Ok(x) => dleq_of(slice@) == Some(x), Err(_) => dleq_of(slice@) is None }
@fn src/v2/dleq.rs DleqProof::as_bytes
@spec
r => ensures r@ == self.0@
