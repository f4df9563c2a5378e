@fileprops C07 C23
@mod combine_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use crate::v2::{Psbt, Global, Input, Output};
verus!{
#[cfg(feature = "silent-payments")]
pub open spec fn sp_in_merge(a: Input, b: Input, r: Input) -> bool { mm(a.sp_ecdh_shares@, b.sp_ecdh_shares@, r.sp_ecdh_shares@) && mm(a.sp_dleq_proofs@, b.sp_dleq_proofs@, r.sp_dleq_proofs@) }
#[cfg(not(feature = "silent-payments"))]
pub open spec fn sp_in_merge(a: Input, b: Input, r: Input) -> bool { true }
#[cfg(feature = "silent-payments")]
pub open spec fn sp_out_merge(a: Output, b: Output, r: Output) -> bool { om(a.sp_v0_info, b.sp_v0_info, r.sp_v0_info) && om(a.sp_v0_label, b.sp_v0_label, r.sp_v0_label) }
#[cfg(not(feature = "silent-payments"))]
pub open spec fn sp_out_merge(a: Output, b: Output, r: Output) -> bool { true }
#[cfg(feature = "silent-payments")]
pub open spec fn sp_global_merge(a: Global, b: Global, r: Global) -> bool { mm(a.sp_ecdh_shares@, b.sp_ecdh_shares@, r.sp_ecdh_shares@) && mm(a.sp_dleq_proofs@, b.sp_dleq_proofs@, r.sp_dleq_proofs@) }
#[cfg(not(feature = "silent-payments"))]
pub open spec fn sp_global_merge(a: Global, b: Global, r: Global) -> bool { true }
pub open spec fn same_out_point(a: Input, b: Input) -> bool { a.previous_txid == b.previous_txid && a.spent_output_index == b.spent_output_index }
pub open spec fn input_merge(a: Input, b: Input, r: Input) -> bool {
    same_out_point(a, b) && same_out_point(a, r)
    && om(a.sequence, b.sequence, r.sequence) && om(a.min_time, b.min_time, r.min_time) && om(a.min_height, b.min_height, r.min_height)
    && om(a.non_witness_utxo, b.non_witness_utxo, r.non_witness_utxo) && om(a.witness_utxo, b.witness_utxo, r.witness_utxo)
    && mm(a.partial_sigs@, b.partial_sigs@, r.partial_sigs@) && om(a.sighash_type, b.sighash_type, r.sighash_type)
    && om(a.redeem_script, b.redeem_script, r.redeem_script) && om(a.witness_script, b.witness_script, r.witness_script)
    && mm(a.bip32_derivations@, b.bip32_derivations@, r.bip32_derivations@)
    && om(a.final_script_sig, b.final_script_sig, r.final_script_sig) && om(a.final_script_witness, b.final_script_witness, r.final_script_witness)
    && mm(a.ripemd160_preimages@, b.ripemd160_preimages@, r.ripemd160_preimages@) && mm(a.sha256_preimages@, b.sha256_preimages@, r.sha256_preimages@)
    && mm(a.hash160_preimages@, b.hash160_preimages@, r.hash160_preimages@) && mm(a.hash256_preimages@, b.hash256_preimages@, r.hash256_preimages@)
    && om(a.tap_key_sig, b.tap_key_sig, r.tap_key_sig) && mm(a.tap_script_sigs@, b.tap_script_sigs@, r.tap_script_sigs@)
    && mm(a.tap_scripts@, b.tap_scripts@, r.tap_scripts@) && mm(a.tap_key_origins@, b.tap_key_origins@, r.tap_key_origins@)
    && om(a.tap_internal_key, b.tap_internal_key, r.tap_internal_key) && om(a.tap_merkle_root, b.tap_merkle_root, r.tap_merkle_root)
    && mm(a.proprietaries@, b.proprietaries@, r.proprietaries@) && mm(a.unknowns@, b.unknowns@, r.unknowns@) && sp_in_merge(a, b, r)
}
pub open spec fn same_output(a: Output, b: Output) -> bool { a.amount == b.amount && a.script_pubkey == b.script_pubkey }
pub open spec fn output_merge(a: Output, b: Output, r: Output) -> bool {
    same_output(a, b) && same_output(a, r)
    && om(a.redeem_script, b.redeem_script, r.redeem_script) && om(a.witness_script, b.witness_script, r.witness_script)
    && mm(a.bip32_derivations@, b.bip32_derivations@, r.bip32_derivations@) && om(a.tap_internal_key, b.tap_internal_key, r.tap_internal_key)
    && om(a.tap_tree, b.tap_tree, r.tap_tree) && mm(a.tap_key_origins@, b.tap_key_origins@, r.tap_key_origins@)
    && mm(a.proprietaries@, b.proprietaries@, r.proprietaries@) && mm(a.unknowns@, b.unknowns@, r.unknowns@) && sp_out_merge(a, b, r)
}
// ---- the global map ----
pub open spec fn same_global(a: Global, b: Global) -> bool { a.version == b.version && a.tx_version == b.tx_version && a.input_count == b.input_count && a.output_count == b.output_count }
/// bits 0 and 1 (modifiable) only if set in both, every other bit if set in either
pub open spec fn flags_merge(a: u8, b: u8, r: u8) -> bool { r == ((a & b & 3) | ((a | b) & 0xFC)) }
pub open spec fn global_rest(a: Global, r: Global) -> bool {
    same_global(a, r) && a.fallback_lock_time == r.fallback_lock_time && a.tx_modifiable_flags == r.tx_modifiable_flags && a.proprietaries == r.proprietaries && a.unknowns == r.unknowns && sp_global_same(a, r)
}
#[cfg(feature = "silent-payments")]
pub open spec fn sp_global_same(a: Global, r: Global) -> bool { a.sp_ecdh_shares == r.sp_ecdh_shares && a.sp_dleq_proofs == r.sp_dleq_proofs }
#[cfg(not(feature = "silent-payments"))]
pub open spec fn sp_global_same(a: Global, r: Global) -> bool { true }
pub open spec fn global_merge(a: Global, b: Global, r: Global) -> bool {
    same_global(a, b) && same_global(a, r) && xp_merge(a.xpubs@, b.xpubs@, r.xpubs@) && om(a.fallback_lock_time, b.fallback_lock_time, r.fallback_lock_time)
    && flags_merge(a.tx_modifiable_flags, b.tx_modifiable_flags, r.tx_modifiable_flags)
    && mm(a.proprietaries@, b.proprietaries@, r.proprietaries@) && mm(a.unknowns@, b.unknowns@, r.unknowns@) && sp_global_merge(a, b, r)
}
/// the two describe the same transaction (with the counts right, a and b have equally many inputs and outputs)
pub open spec fn same_tx(a: Psbt, b: Psbt) -> bool {
    same_global(a.global, b.global) && xp_ok(a.global.xpubs@, b.global.xpubs@)
    && (forall|k: int| #![trigger a.inputs@[k]] #![trigger b.inputs@[k]] 0 <= k < min2(a.inputs@.len(), b.inputs@.len()) ==> same_out_point(a.inputs@[k], b.inputs@[k]))
    && (forall|k: int| #![trigger a.outputs@[k]] #![trigger b.outputs@[k]] 0 <= k < min2(a.outputs@.len(), b.outputs@.len()) ==> same_output(a.outputs@[k], b.outputs@[k]))
}
pub open spec fn psbt_merge(a: Psbt, b: Psbt, r: Psbt) -> bool {
    global_merge(a.global, b.global, r.global) && r.inputs@.len() == a.inputs@.len() && r.outputs@.len() == a.outputs@.len()
    && (forall|k: int| #![trigger r.inputs@[k]] 0 <= k < min2(a.inputs@.len(), b.inputs@.len()) ==> input_merge(a.inputs@[k], b.inputs@[k], r.inputs@[k]))
    && (forall|k: int| #![trigger r.outputs@[k]] 0 <= k < min2(a.outputs@.len(), b.outputs@.len()) ==> output_merge(a.outputs@[k], b.outputs@[k], r.outputs@[k]))
}
/// what the property says: nothing is lost, at PSBT level, once the counts are right
pub proof fn lem_combine_counts(a: Psbt, b: Psbt, r: Psbt)
    requires a.global.input_count == a.inputs@.len(), b.global.input_count == b.inputs@.len(), a.global.output_count == a.outputs@.len(), b.global.output_count == b.outputs@.len(), psbt_merge(a, b, r)
    ensures r.global.input_count == r.inputs@.len(), r.global.output_count == r.outputs@.len(), r.inputs@.len() == b.inputs@.len(), r.outputs@.len() == b.outputs@.len() {}
}
@type src/v2/map/input.rs CombineError
@type src/v2/map/output.rs CombineError
@macro src/macros.rs v2_combine_option
@replace if let (&None, Some($thing)) = (&$slf.$thing, ==> let vx_field = &mut $slf.$thing; if let (None, Some($thing)) = (&*vx_field,
@replace { $slf.$thing = ==> { *vx_field =
@macro src/macros.rs v2_combine_map
@replace .extend( ==> .vx_extend(
@fn src/v2/map/input.rs Input::combine
@spec
r => ensures r is Ok <==> same_out_point(*old(self), other), r is Ok ==> input_merge(*old(self), other, *final(self)), r is Err ==> *final(self) == *old(self)
@fn src/v2/map/output.rs Output::combine
@spec
r => ensures r is Ok <==> same_output(*old(self), other), r is Ok ==> output_merge(*old(self), other, *final(self)), r is Err ==> *final(self) == *old(self)

@type src/error.rs InconsistentKeySourcesError
@type src/v2/map/global.rs CombineError
@fn src/v2/map/global.rs From<InconsistentKeySourcesError> for CombineError::from
@spec
r => ensures r == CombineError::InconsistentKeySources(e)
@append src/v2/map/global.rs
impl vstd::std_specs::convert::FromSpecImpl<InconsistentKeySourcesError> for CombineError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: InconsistentKeySourcesError) -> Self { CombineError::InconsistentKeySources(e) } }
@fn src/v2/map/global.rs Global::combine
@spec
r => ensures r is Ok <==> same_global(*old(self), other) && xp_ok(old(self).xpubs@, other.xpubs@), r is Ok ==> global_merge(*old(self), other, *final(self))
@replace derivation1[..] == derivation2[derivation2.len() - derivation1.len()..] ==> derivation1.vx_eq_from(&derivation2, derivation2.len() - derivation1.len())
@replace derivation2[..] == derivation1[derivation1.len() - derivation2.len()..] ==> derivation2.vx_eq_from(&derivation1, derivation1.len() - derivation2.len())
@replace entry.get().clone() ==> entry.get().vx_clone()
@desugar 1
@loop 1
invariant global_rest(*old(self), *self), vx_it1.obeys_prophetic_iter_laws(), vx_it1.decrease() is Some, rest_of(vx_it1, bt_into_iter(other.xpubs)),
  forall|i: int| 0 <= i < done_of(vx_it1, bt_into_iter(other.xpubs)) ==> xp_one(old(self).xpubs@, other.xpubs@, self.xpubs@, (#[trigger] bt_into_iter(other.xpubs).remaining()[i]).0),
  forall|k: bitcoin::bip32::Xpub| #![trigger self.xpubs@.contains_key(k)] (forall|i: int| 0 <= i < done_of(vx_it1, bt_into_iter(other.xpubs)) ==> (#[trigger] bt_into_iter(other.xpubs).remaining()[i]).0 != k) ==> (self.xpubs@.contains_key(k) <==> old(self).xpubs@.contains_key(k)) && (self.xpubs@.contains_key(k) ==> self.xpubs@[k] == old(self).xpubs@[k])
  ensures vx_it1.remaining().len() == 0, vx_it1.will_return_none()
  decreases vx_it1.decrease()->0
@after let modifiable = INPUTS_MODIFIABLE | OUTPUTS_MODIFIABLE;
let a = old(self).tx_modifiable_flags; let b = other.tx_modifiable_flags; let m = modifiable;
lem_bits(); assert(1u8 | 2u8 == 3u8) by (bit_vector);
assert(((a & b) | ((a | b) & !m)) == ((a & b & 3) | ((a | b) & 0xFC))) by (bit_vector) requires m == 3;
@type src/v2/mod.rs CombineError
@append src/v2/mod.rs
impl vstd::std_specs::convert::FromSpecImpl<global::CombineError> for CombineError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: global::CombineError) -> Self { CombineError::Global(e) } }
impl vstd::std_specs::convert::FromSpecImpl<input::CombineError> for CombineError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: input::CombineError) -> Self { CombineError::Input(e) } }
impl vstd::std_specs::convert::FromSpecImpl<output::CombineError> for CombineError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: output::CombineError) -> Self { CombineError::Output(e) } }
@fn src/v2/mod.rs From<global::CombineError> for CombineError::from
@spec
r => ensures r == CombineError::Global(e)
@fn src/v2/mod.rs From<input::CombineError> for CombineError::from
@spec
r => ensures r == CombineError::Input(e)
@fn src/v2/mod.rs From<output::CombineError> for CombineError::from
@spec
r => ensures r == CombineError::Output(e)
@fn src/v2/mod.rs Psbt::combine_with
@attr #[verifier::loop_isolation(false)]
@spec
r => ensures r is Ok <==> same_tx(self, other), r is Ok ==> psbt_merge(self, other, r->Ok_0)
@loop 1
it => invariant it.iter.obeys_prophetic_iter_laws(), it.index() <= it.seq().len(), it.seq().len() == min2(self.inputs@.len(), other.inputs@.len()),
  forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]).0 == self.inputs@[k] && it.seq()[k].1 == other.inputs@[k],
  forall|k: int| #![trigger it.seq()[k]] #![trigger self.inputs@[k]] #![trigger other.inputs@[k]] 0 <= k < it.index() ==> input_merge(self.inputs@[k], other.inputs@[k], *final(it.seq()[k].0))
@loop 2
it => invariant it.iter.obeys_prophetic_iter_laws(), it.index() <= it.seq().len(), it.seq().len() == min2(self.outputs@.len(), other.outputs@.len()),
  forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]).0 == self.outputs@[k] && it.seq()[k].1 == other.outputs@[k],
  forall|k: int| #![trigger it.seq()[k]] #![trigger self.outputs@[k]] #![trigger other.outputs@[k]] 0 <= k < it.index() ==> output_merge(self.outputs@[k], other.outputs@[k], *final(it.seq()[k].0))
@fn src/v2/mod.rs combine
@spec
r => ensures r is Ok <==> same_tx(this, that), r is Ok ==> psbt_merge(this, that, r->Ok_0)
