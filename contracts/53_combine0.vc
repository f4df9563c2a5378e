@fileprops C08
@mod combine0_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use crate::v0::bitcoin::{Psbt, Input, Output};
verus!{
pub open spec fn input0_merge(a: Input, b: Input, r: Input) -> bool {
    om(a.non_witness_utxo, b.non_witness_utxo, r.non_witness_utxo) && om(a.witness_utxo, b.witness_utxo, r.witness_utxo)
    && mm(a.partial_sigs@, b.partial_sigs@, r.partial_sigs@) && om(a.sighash_type, b.sighash_type, r.sighash_type)
    && om(a.redeem_script, b.redeem_script, r.redeem_script) && om(a.witness_script, b.witness_script, r.witness_script)
    && mm(a.bip32_derivation@, b.bip32_derivation@, r.bip32_derivation@)
    && om(a.final_script_sig, b.final_script_sig, r.final_script_sig) && om(a.final_script_witness, b.final_script_witness, r.final_script_witness)
    && mm(a.ripemd160_preimages@, b.ripemd160_preimages@, r.ripemd160_preimages@) && mm(a.sha256_preimages@, b.sha256_preimages@, r.sha256_preimages@)
    && mm(a.hash160_preimages@, b.hash160_preimages@, r.hash160_preimages@) && mm(a.hash256_preimages@, b.hash256_preimages@, r.hash256_preimages@)
    && om(a.tap_key_sig, b.tap_key_sig, r.tap_key_sig) && mm(a.tap_script_sigs@, b.tap_script_sigs@, r.tap_script_sigs@)
    && mm(a.tap_scripts@, b.tap_scripts@, r.tap_scripts@) && mm(a.tap_key_origins@, b.tap_key_origins@, r.tap_key_origins@)
    && om(a.tap_internal_key, b.tap_internal_key, r.tap_internal_key) && om(a.tap_merkle_root, b.tap_merkle_root, r.tap_merkle_root)
    && mm(a.proprietary@, b.proprietary@, r.proprietary@) && mm(a.unknown@, b.unknown@, r.unknown@)
}
pub open spec fn output0_merge(a: Output, b: Output, r: Output) -> bool {
    om(a.redeem_script, b.redeem_script, r.redeem_script) && om(a.witness_script, b.witness_script, r.witness_script)
    && mm(a.bip32_derivation@, b.bip32_derivation@, r.bip32_derivation@) && om(a.tap_internal_key, b.tap_internal_key, r.tap_internal_key)
    && om(a.tap_tree, b.tap_tree, r.tap_tree) && mm(a.tap_key_origins@, b.tap_key_origins@, r.tap_key_origins@)
    && mm(a.proprietary@, b.proprietary@, r.proprietary@) && mm(a.unknown@, b.unknown@, r.unknown@)
}
pub open spec fn psbt0_merge(a: Psbt, b: Psbt, r: Psbt) -> bool {
    a.unsigned_tx == b.unsigned_tx && r.unsigned_tx == a.unsigned_tx && r.version == (if a.version >= b.version { a.version } else { b.version })
    && xp_merge(a.xpub@, b.xpub@, r.xpub@) && mm(a.proprietary@, b.proprietary@, r.proprietary@) && mm(a.unknown@, b.unknown@, r.unknown@)
    && r.inputs@.len() == a.inputs@.len() && r.outputs@.len() == a.outputs@.len()
    && (forall|i: int| #![trigger r.inputs@[i]] 0 <= i < min2(a.inputs@.len(), b.inputs@.len()) ==> input0_merge(a.inputs@[i], b.inputs@[i], r.inputs@[i]))
    && (forall|i: int| #![trigger r.outputs@[i]] 0 <= i < min2(a.outputs@.len(), b.outputs@.len()) ==> output0_merge(a.outputs@[i], b.outputs@[i], r.outputs@[i]))
}
}
@macro src/v0/bitcoin/macros.rs combine
@replace if let (&None, Some($thing)) = (&$slf.$thing, ==> let vx_field = &mut $slf.$thing; if let (None, Some($thing)) = (&*vx_field,
@replace { $slf.$thing = ==> { *vx_field =
@fn src/v0/bitcoin/map/input.rs Input::combine
@replace .extend( ==> .vx_extend(
@spec
ensures input0_merge(*old(self), other, *final(self))
@fn src/v0/bitcoin/map/output.rs Output::combine
@replace .extend( ==> .vx_extend(
@spec
ensures output0_merge(*old(self), other, *final(self))
@fn src/v0/bitcoin/mod.rs Psbt::combine
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
r => ensures r is Ok <==> old(self).unsigned_tx == other.unsigned_tx && xp_ok(old(self).xpub@, other.xpub@), r is Ok ==> psbt0_merge(*old(self), other, *final(self)),
  r is Err ==> final(self).inputs == old(self).inputs && final(self).outputs == old(self).outputs && final(self).unsigned_tx == old(self).unsigned_tx
@replace .extend( ==> .vx_extend(
@replace derivation1[..] == derivation2[derivation2.len() - derivation1.len()..] ==> derivation1.vx_eq_from(&derivation2, derivation2.len() - derivation1.len())
@replace derivation2[..] == derivation1[derivation1.len() - derivation2.len()..] ==> derivation2.vx_eq_from(&derivation1, derivation1.len() - derivation2.len())
@replace entry.get().clone() ==> entry.get().vx_clone()
@desugar 1
@loop 1
invariant self.inputs == old(self).inputs, self.outputs == old(self).outputs, self.unsigned_tx == old(self).unsigned_tx, self.proprietary == old(self).proprietary, self.unknown == old(self).unknown,
  vx_it1.obeys_prophetic_iter_laws(), vx_it1.decrease() is Some, rest_of(vx_it1, bt_into_iter(other.xpub)),
  forall|i: int| 0 <= i < done_of(vx_it1, bt_into_iter(other.xpub)) ==> xp_one(old(self).xpub@, other.xpub@, self.xpub@, (#[trigger] bt_into_iter(other.xpub).remaining()[i]).0),
  forall|k: bitcoin::bip32::Xpub| #![trigger self.xpub@.contains_key(k)] (forall|i: int| 0 <= i < done_of(vx_it1, bt_into_iter(other.xpub)) ==> (#[trigger] bt_into_iter(other.xpub).remaining()[i]).0 != k) ==> (self.xpub@.contains_key(k) <==> old(self).xpub@.contains_key(k)) && (self.xpub@.contains_key(k) ==> self.xpub@[k] == old(self).xpub@[k])
  ensures vx_it1.remaining().len() == 0, vx_it1.will_return_none()
  decreases vx_it1.decrease()->0
@loop 2
it => invariant it.iter.obeys_prophetic_iter_laws(), it.index() <= it.seq().len(), it.seq().len() == min2(old(self).inputs@.len(), other.inputs@.len()),
  forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]).0 == old(self).inputs@[k] && it.seq()[k].1 == other.inputs@[k],
  forall|k: int| #![trigger it.seq()[k]] #![trigger old(self).inputs@[k]] #![trigger other.inputs@[k]] 0 <= k < it.index() ==> input0_merge(old(self).inputs@[k], other.inputs@[k], *final(it.seq()[k].0))
@loop 3
it => invariant it.iter.obeys_prophetic_iter_laws(), it.index() <= it.seq().len(), it.seq().len() == min2(old(self).outputs@.len(), other.outputs@.len()),
  forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]).0 == old(self).outputs@[k] && it.seq()[k].1 == other.outputs@[k],
  forall|k: int| #![trigger it.seq()[k]] #![trigger old(self).outputs@[k]] #![trigger other.outputs@[k]] 0 <= k < it.index() ==> output0_merge(old(self).outputs@[k], other.outputs@[k], *final(it.seq()[k].0))
