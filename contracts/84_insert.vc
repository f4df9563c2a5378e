@onlyprops C09 C10 C12 C23
@fileprops C09 C10 C12 C23
@mod insert_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{absolute, ecdsa, taproot, transaction, Amount, ScriptBuf, Sequence, Transaction, TxOut, Txid, Witness, PublicKey, XOnlyPublicKey, TapLeafHash, TapNodeHash, secp256k1};
use bitcoin::hashes::{self, hash160, sha256, sha256d, ripemd160};
use crate::raw::{Key, Pair, ProprietaryKey};
use crate::v2::{Input, Output};
use crate::v2::output::InsertPairError as OutputInsertPairError;
verus!{
// ---- what one pair does to a field (BIP-174) ----
/// a field without key data: it is set once, by a well-formed value
pub open spec fn val_ok<T>(p: Pair) -> bool { p.key.key@.len() == 0 && de_of::<T>(p.value@) is Some }
pub open spec fn opt_ok<T>(o: Option<T>, p: Pair) -> bool { val_ok::<T>(p) && o is None }
pub open spec fn opt_set<T>(p: Pair, n: Option<T>) -> bool { n == de_of::<T>(p.value@) }
/// a field with key data: every key once, with a well-formed value
pub open spec fn map_ok<K, V>(m: Map<K, V>, p: Pair) -> bool { p.key.key@.len() > 0 && de_of::<K>(p.key.key@) is Some && !m.contains_key(de_of::<K>(p.key.key@)->0) && de_of::<V>(p.value@) is Some }
pub open spec fn map_set<K, V>(m: Map<K, V>, p: Pair, n: Map<K, V>) -> bool { n == m.insert(de_of::<K>(p.key.key@)->0, de_of::<V>(p.value@)->0) }
pub open spec fn prop_ok(m: Map<ProprietaryKey, Vec<u8>>, p: Pair) -> bool { cons_de::<ProprietaryKey>(p.key.key@) is Some && !m.contains_key(cons_de::<ProprietaryKey>(p.key.key@)->0) }
pub open spec fn prop_set(m: Map<ProprietaryKey, Vec<u8>>, p: Pair, n: Map<ProprietaryKey, Vec<u8>>) -> bool { n == m.insert(cons_de::<ProprietaryKey>(p.key.key@)->0, p.value) }
#[verifier::external_type_specification] pub struct ExOIPE(OutputInsertPairError);
/// when an input takes a pair; t and i say whether the previous txid and the output index came before
pub open spec fn in_ok(x: Input, t: bool, i: bool, p: Pair) -> bool {
    match p.key.type_value {
        0x0e => !t && val_ok::<Txid>(p),
        0x0f => !i && val_ok::<u32>(p),
        0x10 => opt_ok(x.sequence, p),
        0x11 => opt_ok(x.min_time, p),
        0x12 => opt_ok(x.min_height, p),
        0x00 => opt_ok(x.non_witness_utxo, p),
        0x01 => opt_ok(x.witness_utxo, p),
        0x02 => map_ok(x.partial_sigs@, p),
        0x03 => opt_ok(x.sighash_type, p),
        0x04 => opt_ok(x.redeem_script, p),
        0x05 => opt_ok(x.witness_script, p),
        0x06 => map_ok(x.bip32_derivations@, p),
        0x07 => opt_ok(x.final_script_sig, p),
        0x08 => opt_ok(x.final_script_witness, p),
        0x0a => hash_ok(x.ripemd160_preimages@, p.key, p.value@),
        0x0b => hash_ok(x.sha256_preimages@, p.key, p.value@),
        0x0c => hash_ok(x.hash160_preimages@, p.key, p.value@),
        0x0d => hash_ok(x.hash256_preimages@, p.key, p.value@),
        0x13 => opt_ok(x.tap_key_sig, p),
        0x14 => map_ok(x.tap_script_sigs@, p),
        0x15 => map_ok(x.tap_scripts@, p),
        0x16 => map_ok(x.tap_key_origins@, p),
        0x17 => opt_ok(x.tap_internal_key, p),
        0x18 => opt_ok(x.tap_merkle_root, p),
        0xfc => prop_ok(x.proprietaries@, p),
        c => if in_sp_t(c) { in_sp_ok(x, p) } else { !x.unknowns@.contains_key(p.key) },
    }
}
/// the input after the pair
pub open spec fn in_ins(x: Input, p: Pair, y: Input) -> bool {
    match p.key.type_value {
        0x0e => y == (Input { previous_txid: y.previous_txid, ..x }) && de_of::<Txid>(p.value@) == Some(y.previous_txid),
        0x0f => y == (Input { spent_output_index: y.spent_output_index, ..x }) && de_of::<u32>(p.value@) == Some(y.spent_output_index),
        0x10 => y == (Input { sequence: y.sequence, ..x }) && opt_set(p, y.sequence),
        0x11 => y == (Input { min_time: y.min_time, ..x }) && opt_set(p, y.min_time),
        0x12 => y == (Input { min_height: y.min_height, ..x }) && opt_set(p, y.min_height),
        0x00 => y == (Input { non_witness_utxo: y.non_witness_utxo, ..x }) && opt_set(p, y.non_witness_utxo),
        0x01 => y == (Input { witness_utxo: y.witness_utxo, ..x }) && opt_set(p, y.witness_utxo),
        0x02 => y == (Input { partial_sigs: y.partial_sigs, ..x }) && map_set(x.partial_sigs@, p, y.partial_sigs@),
        0x03 => y == (Input { sighash_type: y.sighash_type, ..x }) && opt_set(p, y.sighash_type),
        0x04 => y == (Input { redeem_script: y.redeem_script, ..x }) && opt_set(p, y.redeem_script),
        0x05 => y == (Input { witness_script: y.witness_script, ..x }) && opt_set(p, y.witness_script),
        0x06 => y == (Input { bip32_derivations: y.bip32_derivations, ..x }) && map_set(x.bip32_derivations@, p, y.bip32_derivations@),
        0x07 => y == (Input { final_script_sig: y.final_script_sig, ..x }) && opt_set(p, y.final_script_sig),
        0x08 => y == (Input { final_script_witness: y.final_script_witness, ..x }) && opt_set(p, y.final_script_witness),
        0x0a => y == (Input { ripemd160_preimages: y.ripemd160_preimages, ..x }) && hash_set(x.ripemd160_preimages@, p, y.ripemd160_preimages@),
        0x0b => y == (Input { sha256_preimages: y.sha256_preimages, ..x }) && hash_set(x.sha256_preimages@, p, y.sha256_preimages@),
        0x0c => y == (Input { hash160_preimages: y.hash160_preimages, ..x }) && hash_set(x.hash160_preimages@, p, y.hash160_preimages@),
        0x0d => y == (Input { hash256_preimages: y.hash256_preimages, ..x }) && hash_set(x.hash256_preimages@, p, y.hash256_preimages@),
        0x13 => y == (Input { tap_key_sig: y.tap_key_sig, ..x }) && opt_set(p, y.tap_key_sig),
        0x14 => y == (Input { tap_script_sigs: y.tap_script_sigs, ..x }) && map_set(x.tap_script_sigs@, p, y.tap_script_sigs@),
        0x15 => y == (Input { tap_scripts: y.tap_scripts, ..x }) && map_set(x.tap_scripts@, p, y.tap_scripts@),
        0x16 => y == (Input { tap_key_origins: y.tap_key_origins, ..x }) && map_set(x.tap_key_origins@, p, y.tap_key_origins@),
        0x17 => y == (Input { tap_internal_key: y.tap_internal_key, ..x }) && opt_set(p, y.tap_internal_key),
        0x18 => y == (Input { tap_merkle_root: y.tap_merkle_root, ..x }) && opt_set(p, y.tap_merkle_root),
        0xfc => y == (Input { proprietaries: y.proprietaries, ..x }) && prop_set(x.proprietaries@, p, y.proprietaries@),
        c => if in_sp_t(c) { in_sp_ins(x, p, y) } else { y == (Input { unknowns: y.unknowns, ..x }) && y.unknowns@ == x.unknowns@.insert(p.key, p.value) },
    }
}
/// when an output takes a pair; t and i say whether the amount and the script came before
pub open spec fn out_ok(x: Output, t: bool, i: bool, p: Pair) -> bool {
    match p.key.type_value {
        0x03 => !t && val_ok::<Amount>(p),
        0x04 => !i && val_ok::<ScriptBuf>(p),
        0x00 => opt_ok(x.redeem_script, p),
        0x01 => opt_ok(x.witness_script, p),
        0x02 => map_ok(x.bip32_derivations@, p),
        0x05 => opt_ok(x.tap_internal_key, p),
        0x06 => opt_ok(x.tap_tree, p),
        0x07 => map_ok(x.tap_key_origins@, p),
        0xfc => prop_ok(x.proprietaries@, p),
        c => if out_sp_t(c) { out_sp_ok(x, p) } else { !x.unknowns@.contains_key(p.key) },
    }
}
/// the output after the pair
pub open spec fn out_ins(x: Output, p: Pair, y: Output) -> bool {
    match p.key.type_value {
        0x03 => y == (Output { amount: y.amount, ..x }) && de_of::<Amount>(p.value@) == Some(y.amount),
        0x04 => y == (Output { script_pubkey: y.script_pubkey, ..x }) && de_of::<ScriptBuf>(p.value@) == Some(y.script_pubkey),
        0x00 => y == (Output { redeem_script: y.redeem_script, ..x }) && opt_set(p, y.redeem_script),
        0x01 => y == (Output { witness_script: y.witness_script, ..x }) && opt_set(p, y.witness_script),
        0x02 => y == (Output { bip32_derivations: y.bip32_derivations, ..x }) && map_set(x.bip32_derivations@, p, y.bip32_derivations@),
        0x05 => y == (Output { tap_internal_key: y.tap_internal_key, ..x }) && opt_set(p, y.tap_internal_key),
        0x06 => y == (Output { tap_tree: y.tap_tree, ..x }) && opt_set(p, y.tap_tree),
        0x07 => y == (Output { tap_key_origins: y.tap_key_origins, ..x }) && map_set(x.tap_key_origins@, p, y.tap_key_origins@),
        0xfc => y == (Output { proprietaries: y.proprietaries, ..x }) && prop_set(x.proprietaries@, p, y.proprietaries@),
        c => if out_sp_t(c) { out_sp_ins(x, p, y) } else { y == (Output { unknowns: y.unknowns, ..x }) && y.unknowns@ == x.unknowns@.insert(p.key, p.value) },
    }
}
}
@fn src/v2/map/input.rs Input::insert_pair
@replace raw_key.clone() ==> raw_key.vx_clone()
@replace k.key().clone() ==> k.key().vx_clone()
@spec
r => ensures r is Ok <==> in_ok(*old(self), *old(have_txid), *old(have_index), pair),
  r is Ok ==> in_ins(*old(self), pair, *final(self)) && *final(have_txid) == (*old(have_txid) || pair.key.type_value == 0x0e) && *final(have_index) == (*old(have_index) || pair.key.type_value == 0x0f)
@append src/v2/map/output.rs
impl vstd::std_specs::convert::FromSpecImpl<serialize::Error> for InsertPairError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: serialize::Error) -> Self { InsertPairError::Deser(e) } }
@fn src/v2/map/output.rs From<serialize::Error> for InsertPairError::from
@fn src/v2/map/output.rs Output::insert_pair
@rewrite u32::from_le_bytes( ==> vx_from_le(
@replace raw_key.clone() ==> raw_key.vx_clone()
@replace k.key().clone() ==> k.key().vx_clone()
@spec
r => ensures r is Ok <==> out_ok(*old(self), *old(have_amount), *old(have_script_pubkey), pair),
  r is Ok ==> out_ins(*old(self), pair, *final(self)) && *final(have_amount) == (*old(have_amount) || pair.key.type_value == 0x03) && *final(have_script_pubkey) == (*old(have_script_pubkey) || pair.key.type_value == 0x04)
