@onlyprops C11 C12
@fileprops C11 C12
@mod insert0_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{Amount, ScriptBuf};
use crate::v0::bitcoin::raw::{Key, Pair, ProprietaryKey};
use crate::v0::bitcoin::{Input, Output, Error};
verus!{
/// when a version 0 input takes a pair; the keys only version 2 allows are refused
pub open spec fn in0_ok(x: Input, p: Pair) -> bool {
    match p.key.type_value {
        0x0e | 0x0f | 0x10 | 0x11 | 0x12 => false,
        0x00 => opt_ok0(x.non_witness_utxo, p),
        0x01 => opt_ok0(x.witness_utxo, p),
        0x02 => map_ok0(x.partial_sigs@, p),
        0x03 => opt_ok0(x.sighash_type, p),
        0x04 => opt_ok0(x.redeem_script, p),
        0x05 => opt_ok0(x.witness_script, p),
        0x06 => map_ok0(x.bip32_derivation@, p),
        0x07 => opt_ok0(x.final_script_sig, p),
        0x08 => opt_ok0(x.final_script_witness, p),
        0x0a => hash_ok0(x.ripemd160_preimages@, p.key, p.value@),
        0x0b => hash_ok0(x.sha256_preimages@, p.key, p.value@),
        0x0c => hash_ok0(x.hash160_preimages@, p.key, p.value@),
        0x0d => hash_ok0(x.hash256_preimages@, p.key, p.value@),
        0x13 => opt_ok0(x.tap_key_sig, p),
        0x14 => map_ok0(x.tap_script_sigs@, p),
        0x15 => map_ok0(x.tap_scripts@, p),
        0x16 => map_ok0(x.tap_key_origins@, p),
        0x17 => opt_ok0(x.tap_internal_key, p),
        0x18 => opt_ok0(x.tap_merkle_root, p),
        0xfc => prop_ok0(x.proprietary@, p),
        _ => !x.unknown@.contains_key(p.key),
    }
}
/// the input after the pair
pub open spec fn in0_ins(x: Input, p: Pair, y: Input) -> bool {
    match p.key.type_value {
        0x0e | 0x0f | 0x10 | 0x11 | 0x12 => false,
        0x00 => y == (Input { non_witness_utxo: y.non_witness_utxo, ..x }) && opt_set0(p, y.non_witness_utxo),
        0x01 => y == (Input { witness_utxo: y.witness_utxo, ..x }) && opt_set0(p, y.witness_utxo),
        0x02 => y == (Input { partial_sigs: y.partial_sigs, ..x }) && map_set0(x.partial_sigs@, p, y.partial_sigs@),
        0x03 => y == (Input { sighash_type: y.sighash_type, ..x }) && opt_set0(p, y.sighash_type),
        0x04 => y == (Input { redeem_script: y.redeem_script, ..x }) && opt_set0(p, y.redeem_script),
        0x05 => y == (Input { witness_script: y.witness_script, ..x }) && opt_set0(p, y.witness_script),
        0x06 => y == (Input { bip32_derivation: y.bip32_derivation, ..x }) && map_set0(x.bip32_derivation@, p, y.bip32_derivation@),
        0x07 => y == (Input { final_script_sig: y.final_script_sig, ..x }) && opt_set0(p, y.final_script_sig),
        0x08 => y == (Input { final_script_witness: y.final_script_witness, ..x }) && opt_set0(p, y.final_script_witness),
        0x0a => y == (Input { ripemd160_preimages: y.ripemd160_preimages, ..x }) && hash_set0(x.ripemd160_preimages@, p, y.ripemd160_preimages@),
        0x0b => y == (Input { sha256_preimages: y.sha256_preimages, ..x }) && hash_set0(x.sha256_preimages@, p, y.sha256_preimages@),
        0x0c => y == (Input { hash160_preimages: y.hash160_preimages, ..x }) && hash_set0(x.hash160_preimages@, p, y.hash160_preimages@),
        0x0d => y == (Input { hash256_preimages: y.hash256_preimages, ..x }) && hash_set0(x.hash256_preimages@, p, y.hash256_preimages@),
        0x13 => y == (Input { tap_key_sig: y.tap_key_sig, ..x }) && opt_set0(p, y.tap_key_sig),
        0x14 => y == (Input { tap_script_sigs: y.tap_script_sigs, ..x }) && map_set0(x.tap_script_sigs@, p, y.tap_script_sigs@),
        0x15 => y == (Input { tap_scripts: y.tap_scripts, ..x }) && map_set0(x.tap_scripts@, p, y.tap_scripts@),
        0x16 => y == (Input { tap_key_origins: y.tap_key_origins, ..x }) && map_set0(x.tap_key_origins@, p, y.tap_key_origins@),
        0x17 => y == (Input { tap_internal_key: y.tap_internal_key, ..x }) && opt_set0(p, y.tap_internal_key),
        0x18 => y == (Input { tap_merkle_root: y.tap_merkle_root, ..x }) && opt_set0(p, y.tap_merkle_root),
        0xfc => y == (Input { proprietary: y.proprietary, ..x }) && prop_set0(x.proprietary@, p, y.proprietary@),
        _ => y == (Input { unknown: y.unknown, ..x }) && y.unknown@ == x.unknown@.insert(p.key, p.value),
    }
}
pub open spec fn out0_ok(x: Output, p: Pair) -> bool {
    match p.key.type_value {
        0x03 | 0x04 => false,
        0x00 => opt_ok0(x.redeem_script, p),
        0x01 => opt_ok0(x.witness_script, p),
        0x02 => map_ok0(x.bip32_derivation@, p),
        0x05 => opt_ok0(x.tap_internal_key, p),
        0x06 => opt_ok0(x.tap_tree, p),
        0x07 => map_ok0(x.tap_key_origins@, p),
        0xfc => prop_ok0(x.proprietary@, p),
        _ => !x.unknown@.contains_key(p.key),
    }
}
pub open spec fn out0_ins(x: Output, p: Pair, y: Output) -> bool {
    match p.key.type_value {
        0x03 | 0x04 => false,
        0x00 => y == (Output { redeem_script: y.redeem_script, ..x }) && opt_set0(p, y.redeem_script),
        0x01 => y == (Output { witness_script: y.witness_script, ..x }) && opt_set0(p, y.witness_script),
        0x02 => y == (Output { bip32_derivation: y.bip32_derivation, ..x }) && map_set0(x.bip32_derivation@, p, y.bip32_derivation@),
        0x05 => y == (Output { tap_internal_key: y.tap_internal_key, ..x }) && opt_set0(p, y.tap_internal_key),
        0x06 => y == (Output { tap_tree: y.tap_tree, ..x }) && opt_set0(p, y.tap_tree),
        0x07 => y == (Output { tap_key_origins: y.tap_key_origins, ..x }) && map_set0(x.tap_key_origins@, p, y.tap_key_origins@),
        0xfc => y == (Output { proprietary: y.proprietary, ..x }) && prop_set0(x.proprietary@, p, y.proprietary@),
        _ => y == (Output { unknown: y.unknown, ..x }) && y.unknown@ == x.unknown@.insert(p.key, p.value),
    }
}
}
@fn src/v0/bitcoin/map/input.rs Input::insert_pair
@replace raw_key.clone() ==> raw_key.vx_clone()
@replace k.key().clone() ==> k.key().vx_clone()
@spec
r => ensures r is Ok <==> in0_ok(*old(self), pair), r is Ok ==> in0_ins(*old(self), pair, *final(self)), r is Err ==> !(r->Err_0 is NoMorePairs)
@fn src/v0/bitcoin/map/output.rs Output::insert_pair
@replace raw_key.clone() ==> raw_key.vx_clone()
@replace k.key().clone() ==> k.key().vx_clone()
@spec
r => ensures r is Ok <==> out0_ok(*old(self), pair), r is Ok ==> out0_ins(*old(self), pair, *final(self)), r is Err ==> !(r->Err_0 is NoMorePairs)
