@onlyprops C09 C10 C11 C12 C13 C23 C24
@fileprops C09 C10 C12 C23 C24
@mod hashpair_spec
@broadcast hash_axioms
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::hashes::{self, hash160, sha256, sha256d, ripemd160};
use crate::v2::input::{InsertPairError, HashPreimageError, HashType};
use crate::raw::{Key, Pair};
verus!{
#[verifier::external_type_specification] pub struct ExIPE(InsertPairError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExHPE(HashPreimageError);
#[verifier::external_type_specification] pub struct ExHT(HashType);
#[verifier::external_body] pub fn vx_preimage_error<H: hashes::Hash>(val: Vec<u8>, h: H, t: HashType) -> HashPreimageError { unimplemented!() }
/// a preimage pair: the key data is a hash and the value hashes to it
pub open spec fn hash_ok<H>(m: Map<H, Vec<u8>>, k: Key, v: Seq<u8>) -> bool { k.key@.len() > 0 && de_of::<H>(k.key@) is Some && !m.contains_key(de_of::<H>(k.key@)->0) && hash_of::<H>(v) == de_of::<H>(k.key@)->0 }
pub open spec fn hash_set<K>(m: Map<K, Vec<u8>>, p: Pair, n: Map<K, Vec<u8>>) -> bool { n == m.insert(de_of::<K>(p.key.key@)->0, p.value) }
impl VxClone for Key { #[verifier::external_body] fn vx_clone(&self) -> (r: Key) { self.clone() } }
pub broadcast axiom fn ax_eq_hash<H: hashes::Hash>(a: &H, b: &H) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (*a == *b);
pub broadcast axiom fn ax_oq_hash<H: hashes::Hash>() ensures #[trigger] <H as vstd::std_specs::cmp::PartialEqSpec<H>>::obeys_eq_spec();
pub broadcast group hash_axioms { ax_eq_hash, ax_oq_hash }
}
@append src/v2/map/input.rs
impl vstd::std_specs::convert::FromSpecImpl<serialize::Error> for InsertPairError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: serialize::Error) -> Self { InsertPairError::Deser(e) } }
@fn src/v2/map/input.rs From<serialize::Error> for InsertPairError::from
@fn src/v2/map/input.rs psbt_insert_hash_pair
@replace HashPreimageError { preimage: val.into_boxed_slice(), hash: Box::from(key_val.borrow()), hash_type, } ==> vx_preimage_error(val, key_val, hash_type)
@spec
r => ensures r is Ok <==> hash_ok(old(map)@, raw_key, raw_value@), r is Ok ==> hash_set(old(map)@, raw::Pair { key: raw_key, value: raw_value }, final(map)@)
@append src/raw.rs
impl<Subtype> vstd::std_specs::convert::TryFromSpecImpl<Key> for ProprietaryKey<Subtype> where Subtype: Copy + From<u8> + Into<u8> { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(k: Key) -> Result<Self, serialize::Error> { arbitrary() } }
@fn src/raw.rs TryFrom<Key> for ProprietaryKey<Subtype>::try_from
@props C09 C10 C12 C13 C23 C24
@spec
r => ensures r is Ok <==> key.type_value == 0xfc && cons_de::<Self>(key.key@) is Some, r is Ok ==> Some(r->Ok_0) == cons_de::<Self>(key.key@), r is Err ==> !(r->Err_0 is NoMorePairs)
@const src/consts.rs PSBT_GLOBAL_UNSIGNED_TX
@spec
ensures PSBT_GLOBAL_UNSIGNED_TX == 0x00
@const src/consts.rs PSBT_GLOBAL_XPUB
@spec
ensures PSBT_GLOBAL_XPUB == 0x01
@const src/consts.rs PSBT_GLOBAL_TX_VERSION
@spec
ensures PSBT_GLOBAL_TX_VERSION == 0x02
@const src/consts.rs PSBT_GLOBAL_FALLBACK_LOCKTIME
@spec
ensures PSBT_GLOBAL_FALLBACK_LOCKTIME == 0x03
@const src/consts.rs PSBT_GLOBAL_INPUT_COUNT
@spec
ensures PSBT_GLOBAL_INPUT_COUNT == 0x04
@const src/consts.rs PSBT_GLOBAL_OUTPUT_COUNT
@spec
ensures PSBT_GLOBAL_OUTPUT_COUNT == 0x05
@const src/consts.rs PSBT_GLOBAL_TX_MODIFIABLE
@spec
ensures PSBT_GLOBAL_TX_MODIFIABLE == 0x06
@const src/consts.rs PSBT_GLOBAL_VERSION
@spec
ensures PSBT_GLOBAL_VERSION == 0xfb
@const src/consts.rs PSBT_GLOBAL_PROPRIETARY
@spec
ensures PSBT_GLOBAL_PROPRIETARY == 0xfc
@const src/consts.rs PSBT_IN_NON_WITNESS_UTXO
@spec
ensures PSBT_IN_NON_WITNESS_UTXO == 0x00
@const src/consts.rs PSBT_IN_WITNESS_UTXO
@spec
ensures PSBT_IN_WITNESS_UTXO == 0x01
@const src/consts.rs PSBT_IN_PARTIAL_SIG
@spec
ensures PSBT_IN_PARTIAL_SIG == 0x02
@const src/consts.rs PSBT_IN_SIGHASH_TYPE
@spec
ensures PSBT_IN_SIGHASH_TYPE == 0x03
@const src/consts.rs PSBT_IN_REDEEM_SCRIPT
@spec
ensures PSBT_IN_REDEEM_SCRIPT == 0x04
@const src/consts.rs PSBT_IN_WITNESS_SCRIPT
@spec
ensures PSBT_IN_WITNESS_SCRIPT == 0x05
@const src/consts.rs PSBT_IN_BIP32_DERIVATION
@spec
ensures PSBT_IN_BIP32_DERIVATION == 0x06
@const src/consts.rs PSBT_IN_FINAL_SCRIPTSIG
@spec
ensures PSBT_IN_FINAL_SCRIPTSIG == 0x07
@const src/consts.rs PSBT_IN_FINAL_SCRIPTWITNESS
@spec
ensures PSBT_IN_FINAL_SCRIPTWITNESS == 0x08
@const src/consts.rs PSBT_IN_RIPEMD160
@spec
ensures PSBT_IN_RIPEMD160 == 0x0a
@const src/consts.rs PSBT_IN_SHA256
@spec
ensures PSBT_IN_SHA256 == 0x0b
@const src/consts.rs PSBT_IN_HASH160
@spec
ensures PSBT_IN_HASH160 == 0x0c
@const src/consts.rs PSBT_IN_HASH256
@spec
ensures PSBT_IN_HASH256 == 0x0d
@const src/consts.rs PSBT_IN_PREVIOUS_TXID
@spec
ensures PSBT_IN_PREVIOUS_TXID == 0x0e
@const src/consts.rs PSBT_IN_OUTPUT_INDEX
@spec
ensures PSBT_IN_OUTPUT_INDEX == 0x0f
@const src/consts.rs PSBT_IN_SEQUENCE
@spec
ensures PSBT_IN_SEQUENCE == 0x10
@const src/consts.rs PSBT_IN_REQUIRED_TIME_LOCKTIME
@spec
ensures PSBT_IN_REQUIRED_TIME_LOCKTIME == 0x11
@const src/consts.rs PSBT_IN_REQUIRED_HEIGHT_LOCKTIME
@spec
ensures PSBT_IN_REQUIRED_HEIGHT_LOCKTIME == 0x12
@const src/consts.rs PSBT_IN_TAP_KEY_SIG
@spec
ensures PSBT_IN_TAP_KEY_SIG == 0x13
@const src/consts.rs PSBT_IN_TAP_SCRIPT_SIG
@spec
ensures PSBT_IN_TAP_SCRIPT_SIG == 0x14
@const src/consts.rs PSBT_IN_TAP_LEAF_SCRIPT
@spec
ensures PSBT_IN_TAP_LEAF_SCRIPT == 0x15
@const src/consts.rs PSBT_IN_TAP_BIP32_DERIVATION
@spec
ensures PSBT_IN_TAP_BIP32_DERIVATION == 0x16
@const src/consts.rs PSBT_IN_TAP_INTERNAL_KEY
@spec
ensures PSBT_IN_TAP_INTERNAL_KEY == 0x17
@const src/consts.rs PSBT_IN_TAP_MERKLE_ROOT
@spec
ensures PSBT_IN_TAP_MERKLE_ROOT == 0x18
@const src/consts.rs PSBT_IN_PROPRIETARY
@spec
ensures PSBT_IN_PROPRIETARY == 0xfc
@const src/consts.rs PSBT_OUT_REDEEM_SCRIPT
@spec
ensures PSBT_OUT_REDEEM_SCRIPT == 0x00
@const src/consts.rs PSBT_OUT_WITNESS_SCRIPT
@spec
ensures PSBT_OUT_WITNESS_SCRIPT == 0x01
@const src/consts.rs PSBT_OUT_BIP32_DERIVATION
@spec
ensures PSBT_OUT_BIP32_DERIVATION == 0x02
@const src/consts.rs PSBT_OUT_AMOUNT
@spec
ensures PSBT_OUT_AMOUNT == 0x03
@const src/consts.rs PSBT_OUT_SCRIPT
@spec
ensures PSBT_OUT_SCRIPT == 0x04
@const src/consts.rs PSBT_OUT_TAP_INTERNAL_KEY
@spec
ensures PSBT_OUT_TAP_INTERNAL_KEY == 0x05
@const src/consts.rs PSBT_OUT_TAP_TREE
@spec
ensures PSBT_OUT_TAP_TREE == 0x06
@const src/consts.rs PSBT_OUT_TAP_BIP32_DERIVATION
@spec
ensures PSBT_OUT_TAP_BIP32_DERIVATION == 0x07
@const src/consts.rs PSBT_OUT_PROPRIETARY
@spec
ensures PSBT_OUT_PROPRIETARY == 0xfc
