@onlyprops C11 C12 C13 C24
@fileprops C11 C12 C13 C24
@mod codec0_spec
@broadcast codec0_axioms
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{absolute, ecdsa, taproot, transaction, Amount, ScriptBuf, Sequence, Transaction, TxOut, Txid, Witness, PublicKey, XOnlyPublicKey, TapLeafHash, TapNodeHash, secp256k1, consensus};
use bitcoin::hashes::{self, hash160, sha256, sha256d, ripemd160};
use crate::v0::bitcoin::raw::{Key, Pair, ProprietaryKey};
use crate::v0::bitcoin::{Input, Output, Error};
use crate::v0::bitcoin::serialize::{Serialize, Deserialize};
verus!{
// ---- the codecs of values (version 0) ----
pub uninterp spec fn de0_of<T>(b: Seq<u8>) -> Option<T>;
pub uninterp spec fn ser0_of<T>(x: T) -> Seq<u8>;
pub open spec fn decoded0<T>(b: Seq<u8>, r: Result<T, Error>) -> bool { match r { Ok(x) => de0_of::<T>(b) == Some(x), Err(e) => de0_of::<T>(b) is None && !(e is NoMorePairs) } }
#[verifier::external_trait_specification] pub trait ExDeserialize0: Sized { type ExternalTraitSpecificationFor: Deserialize; fn deserialize(bytes: &[u8]) -> (r: Result<Self, Error>) ensures decoded0(bytes@, r); }
#[verifier::external_trait_specification] pub trait ExSerialize0 { type ExternalTraitSpecificationFor: Serialize; fn serialize(&self) -> (r: Vec<u8>) ensures r@ == ser0_of::<&Self>(self); }
pub broadcast axiom fn ax_de0_bytes(b: Seq<u8>) ensures #[trigger] de0_of::<Vec<u8>>(b) is Some, de0_of::<Vec<u8>>(b)->0@ == b;
macro_rules! cons81 { ($($n:ident $m:ident : $t:ty),* $(,)?) => { verus!{ $( pub broadcast axiom fn $n(b: Seq<u8>) ensures #[trigger] de0_of::<$t>(b) == cons_de::<$t>(b);
    pub broadcast axiom fn $m(x: &$t) ensures #[trigger] ser0_of::<&$t>(x) == cons_ser::<&$t>(x); )*
  pub broadcast group cons0_ax { $($n, $m),* } } } }
cons81!{ ed_tx es_tx: Transaction, ed_txout es_txout: TxOut, ed_wit es_wit: Witness, ed_tlhs es_tlhs: Vec<TapLeafHash> }
macro_rules! hs81 { ($($n:ident : $t:ty),* $(,)?) => { verus!{ $( pub broadcast axiom fn $n(b: Seq<u8>) ensures #[trigger] de0_of::<$t>(b) == hash_mk::<$t>(b); )*
  pub broadcast group hs0_ax { $($n),* } } } }
hs81!{ he_r160: ripemd160::Hash, he_s256: sha256::Hash, he_tlh: TapLeafHash, he_tnh: TapNodeHash, he_h160: hash160::Hash, he_d256: sha256d::Hash }
// `From<Error> for Error` is the identity (the reflexive impl of core)
pub broadcast axiom fn ax_from_refl() ensures #[trigger] <Error as vstd::std_specs::convert::FromSpec<Error>>::obeys_from_spec();
pub broadcast axiom fn ax_from_same(e: Error) ensures #[trigger] <Error as vstd::std_specs::convert::FromSpec<Error>>::from_spec(e) == e;
pub broadcast group codec0_axioms { ax_from_refl, ax_from_same, cons0_ax, hs0_ax, ax_de0_bytes }
// ---- what one pair does to a field (BIP-174) ----
pub open spec fn val_ok0<T>(p: Pair) -> bool { p.key.key@.len() == 0 && de0_of::<T>(p.value@) is Some }
pub open spec fn opt_ok0<T>(o: Option<T>, p: Pair) -> bool { val_ok0::<T>(p) && o is None }
pub open spec fn opt_set0<T>(p: Pair, n: Option<T>) -> bool { n == de0_of::<T>(p.value@) }
pub open spec fn map_ok0<K, V>(m: Map<K, V>, p: Pair) -> bool { p.key.key@.len() > 0 && de0_of::<K>(p.key.key@) is Some && !m.contains_key(de0_of::<K>(p.key.key@)->0) && de0_of::<V>(p.value@) is Some }
pub open spec fn map_set0<K, V>(m: Map<K, V>, p: Pair, n: Map<K, V>) -> bool { n == m.insert(de0_of::<K>(p.key.key@)->0, de0_of::<V>(p.value@)->0) }
pub open spec fn hash_set0<K>(m: Map<K, Vec<u8>>, p: Pair, n: Map<K, Vec<u8>>) -> bool { n == m.insert(de0_of::<K>(p.key.key@)->0, p.value) }
pub open spec fn prop_ok0(m: Map<ProprietaryKey, Vec<u8>>, p: Pair) -> bool { cons_de::<ProprietaryKey>(p.key.key@) is Some && !m.contains_key(cons_de::<ProprietaryKey>(p.key.key@)->0) }
pub open spec fn prop_set0(m: Map<ProprietaryKey, Vec<u8>>, p: Pair, n: Map<ProprietaryKey, Vec<u8>>) -> bool { n == m.insert(cons_de::<ProprietaryKey>(p.key.key@)->0, p.value) }
/// a preimage pair: the key data is a hash and the value hashes to it
pub open spec fn hash_ok0<H>(m: Map<H, Vec<u8>>, k: Key, v: Seq<u8>) -> bool { k.key@.len() > 0 && de0_of::<H>(k.key@) is Some && !m.contains_key(de0_of::<H>(k.key@)->0) && hash_of::<H>(v) == de0_of::<H>(k.key@)->0 }
#[verifier::external_body] pub fn vx_preimage_error0<H: hashes::Hash, T>(val: Vec<u8>, h: H, t: T) -> (r: Error) ensures !(r is NoMorePairs) { unimplemented!() }
impl VxClone for Key { #[verifier::external_body] fn vx_clone(&self) -> (r: Key) { self.clone() } }
}
@const src/v0/bitcoin/map/input.rs PSBT_IN_NON_WITNESS_UTXO
@spec
ensures PSBT_IN_NON_WITNESS_UTXO == 0x00
@const src/v0/bitcoin/map/input.rs PSBT_IN_WITNESS_UTXO
@spec
ensures PSBT_IN_WITNESS_UTXO == 0x01
@const src/v0/bitcoin/map/input.rs PSBT_IN_PARTIAL_SIG
@spec
ensures PSBT_IN_PARTIAL_SIG == 0x02
@const src/v0/bitcoin/map/input.rs PSBT_IN_SIGHASH_TYPE
@spec
ensures PSBT_IN_SIGHASH_TYPE == 0x03
@const src/v0/bitcoin/map/input.rs PSBT_IN_REDEEM_SCRIPT
@spec
ensures PSBT_IN_REDEEM_SCRIPT == 0x04
@const src/v0/bitcoin/map/input.rs PSBT_IN_WITNESS_SCRIPT
@spec
ensures PSBT_IN_WITNESS_SCRIPT == 0x05
@const src/v0/bitcoin/map/input.rs PSBT_IN_BIP32_DERIVATION
@spec
ensures PSBT_IN_BIP32_DERIVATION == 0x06
@const src/v0/bitcoin/map/input.rs PSBT_IN_FINAL_SCRIPTSIG
@spec
ensures PSBT_IN_FINAL_SCRIPTSIG == 0x07
@const src/v0/bitcoin/map/input.rs PSBT_IN_FINAL_SCRIPTWITNESS
@spec
ensures PSBT_IN_FINAL_SCRIPTWITNESS == 0x08
@const src/v0/bitcoin/map/input.rs PSBT_IN_RIPEMD160
@spec
ensures PSBT_IN_RIPEMD160 == 0x0a
@const src/v0/bitcoin/map/input.rs PSBT_IN_SHA256
@spec
ensures PSBT_IN_SHA256 == 0x0b
@const src/v0/bitcoin/map/input.rs PSBT_IN_PREVIOUS_TXID
@spec
ensures PSBT_IN_PREVIOUS_TXID == 0x0e
@const src/v0/bitcoin/map/input.rs PSBT_IN_OUTPUT_INDEX
@spec
ensures PSBT_IN_OUTPUT_INDEX == 0x0f
@const src/v0/bitcoin/map/input.rs PSBT_IN_SEQUENCE
@spec
ensures PSBT_IN_SEQUENCE == 0x10
@const src/v0/bitcoin/map/input.rs PSBT_IN_REQUIRED_TIME_LOCKTIME
@spec
ensures PSBT_IN_REQUIRED_TIME_LOCKTIME == 0x11
@const src/v0/bitcoin/map/input.rs PSBT_IN_REQUIRED_HEIGHT_LOCKTIME
@spec
ensures PSBT_IN_REQUIRED_HEIGHT_LOCKTIME == 0x12
@const src/v0/bitcoin/map/input.rs PSBT_IN_HASH160
@spec
ensures PSBT_IN_HASH160 == 0x0c
@const src/v0/bitcoin/map/input.rs PSBT_IN_HASH256
@spec
ensures PSBT_IN_HASH256 == 0x0d
@const src/v0/bitcoin/map/input.rs PSBT_IN_TAP_KEY_SIG
@spec
ensures PSBT_IN_TAP_KEY_SIG == 0x13
@const src/v0/bitcoin/map/input.rs PSBT_IN_TAP_SCRIPT_SIG
@spec
ensures PSBT_IN_TAP_SCRIPT_SIG == 0x14
@const src/v0/bitcoin/map/input.rs PSBT_IN_TAP_LEAF_SCRIPT
@spec
ensures PSBT_IN_TAP_LEAF_SCRIPT == 0x15
@const src/v0/bitcoin/map/input.rs PSBT_IN_TAP_BIP32_DERIVATION
@spec
ensures PSBT_IN_TAP_BIP32_DERIVATION == 0x16
@const src/v0/bitcoin/map/input.rs PSBT_IN_TAP_INTERNAL_KEY
@spec
ensures PSBT_IN_TAP_INTERNAL_KEY == 0x17
@const src/v0/bitcoin/map/input.rs PSBT_IN_TAP_MERKLE_ROOT
@spec
ensures PSBT_IN_TAP_MERKLE_ROOT == 0x18
@const src/v0/bitcoin/map/input.rs PSBT_IN_PROPRIETARY
@spec
ensures PSBT_IN_PROPRIETARY == 0xfc
@const src/v0/bitcoin/map/output.rs PSBT_OUT_REDEEM_SCRIPT
@spec
ensures PSBT_OUT_REDEEM_SCRIPT == 0x00
@const src/v0/bitcoin/map/output.rs PSBT_OUT_WITNESS_SCRIPT
@spec
ensures PSBT_OUT_WITNESS_SCRIPT == 0x01
@const src/v0/bitcoin/map/output.rs PSBT_OUT_BIP32_DERIVATION
@spec
ensures PSBT_OUT_BIP32_DERIVATION == 0x02
@const src/v0/bitcoin/map/output.rs PSBT_OUT_TAP_INTERNAL_KEY
@spec
ensures PSBT_OUT_TAP_INTERNAL_KEY == 0x05
@const src/v0/bitcoin/map/output.rs PSBT_OUT_TAP_TREE
@spec
ensures PSBT_OUT_TAP_TREE == 0x06
@const src/v0/bitcoin/map/output.rs PSBT_OUT_TAP_BIP32_DERIVATION
@spec
ensures PSBT_OUT_TAP_BIP32_DERIVATION == 0x07
@const src/v0/bitcoin/map/output.rs PSBT_OUT_AMOUNT
@spec
ensures PSBT_OUT_AMOUNT == 0x03
@const src/v0/bitcoin/map/output.rs PSBT_OUT_SCRIPT
@spec
ensures PSBT_OUT_SCRIPT == 0x04
@const src/v0/bitcoin/map/output.rs PSBT_OUT_PROPRIETARY
@spec
ensures PSBT_OUT_PROPRIETARY == 0xfc
@const src/v0/bitcoin/map/global.rs PSBT_GLOBAL_UNSIGNED_TX
@spec
ensures PSBT_GLOBAL_UNSIGNED_TX == 0x00
@const src/v0/bitcoin/map/global.rs PSBT_GLOBAL_XPUB
@spec
ensures PSBT_GLOBAL_XPUB == 0x01
@const src/v0/bitcoin/map/global.rs PSBT_GLOBAL_TX_VERSION
@spec
ensures PSBT_GLOBAL_TX_VERSION == 0x02
@const src/v0/bitcoin/map/global.rs PSBT_GLOBAL_FALLBACK_LOCKTIME
@spec
ensures PSBT_GLOBAL_FALLBACK_LOCKTIME == 0x03
@const src/v0/bitcoin/map/global.rs PSBT_GLOBAL_INPUT_COUNT
@spec
ensures PSBT_GLOBAL_INPUT_COUNT == 0x04
@const src/v0/bitcoin/map/global.rs PSBT_GLOBAL_OUTPUT_COUNT
@spec
ensures PSBT_GLOBAL_OUTPUT_COUNT == 0x05
@const src/v0/bitcoin/map/global.rs PSBT_GLOBAL_TX_MODIFIABLE
@spec
ensures PSBT_GLOBAL_TX_MODIFIABLE == 0x06
@const src/v0/bitcoin/map/global.rs PSBT_GLOBAL_VERSION
@spec
ensures PSBT_GLOBAL_VERSION == 0xfb
@const src/v0/bitcoin/map/global.rs PSBT_GLOBAL_PROPRIETARY
@spec
ensures PSBT_GLOBAL_PROPRIETARY == 0xfc
@append src/v0/bitcoin/raw.rs
impl<Subtype> vstd::std_specs::convert::TryFromSpecImpl<Key> for ProprietaryKey<Subtype> where Subtype: Copy + From<u8> + Into<u8> { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(k: Key) -> Result<Self, Error> { arbitrary() } }
@append src/v0/bitcoin/error.rs
impl vstd::std_specs::convert::FromSpecImpl<hashes::FromSliceError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: hashes::FromSliceError) -> Self { Error::InvalidHash(e) } }
impl vstd::std_specs::convert::FromSpecImpl<encode::Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: encode::Error) -> Self { Error::ConsensusEncoding(e) } }
@fn src/v0/bitcoin/error.rs From<hashes::FromSliceError> for Error::from
@fn src/v0/bitcoin/error.rs From<encode::Error> for Error::from
@macro src/v0/bitcoin/macros.rs impl_psbt_deserialize
@replace impl $crate::v0::bitcoin::serialize::Deserialize ==> #[verus_verify] impl $crate::v0::bitcoin::serialize::Deserialize
@replace fn deserialize ==> #[verus_spec] fn deserialize
@replace |e| $crate::v0::bitcoin::Error::from(e) ==> #[verus_spec(vx_r: ($crate::v0::bitcoin::Error) => ensures !(vx_r is NoMorePairs))] |e| $crate::v0::bitcoin::Error::from(e)
@macro src/v0/bitcoin/macros.rs impl_psbt_hash_deserialize
@replace impl $crate::v0::bitcoin::serialize::Deserialize ==> #[verus_verify] impl $crate::v0::bitcoin::serialize::Deserialize
@replace fn deserialize ==> #[verus_spec] fn deserialize
@replace |e| $crate::v0::bitcoin::Error::from(e) ==> #[verus_spec(vx_r: ($crate::v0::bitcoin::Error) => ensures !(vx_r is NoMorePairs))] |e| $crate::v0::bitcoin::Error::from(e)
@fn src/v0/bitcoin/raw.rs TryFrom<Key> for ProprietaryKey<Subtype>::try_from
@spec
r => ensures r is Ok <==> key.type_value == 0xfc && cons_de::<Self>(key.key@) is Some, r is Ok ==> Some(r->Ok_0) == cons_de::<Self>(key.key@), r is Err ==> !(r->Err_0 is NoMorePairs)
@fn src/v0/bitcoin/map/input.rs psbt_insert_hash_pair
@replace crate::v0::bitcoin::Error::InvalidPreimageHashPair { preimage: val.into_boxed_slice(), hash: Box::from(key_val.borrow()), hash_type, } ==> vx_preimage_error0(val, key_val, hash_type)
@spec
r => ensures r is Ok <==> hash_ok0(old(map)@, raw_key, raw_value@), r is Ok ==> hash_set0(old(map)@, raw::Pair { key: raw_key, value: raw_value }, final(map)@), r is Err ==> !(r->Err_0 is NoMorePairs)
@fn src/v0/bitcoin/serialize.rs Deserialize for Vec<u8>::deserialize
@fn src/v0/bitcoin/serialize.rs Deserialize for ScriptBuf::deserialize
@trust
@fn src/v0/bitcoin/serialize.rs Deserialize for PublicKey::deserialize
@trust
@fn src/v0/bitcoin/serialize.rs Deserialize for secp256k1::PublicKey::deserialize
@trust
@fn src/v0/bitcoin/serialize.rs Deserialize for ecdsa::Signature::deserialize
@trust
@fn src/v0/bitcoin/serialize.rs Deserialize for KeySource::deserialize
@trust
@fn src/v0/bitcoin/serialize.rs Deserialize for PsbtSighashType::deserialize
@trust
@fn src/v0/bitcoin/serialize.rs Deserialize for XOnlyPublicKey::deserialize
@trust
@fn src/v0/bitcoin/serialize.rs Deserialize for taproot::Signature::deserialize
@trust
@fn src/v0/bitcoin/serialize.rs Deserialize for ControlBlock::deserialize
@trust
@fn src/v0/bitcoin/serialize.rs Deserialize for TapTree::deserialize
@trust
@fn src/v0/bitcoin/serialize.rs Deserialize for(XOnlyPublicKey,TapLeafHash)::deserialize
@trust
@fn src/v0/bitcoin/serialize.rs Deserialize for(ScriptBuf,LeafVersion)::deserialize
@trust
@fn src/v0/bitcoin/serialize.rs Deserialize for(Vec<TapLeafHash>,KeySource)::deserialize
@trust
