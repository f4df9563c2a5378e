@onlyprops C09 C10 C11 C12 C13 C23 C24
@fileprops C09 C10 C12 C13 C23 C24
@mod codec_spec
@broadcast codec_axioms
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{absolute, ecdsa, taproot, transaction, Amount, ScriptBuf, Sequence, Transaction, TxOut, Txid, Witness, PublicKey, XOnlyPublicKey, TapLeafHash, TapNodeHash};
use bitcoin::taproot::{ControlBlock, LeafVersion, TapTree};
use bitcoin::hashes::{self, hash160, sha256, sha256d, ripemd160};
use bitcoin::bip32::{KeySource, Fingerprint, DerivationPath};
use bitcoin::{secp256k1, consensus};
use vstd::std_specs::cmp::PartialEqSpec;
use crate::serialize::{self, Deserialize, Serialize};
use crate::raw::{Key, Pair};
verus!{
#[verifier::external_type_specification] pub struct ExSerErr(serialize::Error);
macro_rules! ext80 { ($($n:ident : $t:ty),* $(,)?) => { verus!{ $(#[verifier::external_type_specification] #[verifier::external_body] pub struct $n($t);)* } } }
ext80!{
  ExConvErr: absolute::ConversionError }
#[cfg(feature = "silent-payments")] ext80!{ ExInvLen: crate::v2::dleq::InvalidLengthError }
#[verifier::external_trait_specification] pub trait ExLowerHex: core::marker::PointeeSized { type ExternalTraitSpecificationFor: core::fmt::LowerHex; }
pub uninterp spec fn hash_of<H>(b: Seq<u8>) -> H;
#[verifier::external_trait_specification] pub trait ExHashTrait: Copy + Clone + PartialEq + Eq + PartialOrd + Ord + core::hash::Hash + core::fmt::Debug + core::fmt::Display + core::fmt::LowerHex
    + core::ops::Index<core::ops::RangeFull, Output = [u8]> + core::ops::Index<core::ops::RangeFrom<usize>, Output = [u8]> + core::ops::Index<core::ops::RangeTo<usize>, Output = [u8]>
    + core::ops::Index<core::ops::Range<usize>, Output = [u8]> + core::ops::Index<usize, Output = u8> + core::borrow::Borrow<[u8]>
{ type ExternalTraitSpecificationFor: hashes::Hash; fn all_zeros() -> (r: Self); fn hash(data: &[u8]) -> (r: Self) ensures r == hash_of::<Self>(data@); fn from_slice(b: &[u8]) -> (r: Result<Self, hashes::FromSliceError>) ensures match r { Ok(x) => hash_mk::<Self>(b@) == Some(x), Err(_) => hash_mk::<Self>(b@) is None }; }
pub uninterp spec fn hash_mk<H>(b: Seq<u8>) -> Option<H>;
// ---- the codecs of values ----
/// the value that bytes stand for, if any
pub uninterp spec fn de_of<T>(b: Seq<u8>) -> Option<T>;
/// the bytes that stand for a value
pub uninterp spec fn ser_of<T>(x: T) -> Seq<u8>;
pub open spec fn decoded<T>(b: Seq<u8>, r: Result<T, serialize::Error>) -> bool { match r { Ok(x) => de_of::<T>(b) == Some(x), Err(e) => de_of::<T>(b) is None && !(e is NoMorePairs) } }
#[verifier::external_trait_specification] pub trait ExDeserialize: Sized { type ExternalTraitSpecificationFor: Deserialize; fn deserialize(bytes: &[u8]) -> (r: Result<Self, serialize::Error>) ensures decoded(bytes@, r); }
#[verifier::external_trait_specification] pub trait ExSerialize { type ExternalTraitSpecificationFor: Serialize; fn serialize(&self) -> (r: Vec<u8>) ensures r@ == ser_of::<&Self>(self); }
pub broadcast axiom fn ax_de_bytes(b: Seq<u8>) ensures #[trigger] de_of::<Vec<u8>>(b) is Some, de_of::<Vec<u8>>(b)->0@ == b;
// consensus encoding (rust-bitcoin)
pub uninterp spec fn cons_de<T>(b: Seq<u8>) -> Option<T>;
pub assume_specification<T: consensus::Decodable> [consensus::deserialize::<T>](b: &[u8]) -> (r: Result<T, consensus::encode::Error>) ensures match r { Ok(x) => cons_de::<T>(b@) == Some(x), Err(_) => cons_de::<T>(b@) is None };
pub assume_specification<T: consensus::Encodable + ?Sized> [consensus::serialize::<T>](x: &T) -> (r: Vec<u8>) ensures r@ == cons_ser::<&T>(x);
macro_rules! cons80 { ($($n:ident $m:ident : $t:ty),* $(,)?) => { verus!{ $( pub broadcast axiom fn $n(b: Seq<u8>) ensures #[trigger] de_of::<$t>(b) == cons_de::<$t>(b);
    pub broadcast axiom fn $m(x: &$t) ensures #[trigger] ser_of::<&$t>(x) == cons_ser::<&$t>(x); )*
  pub broadcast group cons_ax { $($n, $m),* } } } }
cons80!{ cd_lock cs_lock: absolute::LockTime, cd_amount cs_amount: Amount, cd_tx cs_tx: Transaction, cd_txv cs_txv: transaction::Version, cd_txout cs_txout: TxOut, cd_wit cs_wit: Witness, cd_varint cs_varint: bitcoin::VarInt, cd_tlhs cs_tlhs: Vec<TapLeafHash>, cd_u32 cs_u32: u32, cd_seq cs_seq: Sequence }
macro_rules! hs80 { ($($n:ident : $t:ty, $l:literal),* $(,)?) => { verus!{ $( pub broadcast axiom fn $n(b: Seq<u8>) ensures #![trigger de_of::<$t>(b)] #![trigger hash_mk::<$t>(b)] de_of::<$t>(b) == hash_mk::<$t>(b), hash_mk::<$t>(b) is Some <==> b.len() == $l; )*
  pub broadcast group hs_ax { $($n),* } } } }
hs80!{ hd_r160: ripemd160::Hash, 20, hd_s256: sha256::Hash, 32, hd_tlh: TapLeafHash, 32, hd_tnh: TapNodeHash, 32, hd_txid: Txid, 32, hd_h160: hash160::Hash, 20, hd_d256: sha256d::Hash, 32 }
#[verifier::external_type_specification] pub struct ExVarInt(bitcoin::VarInt);
pub uninterp spec fn copied<T>(a: Seq<T>, b: Seq<T>) -> bool;
pub broadcast axiom fn ax_copied(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] copied(a, b) ==> a == b;
pub assume_specification<T: Clone> [<[T]>::to_vec](s: &[T]) -> (r: Vec<T>) ensures copied(s@, r@);
pub broadcast proof fn sub_full<A>(s: Seq<A>, n: int) requires n == s.len() ensures #[trigger] s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }
pub broadcast group codec_axioms { cons_ax, sub_full, hs_ax, ax_de_bytes, ax_copied, ax_vec_ext }
}
@type src/version.rs UnsupportedVersionError
@append src/serialize.rs
impl vstd::std_specs::convert::FromSpecImpl<hashes::FromSliceError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: hashes::FromSliceError) -> Self { Error::InvalidHash(e) } }
impl vstd::std_specs::convert::FromSpecImpl<consensus::encode::Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: consensus::encode::Error) -> Self { Error::ConsensusEncoding(e) } }
impl vstd::std_specs::convert::FromSpecImpl<absolute::ConversionError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: absolute::ConversionError) -> Self { Error::LockTime(e) } }
impl vstd::std_specs::convert::FromSpecImpl<version::UnsupportedVersionError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: version::UnsupportedVersionError) -> Self { Error::UnsupportedVersion(e) } }
@fn src/serialize.rs From<hashes::FromSliceError> for Error::from
@fn src/serialize.rs From<consensus::encode::Error> for Error::from
@fn src/serialize.rs From<absolute::ConversionError> for Error::from
@fn src/serialize.rs From<version::UnsupportedVersionError> for Error::from
@fn src/serialize.rs Deserialize for Vec<u8>::deserialize
@macro src/macros.rs v2_impl_psbt_deserialize
@replace impl $crate::serialize::Deserialize ==> #[verus_verify] impl $crate::serialize::Deserialize
@replace fn deserialize ==> #[verus_spec] fn deserialize
@replace |e| $crate::serialize::Error::from(e) ==> #[verus_spec(vx_r: ($crate::serialize::Error) => ensures !(vx_r is NoMorePairs))] |e| $crate::serialize::Error::from(e)
@macro src/macros.rs v2_impl_psbt_hash_deserialize
@replace impl $crate::serialize::Deserialize ==> #[verus_verify] impl $crate::serialize::Deserialize
@replace fn deserialize ==> #[verus_spec] fn deserialize
@replace |e| $crate::serialize::Error::from(e) ==> #[verus_spec(vx_r: ($crate::serialize::Error) => ensures !(vx_r is NoMorePairs))] |e| $crate::serialize::Error::from(e)
@fn src/serialize.rs Deserialize for u32::deserialize
@fn src/serialize.rs Deserialize for Sequence::deserialize
@fn src/serialize.rs Deserialize for ScriptBuf::deserialize
@trust
@fn src/serialize.rs Deserialize for PublicKey::deserialize
@trust
@fn src/serialize.rs Deserialize for secp256k1::PublicKey::deserialize
@trust
@fn src/serialize.rs Deserialize for ecdsa::Signature::deserialize
@trust
@fn src/serialize.rs Deserialize for KeySource::deserialize
@trust
@fn src/serialize.rs Deserialize for Height::deserialize
@trust
@fn src/serialize.rs Deserialize for Time::deserialize
@trust
@fn src/serialize.rs Deserialize for PsbtSighashType::deserialize
@trust
@fn src/serialize.rs Deserialize for XOnlyPublicKey::deserialize
@trust
@fn src/serialize.rs Deserialize for taproot::Signature::deserialize
@trust
@fn src/serialize.rs Deserialize for(XOnlyPublicKey,TapLeafHash)::deserialize
@trust
@fn src/serialize.rs Deserialize for ControlBlock::deserialize
@trust
@fn src/serialize.rs Deserialize for(ScriptBuf,LeafVersion)::deserialize
@trust
@fn src/serialize.rs Deserialize for(Vec<TapLeafHash>,KeySource)::deserialize
@trust
@fn src/serialize.rs Deserialize for TapTree::deserialize
@trust
