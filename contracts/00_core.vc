@mod core_spec
@broadcast core_lemmas
use vstd::prelude::*;
use crate::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
macro_rules! ext { ($($n:ident : $t:ty),* $(,)?) => { verus!{ $(#[verifier::external_type_specification] #[verifier::external_body] pub struct $n($t);)* } } }
// Opaque foreign types: nothing is assumed about them beyond what the assumed contracts below say.
ext!{
 ExTxid: bitcoin::Txid,
 ExTime: bitcoin::absolute::Time, ExHeight: bitcoin::absolute::Height,
 ExPublicKey: bitcoin::PublicKey, ExScriptBuf: bitcoin::ScriptBuf,
 ExSecpPk: bitcoin::secp256k1::PublicKey, ExFp: bitcoin::bip32::Fingerprint, ExDp: bitcoin::bip32::DerivationPath,
 ExWitness: bitcoin::Witness, ExR160: bitcoin::hashes::ripemd160::Hash, ExS256: bitcoin::hashes::sha256::Hash,
 ExH160: bitcoin::hashes::hash160::Hash, ExH256: bitcoin::hashes::sha256d::Hash, ExTapSig: bitcoin::taproot::Signature,
 ExXonly: bitcoin::XOnlyPublicKey, ExTLH: bitcoin::TapLeafHash, ExCB: bitcoin::taproot::ControlBlock, ExLV: bitcoin::taproot::LeafVersion,
 ExTNH: bitcoin::TapNodeHash, ExCPK: bitcoin::CompressedPublicKey,
 ExChildNumber: bitcoin::bip32::ChildNumber, ExTapTree: bitcoin::taproot::TapTree, ExXpub: bitcoin::bip32::Xpub,
 ExScript: bitcoin::Script, ExAmount: bitcoin::Amount, ExSecpSig: bitcoin::secp256k1::ecdsa::Signature, ExWeight: bitcoin::Weight, ExFeeRate: bitcoin::FeeRate,

}
verus!{
// Transparent foreign types: their public fields are used as they are.
#[verifier::external_type_specification] pub struct ExTransaction(bitcoin::Transaction);
#[verifier::external_type_specification] pub struct ExTxIn(bitcoin::TxIn);
#[verifier::external_type_specification] pub struct ExTxOut(bitcoin::TxOut);
#[verifier::external_type_specification] pub struct ExOutPoint(bitcoin::OutPoint);
#[verifier::external_type_specification] pub struct ExSequence(bitcoin::Sequence);
#[verifier::external_type_specification] pub struct ExTxVersion(bitcoin::transaction::Version);
#[verifier::external_type_specification] pub struct ExLockTime(bitcoin::absolute::LockTime);
#[verifier::external_type_specification] pub struct ExEcdsaSig(bitcoin::ecdsa::Signature);
#[verifier::external_type_specification] pub struct ExEcdsaSighashType(bitcoin::sighash::EcdsaSighashType);
#[verifier::external_type_specification] pub struct ExTapSighashType(bitcoin::sighash::TapSighashType);
#[verifier::external_type_specification] pub struct ExPK<S>(crate::raw::ProprietaryKey<S>) where S: Copy + From<u8> + Into<u8>;

// ---- slices and iterators (proved here) ----
pub broadcast proof fn lem_asref<T>(s: Seq<T>, i: int) requires 0 <= i < s.len()
  ensures *(#[trigger] s.as_ref())[i] == #[trigger] s[i], s.as_ref()[i] == &s[i] { }
pub broadcast proof fn lem_asref_len<T>(s: Seq<T>) ensures (#[trigger] s.as_ref()).len() == s.len() { }

// Two collections with equal views are equal (extensional equality of std collections).
pub broadcast axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures #![trigger a@, b@] a@ == b@ ==> a == b;

pub broadcast group core_lemmas { lem_asref, lem_asref_len }
}
@type src/v2/map/input.rs Input
@type src/v2/map/output.rs Output
@type src/v2/map/global.rs Global
@type src/v2/mod.rs Psbt
@type src/sighash_type.rs PsbtSighashType
@type src/raw.rs Key
@type src/raw.rs Pair
@type src/version.rs Version
@type src/v2/dleq.rs DleqProof
@append src/version.rs
impl Version { pub closed spec fn vx(&self) -> u32 { self.0 } }
@const src/version.rs Version::ZERO
@spec
ensures Self::ZERO.vx() == 0
@const src/version.rs Version::TWO
@spec
ensures Self::TWO.vx() == 2
@const src/lib.rs V0
@spec
ensures V0.vx() == 0
@const src/lib.rs V2
@spec
ensures V2.vx() == 2
