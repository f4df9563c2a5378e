@onlyprops C21
@fileprops C21
@mod satisfy_spec
@broadcast sat_axioms
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{absolute, relative, ecdsa, taproot, ScriptBuf, Sequence, PublicKey, XOnlyPublicKey, TapLeafHash};
use bitcoin::taproot::{ControlBlock, LeafVersion};
use bitcoin::hashes::{hash160, sha256, sha256d, ripemd160};
use bitcoin::absolute::{Height, Time, LockTime};
use miniscript::{hash256, MiniscriptKey, ToPublicKey, Satisfier, SigType, Preimage32};
use vstd::std_specs::cmp::PartialEqSpec;
use vstd::std_specs::iter::IteratorSpec;
use crate::v2::Input;
verus!{
#[verifier::external_type_specification] pub struct ExSigType(SigType);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExHash256(hash256::Hash);
#[verifier::external_type_specification] pub struct ExRelLock(relative::LockTime);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExRelH(relative::Height);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExRelT(relative::Time);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExDisabled(relative::DisabledLockTimeError);
// ---- miniscript's traits: what the keys and hashes of a script are in the terms of a PSBT ----
pub uninterp spec fn pk_of<K>(k: K) -> PublicKey;
pub uninterp spec fn xonly_of<K>(k: K) -> XOnlyPublicKey;
pub uninterp spec fn pkh_of<K>(k: K, t: SigType) -> hash160::Hash;
pub uninterp spec fn s256_of<K, H>(h: H) -> sha256::Hash;
pub uninterp spec fn h256_of<K, H>(h: H) -> hash256::Hash;
pub uninterp spec fn r160_of<K, H>(h: H) -> ripemd160::Hash;
pub uninterp spec fn h160_of<K, H>(h: H) -> hash160::Hash;
#[verifier::external_trait_specification] pub trait ExMiniscriptKey: Clone + Eq + Ord + core::fmt::Debug + core::fmt::Display + core::hash::Hash { type ExternalTraitSpecificationFor: MiniscriptKey;
  type Sha256: Clone + Eq + Ord + core::fmt::Display + core::fmt::Debug + core::hash::Hash; type Hash256: Clone + Eq + Ord + core::fmt::Display + core::fmt::Debug + core::hash::Hash; type Ripemd160: Clone + Eq + Ord + core::fmt::Display + core::fmt::Debug + core::hash::Hash; type Hash160: Clone + Eq + Ord + core::fmt::Display + core::fmt::Debug + core::hash::Hash; }
#[verifier::external_trait_specification] pub trait ExToPublicKey: MiniscriptKey { type ExternalTraitSpecificationFor: ToPublicKey;
  fn to_public_key(&self) -> (r: PublicKey) ensures r == pk_of(*self);
  fn to_x_only_pubkey(&self) -> (r: XOnlyPublicKey) ensures r == xonly_of(*self);
  fn to_pubkeyhash(&self, t: SigType) -> (r: hash160::Hash) ensures r == pkh_of(*self, t);
  fn to_sha256(h: &<Self as MiniscriptKey>::Sha256) -> (r: sha256::Hash) ensures r == s256_of::<Self, _>(*h);
  fn to_hash256(h: &<Self as MiniscriptKey>::Hash256) -> (r: hash256::Hash) ensures r == h256_of::<Self, _>(*h);
  fn to_ripemd160(h: &<Self as MiniscriptKey>::Ripemd160) -> (r: ripemd160::Hash) ensures r == r160_of::<Self, _>(*h);
  fn to_hash160(h: &<Self as MiniscriptKey>::Hash160) -> (r: hash160::Hash) ensures r == h160_of::<Self, _>(*h);
}
// the answers of a satisfier, as its implementation below defines them
#[verifier::external_trait_specification] #[verifier::external_trait_extension(SatisfierSpec via SatisfierSpecImpl)]
pub trait ExSatisfier<Pk: MiniscriptKey + ToPublicKey> { type ExternalTraitSpecificationFor: Satisfier<Pk>;
  spec fn ok(&self) -> bool;
  spec fn key_sig(&self) -> Option<taproot::Signature>;
  spec fn after(&self, n: absolute::LockTime) -> bool;
  spec fn older(&self, n: relative::LockTime) -> bool;
  spec fn leaf_sig(&self, pk: Pk, lh: TapLeafHash, r: Option<taproot::Signature>) -> bool;
  spec fn pkh_pk(&self, h: hash160::Hash, r: Option<PublicKey>) -> bool;
  spec fn pkh_leaf_sig(&self, h: (hash160::Hash, TapLeafHash), r: Option<(XOnlyPublicKey, taproot::Signature)>) -> bool;
  spec fn ecdsa_sig(&self, pk: Pk, r: Option<ecdsa::Signature>) -> bool;
  spec fn pkh_sig(&self, h: hash160::Hash, r: Option<(PublicKey, ecdsa::Signature)>) -> bool;
  spec fn scripts(&self) -> Map<ControlBlock, (ScriptBuf, LeafVersion)>;
  spec fn pre160(&self, h: hash160::Hash) -> Option<Vec<u8>>;
  spec fn pre_r160(&self, h: ripemd160::Hash) -> Option<Vec<u8>>;
  spec fn pre256(&self, h: sha256::Hash) -> Option<Vec<u8>>;
  spec fn pre_d256(&self, h: sha256d::Hash) -> Option<Vec<u8>>;
  fn lookup_tap_key_spend_sig(&self) -> (r: Option<taproot::Signature>) requires self.ok() ensures r == self.key_sig();
  fn lookup_tap_leaf_script_sig(&self, pk: &Pk, lh: &TapLeafHash) -> (r: Option<taproot::Signature>) requires self.ok() ensures self.leaf_sig(*pk, *lh, r);
  fn lookup_raw_pkh_pk(&self, h: &hash160::Hash) -> (r: Option<PublicKey>) requires self.ok() ensures self.pkh_pk(*h, r);
  fn lookup_raw_pkh_tap_leaf_script_sig(&self, h: &(hash160::Hash, TapLeafHash)) -> (r: Option<(XOnlyPublicKey, taproot::Signature)>) requires self.ok() ensures self.pkh_leaf_sig(*h, r);
  fn lookup_tap_control_block_map(&self) -> (r: Option<&BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>>) requires self.ok() ensures r is Some && r->0@ == self.scripts();
  fn lookup_ecdsa_sig(&self, pk: &Pk) -> (r: Option<ecdsa::Signature>) requires self.ok() ensures self.ecdsa_sig(*pk, r);
  fn lookup_raw_pkh_ecdsa_sig(&self, h: &hash160::Hash) -> (r: Option<(PublicKey, ecdsa::Signature)>) requires self.ok() ensures self.pkh_sig(*h, r);
  fn check_after(&self, n: absolute::LockTime) -> (r: bool) requires self.ok() ensures r == self.after(n);
  fn check_older(&self, n: relative::LockTime) -> (r: bool) requires self.ok() ensures r == self.older(n);
  fn lookup_hash160(&self, h: &Pk::Hash160) -> (r: Option<Preimage32>) requires self.ok() ensures offered(self.pre160(h160_of::<Pk, _>(*h)), r);
  fn lookup_ripemd160(&self, h: &Pk::Ripemd160) -> (r: Option<Preimage32>) requires self.ok() ensures offered(self.pre_r160(r160_of::<Pk, _>(*h)), r);
  fn lookup_sha256(&self, h: &Pk::Sha256) -> (r: Option<Preimage32>) requires self.ok() ensures offered(self.pre256(s256_of::<Pk, _>(*h)), r);
  fn lookup_hash256(&self, h: &Pk::Hash256) -> (r: Option<Preimage32>) requires self.ok() ensures offered(self.pre_d256(d256_of(h256_of::<Pk, _>(*h))), r);
}
/// the (compressed) public key around a raw one
pub uninterp spec fn key_of(k: bitcoin::secp256k1::PublicKey) -> PublicKey;
#[verifier::external_body] pub fn vx_new_key(k: bitcoin::secp256k1::PublicKey) -> (r: PublicKey) ensures r == key_of(k) { PublicKey::new(k) }
/// miniscript's hash256 as the double SHA-256 hash of the same bytes
pub uninterp spec fn h256_bytes(h: hash256::Hash) -> [u8; 32];
pub uninterp spec fn d256_mk(b: [u8; 32]) -> sha256d::Hash;
pub open spec fn d256_of(h: hash256::Hash) -> sha256d::Hash { d256_mk(h256_bytes(h)) }
pub assume_specification [<sha256d::Hash as bitcoin::hashes::Hash>::from_byte_array](b: <sha256d::Hash as bitcoin::hashes::Hash>::Bytes) -> (r: sha256d::Hash) ensures r == d256_mk(b);
pub assume_specification [<hash256::Hash as bitcoin::hashes::Hash>::to_byte_array](h: hash256::Hash) -> (r: <hash256::Hash as bitcoin::hashes::Hash>::Bytes) ensures r == h256_bytes(h);
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>) ensures r == match o { Some(x) => Some(*x), None => None };
pub open spec fn at<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
/// a recorded preimage is offered exactly if it is 32 bytes
pub open spec fn offered(p: Option<Vec<u8>>, r: Option<Preimage32>) -> bool { match r { Some(a) => p is Some && p->0@.len() == 32 && a@ == p->0@, None => p is None || p->0@.len() != 32 } }
/// BIP-65: same kind and at least as large
pub open spec fn abs_met(have_h: Option<Height>, have_t: Option<Time>, n: LockTime) -> bool {
    match n { LockTime::Blocks(h) => have_h is Some && height_u32(h) <= height_u32(have_h->0), LockTime::Seconds(t) => have_t is Some && time_u32(t) <= time_u32(have_t->0) }
}
/// BIP-68/BIP-112
pub uninterp spec fn rel_h(h: relative::Height) -> u32;
pub uninterp spec fn rel_t(t: relative::Time) -> u32;
pub open spec fn rel_enabled(s: Sequence) -> bool { s.0 & 0x8000_0000u32 == 0 }
pub open spec fn rel_is(s: Sequence, l: relative::LockTime) -> bool { rel_enabled(s) && match l { relative::LockTime::Blocks(h) => s.0 & 0x40_0000u32 == 0 && rel_h(h) == s.0 & 0xffffu32, relative::LockTime::Time(t) => s.0 & 0x40_0000u32 != 0 && rel_t(t) == s.0 & 0xffffu32 } }
pub open spec fn rel_implied(n: relative::LockTime, by: relative::LockTime) -> bool { match (n, by) { (relative::LockTime::Blocks(a), relative::LockTime::Blocks(b)) => rel_h(a) <= rel_h(b), (relative::LockTime::Time(a), relative::LockTime::Time(b)) => rel_t(a) <= rel_t(b), _ => false } }
/// the sequence is enabled for relative locks, of the same kind and at least as large
pub open spec fn rel_met(s: Sequence, n: relative::LockTime) -> bool { rel_enabled(s) && match n { relative::LockTime::Blocks(h) => s.0 & 0x40_0000u32 == 0 && rel_h(h) <= s.0 & 0xffffu32, relative::LockTime::Time(t) => s.0 & 0x40_0000u32 != 0 && rel_t(t) <= s.0 & 0xffffu32 } }
pub assume_specification [relative::LockTime::from_sequence](s: Sequence) -> (r: Result<relative::LockTime, relative::DisabledLockTimeError>) ensures match r { Ok(l) => rel_is(s, l), Err(_) => !rel_enabled(s) };
pub assume_specification [relative::LockTime::is_implied_by](n: &relative::LockTime, o: relative::LockTime) -> (r: bool) ensures r == rel_implied(*n, o);
pub trait VxFind: Iterator + Sized {
    fn vx_find<P: FnMut(&Self::Item) -> bool>(self, p: P) -> (r: Option<Self::Item>)
        requires self.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < self.remaining().len() ==> #[trigger] call_requires(p, (&self.remaining()[i],)),
        ensures match r { Some(x) => (exists|i: int| 0 <= i < self.remaining().len() && #[trigger] self.remaining()[i] == x) && call_ensures(p, (&x,), true),
            None => self.will_return_none() && forall|i: int| 0 <= i < self.remaining().len() ==> #[trigger] call_ensures(p, (&self.remaining()[i],), false) };
}
impl<I: Iterator + Sized> VxFind for I {
    #[verifier::external_body] fn vx_find<P: FnMut(&Self::Item) -> bool>(self, p: P) -> (r: Option<Self::Item>) { let mut s = self; s.find(p) }
}
// ---- v0: the locks of the transaction itself ----
pub open spec fn lock_met(have: LockTime, n: LockTime) -> bool { match (have, n) { (LockTime::Blocks(a), LockTime::Blocks(b)) => height_u32(b) <= height_u32(a), (LockTime::Seconds(a), LockTime::Seconds(b)) => time_u32(b) <= time_u32(a), _ => false } }
#[verifier::external_body] pub fn vx_abs_implied(l: &LockTime, n: LockTime) -> (r: bool) ensures r == lock_met(*l, n) { <dyn Satisfier<PublicKey>>::check_after(l, n) }
#[verifier::external_body] pub fn vx_rel_implied(s: &Sequence, n: relative::LockTime) -> (r: bool) ensures r == rel_met(*s, n) { <dyn Satisfier<PublicKey>>::check_older(s, n) }
pub assume_specification [bitcoin::TxIn::enables_lock_time](i: &bitcoin::TxIn) -> (r: bool) ensures r == (i.sequence.0 != 0xffff_ffffu32);
pub assume_specification [Sequence::is_relative_lock_time](s: &Sequence) -> (r: bool) ensures r == rel_enabled(*s);
macro_rules! eqs21 { ($($n:ident $o:ident $t:ty),* $(,)?) => { verus!{ $( pub broadcast axiom fn $n(a: &$t, b: &$t) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (*a == *b);
  pub broadcast axiom fn $o() ensures #[trigger] <$t as PartialEqSpec<$t>>::obeys_eq_spec(); )* } } }
eqs21!{ ax_eq_h160 ax_oq_h160 hash160::Hash, ax_eq_tlh ax_oq_tlh TapLeafHash }
macro_rules! ords21 { ($($n:ident $o:ident $t:ty, $v:ident),* $(,)?) => { verus!{ $( pub broadcast axiom fn $n(a: &$t, b: &$t) ensures #[trigger] vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(a, b) == Some(if $v(*a) < $v(*b) { core::cmp::Ordering::Less } else if $v(*a) == $v(*b) { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater });
  pub broadcast axiom fn $o() ensures #[trigger] <$t as vstd::std_specs::cmp::PartialOrdSpec<$t>>::obeys_partial_cmp_spec(); )* } } }
pub open spec fn txv(v: bitcoin::transaction::Version) -> i32 { v.0 }
ords21!{ ax_ord_v ax_oo_v bitcoin::transaction::Version, txv, ax_ord_h ax_oo_h Height, height_u32, ax_ord_t ax_oo_t Time, time_u32 }
macro_rules! keys21 { ($($n:ident $t:ty),* $(,)?) => { verus!{ $( pub broadcast axiom fn $n() ensures #[trigger] vstd::std_specs::btree::key_obeys_cmp_spec::<$t>(); )* } } }
keys21!{ ax_k_pk PublicKey, ax_k_spk bitcoin::secp256k1::PublicKey, ax_k_leaf (XOnlyPublicKey, TapLeafHash), ax_k_h160 hash160::Hash, ax_k_r160 ripemd160::Hash, ax_k_s256 sha256::Hash, ax_k_d256 sha256d::Hash }
pub broadcast group sat_axioms { ax_ord_v, ax_oo_v, ax_k_pk, ax_k_spk, ax_k_leaf, ax_k_h160, ax_k_r160, ax_k_s256, ax_k_d256, ax_ord_h, ax_oo_h, ax_ord_t, ax_oo_t, ax_eq_h160, ax_oq_h160, ax_eq_tlh, ax_oq_tlh }
}
@type src/v2/miniscript/satisfy.rs InputSatisfier
@append src/v2/miniscript/satisfy.rs
impl<Pk: MiniscriptKey + ToPublicKey> SatisfierSpecImpl<Pk> for InputSatisfier<'_> {
  open spec fn ok(&self) -> bool { true }
  closed spec fn key_sig(&self) -> Option<taproot::Signature> { self.input.tap_key_sig }
  closed spec fn after(&self, n: absolute::LockTime) -> bool { abs_met(self.input.min_height, self.input.min_time, n) }
  closed spec fn older(&self, n: relative::LockTime) -> bool { self.input.sequence is Some && rel_met(self.input.sequence->0, n) }
  closed spec fn leaf_sig(&self, pk: Pk, lh: TapLeafHash, r: Option<taproot::Signature>) -> bool { r == at(self.input.tap_script_sigs@, (xonly_of(pk), lh)) }
  closed spec fn pkh_pk(&self, h: hash160::Hash, r: Option<bitcoin::PublicKey>) -> bool { r is Some ==> exists|k: bitcoin::secp256k1::PublicKey| self.input.bip32_derivations@.contains_key(k) && pkh_of(k, SigType::Ecdsa) == h && r->0 == #[trigger] key_of(k) }
  closed spec fn pkh_leaf_sig(&self, h: (hash160::Hash, TapLeafHash), r: Option<(XOnlyPublicKey, taproot::Signature)>) -> bool { r is Some ==> pkh_of((r->0).0, SigType::Schnorr) == h.0 && at(self.input.tap_script_sigs@, ((r->0).0, h.1)) == Some((r->0).1) }
  closed spec fn ecdsa_sig(&self, pk: Pk, r: Option<ecdsa::Signature>) -> bool { r == at(self.input.partial_sigs@, pk_of(pk)) }
  closed spec fn pkh_sig(&self, h: hash160::Hash, r: Option<(bitcoin::PublicKey, ecdsa::Signature)>) -> bool { r is Some ==> pkh_of((r->0).0, SigType::Ecdsa) == h && at(self.input.partial_sigs@, (r->0).0) == Some((r->0).1) }
  closed spec fn scripts(&self) -> Map<ControlBlock, (ScriptBuf, LeafVersion)> { self.input.tap_scripts@ }
  closed spec fn pre160(&self, h: hash160::Hash) -> Option<Vec<u8>> { at(self.input.hash160_preimages@, h) }
  closed spec fn pre_r160(&self, h: bitcoin::hashes::ripemd160::Hash) -> Option<Vec<u8>> { at(self.input.ripemd160_preimages@, h) }
  closed spec fn pre256(&self, h: bitcoin::hashes::sha256::Hash) -> Option<Vec<u8>> { at(self.input.sha256_preimages@, h) }
  closed spec fn pre_d256(&self, h: sha256d::Hash) -> Option<Vec<u8>> { at(self.input.hash256_preimages@, h) }
}
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::lookup_tap_key_spend_sig
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::check_after
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::check_older
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::lookup_tap_leaf_script_sig
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::lookup_raw_pkh_pk
@replace .find( ==> .vx_find(
@replace bitcoin::PublicKey::new( ==> vx_new_key(
@closure 1
b: bool => ensures b == (pkh_of(*vx_p1_0.0, SigType::Ecdsa) == *pkh)
@closure 2
k: (bitcoin::PublicKey) => ensures k == key_of(*vx_p2_0.0)
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::lookup_tap_control_block_map
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::lookup_raw_pkh_tap_leaf_script_sig
@replace .find( ==> .vx_find(
@closure 1
b: bool => ensures b == (pkh_of((*vx_p1_0.0).0, SigType::Schnorr) == pkh.0 && (*vx_p1_0.0).1 == pkh.1)
@closure 2
k: ((XOnlyPublicKey, taproot::Signature)) => ensures k == ((*vx_p2_0.0).0, *vx_p2_0.1)
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::lookup_ecdsa_sig
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::lookup_raw_pkh_ecdsa_sig
@replace .find( ==> .vx_find(
@closure 1
b: bool => ensures b == (pkh_of(*vx_p1_0.0, SigType::Ecdsa) == *pkh)
@closure 2
k: ((bitcoin::PublicKey, ecdsa::Signature)) => ensures k == (*vx_p2_0.0, *vx_p2_0.1)
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::lookup_hash160
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::lookup_sha256
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::lookup_hash256
@fn src/v2/miniscript/satisfy.rs Satisfier<Pk> for InputSatisfier<'_>::lookup_ripemd160
@fn src/v2/miniscript/satisfy.rs try_vec_as_preimage32
@spec
r => ensures offered(Some(*vec), r)
@append src/v0/miniscript/mod.rs
impl<Pk: MiniscriptKey + ToPublicKey> SatisfierSpecImpl<Pk> for PsbtInputSatisfier<'_> {
  open spec fn ok(&self) -> bool { self.index < self.psbt.inputs@.len() && self.index < self.psbt.unsigned_tx.input@.len() }
  closed spec fn key_sig(&self) -> Option<bitcoin::taproot::Signature> { self.psbt.inputs@[self.index as int].tap_key_sig }
  closed spec fn after(&self, n: absolute::LockTime) -> bool { self.psbt.unsigned_tx.input@[self.index as int].sequence.0 != 0xffff_ffffu32 && lock_met(self.psbt.unsigned_tx.lock_time, n) }
  closed spec fn older(&self, n: relative::LockTime) -> bool { self.psbt.unsigned_tx.version.0 >= 2 && rel_met(self.psbt.unsigned_tx.input@[self.index as int].sequence, n) }
  closed spec fn leaf_sig(&self, pk: Pk, lh: TapLeafHash, r: Option<bitcoin::taproot::Signature>) -> bool { r == at(self.psbt.inputs@[self.index as int].tap_script_sigs@, (xonly_of(pk), lh)) }
  closed spec fn pkh_pk(&self, h: hash160::Hash, r: Option<bitcoin::PublicKey>) -> bool { r is Some ==> exists|k: bitcoin::secp256k1::PublicKey| self.psbt.inputs@[self.index as int].bip32_derivation@.contains_key(k) && pkh_of(k, SigType::Ecdsa) == h && r->0 == #[trigger] key_of(k) }
  closed spec fn pkh_leaf_sig(&self, h: (hash160::Hash, TapLeafHash), r: Option<(bitcoin::secp256k1::XOnlyPublicKey, bitcoin::taproot::Signature)>) -> bool { r is Some ==> pkh_of((r->0).0, SigType::Schnorr) == h.0 && at(self.psbt.inputs@[self.index as int].tap_script_sigs@, ((r->0).0, h.1)) == Some((r->0).1) }
  closed spec fn ecdsa_sig(&self, pk: Pk, r: Option<bitcoin::ecdsa::Signature>) -> bool { r == at(self.psbt.inputs@[self.index as int].partial_sigs@, pk_of(pk)) }
  closed spec fn pkh_sig(&self, h: hash160::Hash, r: Option<(bitcoin::PublicKey, bitcoin::ecdsa::Signature)>) -> bool { r is Some ==> pkh_of((r->0).0, SigType::Ecdsa) == h && at(self.psbt.inputs@[self.index as int].partial_sigs@, (r->0).0) == Some((r->0).1) }
  closed spec fn scripts(&self) -> Map<ControlBlock, (ScriptBuf, LeafVersion)> { self.psbt.inputs@[self.index as int].tap_scripts@ }
  closed spec fn pre160(&self, h: hash160::Hash) -> Option<Vec<u8>> { at(self.psbt.inputs@[self.index as int].hash160_preimages@, h) }
  closed spec fn pre_r160(&self, h: bitcoin::hashes::ripemd160::Hash) -> Option<Vec<u8>> { at(self.psbt.inputs@[self.index as int].ripemd160_preimages@, h) }
  closed spec fn pre256(&self, h: bitcoin::hashes::sha256::Hash) -> Option<Vec<u8>> { at(self.psbt.inputs@[self.index as int].sha256_preimages@, h) }
  closed spec fn pre_d256(&self, h: sha256d::Hash) -> Option<Vec<u8>> { at(self.psbt.inputs@[self.index as int].hash256_preimages@, h) }
}
@type src/v0/miniscript/mod.rs PsbtInputSatisfier
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::lookup_tap_key_spend_sig
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::check_after
@replace <dyn Satisfier<Pk>>::check_after( ==> vx_abs_implied(
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::check_older
@replace <dyn Satisfier<Pk>>::check_older( ==> vx_rel_implied(
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::lookup_tap_leaf_script_sig
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::lookup_raw_pkh_pk
@replace .find( ==> .vx_find(
@replace bitcoin::PublicKey::new( ==> vx_new_key(
@closure 1
b: bool => ensures b == (pkh_of(*vx_p1_0.0, SigType::Ecdsa) == *pkh)
@closure 2
k: (bitcoin::PublicKey) => ensures k == key_of(*vx_p2_0.0)
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::lookup_tap_control_block_map
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::lookup_raw_pkh_tap_leaf_script_sig
@replace .find( ==> .vx_find(
@closure 1
b: bool => ensures b == (pkh_of((*vx_p1_0.0).0, SigType::Schnorr) == pkh.0 && (*vx_p1_0.0).1 == pkh.1)
@closure 2
k: ((bitcoin::secp256k1::XOnlyPublicKey, bitcoin::taproot::Signature)) => ensures k == ((*vx_p2_0.0).0, *vx_p2_0.1)
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::lookup_ecdsa_sig
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::lookup_raw_pkh_ecdsa_sig
@replace .find( ==> .vx_find(
@closure 1
b: bool => ensures b == (pkh_of(*vx_p1_0.0, SigType::Ecdsa) == *pkh)
@closure 2
k: ((bitcoin::PublicKey, bitcoin::ecdsa::Signature)) => ensures k == (*vx_p2_0.0, *vx_p2_0.1)
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::lookup_hash160
@closure 1
p: (Option<Preimage32>) => ensures offered(Some(*x), p)
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::lookup_sha256
@closure 1
p: (Option<Preimage32>) => ensures offered(Some(*x), p)
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::lookup_hash256
@closure 1
p: (Option<Preimage32>) => ensures offered(Some(*x), p)
@fn src/v0/miniscript/mod.rs Satisfier<Pk> for PsbtInputSatisfier<'psbt>::lookup_ripemd160
@closure 1
p: (Option<Preimage32>) => ensures offered(Some(*x), p)
@fn src/v0/miniscript/mod.rs try_vec_as_preimage32
@spec
r => ensures r is Some <==> vec@.len() == 32, r is Some ==> r->0@ == vec@
@fn src/v0/miniscript/mod.rs PsbtInputSatisfier<'psbt>::new
@spec
r => ensures r.psbt == psbt && r.index == index
