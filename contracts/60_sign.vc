@fileprops C14 C16
@mod sign_spec
@broadcast eq_sign
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use core::borrow::Borrow;
use bitcoin::{Script, ScriptBuf, Transaction, Amount};
use bitcoin::sighash::{EcdsaSighashType, SighashCache, LegacySighash, SegwitV0Sighash};
use bitcoin::secp256k1::Message;
use crate::v2::{Psbt, Input, OutputType, SigningAlgorithm, SignError};
verus!{
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExMessage(Message);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExLegS(LegacySighash);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExSegS(SegwitV0Sighash);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIIE(bitcoin::blockdata::transaction::InputsIndexError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExP2wE(bitcoin::sighash::P2wpkhError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTapE(bitcoin::sighash::TaprootError);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ExCache<T: Borrow<Transaction>>(SighashCache<T>);
pub broadcast axiom fn ax_eq_alg(a: &SigningAlgorithm, b: &SigningAlgorithm) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (*a == *b);
pub broadcast axiom fn ax_oq_alg() ensures #[trigger] <SigningAlgorithm as vstd::std_specs::cmp::PartialEqSpec<SigningAlgorithm>>::obeys_eq_spec();
pub broadcast group eq_sign { ax_eq_alg, ax_oq_alg, ax_wpkh, ax_wsh, ax_tr, ax_sh }
// ---- scripts ----
pub uninterp spec fn as_script(s: ScriptBuf) -> &'static Script;
pub assume_specification [<ScriptBuf as core::ops::Deref>::deref](s: &ScriptBuf) -> (r: &<ScriptBuf as core::ops::Deref>::Target) ensures r == as_script(*s);
pub uninterp spec fn sc_wp(s: &Script) -> bool;
pub uninterp spec fn sc_sh(s: &Script) -> bool;
pub uninterp spec fn sc_wpkh(s: &Script) -> bool;
pub uninterp spec fn sc_wsh(s: &Script) -> bool;
pub uninterp spec fn sc_tr(s: &Script) -> bool;
/// the three standard programs are witness programs of different shapes (BIP-141, BIP-341); P2SH is none
pub broadcast axiom fn ax_wpkh(s: &Script) ensures #[trigger] sc_wpkh(s) ==> sc_wp(s) && !sc_wsh(s) && !sc_tr(s) && !sc_sh(s);
pub broadcast axiom fn ax_wsh(s: &Script) ensures #[trigger] sc_wsh(s) ==> sc_wp(s) && !sc_wpkh(s) && !sc_tr(s) && !sc_sh(s);
pub broadcast axiom fn ax_tr(s: &Script) ensures #[trigger] sc_tr(s) ==> sc_wp(s) && !sc_wpkh(s) && !sc_wsh(s) && !sc_sh(s);
pub broadcast axiom fn ax_sh(s: &Script) ensures #[trigger] sc_sh(s) ==> !sc_wp(s);
pub assume_specification [Script::is_witness_program](s: &Script) -> (r: bool) ensures r == sc_wp(s);
pub assume_specification [Script::is_p2sh](s: &Script) -> (r: bool) ensures r == sc_sh(s);
pub assume_specification [Script::is_p2wpkh](s: &Script) -> (r: bool) ensures r == sc_wpkh(s);
pub assume_specification [Script::is_p2wsh](s: &Script) -> (r: bool) ensures r == sc_wsh(s);
pub assume_specification [Script::is_p2tr](s: &Script) -> (r: bool) ensures r == sc_tr(s);
// ---- signature hashes ----
/// the hash functions of BIP-143 and of legacy signing, as rust-bitcoin computes them
pub uninterp spec fn legacy_hash(tx: Transaction, i: int, script: &Script, ty: u32) -> LegacySighash;
pub uninterp spec fn wpkh_hash(tx: Transaction, i: int, script: &Script, value: Amount, ty: EcdsaSighashType) -> SegwitV0Sighash;
pub uninterp spec fn wsh_hash(tx: Transaction, i: int, script: &Script, value: Amount, ty: EcdsaSighashType) -> SegwitV0Sighash;
pub uninterp spec fn legacy_msg(h: LegacySighash) -> Message;
pub uninterp spec fn segwit_msg(h: SegwitV0Sighash) -> Message;
pub uninterp spec fn cache_tx<T: Borrow<Transaction>>(c: SighashCache<T>) -> Transaction;
pub assume_specification<T: Borrow<Transaction>> [SighashCache::<T>::legacy_signature_hash](c: &SighashCache<T>, i: usize, script: &Script, ty: u32) -> (r: Result<LegacySighash, bitcoin::blockdata::transaction::InputsIndexError>)
    ensures r is Ok <==> i < cache_tx(*c).input@.len(), r is Ok ==> r->Ok_0 == legacy_hash(cache_tx(*c), i as int, script, ty);
pub assume_specification<T: Borrow<Transaction>> [SighashCache::<T>::p2wpkh_signature_hash](c: &mut SighashCache<T>, i: usize, script: &Script, value: Amount, ty: EcdsaSighashType) -> (r: Result<SegwitV0Sighash, bitcoin::sighash::P2wpkhError>)
    ensures cache_tx(*final(c)) == cache_tx(*old(c)), r is Ok <==> i < cache_tx(*old(c)).input@.len() && sc_wpkh(script), r is Ok ==> r->Ok_0 == wpkh_hash(cache_tx(*old(c)), i as int, script, value, ty);
pub assume_specification<T: Borrow<Transaction>> [SighashCache::<T>::p2wsh_signature_hash](c: &mut SighashCache<T>, i: usize, script: &Script, value: Amount, ty: EcdsaSighashType) -> (r: Result<SegwitV0Sighash, bitcoin::blockdata::transaction::InputsIndexError>)
    ensures cache_tx(*final(c)) == cache_tx(*old(c)), r is Ok <==> i < cache_tx(*old(c)).input@.len(), r is Ok ==> r->Ok_0 == wsh_hash(cache_tx(*old(c)), i as int, script, value, ty);
pub assume_specification [<Message as From<LegacySighash>>::from](h: LegacySighash) -> (r: Message) ensures r == legacy_msg(h);
pub assume_specification [<Message as From<SegwitV0Sighash>>::from](h: SegwitV0Sighash) -> (r: Message) ensures r == segwit_msg(h);
// ---- what has to be signed, written from BIP-174/370 and BIP-16/141/143 ----
pub enum Kind { Bare, Wpkh, Wsh, ShWpkh, ShWsh, Sh, Tr, Unknown }
pub open spec fn kind_of(spk: &Script, redeem: Option<ScriptBuf>) -> Kind {
    if sc_wpkh(spk) { Kind::Wpkh } else if sc_wsh(spk) { Kind::Wsh }
    else if sc_sh(spk) { match redeem { Some(r) => if sc_wpkh(as_script(r)) { Kind::ShWpkh } else if sc_wsh(as_script(r)) { Kind::ShWsh } else { Kind::Sh }, None => Kind::Sh } }
    else if sc_tr(spk) { Kind::Tr } else if sc_wp(spk) { Kind::Unknown } else { Kind::Bare }
}
pub open spec fn msg_of(k: Kind, spk: &Script, redeem: Option<ScriptBuf>, witness: Option<ScriptBuf>, value: Amount, ty: EcdsaSighashType, tx: Transaction, i: int) -> Option<Message> {
    match k {
        Kind::Bare => Some(legacy_msg(legacy_hash(tx, i, spk, ecd(ty)))),
        Kind::Sh => match redeem { Some(r) => Some(legacy_msg(legacy_hash(tx, i, as_script(r), ecd(ty)))), None => None },
        Kind::Wpkh => Some(segwit_msg(wpkh_hash(tx, i, spk, value, ty))),
        Kind::ShWpkh => Some(segwit_msg(wpkh_hash(tx, i, as_script(redeem->0), value, ty))),
        Kind::Wsh | Kind::ShWsh => match witness { Some(w) => Some(segwit_msg(wsh_hash(tx, i, as_script(w), value, ty))), None => None },
        Kind::Tr | Kind::Unknown => None,
    }
}
pub open spec fn in_range(p: Psbt, i: int) -> bool { 0 <= i < p.inputs@.len() && i < p.global.input_count }
pub open spec fn in_kind(x: Input) -> Kind { kind_of(as_script(funding(x)->0.script_pubkey), x.redeem_script) }
/// the message to sign for an input and its sighash type; None when the property asks for an error
pub open spec fn msg_v2(p: Psbt, i: int, tx: Transaction) -> Option<(Message, EcdsaSighashType)> {
    let x = p.inputs@[i];
    if !in_range(p, i) || funding(x) is None || declared(x.sighash_type) is None { None } else {
        match msg_of(in_kind(x), as_script(funding(x)->0.script_pubkey), x.redeem_script, x.witness_script, funding(x)->0.value, declared(x.sighash_type)->0, tx, i) {
            Some(m) => Some((m, declared(x.sighash_type)->0)), None => None } }
}
pub open spec fn kind_is(k: Kind, t: OutputType) -> bool { match t { OutputType::Bare => k is Bare, OutputType::Wpkh => k is Wpkh, OutputType::Wsh => k is Wsh, OutputType::ShWpkh => k is ShWpkh, OutputType::ShWsh => k is ShWsh, OutputType::Sh => k is Sh, OutputType::Tr => k is Tr } }
}
@type src/v2/mod.rs OutputType
@type src/v2/mod.rs SigningAlgorithm
@type src/v2/error.rs SignError
@type src/v2/error.rs IndexOutOfBoundsError
@type src/error.rs FundingUtxoError
@append src/v2/error.rs
impl vstd::std_specs::convert::FromSpecImpl<sighash::P2wpkhError> for SignError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: sighash::P2wpkhError) -> Self { SignError::P2wpkhSighash(e) } }
impl vstd::std_specs::convert::FromSpecImpl<IndexOutOfBoundsError> for SignError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: IndexOutOfBoundsError) -> Self { SignError::IndexOutOfBounds(e) } }
impl vstd::std_specs::convert::FromSpecImpl<FundingUtxoError> for SignError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: FundingUtxoError) -> Self { SignError::FundingUtxo(e) } }
@fn src/v2/error.rs From<sighash::P2wpkhError> for SignError::from
@spec
r => ensures r == SignError::P2wpkhSighash(e)
@fn src/v2/error.rs From<IndexOutOfBoundsError> for SignError::from
@spec
r => ensures r == SignError::IndexOutOfBounds(e)
@fn src/v2/error.rs From<FundingUtxoError> for SignError::from
@spec
r => ensures r == SignError::FundingUtxo(e)
@fn src/v2/mod.rs OutputType::signing_algorithm
@spec
r => ensures r == (if self is Tr { SigningAlgorithm::Schnorr } else { SigningAlgorithm::Ecdsa })
@fn src/v2/mod.rs Psbt::output_type
@spec
r => ensures r is Ok <==> in_range(*self, input_index as int) && funding(self.inputs@[input_index as int]) is Some && !(in_kind(self.inputs@[input_index as int]) is Unknown),
  r is Ok ==> kind_is(in_kind(self.inputs@[input_index as int]), r->Ok_0)
@closure 1
b: (bool) => ensures b == sc_wpkh(as_script(*s))
@closure 2
b: (bool) => ensures b == sc_wsh(as_script(*x))
@fn src/v2/mod.rs Psbt::signing_algorithm
@spec
r => ensures r is Ok <==> in_range(*self, input_index as int) && funding(self.inputs@[input_index as int]) is Some && !(in_kind(self.inputs@[input_index as int]) is Unknown),
  r is Ok ==> (r->Ok_0 is Schnorr <==> in_kind(self.inputs@[input_index as int]) is Tr)
@fn src/v2/mod.rs Psbt::sighash_ecdsa
@spec
r => requires cache_tx(*old(cache)).input@.len() >= self.inputs@.len()
  ensures cache_tx(*final(cache)) == cache_tx(*old(cache)),
    r is Ok <==> msg_v2(*self, input_index as int, cache_tx(*old(cache))) is Some, r is Ok ==> r->Ok_0 == msg_v2(*self, input_index as int, cache_tx(*old(cache)))->0
@closure 1
