@fileprops C15
@mod sign0_spec
@broadcast eq_sign0
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{Transaction, TxOut};
use bitcoin::sighash::EcdsaSighashType;
use bitcoin::secp256k1::Message;
use crate::v0::bitcoin::{Psbt, Input, OutputType, SigningAlgorithm, SignError};
verus!{
pub broadcast axiom fn ax_eq_alg0(a: &SigningAlgorithm, b: &SigningAlgorithm) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (*a == *b);
pub broadcast axiom fn ax_oq_alg0() ensures #[trigger] <SigningAlgorithm as vstd::std_specs::cmp::PartialEqSpec<SigningAlgorithm>>::obeys_eq_spec();
pub broadcast group eq_sign0 { ax_eq_alg0, ax_oq_alg0 }
pub open spec fn in_range0(p: Psbt, i: int) -> bool { 0 <= i < p.inputs@.len() && i < p.unsigned_tx.input@.len() }
/// the UTXO an input spends: the witness UTXO if present, else the output of the non-witness UTXO at the index the unsigned transaction spends
pub open spec fn utxo0(p: Psbt, i: int) -> Option<TxOut> { utxo0_of(p.inputs@[i], p.unsigned_tx.input@[i].previous_output.vout as int) }
pub open spec fn utxo0_of(x: Input, v: int) -> Option<TxOut> {
    if x.witness_utxo is Some { x.witness_utxo } else { match x.non_witness_utxo { Some(t) => if v < t.output@.len() { Some(t.output@[v]) } else { None }, None => None } }
}
pub open spec fn in_kind0(p: Psbt, i: int) -> Kind { kind_of(as_script(utxo0(p, i)->0.script_pubkey), p.inputs@[i].redeem_script) }
pub open spec fn msg_v0(p: Psbt, i: int, tx: Transaction) -> Option<(Message, EcdsaSighashType)> {
    let x = p.inputs@[i];
    if !in_range0(p, i) || utxo0(p, i) is None || declared(x.sighash_type) is None { None } else {
        match msg_of(in_kind0(p, i), as_script(utxo0(p, i)->0.script_pubkey), x.redeem_script, x.witness_script, utxo0(p, i)->0.value, declared(x.sighash_type)->0, tx, i) {
            Some(m) => Some((m, declared(x.sighash_type)->0)), None => None } }
}
pub open spec fn kind_is0(k: Kind, t: OutputType) -> bool { match t { OutputType::Bare => k is Bare, OutputType::Wpkh => k is Wpkh, OutputType::Wsh => k is Wsh, OutputType::ShWpkh => k is ShWpkh, OutputType::ShWsh => k is ShWsh, OutputType::Sh => k is Sh, OutputType::Tr => k is Tr } }
}
@type src/v0/bitcoin/mod.rs OutputType
@type src/v0/bitcoin/mod.rs SigningAlgorithm
@type src/v0/bitcoin/mod.rs SignError
@type src/v0/bitcoin/mod.rs IndexOutOfBoundsError
@append src/v0/bitcoin/mod.rs
impl vstd::std_specs::convert::FromSpecImpl<sighash::P2wpkhError> for SignError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: sighash::P2wpkhError) -> Self { SignError::P2wpkhSighash(e) } }
impl vstd::std_specs::convert::FromSpecImpl<sighash::TaprootError> for SignError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: sighash::TaprootError) -> Self { SignError::TaprootError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<IndexOutOfBoundsError> for SignError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: IndexOutOfBoundsError) -> Self { SignError::IndexOutOfBounds(e) } }
@fn src/v0/bitcoin/mod.rs From<sighash::P2wpkhError> for SignError::from
@spec
r => ensures r == SignError::P2wpkhSighash(e)
@fn src/v0/bitcoin/mod.rs From<IndexOutOfBoundsError> for SignError::from
@spec
r => ensures r == SignError::IndexOutOfBounds(e)
@fn src/v0/bitcoin/mod.rs OutputType::signing_algorithm
@spec
r => ensures r == (if self is Tr { SigningAlgorithm::Schnorr } else { SigningAlgorithm::Ecdsa })
@fn src/v0/bitcoin/mod.rs Psbt::check_index_is_within_bounds
@spec
r => ensures r is Ok <==> in_range0(*self, input_index as int)
@fn src/v0/bitcoin/mod.rs Psbt::checked_input
@spec
r => ensures r is Ok <==> in_range0(*self, input_index as int), r is Ok ==> *r->Ok_0 == self.inputs@[input_index as int]
@fn src/v0/bitcoin/mod.rs Psbt::spend_utxo
@spec
r => ensures r is Ok <==> in_range0(*self, input_index as int) && utxo0(*self, input_index as int) is Some, r is Ok ==> *r->Ok_0 == utxo0(*self, input_index as int)->0
@fn src/v0/bitcoin/mod.rs Psbt::output_type
@spec
r => ensures r is Ok <==> in_range0(*self, input_index as int) && utxo0(*self, input_index as int) is Some && !(in_kind0(*self, input_index as int) is Unknown),
  r is Ok ==> kind_is0(in_kind0(*self, input_index as int), r->Ok_0)
@closure 1
b: (bool) => ensures b == sc_wpkh(as_script(*s))
@closure 2
b: (bool) => ensures b == sc_wsh(as_script(*x))
@fn src/v0/bitcoin/mod.rs Psbt::signing_algorithm
@spec
r => ensures r is Ok <==> in_range0(*self, input_index as int) && utxo0(*self, input_index as int) is Some && !(in_kind0(*self, input_index as int) is Unknown),
  r is Ok ==> (r->Ok_0 is Schnorr <==> in_kind0(*self, input_index as int) is Tr)
@fn src/v0/bitcoin/mod.rs Psbt::sighash_ecdsa
@spec
r => requires cache_tx(*old(cache)).input@.len() >= self.unsigned_tx.input@.len()
  ensures cache_tx(*final(cache)) == cache_tx(*old(cache)),
    r is Ok <==> msg_v0(*self, input_index as int, cache_tx(*old(cache))) is Some, r is Ok ==> r->Ok_0 == msg_v0(*self, input_index as int, cache_tx(*old(cache)))->0
@closure 1
