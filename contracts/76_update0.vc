@onlyprops C25
@fileprops C25
@mod update0_spec
@broadcast ax_eq_txo ax_oq_txo
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{Script, ScriptBuf, TxOut, Transaction, WitnessVersion, PublicKey};
use crate::v0::bitcoin::{Psbt, Input, Output};
use miniscript::{descriptor, Descriptor, DefiniteDescriptorKey, MiniscriptKey};
use miniscript::descriptor::{ConversionError, DescriptorType};
use crate::v0::miniscript::{UtxoUpdateError, OutputUpdateError};
verus!{
#[verifier::external_trait_specification] pub trait ExMiniscriptKey: Clone + Eq + Ord + core::fmt::Debug + core::fmt::Display + core::hash::Hash { type ExternalTraitSpecificationFor: MiniscriptKey;
  type Sha256: Clone + Eq + Ord + core::fmt::Display + core::fmt::Debug + core::hash::Hash; type Hash256: Clone + Eq + Ord + core::fmt::Display + core::fmt::Debug + core::hash::Hash; type Ripemd160: Clone + Eq + Ord + core::fmt::Display + core::fmt::Debug + core::hash::Hash; type Hash160: Clone + Eq + Ord + core::fmt::Display + core::fmt::Debug + core::hash::Hash; }
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(Pk)] pub struct ExDescriptor<Pk: MiniscriptKey>(Descriptor<Pk>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExDefKey(DefiniteDescriptorKey);
#[verifier::external_type_specification] pub struct ExDescType(DescriptorType);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExConvErr(ConversionError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExWitVer(WitnessVersion);
pub broadcast axiom fn ax_eq_txo(a: &TxOut, b: &TxOut) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (*a == *b);
pub broadcast axiom fn ax_oq_txo() ensures #[trigger] <TxOut as vstd::std_specs::cmp::PartialEqSpec<TxOut>>::obeys_eq_spec();
pub uninterp spec fn d_type<Pk: MiniscriptKey>(d: Descriptor<Pk>) -> DescriptorType;
/// the scriptPubkey of the descriptor
pub uninterp spec fn d_spk(d: Descriptor<DefiniteDescriptorKey>) -> ScriptBuf;
/// what updating an input or output from the descriptor makes of it
pub uninterp spec fn d_upd<F>(d: Descriptor<DefiniteDescriptorKey>, item: F) -> F;
/// BIP-141 and BIP-341 outputs
pub open spec fn d_segwit(t: DescriptorType) -> bool { !(t is Bare || t is Sh || t is Pkh || t is ShSortedMulti) }
pub assume_specification<Pk: MiniscriptKey> [Descriptor::<Pk>::desc_type] (d: &Descriptor<Pk>) -> (r: DescriptorType) ensures r == d_type(*d);
pub assume_specification [DescriptorType::segwit_version] (d: &DescriptorType) -> (r: Option<WitnessVersion>) ensures r is Some == d_segwit(*d);
/// the scriptPubkey the input spends, as far as its UTXO fields tell: the non-witness UTXO is the transaction spent, and both UTXOs agree
pub open spec fn spk0(p: Psbt, i: int, d: Descriptor<DefiniteDescriptorKey>) -> Option<ScriptBuf> {
    let x = p.inputs@[i]; let o = p.unsigned_tx.input@[i].previous_output;
    match (x.witness_utxo, x.non_witness_utxo) {
        (None, None) => None,
        (Some(w), None) => if d_segwit(d_type(d)) { Some(w.script_pubkey) } else { None },
        (w, Some(t)) => if tx_txid(t) != o.txid || o.vout as int >= t.output@.len() || (w is Some && w->0 != t.output@[o.vout as int]) { None } else { Some(t.output@[o.vout as int].script_pubkey) },
    } }
pub open spec fn fits0(p: Psbt, i: int, d: Descriptor<DefiniteDescriptorKey>) -> bool { spk0(p, i, d) is Some && as_script(spk0(p, i, d)->0) == as_script(d_spk(d)) }
pub open spec fn only_in(p: Psbt, q: Psbt, i: int) -> bool { q == (Psbt { inputs: q.inputs, ..p }) && q.inputs@.len() == p.inputs@.len() && forall|j: int| #![trigger q.inputs@[j]] 0 <= j < p.inputs@.len() && j != i ==> q.inputs@[j] == p.inputs@[j] }
pub open spec fn only_out(p: Psbt, q: Psbt, i: int) -> bool { q == (Psbt { outputs: q.outputs, ..p }) && q.outputs@.len() == p.outputs@.len() && forall|j: int| #![trigger q.outputs@[j]] 0 <= j < p.outputs@.len() && j != i ==> q.outputs@[j] == p.outputs@[j] }
}
@type src/v0/miniscript/mod.rs UtxoUpdateError
@type src/v0/miniscript/mod.rs OutputUpdateError
@fn src/v0/miniscript/mod.rs update_item_with_descriptor_helper
@trust derives through miniscript; checked by the bounded executable contract
@spec
r => ensures r is Ok && check_script is Some ==> r->Ok_0.1 == (check_script->0 == as_script(d_spk(*descriptor))),
    r is Ok && r->Ok_0.1 ==> *final(item) == d_upd(*descriptor, *old(item)), r is Ok && !r->Ok_0.1 ==> *final(item) == *old(item)
@fn src/v0/miniscript/mod.rs PsbtExt for Psbt::update_input_with_descriptor
@rewrite .map_err(UtxoUpdateError::DerivationError) ==> .map_err(#[verus_spec(o: (UtxoUpdateError) => ensures o is DerivationError)] |vx_x| UtxoUpdateError::DerivationError(vx_x))
@lift
@spec
r => ensures only_in(*old(self), *final(self), input_index as int),
    ({ let p = *old(self); let i = input_index as int; let good = i < p.inputs@.len() && i < p.unsigned_tx.input@.len();
       (r is Ok ==> good && fits0(p, i, *desc) && final(self).inputs@[i] == d_upd(*desc, p.inputs@[i]))
       && (good && fits0(p, i, *desc) ==> r is Ok || r->Err_0 is DerivationError)
       && (r is Err && !(r->Err_0 is DerivationError) ==> final(self).inputs@ =~= p.inputs@) })
@fn src/v0/miniscript/mod.rs PsbtExt for Psbt::update_output_with_descriptor
@rewrite .map_err(OutputUpdateError::DerivationError) ==> .map_err(#[verus_spec(o: (OutputUpdateError) => ensures o is DerivationError)] |vx_x| OutputUpdateError::DerivationError(vx_x))
@lift
@spec
r => ensures only_out(*old(self), *final(self), output_index as int),
    ({ let p = *old(self); let i = output_index as int; let good = i < p.outputs@.len() && i < p.unsigned_tx.output@.len() && as_script(p.unsigned_tx.output@[i].script_pubkey) == as_script(d_spk(*desc));
       (r is Ok ==> good && final(self).outputs@[i] == d_upd(*desc, p.outputs@[i]))
       && (good ==> r is Ok || r->Err_0 is DerivationError)
       && (r is Err && !(r->Err_0 is DerivationError) ==> final(self).outputs@ =~= p.outputs@) })
