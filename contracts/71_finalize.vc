@onlyprops C18 C20
@fileprops C18
@mod finalize_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{ScriptBuf, Witness, Transaction};
use crate::v2::{Psbt, Input, Output, Global};
use crate::v2::{InputError, InterpreterCheckError};
verus!{
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExInputError(InputError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExInterpErr(InterpreterCheckError);
pub uninterp spec fn wit_empty(w: Witness) -> bool;
pub assume_specification [Witness::is_empty](w: &Witness) -> (r: bool) ensures r == wit_empty(*w);
impl VxClone for Global { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { self.clone() } }
impl VxClone for Input { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { self.clone() } }
impl<K: Clone, V: Clone> VxClone for BTreeMap<K, V> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { self.clone() } }
impl VxClone for Vec<Output> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { self.to_vec() } }
// ---- BIP-174: "All other data except the UTXO and unknown fields in the input key-value map should be cleared" ----
/// what is left of an input: only these fields can hold anything
pub open spec fn fin_of(x: Input, sig: ScriptBuf, wit: Witness, r: Input) -> bool {
    r.previous_txid == x.previous_txid && r.spent_output_index == x.spent_output_index && r.sequence == x.sequence && r.min_time == x.min_time && r.min_height == x.min_height
    && r.non_witness_utxo == x.non_witness_utxo && r.witness_utxo == x.witness_utxo && r.proprietaries@ == x.proprietaries@ && r.unknowns@ == x.unknowns@
    && r.final_script_sig == Some(sig) && r.final_script_witness == Some(wit)
    && r.partial_sigs@.is_empty() && r.sighash_type is None && r.redeem_script is None && r.witness_script is None && r.bip32_derivations@.is_empty()
    && r.ripemd160_preimages@.is_empty() && r.sha256_preimages@.is_empty() && r.hash160_preimages@.is_empty() && r.hash256_preimages@.is_empty()
    && r.tap_key_sig is None && r.tap_script_sigs@.is_empty() && r.tap_scripts@.is_empty() && r.tap_key_origins@.is_empty() && r.tap_internal_key is None && r.tap_merkle_root is None
}
pub open spec fn fin_from(x: Input, r: Input) -> bool { exists|sig: ScriptBuf, wit: Witness| #[trigger] fin_of(x, sig, wit, r) }
pub open spec fn finalized_from(p: Psbt, q: Psbt) -> bool {
    q.global == p.global && q.outputs == p.outputs && q.inputs@.len() == p.inputs@.len()
    && forall|i: int| #![trigger q.inputs@[i]] 0 <= i < p.inputs@.len() ==> fin_from(p.inputs@[i], q.inputs@[i])
}
/// the finalized PSBT is extractable and describes the same transaction
pub proof fn lem_finalized(p: Psbt, q: Psbt) requires finalized_from(p, q) ensures all_fin(q.inputs@), lock_undetermined(q.inputs@) == lock_undetermined(p.inputs@), all_funded(q.inputs@) == all_funded(p.inputs@),
    forall|t: Transaction| #[trigger] is_utx(p, t) ==> is_utx(q, t)
{
    assert forall|i: int| 0 <= i < q.inputs@.len() implies fin(#[trigger] q.inputs@[i]) && wants(q.inputs@[i]) == wants(p.inputs@[i]) && only_time(q.inputs@[i]) == only_time(p.inputs@[i]) && only_height(q.inputs@[i]) == only_height(p.inputs@[i]) && funding(q.inputs@[i]) == funding(p.inputs@[i]) by { assert(fin_from(p.inputs@[i], q.inputs@[i])); }
    assert forall|i: int| 0 <= i < p.inputs@.len() implies only_time(#[trigger] p.inputs@[i]) == only_time(q.inputs@[i]) && only_height(p.inputs@[i]) == only_height(q.inputs@[i]) && funding(q.inputs@[i]) == funding(p.inputs@[i]) by { assert(fin(q.inputs@[i])); }
    assert forall|t: Transaction| #[trigger] is_utx(p, t) implies is_utx(q, t) by {
        assert(same_for_id(p, q)) by { assert forall|i: int| 0 <= i < p.inputs@.len() implies (#[trigger] p.inputs@[i]).previous_txid == q.inputs@[i].previous_txid && p.inputs@[i].spent_output_index == q.inputs@[i].spent_output_index && p.inputs@[i].min_time == q.inputs@[i].min_time && p.inputs@[i].min_height == q.inputs@[i].min_height by { assert(fin_from(p.inputs@[i], q.inputs@[i])); } }
        lem_same_lock_half(p, q, t.lock_time);
        assert forall|i: int| 0 <= i < t.input@.len() implies utx_in(#[trigger] q.inputs@[i], #[trigger] t.input@[i]) by { assert(fin_from(p.inputs@[i], q.inputs@[i])); assert(utx_in(p.inputs@[i], t.input@[i])); }
    }
}
}
@type src/v2/map/input.rs FinalizeError
@type src/v2/miniscript/finalize.rs Finalizer
@type src/v2/miniscript/finalize.rs Error
@type src/v2/miniscript/finalize.rs FinalizeError
@type src/v2/miniscript/finalize.rs FinalizeInputError
@append src/v2/miniscript/finalize.rs
impl Finalizer { pub closed spec fn vx(&self) -> Psbt { self.0 } }
@fn src/v2/map/input.rs Input::has_funding_utxo
@spec
r => ensures r == (funding(*self) is Some)
@fn src/v2/map/input.rs Input::finalize
@replace self.proprietaries.clone() ==> self.proprietaries.vx_clone()
@replace self.unknowns.clone() ==> self.unknowns.vx_clone()
@spec
r => requires funding(*self) is Some
  ensures r is Err <==> self.witness_utxo is Some && wit_empty(final_script_witness), r is Ok ==> fin_of(*self, final_script_sig, final_script_witness, r->Ok_0)
@fn src/v2/miniscript/finalize.rs Finalizer::new
@props C18 C20
@spec
r => ensures r is Ok <==> all_funded(psbt.inputs@) && !lock_undetermined(psbt.inputs@) && all_sigs_ok(psbt), r is Ok ==> r->Ok_0.vx() == psbt
@loop 1
it => invariant it.index() <= psbt.inputs@.len(), it.seq() == psbt.inputs@.as_ref(), forall|i: int| 0 <= i < it.index() ==> funding(#[trigger] psbt.inputs@[i]) is Some
@fn src/v2/miniscript/finalize.rs Finalizer::final_script_sig_and_witness
@trust
@spec
requires funding(*input) is Some
@fn src/v2/miniscript/mod.rs Psbt::interpreter_check
@trust
@spec
requires all_fin(self.inputs@), all_funded(self.inputs@), !lock_undetermined(self.inputs@)
@fn src/v2/miniscript/finalize.rs Finalizer::finalize_input
@replace ?.clone() ==> ?.vx_clone()
@spec
r => requires funding(*input) is Some ensures r is Ok ==> fin_from(*input, r->Ok_0)
@fn src/v2/miniscript/finalize.rs Finalizer::finalize
@replace self.0.global.clone() ==> self.0.global.vx_clone()
@replace self.0.outputs.to_vec() ==> self.0.outputs.vx_clone()
@spec
r => requires all_funded(self.vx().inputs@), !lock_undetermined(self.vx().inputs@) ensures r is Ok ==> finalized_from(self.vx(), r->Ok_0)
@enumerate 1
@loop 1
it => invariant it.index() <= it.seq().len() == self.0.inputs@.len(), forall|n: int| 0 <= n < it.seq().len() ==> #[trigger] it.seq()[n] == n, inputs@.len() == it.index(), all_funded(self.0.inputs@),
  forall|i: int| #![trigger inputs@[i]] 0 <= i < it.index() ==> fin_from(self.0.inputs@[i], inputs@[i])
@before finalized.interpreter_check(secp)?
lem_finalized(self.0, finalized);
