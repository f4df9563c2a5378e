@onlyprops C22
@fileprops C22
@mod checks0_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{Script, ScriptBuf, ScriptHash, WScriptHash};
use crate::v0::bitcoin::{Psbt, Input};
use crate::v0::SignerChecksError;
verus!{
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExScriptHash(ScriptHash);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExWScriptHash(WScriptHash);
pub uninterp spec fn sc_hash(s: &Script) -> ScriptHash;
pub uninterp spec fn sc_whash(s: &Script) -> WScriptHash;
pub uninterp spec fn p2sh_to(h: ScriptHash) -> ScriptBuf;
pub uninterp spec fn p2wsh_to(h: WScriptHash) -> ScriptBuf;
pub assume_specification [Script::script_hash](s: &Script) -> (r: ScriptHash) ensures r == sc_hash(s);
pub assume_specification [Script::wscript_hash](s: &Script) -> (r: WScriptHash) ensures r == sc_whash(s);
pub assume_specification [ScriptBuf::new_p2sh](h: &ScriptHash) -> (r: ScriptBuf) ensures r == p2sh_to(*h);
pub assume_specification [ScriptBuf::new_p2wsh](h: &WScriptHash) -> (r: ScriptBuf) ensures r == p2wsh_to(*h);
/// the scriptPubkeys that commit to a script
pub open spec fn p2sh(s: ScriptBuf) -> ScriptBuf { p2sh_to(sc_hash(as_script(s))) }
pub open spec fn p2wsh(s: ScriptBuf) -> ScriptBuf { p2wsh_to(sc_whash(as_script(s))) }
// ---- the signer checks of BIP-174, one predicate per way to fail ----
pub open spec fn bare_witness(p: Psbt, i: int) -> bool { p.inputs@[i].witness_utxo is Some && in_kind0(p, i) is Bare }
pub open spec fn wrong_txid(p: Psbt, i: int) -> bool { p.inputs@[i].non_witness_utxo is Some && tx_txid(p.inputs@[i].non_witness_utxo->0) != p.unsigned_tx.input@[i].previous_output.txid }
pub open spec fn no_utxo(p: Psbt, i: int) -> bool { (p.inputs@[i].redeem_script is Some || p.inputs@[i].witness_script is Some) && utxo0(p, i) is None }
pub open spec fn wrong_redeem(p: Psbt, i: int) -> bool { p.inputs@[i].redeem_script is Some && utxo0(p, i) is Some && utxo0(p, i)->0.script_pubkey != p2sh(p.inputs@[i].redeem_script->0) }
pub open spec fn wrong_witness(p: Psbt, i: int) -> bool { p.inputs@[i].witness_script is Some && utxo0(p, i) is Some && sc_wsh(as_script(utxo0(p, i)->0.script_pubkey)) && utxo0(p, i)->0.script_pubkey != p2wsh(p.inputs@[i].witness_script->0) }
pub open spec fn wrong_nested(p: Psbt, i: int) -> bool { p.inputs@[i].witness_script is Some && utxo0(p, i) is Some && sc_sh(as_script(utxo0(p, i)->0.script_pubkey)) && p.inputs@[i].redeem_script is Some && p.inputs@[i].redeem_script->0 != p2wsh(p.inputs@[i].witness_script->0) }
pub open spec fn bad0(p: Psbt, i: int) -> bool { bare_witness(p, i) || wrong_txid(p, i) || no_utxo(p, i) || wrong_redeem(p, i) || wrong_witness(p, i) || wrong_nested(p, i) }
pub open spec fn all_good0(p: Psbt, n: int) -> bool { forall|i: int| #![trigger p.inputs@[i]] 0 <= i < n ==> !bad0(p, i) }
pub open spec fn check_err(p: Psbt, i: int, e: SignerChecksError) -> bool {
    match e { SignerChecksError::NonWitnessSig => bare_witness(p, i), SignerChecksError::NonWitnessUtxoTxidMismatch => wrong_txid(p, i), SignerChecksError::RedeemScriptMismatch => wrong_redeem(p, i),
        SignerChecksError::MissingTxOut => no_utxo(p, i), SignerChecksError::WitnessScriptMismatchWsh => wrong_witness(p, i), SignerChecksError::WitnessScriptMismatchShWsh => wrong_nested(p, i), _ => false }
}
}
@type src/v0/mod.rs SignerChecksError
@fn src/v0/mod.rs Psbt::signer_checks
@attr #[verifier::loop_isolation(false)]
@spec
r => requires self.unsigned_tx.input@.len() == self.inputs@.len()
  ensures r is Ok <==> all_good0(*self, self.inputs@.len() as int), r is Err ==> exists|i: int| #![trigger self.inputs@[i]] #![trigger check_err(*self, i, r->Err_0)] 0 <= i < self.inputs@.len() && check_err(*self, i, r->Err_0)
@enumerate 1
@loop 1
it => invariant it.index() <= it.seq().len() == self.inputs@.len(), forall|n: int| 0 <= n < it.seq().len() ==> #[trigger] it.seq()[n] == n, all_good0(*self, it.index())
