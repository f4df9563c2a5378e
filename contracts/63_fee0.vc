@fileprops C05 C06
@mod fee0_spec
@broadcast lem_in0_next lem_out0_next
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{Transaction, TxIn, TxOut, FeeRate};
use crate::v0::bitcoin::{Psbt, Input, Error, ExtractTxError};
verus!{
pub open spec fn zip0(p: Psbt) -> bool { p.inputs@.len() == p.unsigned_tx.input@.len() }
pub open spec fn fund0_res(p: Psbt, i: int, r: Result<&TxOut, Error>) -> bool {
    match r { Ok(u) => utxo0(p, i) == Some(*u), Err(Error::PsbtUtxoOutOfbounds) => utxo0(p, i) is None && p.inputs@[i].non_witness_utxo is Some, Err(Error::MissingUtxo) => utxo0(p, i) is None && p.inputs@[i].non_witness_utxo is None, Err(_) => false }
}
pub open spec fn fund0_pair(u: TxIn, x: Input, r: Result<&TxOut, Error>) -> bool {
    match r { Ok(o) => utxo0_of(x, u.previous_output.vout as int) == Some(*o), Err(Error::PsbtUtxoOutOfbounds) => utxo0_of(x, u.previous_output.vout as int) is None && x.non_witness_utxo is Some, Err(Error::MissingUtxo) => utxo0_of(x, u.previous_output.vout as int) is None && x.non_witness_utxo is None, Err(_) => false }
}
pub open spec fn in0_sum(p: Psbt, n: int) -> int decreases n { if n <= 0 { 0 } else { in0_sum(p, n - 1) + sat(utxo0(p, n - 1)->0.value) } }
pub open spec fn out0_sum(s: Seq<TxOut>, n: int) -> int decreases n { if n <= 0 { 0 } else { out0_sum(s, n - 1) + sat(s[n - 1].value) } }
pub open spec fn all_funded0(p: Psbt) -> bool { forall|i: int| #![trigger utxo0(p, i)] 0 <= i < p.inputs@.len() ==> utxo0(p, i) is Some }
pub broadcast proof fn lem_in0_mono(s: Psbt, a: int, b: int) requires 0 <= a <= b ensures #[trigger] in0_sum(s, a) <= #[trigger] in0_sum(s, b) decreases b - a { if a < b { lem_in0_mono(s, a, b - 1); } }
pub broadcast proof fn lem_out0_mono(s: Seq<TxOut>, a: int, b: int) requires 0 <= a <= b ensures #[trigger] out0_sum(s, a) <= #[trigger] out0_sum(s, b) decreases b - a { if a < b { lem_out0_mono(s, a, b - 1); } }
pub broadcast proof fn lem_in0_next(s: Psbt, n: int) requires 0 <= n < s.inputs@.len() ensures #[trigger] in0_sum(s, n) + sat(utxo0(s, n)->0.value) <= in0_sum(s, s.inputs@.len() as int), in0_sum(s, n + 1) == in0_sum(s, n) + sat(utxo0(s, n)->0.value) { lem_in0_mono(s, n + 1, s.inputs@.len() as int); }
pub broadcast proof fn lem_out0_next(s: Seq<TxOut>, n: int) requires 0 <= n < s.len() ensures #[trigger] out0_sum(s, n) + sat(s[n].value) <= out0_sum(s, s.len() as int), out0_sum(s, n + 1) == out0_sum(s, n) + sat(s[n].value) { lem_out0_mono(s, n + 1, s.len() as int); }
pub open spec fn in0(p: Psbt) -> int { in0_sum(p, p.inputs@.len() as int) }
pub open spec fn out0(p: Psbt) -> int { out0_sum(p.unsigned_tx.output@, p.unsigned_tx.output@.len() as int) }
pub open spec fn fee0_ok(p: Psbt) -> bool { all_funded0(p) && in0(p) <= u64::MAX && out0(p) <= u64::MAX && out0(p) <= in0(p) }
pub open spec fn fee0_of(p: Psbt) -> int { in0(p) - out0(p) }
// ---- extraction ----
pub open spec fn or_script(s: Option<bitcoin::ScriptBuf>) -> bitcoin::ScriptBuf { match s { Some(x) => x, None => empty_script() } }
pub open spec fn or_witness(s: Option<bitcoin::Witness>) -> bitcoin::Witness { match s { Some(x) => x, None => empty_witness() } }
/// the unsigned transaction with the final fields filled in, nothing else changed
pub open spec fn is_stx0(p: Psbt, t: Transaction) -> bool {
    let u = p.unsigned_tx;
    t.version == u.version && t.lock_time == u.lock_time && t.output == u.output && t.input@.len() == u.input@.len()
    && forall|i: int| 0 <= i < u.input@.len() && i < p.inputs@.len() ==> stx0_in(p.inputs@[i], #[trigger] u.input@[i], #[trigger] t.input@[i])
}
pub open spec fn stx0_in(x: Input, u: TxIn, t: TxIn) -> bool { t.previous_output == u.previous_output && t.sequence == u.sequence && t.script_sig == or_script(x.final_script_sig) && t.witness == or_witness(x.final_script_witness) }
pub open spec fn ext0_res(p: Psbt, max: int, r: Result<Transaction, ExtractTxError>) -> bool {
    match r {
        Ok(t) => fee0_ok(p) && is_stx0(p, t) && rate_of(fee0_of(p), t) <= max,
        Err(ExtractTxError::MissingInputValue { tx }) => !all_funded0(p) && is_stx0(p, tx),
        Err(ExtractTxError::SendingTooMuch { psbt }) => all_funded0(p) && out0(p) > in0(p) && psbt == p,
        Err(ExtractTxError::AbsurdFeeRate { fee_rate, tx }) => is_stx0(p, tx) && (if fee0_ok(p) { rate_of(fee0_of(p), tx) > max && kwu(fee_rate) == rate_of(fee0_of(p), tx) } else { in0(p) > u64::MAX || out0(p) > u64::MAX }),
    }
}
pub assume_specification [FeeRate::MAX] -> (r: FeeRate) ensures kwu(r) == u64::MAX;
}
@type src/v0/bitcoin/mod.rs ExtractTxError
@fn src/v0/bitcoin/mod.rs Psbt::iter_funding_utxos
@replace assert_eq!(self.inputs.len(), self.unsigned_tx.input.len()) ==> assert!(self.inputs.len() == self.unsigned_tx.input.len())
@spec
r => requires zip0(*self) ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().len() <= self.inputs@.len(), r.will_return_none() ==> r.remaining().len() == self.inputs@.len(),
  forall|k: int| 0 <= k < r.remaining().len() ==> fund0_res(*self, k, #[trigger] r.remaining()[k])
@closure 1
b: (Result<&TxOut, Error>) => ensures fund0_pair(*vx_p1_0.0, *vx_p1_0.1, b)
@fn src/v0/bitcoin/mod.rs Psbt::fee
@spec
r => requires zip0(*self) ensures r is Ok <==> fee0_ok(*self), r is Ok ==> sat(r->Ok_0) == fee0_of(*self),
  match r { Ok(_) => true, Err(Error::MissingUtxo) => !all_funded0(*self), Err(Error::PsbtUtxoOutOfbounds) => !all_funded0(*self), Err(Error::FeeOverflow) => in0(*self) > u64::MAX || out0(*self) > u64::MAX, Err(Error::NegativeFee) => all_funded0(*self) && out0(*self) > in0(*self), Err(_) => false }
@loop 1
it => invariant inputs == in0_sum(*self, it.index()), it.index() <= it.seq().len() <= self.inputs@.len(), 
  it.iter.obeys_prophetic_iter_laws(), it.snapshot@.will_return_none() ==> it.seq().len() == self.inputs@.len(),
  forall|k: int| 0 <= k < it.seq().len() ==> fund0_res(*self, k, #[trigger] it.seq()[k]),
  forall|k: int| #![trigger utxo0(*self, k)] 0 <= k < it.index() ==> utxo0(*self, k) is Some
@loop 2
it => invariant outputs == out0_sum(self.unsigned_tx.output@, it.index()), it.index() <= self.unsigned_tx.output@.len(), it.seq() == self.unsigned_tx.output@.as_ref(),
  all_funded0(*self), inputs == in0(*self)
@entry
broadcast use core_lemmas; broadcast use tx_axioms; broadcast use lem_in0_mono; broadcast use lem_out0_mono; broadcast use ax_question;
@fn src/v0/bitcoin/mod.rs Psbt::internal_extract_tx
@attr #[verifier::loop_isolation(false)]
@spec
r => ensures is_stx0(self, r)
@loop 1
it => invariant it.iter.obeys_prophetic_iter_laws(), it.index() <= it.seq().len(), it.seq().len() == min2(self.unsigned_tx.input@.len(), self.inputs@.len()),
  forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]).0 == self.unsigned_tx.input@[k] && it.seq()[k].1 == self.inputs@[k],
  forall|k: int| #![trigger it.seq()[k]] #![trigger self.unsigned_tx.input@[k]] #![trigger self.inputs@[k]] 0 <= k < it.index() ==> stx0_in(self.inputs@[k], self.unsigned_tx.input@[k], *final(it.seq()[k].0))
@fn src/v0/bitcoin/mod.rs Psbt::internal_extract_tx_with_fee_rate_limit
@spec
r => requires zip0(self) ensures ext0_res(self, kwu(max_fee_rate) as int, r)
@entry
broadcast use core_lemmas, rate_axioms, tx_axioms, ax_question;
@const src/v0/bitcoin/mod.rs Psbt::DEFAULT_MAX_FEE_RATE
@spec
ensures kwu(Self::DEFAULT_MAX_FEE_RATE) == 6250000
@fn src/v0/bitcoin/mod.rs Psbt::extract_tx
@spec
r => requires zip0(self) ensures ext0_res(self, 6250000, r)
@fn src/v0/bitcoin/mod.rs Psbt::extract_tx_fee_rate_limit
@spec
r => requires zip0(self) ensures ext0_res(self, 6250000, r)
@fn src/v0/bitcoin/mod.rs Psbt::extract_tx_with_fee_rate_limit
@spec
r => requires zip0(self) ensures ext0_res(self, kwu(max_fee_rate) as int, r)
@fn src/v0/bitcoin/mod.rs Psbt::extract_tx_unchecked_fee_rate
@spec
r => ensures is_stx0(self, r)
