@fileprops C03 C04 C05 C06 C18
@mod tx_spec
@broadcast tx_axioms lem_in_next lem_out_next
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use vstd::std_specs::iter::IteratorSpec;
use bitcoin::{Amount, ScriptBuf, Witness, Transaction, TxIn, TxOut, OutPoint, Sequence, Txid, Weight, FeeRate};
use bitcoin::absolute::LockTime;
use crate::v2::{Input, Output, Psbt};
use crate::error::{FeeError, FundingUtxoError};
verus!{
pub uninterp spec fn empty_script() -> ScriptBuf;
pub uninterp spec fn empty_witness() -> Witness;
pub assume_specification [<ScriptBuf as Default>::default]() -> (r: ScriptBuf) ensures r == empty_script();
pub assume_specification [<Witness as Default>::default]() -> (r: Witness) ensures r == empty_witness();
pub assume_specification [<ScriptBuf as Clone>::clone](s: &ScriptBuf) -> (r: ScriptBuf) ensures r == *s;
pub assume_specification [<Witness as Clone>::clone](s: &Witness) -> (r: Witness) ensures r == *s;
pub assume_specification [<Transaction as Clone>::clone](s: &Transaction) -> (r: Transaction) ensures r == *s;
pub assume_specification [<TxOut as Clone>::clone](s: &TxOut) -> (r: TxOut) ensures r == *s;
pub assume_specification [Sequence::MAX] -> (r: Sequence) ensures r.0 == 0xffff_ffffu32;
pub assume_specification [Sequence::ZERO] -> (r: Sequence) ensures r.0 == 0u32;
pub uninterp spec fn tx_txid(tx: Transaction) -> Txid;
pub assume_specification [Transaction::compute_txid](tx: &Transaction) -> (r: Txid) ensures r == tx_txid(*tx);
// amounts
pub uninterp spec fn sat(a: Amount) -> u64;
pub uninterp spec fn mk_amount(n: u64) -> Amount;
pub broadcast axiom fn ax_amount(a: Amount) ensures mk_amount(#[trigger] sat(a)) == a;
pub broadcast axiom fn ax_amount2(n: u64) ensures sat(#[trigger] mk_amount(n)) == n;
pub assume_specification [Amount::to_sat](a: Amount) -> (r: u64) ensures r == sat(a);
pub assume_specification [Amount::from_sat](n: u64) -> (r: Amount) ensures r == mk_amount(n);
pub broadcast group tx_axioms { ax_amount, ax_amount2 }

// ---- what the transaction of a PSBT is, written from BIP-370 ----
pub open spec fn utx_in(i: Input, r: TxIn) -> bool {
    r.previous_output.txid == i.previous_txid && r.previous_output.vout == i.spent_output_index
    && r.script_sig == empty_script() && r.witness == empty_witness()
    && r.sequence.0 == match i.sequence { Some(s) => s.0, None => 0xffff_ffffu32 }
}
pub open spec fn stx_in(i: Input, r: TxIn) -> bool {
    r.previous_output.txid == i.previous_txid && r.previous_output.vout == i.spent_output_index
    && i.final_script_sig == Some(r.script_sig) && i.final_script_witness == Some(r.witness)
    && r.sequence.0 == match i.sequence { Some(s) => s.0, None => 0xffff_ffffu32 }
}
pub open spec fn txo(o: Output, r: TxOut) -> bool { r.value == o.amount && r.script_pubkey == o.script_pubkey }
pub open spec fn fin(i: Input) -> bool { i.final_script_sig is Some && i.final_script_witness is Some }
pub open spec fn all_fin(s: Seq<Input>) -> bool { forall|i: int| 0 <= i < s.len() ==> fin(#[trigger] s[i]) }
pub open spec fn tx_frame(p: Psbt, t: Transaction) -> bool {
    t.version == p.global.tx_version && lock_is(p, t.lock_time)
    && t.input@.len() == p.inputs@.len() && t.output@.len() == p.outputs@.len()
    && forall|i: int| 0 <= i < t.output@.len() ==> txo(#[trigger] p.outputs@[i], #[trigger] t.output@[i])
}
pub open spec fn is_utx(p: Psbt, t: Transaction) -> bool {
    tx_frame(p, t) && forall|i: int| 0 <= i < t.input@.len() ==> utx_in(#[trigger] p.inputs@[i], #[trigger] t.input@[i])
}
pub open spec fn is_stx(p: Psbt, t: Transaction) -> bool {
    tx_frame(p, t) && forall|i: int| 0 <= i < t.input@.len() ==> stx_in(#[trigger] p.inputs@[i], #[trigger] t.input@[i])
}
// ---- the unique id ----
pub open spec fn zero_seq_of(t: Transaction, z: Transaction) -> bool {
    z.version == t.version && z.lock_time == t.lock_time && z.output == t.output && z.input@.len() == t.input@.len()
    && forall|i: int| 0 <= i < t.input@.len() ==> (#[trigger] z.input@[i]).previous_output == t.input@[i].previous_output
        && z.input@[i].script_sig == t.input@[i].script_sig && z.input@[i].witness == t.input@[i].witness && z.input@[i].sequence.0 == 0
}
pub open spec fn id_tx(p: Psbt, z: Transaction) -> bool { exists|t: Transaction| #[trigger] is_utx(p, t) && zero_seq_of(t, z) }
pub open spec fn is_id(p: Psbt, x: Txid) -> bool { exists|z: Transaction| id_tx(p, z) && x == #[trigger] tx_txid(z) }
// Fields the id may depend on agree.
pub open spec fn same_for_id(p: Psbt, q: Psbt) -> bool {
    p.global.tx_version == q.global.tx_version && p.global.fallback_lock_time == q.global.fallback_lock_time
    && p.inputs@.len() == q.inputs@.len() && p.outputs@.len() == q.outputs@.len()
    && (forall|i: int| 0 <= i < p.inputs@.len() ==> (#[trigger] p.inputs@[i]).previous_txid == q.inputs@[i].previous_txid
        && p.inputs@[i].spent_output_index == q.inputs@[i].spent_output_index
        && p.inputs@[i].min_time == q.inputs@[i].min_time && p.inputs@[i].min_height == q.inputs@[i].min_height)
    && (forall|i: int| 0 <= i < p.outputs@.len() ==> (#[trigger] p.outputs@[i]).amount == q.outputs@[i].amount
        && p.outputs@[i].script_pubkey == q.outputs@[i].script_pubkey)
}
pub open spec fn lt_h(a: LockTime) -> bitcoin::absolute::Height { match a { LockTime::Blocks(h) => h, _ => arbitrary() } }
pub open spec fn lt_t(a: LockTime) -> bitcoin::absolute::Time { match a { LockTime::Seconds(h) => h, _ => arbitrary() } }
pub proof fn lem_same_lock_half(p: Psbt, q: Psbt, a: LockTime)
    requires same_for_id(p, q), lock_is(p, a) ensures lock_is(q, a)
{
    let s = p.inputs@; let u = q.inputs@;
    assert forall|i: int| 0 <= i < s.len() implies wants(#[trigger] s[i]) == wants(u[i]) && s[i].min_height == u[i].min_height && s[i].min_time == u[i].min_time by {};
    if forall|i: int| 0 <= i < s.len() ==> !wants(#[trigger] s[i]) {
        assert forall|i: int| 0 <= i < u.len() implies !wants(#[trigger] u[i]) by { assert(!wants(s[i])); };
    } else {
        let k = choose|i: int| 0 <= i < s.len() && wants(#[trigger] s[i]);
        assert(wants(u[k]));
        if forall|i: int| 0 <= i < s.len() && wants(#[trigger] s[i]) ==> s[i].min_height is Some {
            assert forall|i: int| 0 <= i < u.len() && wants(#[trigger] u[i]) implies u[i].min_height is Some by { assert(wants(s[i])); };
            let h = lt_h(a);
            let m = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).min_height == Some(h);
            assert(u[m].min_height == Some(h));
            assert forall|i: int| 0 <= i < u.len() && (#[trigger] u[i]).min_height is Some implies height_u32(u[i].min_height->0) <= height_u32(h) by { assert(s[i].min_height is Some); };
            assert(max_height(u, h));
        } else {
            let b = choose|i: int| 0 <= i < s.len() && wants(#[trigger] s[i]) && s[i].min_height is None;
            assert(wants(u[b]) && u[b].min_height is None);
            let t = lt_t(a);
            let m = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).min_time == Some(t);
            assert(u[m].min_time == Some(t));
            assert forall|i: int| 0 <= i < u.len() && (#[trigger] u[i]).min_time is Some implies time_u32(u[i].min_time->0) <= time_u32(t) by { assert(s[i].min_time is Some); };
            assert(max_time(u, t));
        }
    }
}
// C04: PSBTs that agree on the fields BIP-370 names have the same id (whatever else differs between them).
pub proof fn lem_id_depends_only_on(p: Psbt, q: Psbt, x: Txid, y: Txid)
    requires same_for_id(p, q), is_id(p, x), is_id(q, y) ensures x == y
{
    broadcast use ax_vec_ext;
    let a = choose|z: Transaction| id_tx(p, z) && x == #[trigger] tx_txid(z);
    let b = choose|z: Transaction| id_tx(q, z) && y == #[trigger] tx_txid(z);
    let t = choose|t: Transaction| #[trigger] is_utx(p, t) && zero_seq_of(t, a);
    let u = choose|t: Transaction| #[trigger] is_utx(q, t) && zero_seq_of(t, b);
    lem_same_lock_half(p, q, t.lock_time);
    lem_lock_unique(q, t.lock_time, u.lock_time);
    assert forall|i: int| 0 <= i < a.input@.len() implies a.input@[i] == b.input@[i] by {
        assert(utx_in(p.inputs@[i], t.input@[i])); assert(utx_in(q.inputs@[i], u.input@[i]));
    }
    assert(a.input@ =~= b.input@);
    assert forall|i: int| 0 <= i < a.output@.len() implies a.output@[i] == b.output@[i] by {
        assert(txo(p.outputs@[i], t.output@[i])); assert(txo(q.outputs@[i], u.output@[i]));
    }
    assert(a.output@ =~= b.output@);
    assert(a == b);
}
// ---- funding UTXO and fee ----
pub open spec fn fund_res(i: Input, r: Result<&TxOut, FundingUtxoError>) -> bool {
    (r is Ok <==> funding(i) is Some) && (r is Ok ==> *r->Ok_0 == funding(i)->0)
    && (r is Err ==> r->Err_0 == match i.non_witness_utxo { None => FundingUtxoError::MissingUtxo, Some(t) => FundingUtxoError::OutOfBounds { vout: i.spent_output_index as usize, len: t.output@.len() as usize } })
}
pub open spec fn funding(i: Input) -> Option<TxOut> {
    match i.witness_utxo {
        Some(u) => Some(u),
        None => match i.non_witness_utxo {
            Some(t) => if (i.spent_output_index as int) < t.output@.len() { Some(t.output@[i.spent_output_index as int]) } else { None },
            None => None,
        }
    }
}
pub open spec fn in_sum(s: Seq<Input>, n: int) -> int decreases n { if n <= 0 { 0 } else { in_sum(s, n - 1) + sat(funding(s[n - 1])->0.value) } }
pub open spec fn out_sum(s: Seq<Output>, n: int) -> int decreases n { if n <= 0 { 0 } else { out_sum(s, n - 1) + sat(s[n - 1].amount) } }
pub open spec fn all_funded(s: Seq<Input>) -> bool { forall|i: int| 0 <= i < s.len() ==> funding(#[trigger] s[i]) is Some }
pub broadcast proof fn lem_in_mono(s: Seq<Input>, a: int, b: int) requires 0 <= a <= b ensures #[trigger] in_sum(s, a) <= #[trigger] in_sum(s, b) decreases b - a { if a < b { lem_in_mono(s, a, b - 1); } }
pub broadcast proof fn lem_out_mono(s: Seq<Output>, a: int, b: int) requires 0 <= a <= b ensures #[trigger] out_sum(s, a) <= #[trigger] out_sum(s, b) decreases b - a { if a < b { lem_out_mono(s, a, b - 1); } }
pub broadcast proof fn lem_in_next(s: Seq<Input>, n: int) requires 0 <= n < s.len() ensures #[trigger] in_sum(s, n) + sat(funding(s[n])->0.value) <= in_sum(s, s.len() as int), in_sum(s, n + 1) == in_sum(s, n) + sat(funding(s[n])->0.value) { lem_in_mono(s, n + 1, s.len() as int); }
pub broadcast proof fn lem_out_next(s: Seq<Output>, n: int) requires 0 <= n < s.len() ensures #[trigger] out_sum(s, n) + sat(s[n].amount) <= out_sum(s, s.len() as int), out_sum(s, n + 1) == out_sum(s, n) + sat(s[n].amount) { lem_out_mono(s, n + 1, s.len() as int); }
pub open spec fn fee_ok(p: Psbt) -> bool {
    all_funded(p.inputs@) && in_sum(p.inputs@, p.inputs@.len() as int) <= u64::MAX && out_sum(p.outputs@, p.outputs@.len() as int) <= u64::MAX
    && out_sum(p.outputs@, p.outputs@.len() as int) <= in_sum(p.inputs@, p.inputs@.len() as int)
}
pub open spec fn fee_of(p: Psbt) -> int { in_sum(p.inputs@, p.inputs@.len() as int) - out_sum(p.outputs@, p.outputs@.len() as int) }
}
@type src/error.rs FundingUtxoError
@type src/error.rs FeeError
@type src/v2/extract.rs ExtractTxError
@type src/v2/extract.rs ExtractError
@type src/v2/extract.rs ExtractTxFeeRateError
@type src/v2/extract.rs Extractor

@fn src/v2/map/input.rs Input::out_point
@spec
r => ensures r.txid == self.previous_txid, r.vout == self.spent_output_index
@fn src/v2/map/input.rs Input::unsigned_tx_in
@spec
r => ensures utx_in(*self, r)
@fn src/v2/map/input.rs Input::is_finalized
@spec
r => ensures r == fin(*self)
@fn src/v2/map/input.rs Input::signed_tx_in
@spec
r => requires fin(*self) ensures stx_in(*self, r)
@fn src/v2/map/output.rs Output::tx_out
@spec
r => ensures txo(*self, r)
@fn src/v2/map/input.rs Input::funding_utxo
@props C03 C05 C06 C14 C16 C18 C21
@spec
r => ensures fund_res(*self, r)
@fn src/v2/mod.rs Psbt::unsigned_tx
@spec
r => ensures r is Err <==> lock_undetermined(self.inputs@), r is Ok ==> is_utx(*self, r->Ok_0)
@closure 1
b: bitcoin::TxIn => ensures utx_in(*input, b)
@closure 2
b: TxOut => ensures txo(*ouput, b)
@fn src/v2/mod.rs Psbt::is_finalized
@spec
r => ensures r == all_fin(self.inputs@)
@closure 1
b: bool => ensures b == fin(*input)
@entry
broadcast use core_lemmas;
@fn src/v2/mod.rs Psbt::id
@replace .iter_mut().for_each( ==> .vx_for_each_mut(
@spec
r => ensures r is Err <==> lock_undetermined(self.inputs@), r is Ok ==> is_id(*self, r->Ok_0)
@closure 1
b: () => ensures final(input).sequence.0 == 0, final(input).previous_output == old(input).previous_output, final(input).script_sig == old(input).script_sig, final(input).witness == old(input).witness
@fn src/v2/mod.rs Psbt::iter_funding_utxos
@spec
r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().len() <= self.inputs@.len(), r.will_return_none() ==> r.remaining().len() == self.inputs@.len(),
  forall|k: int| 0 <= k < r.remaining().len() ==> fund_res(self.inputs@[k], #[trigger] r.remaining()[k])
@closure 1
b: (Result<&TxOut, FundingUtxoError>) => ensures fund_res(*input, b)
@entry
broadcast use core_lemmas;
@append src/error.rs
impl vstd::std_specs::convert::FromSpecImpl<FundingUtxoError> for FeeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: FundingUtxoError) -> FeeError { FeeError::FundingUtxo(e) }
}
@fn src/error.rs From<FundingUtxoError> for FeeError::from
@spec
r => ensures r == FeeError::FundingUtxo(e)
@fn src/v2/mod.rs Psbt::fee
@spec
r => ensures r is Ok <==> fee_ok(*self), r is Ok ==> sat(r->Ok_0) == fee_of(*self),
  r matches Err(FeeError::FundingUtxo(_)) ==> !all_funded(self.inputs@),
  r matches Err(FeeError::InputOverflow) ==> in_sum(self.inputs@, self.inputs@.len() as int) > u64::MAX,
  r matches Err(FeeError::OutputOverflow) ==> out_sum(self.outputs@, self.outputs@.len() as int) > u64::MAX,
  r matches Err(FeeError::Negative) ==> fee_of(*self) < 0
@loop 1
it => invariant input_value == in_sum(self.inputs@, it.index()), it.index() <= it.seq().len() <= self.inputs@.len(), 
  it.iter.obeys_prophetic_iter_laws(), it.snapshot@.will_return_none() ==> it.seq().len() == self.inputs@.len(),
  forall|k: int| 0 <= k < it.seq().len() ==> fund_res(self.inputs@[k], #[trigger] it.seq()[k]),
  forall|k: int| 0 <= k < it.index() ==> funding(#[trigger] self.inputs@[k]) is Some
@loop 2
it => invariant output_value == out_sum(self.outputs@, it.index()), it.index() <= self.outputs@.len(), it.seq() == self.outputs@.as_ref(),
  all_funded(self.inputs@), input_value == in_sum(self.inputs@, self.inputs@.len() as int)
@entry
broadcast use core_lemmas; broadcast use tx_axioms; broadcast use lem_in_mono; broadcast use lem_out_mono; broadcast use ax_question;
