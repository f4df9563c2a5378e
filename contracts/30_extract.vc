@fileprops C03 C04 C06
@mod extract_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use crate::v2::{Psbt, ExtractTxFeeRateError};
use bitcoin::{Amount, FeeRate, Transaction, Weight};
verus!{
pub uninterp spec fn tx_wu(tx: Transaction) -> u64;       // Transaction::weight().to_wu()
pub uninterp spec fn wu(w: Weight) -> u64;
pub uninterp spec fn kwu(f: FeeRate) -> u64;              // FeeRate::to_sat_per_kwu
pub uninterp spec fn mk_rate(n: u64) -> FeeRate;
pub broadcast axiom fn ax_rate(f: FeeRate) ensures mk_rate(#[trigger] kwu(f)) == f;
pub broadcast axiom fn ax_rate2(n: u64) ensures kwu(#[trigger] mk_rate(n)) == n;
// every transaction has its ten non-witness bytes of version, counts and lock time, and not more than the address space can hold
pub broadcast axiom fn ax_weight(t: Transaction) ensures #[trigger] tx_wu(t) >= 40;
pub assume_specification [Transaction::weight](t: &Transaction) -> (r: Weight) ensures wu(r) == tx_wu(*t);
pub assume_specification [Weight::to_wu](w: Weight) -> (r: u64) ensures r == wu(w);
pub assume_specification [FeeRate::from_sat_per_kwu](n: u64) -> (r: FeeRate) ensures r == mk_rate(n);
pub assume_specification [FeeRate::from_sat_per_vb_unchecked](n: u64) -> (r: FeeRate) requires n <= 0x0106_24dd_2f1a_9fbe ensures kwu(r) == n * 250;
pub broadcast axiom fn ax_rate_cmp(a: &FeeRate, b: &FeeRate) ensures #[trigger] vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(a, b) == Some(if kwu(*a) < kwu(*b) { core::cmp::Ordering::Less } else if kwu(*a) > kwu(*b) { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal });
pub broadcast axiom fn ax_rate_cmp2() ensures #[trigger] <FeeRate as vstd::std_specs::cmp::PartialOrdSpec<FeeRate>>::obeys_partial_cmp_spec();
pub broadcast group rate_axioms { ax_rate, ax_rate2, ax_weight, ax_rate_cmp, ax_rate_cmp2 }
pub open spec fn sat_mul(a: int, b: int) -> int { if a * b > u64::MAX { u64::MAX as int } else { a * b } }
// fee rate in sat/kwu, rounded down
pub open spec fn rate_res(p: Psbt, max: int, r: Result<Transaction, ExtractTxFeeRateError>) -> bool {
    let able = fee_ok(p) && all_fin(p.inputs@) && !lock_undetermined(p.inputs@);
    match r {
        Ok(t) => able && is_stx(p, t) && rate_of(fee_of(p), t) <= max,
        Err(ExtractTxFeeRateError::Fee(_)) => !fee_ok(p),
        Err(ExtractTxFeeRateError::ExtractTx(_)) => fee_ok(p) && !able,
        Err(ExtractTxFeeRateError::FeeTooHigh { fee, max: m }) => able && kwu(m) == max && kwu(fee) > max && exists|t: Transaction| #[trigger] is_stx(p, t) && kwu(fee) == rate_of(fee_of(p), t),
    }
}
pub open spec fn rate_of(fee: int, t: Transaction) -> int { sat_mul(fee, 1000) / (tx_wu(t) as int) }
}
@append src/v2/extract.rs
impl Extractor { pub closed spec fn vx(&self) -> Psbt { self.0 } }
impl vstd::std_specs::convert::FromSpecImpl<DetermineLockTimeError> for ExtractError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: DetermineLockTimeError) -> ExtractError { ExtractError::DetermineLockTime(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<DetermineLockTimeError> for ExtractTxError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: DetermineLockTimeError) -> ExtractTxError { ExtractTxError::DetermineLockTime(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<FeeError> for ExtractTxFeeRateError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: FeeError) -> ExtractTxFeeRateError { ExtractTxFeeRateError::Fee(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<ExtractTxError> for ExtractTxFeeRateError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ExtractTxError) -> ExtractTxFeeRateError { ExtractTxFeeRateError::ExtractTx(e) }
}
@fn src/v2/extract.rs From<DetermineLockTimeError> for ExtractError::from
@spec
r => ensures r == ExtractError::DetermineLockTime(e)
@fn src/v2/extract.rs From<DetermineLockTimeError> for ExtractTxError::from
@spec
r => ensures r == ExtractTxError::DetermineLockTime(e)
@fn src/v2/extract.rs From<FeeError> for ExtractTxFeeRateError::from
@spec
r => ensures r == ExtractTxFeeRateError::Fee(e)
@fn src/v2/extract.rs From<ExtractTxError> for ExtractTxFeeRateError::from
@spec
r => ensures r == ExtractTxFeeRateError::ExtractTx(e)
@fn src/v2/extract.rs Extractor::new
@spec
r => ensures r is Ok <==> all_fin(psbt.inputs@) && !lock_undetermined(psbt.inputs@), r is Ok ==> r->Ok_0.vx() == psbt,
  r matches Err(ExtractError::PsbtNotFinalized) ==> !all_fin(psbt.inputs@)
@closure 1
b: bool => ensures b == !fin(*input)
@entry
broadcast use core_lemmas;
@fn src/v2/extract.rs Extractor::id
@spec
r => requires !lock_undetermined(self.vx().inputs@) ensures is_id(self.vx(), r)
@fn src/v2/extract.rs Extractor::internal_extract_tx
@spec
r => ensures r is Ok <==> all_fin(self.vx().inputs@) && !lock_undetermined(self.vx().inputs@), r is Ok ==> is_stx(self.vx(), r->Ok_0),
  r matches Err(ExtractTxError::Unfinalized) ==> !all_fin(self.vx().inputs@)
@closure 1
b: bitcoin::TxIn => requires fin(*input) ensures stx_in(*input, b)
@closure 2
b: bitcoin::TxOut => ensures txo(*ouput, b)
@entry
broadcast use core_lemmas;
@fn src/v2/extract.rs Extractor::internal_extract_tx_with_fee_rate_limit
@spec
r => ensures rate_res(self.vx(), kwu(max_fee_rate) as int, r)
@entry
broadcast use core_lemmas, rate_axioms, tx_axioms, ax_question;
@const src/v2/extract.rs Extractor::DEFAULT_MAX_FEE_RATE
@spec
ensures kwu(Self::DEFAULT_MAX_FEE_RATE) == 6250000
@fn src/v2/extract.rs Extractor::extract_tx
@spec
r => ensures rate_res(self.vx(), 6250000, r)
@fn src/v2/extract.rs Extractor::extract_tx_fee_rate_limit
@spec
r => ensures rate_res(self.vx(), 6250000, r)
@fn src/v2/extract.rs Extractor::extract_tx_with_fee_rate_limit
@spec
r => ensures rate_res(self.vx(), kwu(max_fee_rate) as int, r)
@fn src/v2/extract.rs Extractor::extract_tx_unchecked_fee_rate
@spec
r => ensures r is Ok <==> all_fin(self.vx().inputs@) && !lock_undetermined(self.vx().inputs@), r is Ok ==> is_stx(self.vx(), r->Ok_0)
