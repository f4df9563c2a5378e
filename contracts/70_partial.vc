@fileprops C18 C20
@onlyprops C18 C20
@mod partial_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::PublicKey;
use crate::v2::{Psbt, Input, PartialSigsSighashTypeError};
verus!{
/// the sighash type that every partial signature of an input has to have: the declared one, ALL if none is declared
pub open spec fn wrong_sig(x: Input, k: PublicKey) -> bool { x.partial_sigs@.contains_key(k) && x.partial_sigs@[k].sighash_type != declared(x.sighash_type)->0 }
pub open spec fn some_wrong(x: Input) -> bool { exists|k: PublicKey| #[trigger] wrong_sig(x, k) }
pub open spec fn bad_sigs(x: Input) -> bool { declared(x.sighash_type) is None || some_wrong(x) }
pub open spec fn all_sigs_ok(p: Psbt) -> bool { forall|i: int| 0 <= i < p.inputs@.len() ==> !bad_sigs(#[trigger] p.inputs@[i]) }
/// the error names the first offending input
pub open spec fn first_bad(p: Psbt, n: int) -> bool { 0 <= n < p.inputs@.len() && bad_sigs(p.inputs@[n]) && forall|i: int| 0 <= i < n ==> !bad_sigs(#[trigger] p.inputs@[i]) }
pub open spec fn sig_err(p: Psbt, e: PartialSigsSighashTypeError) -> bool {
    match e {
        PartialSigsSighashTypeError::NonStandardInputSighashType { input_index, error } => first_bad(p, input_index as int) && declared(p.inputs@[input_index as int].sighash_type) is None && error.0 == p.inputs@[input_index as int].sighash_type->0.vx(),
        PartialSigsSighashTypeError::NonStandardPartialSigsSighashType { .. } => false,
        PartialSigsSighashTypeError::WrongSighashFlag { input_index, got, required, pubkey } => first_bad(p, input_index as int) && declared(p.inputs@[input_index as int].sighash_type) == Some(required)
            && wrong_sig(p.inputs@[input_index as int], pubkey) && got == p.inputs@[input_index as int].partial_sigs@[pubkey].sighash_type,
    }
}
}
@type src/v2/error.rs PartialSigsSighashTypeError
@fn src/v2/mod.rs Psbt::check_partial_sigs_sighash_type
@attr #[verifier::loop_isolation(false)]
@spec
r => ensures r is Ok <==> all_sigs_ok(*self), r is Err ==> sig_err(*self, r->Err_0)
@enumerate 1
@loop 1
it => invariant it.index() <= it.seq().len() == self.inputs@.len(), forall|n: int| 0 <= n < it.seq().len() ==> #[trigger] it.seq()[n] == n,
  forall|i: int| 0 <= i < it.index() ==> !bad_sigs(#[trigger] self.inputs@[i])
@loop 2
it => invariant it.iter.obeys_prophetic_iter_laws(), it.index() <= it.seq().len(), of_map(it.seq(), input.partial_sigs@), forall|k: PublicKey| #![trigger input.partial_sigs@.contains_key(k)] input.partial_sigs@.contains_key(k) ==> in_rem(it.seq(), k),
  forall|j: int| 0 <= j < it.index() ==> (*(#[trigger] it.seq()[j]).1).sighash_type == target_ecdsa_sighash_ty
@closure 1
e: (PartialSigsSighashTypeError) => ensures e == (PartialSigsSighashTypeError::NonStandardInputSighashType { input_index, error })
@closure 2
e: (PartialSigsSighashTypeError) => ensures e == (PartialSigsSighashTypeError::NonStandardPartialSigsSighashType { input_index, error })
@before return Err(WrongSighashFlag
assert(wrong_sig(self.inputs@[input_index as int], *key));
