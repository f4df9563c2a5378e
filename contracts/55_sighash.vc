@fileprops C19 C14 C15 C16 C18 C20
@mod sighash_spec
@broadcast ax_eq_ecd ax_oq_ecd
use vstd::prelude::*;
use crate::prelude::*;
use bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use crate::PsbtSighashType;
verus!{
#[verifier::external_type_specification] pub struct ExNonStd(bitcoin::sighash::NonStandardSighashTypeError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExInvSig(bitcoin::sighash::InvalidSighashTypeError);
pub broadcast axiom fn ax_eq_ecd(a: &EcdsaSighashType, b: &EcdsaSighashType) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (*a == *b);
pub broadcast axiom fn ax_oq_ecd() ensures #[trigger] <EcdsaSighashType as vstd::std_specs::cmp::PartialEqSpec<EcdsaSighashType>>::obeys_eq_spec();
/// the 32-bit values of BIP-143 and BIP-341
pub open spec fn ecd(t: EcdsaSighashType) -> u32 { match t { EcdsaSighashType::All => 1, EcdsaSighashType::None => 2, EcdsaSighashType::Single => 3, EcdsaSighashType::AllPlusAnyoneCanPay => 0x81, EcdsaSighashType::NonePlusAnyoneCanPay => 0x82, EcdsaSighashType::SinglePlusAnyoneCanPay => 0x83 } }
pub open spec fn tap(t: TapSighashType) -> u32 { match t { TapSighashType::Default => 0, TapSighashType::All => 1, TapSighashType::None => 2, TapSighashType::Single => 3, TapSighashType::AllPlusAnyoneCanPay => 0x81, TapSighashType::NonePlusAnyoneCanPay => 0x82, TapSighashType::SinglePlusAnyoneCanPay => 0x83 } }
pub open spec fn std6(n: u32) -> bool { n == 1 || n == 2 || n == 3 || n == 0x81 || n == 0x82 || n == 0x83 }
pub assume_specification [EcdsaSighashType::from_standard](n: u32) -> (r: Result<EcdsaSighashType, bitcoin::sighash::NonStandardSighashTypeError>)
    ensures match r { Ok(t) => ecd(t) == n, Err(e) => !std6(n) && e.0 == n };
pub assume_specification [EcdsaSighashType::to_u32](t: EcdsaSighashType) -> (r: u32) ensures r == ecd(t);
pub assume_specification [TapSighashType::from_consensus_u8](n: u8) -> (r: Result<TapSighashType, bitcoin::sighash::InvalidSighashTypeError>)
    ensures match r { Ok(t) => tap(t) == n, Err(e) => !(n == 0 || std6(n as u32)) && bad_tap(e) == n };
/// the value an InvalidSighashTypeError reports
pub uninterp spec fn bad_tap(e: bitcoin::sighash::InvalidSighashTypeError) -> u32;
pub open spec fn declared(t: Option<PsbtSighashType>) -> Option<EcdsaSighashType> { match t { None => Some(EcdsaSighashType::All), Some(p) => if p.vx() == 1 { Some(EcdsaSighashType::All) } else if p.vx() == 2 { Some(EcdsaSighashType::None) } else if p.vx() == 3 { Some(EcdsaSighashType::Single) } else if p.vx() == 0x81 { Some(EcdsaSighashType::AllPlusAnyoneCanPay) } else if p.vx() == 0x82 { Some(EcdsaSighashType::NonePlusAnyoneCanPay) } else if p.vx() == 0x83 { Some(EcdsaSighashType::SinglePlusAnyoneCanPay) } else { None } } }
/// a conversion there and back gives the same type
pub proof fn lem_ecd(a: EcdsaSighashType, b: EcdsaSighashType) ensures ecd(a) == ecd(b) ==> a == b {}
pub proof fn lem_tap(a: TapSighashType, b: TapSighashType) ensures tap(a) == tap(b) ==> a == b {}
}
@append src/sighash_type.rs
impl vstd::std_specs::convert::FromSpecImpl<EcdsaSighashType> for PsbtSighashType { open spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(e: EcdsaSighashType) -> Self { PsbtSighashType { inner: ecd(e) } } }
impl vstd::std_specs::convert::FromSpecImpl<TapSighashType> for PsbtSighashType { open spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(e: TapSighashType) -> Self { PsbtSighashType { inner: tap(e) } } }
impl PsbtSighashType { pub closed spec fn vx(&self) -> u32 { self.inner } }
impl vstd::std_specs::convert::FromSpecImpl<sighash::InvalidSighashTypeError> for InvalidSighashTypeError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: sighash::InvalidSighashTypeError) -> Self { InvalidSighashTypeError::Bitcoin(e) } }
@type src/sighash_type.rs InvalidSighashTypeError
@fn src/sighash_type.rs From<sighash::InvalidSighashTypeError> for InvalidSighashTypeError::from
@spec
r => ensures r == InvalidSighashTypeError::Bitcoin(e)
@fn src/sighash_type.rs From<EcdsaSighashType> for PsbtSighashType::from
@spec
r => ensures r.vx() == ecd(ecdsa_hash_ty)
@fn src/sighash_type.rs From<TapSighashType> for PsbtSighashType::from
@spec
r => ensures r.vx() == tap(taproot_hash_ty)
@fn src/sighash_type.rs PsbtSighashType::ecdsa_hash_ty
@spec
r => ensures match r { Ok(t) => ecd(t) == self.vx(), Err(e) => !std6(self.vx()) && e.0 == self.vx() }
@fn src/sighash_type.rs PsbtSighashType::taproot_hash_ty
@spec
r => ensures match r { Ok(t) => tap(t) == self.vx(), Err(InvalidSighashTypeError::Invalid(n)) => self.vx() > 0xff && n == self.vx(), Err(InvalidSighashTypeError::Bitcoin(e)) => self.vx() <= 0xff && !(self.vx() == 0 || std6(self.vx())) && bad_tap(e) == self.vx() }
@fn src/sighash_type.rs PsbtSighashType::from_u32
@spec
r => ensures r.vx() == n
@fn src/sighash_type.rs PsbtSighashType::to_u32
@spec
r => ensures r == self.vx()
@fn src/v2/map/input.rs Input::ecdsa_hash_ty
@spec
r => ensures r is Ok <==> declared(self.sighash_type) is Some, r is Ok ==> r->Ok_0 == declared(self.sighash_type)->0, r is Err ==> r->Err_0.0 == self.sighash_type->0.vx()
@closure 1
b: (Result<EcdsaSighashType, NonStandardSighashTypeError>) => ensures match b { Ok(t) => ecd(t) == sighash_type.vx(), Err(e) => !std6(sighash_type.vx()) && e.0 == sighash_type.vx() }
@fn src/v0/bitcoin/map/input.rs Input::ecdsa_hash_ty
@spec
r => ensures r is Ok <==> declared(self.sighash_type) is Some, r is Ok ==> r->Ok_0 == declared(self.sighash_type)->0, r is Err ==> r->Err_0.0 == self.sighash_type->0.vx()
@closure 1
b: (Result<EcdsaSighashType, NonStandardSighashTypeError>) => ensures match b { Ok(t) => ecd(t) == sighash_type.vx(), Err(e) => !std6(sighash_type.vx()) && e.0 == sighash_type.vx() }
@fn src/v2/map/input.rs Input::taproot_hash_ty
@spec
r => ensures match r { Ok(t) => tap(t) == (match self.sighash_type { Some(p) => p.vx(), None => 0u32 }), Err(InvalidSighashTypeError::Invalid(n)) => self.sighash_type is Some && self.sighash_type->0.vx() > 0xff && n == self.sighash_type->0.vx(),
  Err(InvalidSighashTypeError::Bitcoin(e)) => self.sighash_type is Some && ({ let v = self.sighash_type->0.vx(); v <= 0xff && !(v == 0 || std6(v)) && bad_tap(e) == v }) }
@closure 1
b: (Result<TapSighashType, InvalidSighashTypeError>) => ensures match b { Ok(t) => tap(t) == sighash_type.vx(), Err(InvalidSighashTypeError::Invalid(n)) => sighash_type.vx() > 0xff && n == sighash_type.vx(), Err(InvalidSighashTypeError::Bitcoin(e)) => sighash_type.vx() <= 0xff && !(sighash_type.vx() == 0 || std6(sighash_type.vx())) && bad_tap(e) == sighash_type.vx() }
@fn src/v0/bitcoin/map/input.rs Input::taproot_hash_ty
@spec
r => ensures match r { Ok(t) => tap(t) == (match self.sighash_type { Some(p) => p.vx(), None => 0u32 }), Err(InvalidSighashTypeError::Invalid(n)) => self.sighash_type is Some && self.sighash_type->0.vx() > 0xff && n == self.sighash_type->0.vx(),
  Err(InvalidSighashTypeError::Bitcoin(e)) => self.sighash_type is Some && ({ let v = self.sighash_type->0.vx(); v <= 0xff && !(v == 0 || std6(v)) && bad_tap(e) == v }) }
@closure 1
b: (Result<TapSighashType, InvalidSighashTypeError>) => ensures match b { Ok(t) => tap(t) == sighash_type.vx(), Err(InvalidSighashTypeError::Invalid(n)) => sighash_type.vx() > 0xff && n == sighash_type.vx(), Err(InvalidSighashTypeError::Bitcoin(e)) => sighash_type.vx() <= 0xff && !(sighash_type.vx() == 0 || std6(sighash_type.vx())) && bad_tap(e) == sighash_type.vx() }
