@fileprops C05 C06 C08 C15 C19 C22 C11 C24 C12 C13
@mod v0_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use crate::v0::bitcoin as b0;
verus!{
#[verifier::external_type_specification] pub struct ExPK0<S>(b0::raw::ProprietaryKey<S>) where S: Copy + From<u8> + Into<u8>;
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExE1(bitcoin::hashes::FromSliceError);
#[verifier::external_type_specification] pub struct ExE2(bitcoin::consensus::encode::Error);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExE3(bitcoin::key::FromSliceError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExE4(bitcoin::secp256k1::Error);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExE5(bitcoin::ecdsa::Error);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExE6(bitcoin::taproot::SigFromSliceError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExE7(bitcoin::taproot::IncompleteBuilderError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExE8(crate::io::Error);
}
@type src/v0/bitcoin/map/input.rs Input
@type src/v0/bitcoin/map/output.rs Output
@type src/v0/bitcoin/mod.rs Psbt
@type src/v0/bitcoin/raw.rs Key
@type src/v0/bitcoin/raw.rs Pair
@type src/v0/bitcoin/error.rs Error
@type src/v0/bitcoin/error.rs PsbtHash
