@onlyprops C16 C17 C18 C20
@fileprops C16
@mod keys_spec
@flag --no-trait-conflicts
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{PublicKey, PrivateKey, NetworkKind};
use bitcoin::bip32::KeySource;
use bitcoin::secp256k1::{self, Context, Secp256k1, SecretKey, Signing};
use crate::v2::{GetKey, KeyRequest};
verus!{
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(C)] pub struct ExSecp<C: Context>(Secp256k1<C>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExSecretKey(SecretKey);
#[verifier::external_type_specification] pub struct ExNetKind(NetworkKind);
#[verifier::external_type_specification] pub struct ExPrivateKey(PrivateKey);
#[verifier::external_type_specification] pub struct ExKeyRequest(KeyRequest);
pub uninterp spec fn pub_of(k: PrivateKey) -> PublicKey;
pub uninterp spec fn full_key(k: secp256k1::PublicKey) -> PublicKey;
pub assume_specification<C: Signing> [PrivateKey::public_key::<C>](k: &PrivateKey, s: &Secp256k1<C>) -> (r: PublicKey) ensures r == pub_of(*k);
#[verifier::external_body] pub fn vx_full_key(k: secp256k1::PublicKey) -> (r: PublicKey) ensures r == full_key(k) { PublicKey::new(k) }
}
