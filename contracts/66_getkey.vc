@onlyprops C17
@fileprops C17
@mod getkey_spec
@broadcast ax_pk_order17 ax_pk_hash ax_xp_order ax_xp_hash lem_unref
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use std::collections::{HashMap, HashSet};
use bitcoin::{PublicKey, PrivateKey};
use bitcoin::bip32::{self, Xpriv, Fingerprint, ChildNumber};
use bitcoin::secp256k1::{Secp256k1, Signing};
use crate::v2::{GetKey, KeyRequest, GetKeyError};
verus!{
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExXpriv(Xpriv);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBip32Err(bip32::Error);
pub broadcast axiom fn ax_pk_order17() ensures #[trigger] vstd::std_specs::btree::key_obeys_cmp_spec::<PublicKey>();
pub broadcast axiom fn ax_pk_hash() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<PublicKey>();
pub broadcast axiom fn ax_xp_order() ensures #[trigger] vstd::std_specs::btree::key_obeys_cmp_spec::<Xpriv>();
pub broadcast axiom fn ax_xp_hash() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Xpriv>();
pub assume_specification [<PrivateKey as Clone>::clone](k: &PrivateKey) -> (r: PrivateKey) ensures r == *k;
// ---- BIP-32, as rust-bitcoin implements it ----
pub uninterp spec fn xpriv_fp(x: Xpriv) -> Fingerprint;
pub uninterp spec fn xpriv_derive<P>(x: Xpriv, p: P) -> Result<Xpriv, bip32::Error>;
pub uninterp spec fn xpriv_key(x: Xpriv) -> PrivateKey;
pub assume_specification<C: Signing> [Xpriv::fingerprint::<C>](x: &Xpriv, s: &Secp256k1<C>) -> (r: Fingerprint) ensures r == xpriv_fp(*x);
pub assume_specification<C: Signing, P: AsRef<[ChildNumber]>> [Xpriv::derive_priv::<C, P>](x: &Xpriv, s: &Secp256k1<C>, p: &P) -> (r: Result<Xpriv, bip32::Error>) ensures r == xpriv_derive(*x, *p);
pub assume_specification [Xpriv::to_priv](x: Xpriv) -> (r: PrivateKey) ensures r == xpriv_key(x);
// ---- what a provider answers ----
pub open spec fn xpriv_res(x: Xpriv, q: KeyRequest) -> Result<Option<PrivateKey>, GetKeyError> {
    match q {
        KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
        KeyRequest::Bip32(ks) => if xpriv_fp(x) != ks.0 { Ok(None) } else { match xpriv_derive(x, ks.1) { Ok(k) => Ok(Some(xpriv_key(k))), Err(e) => Err(GetKeyError::Bip32(e)) } },
    }
}
#[verifier::external_trait_specification] pub trait ExGetKey17 { type ExternalTraitSpecificationFor: GetKey; type Error: core::fmt::Debug;
  fn get_key<C: Signing>(&self, key_request: KeyRequest, secp: &Secp256k1<C>) -> Result<Option<PrivateKey>, Self::Error>; }
pub open spec fn no_hit(s: Seq<&Xpriv>, n: int, f: Fingerprint) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < n ==> xpriv_fp(*s[i]) != f }
pub open spec fn all_in(s: Seq<&Xpriv>, m: Set<Xpriv>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains(*s[i]) }
pub broadcast proof fn lem_unref(s: Seq<&Xpriv>) ensures all_in(s, #[trigger] s.unref().to_set()) { assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s.unref().to_set().contains(*s[i]) by { assert(s.unref()[i] == *s[i]); assert(s.unref().contains(*s[i])); } }
/// a set answers with the key of one of its matching members, and with no key if none matches
pub open spec fn set_res(s: Set<Xpriv>, q: KeyRequest, r: Result<Option<PrivateKey>, GetKeyError>) -> bool {
    match q { KeyRequest::Pubkey(_) => r == Err::<Option<PrivateKey>, _>(GetKeyError::NotSupported),
        KeyRequest::Bip32(ks) => (exists|x: Xpriv| #[trigger] s.contains(x) && xpriv_fp(x) == ks.0 && r == xpriv_res(x, q)) || (r == Ok::<Option<PrivateKey>, GetKeyError>(None) && forall|x: Xpriv| #[trigger] s.contains(x) ==> xpriv_fp(x) != ks.0) }
}
pub open spec fn map_res(m: Map<PublicKey, PrivateKey>, q: KeyRequest) -> Result<Option<PrivateKey>, GetKeyError> {
    match q { KeyRequest::Bip32(_) => Err(GetKeyError::NotSupported), KeyRequest::Pubkey(p) => Ok(if m.contains_key(p) { Some(m[p]) } else { None }) }
}
}
@type src/v2/mod.rs GetKeyError
@append src/v2/mod.rs
impl vstd::std_specs::convert::FromSpecImpl<bip32::Error> for GetKeyError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: bip32::Error) -> Self { GetKeyError::Bip32(e) } }
@fn src/v2/mod.rs From<bip32::Error> for GetKeyError::from
@spec
r => ensures r == GetKeyError::Bip32(e)
@fn src/v2/mod.rs GetKey for Xpriv::get_key
@spec
r => ensures r == xpriv_res(*self, key_request)
@macro src/v2/mod.rs impl_get_key_for_map
@replace impl GetKey for ==> #[verus_verify] impl GetKey for
@replace fn get_key ==> #[verus_spec(r => ensures r == map_res(self@, key_request))] fn get_key
@replace _: &Secp256k1<C> ==> _secp: &Secp256k1<C>
@macro src/v2/mod.rs impl_get_key_for_set
@replace impl GetKey for ==> #[verus_verify] impl GetKey for
@replace fn get_key ==> #[verifier::loop_isolation(false)] #[verus_spec(r => ensures set_res(self@, key_request, r))] fn get_key
@replace for xpriv in self.iter() ==> #[verus_spec(it => invariant it.iter.obeys_prophetic_iter_laws(), all_in(it.seq(), self@), no_hit(it.seq(), it.index(), fingerprint))] for xpriv in self.iter()
@replace if xpriv ==> proof!{ assert(self@.contains(*xpriv)); } if xpriv
@mod getkey0_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{PublicKey, PrivateKey};
use bitcoin::bip32::{self, Xpriv};
use bitcoin::secp256k1::{Secp256k1, Signing};
use crate::v0::bitcoin::{GetKey, KeyRequest, GetKeyError};
verus!{
#[verifier::external_type_specification] pub struct ExKeyRequest0(KeyRequest);
#[verifier::external_trait_specification] pub trait ExGetKey0 { type ExternalTraitSpecificationFor: GetKey; type Error: core::fmt::Debug;
  fn get_key<C: Signing>(&self, key_request: KeyRequest, secp: &Secp256k1<C>) -> Result<Option<PrivateKey>, Self::Error>; }
pub open spec fn xpriv_res0(x: Xpriv, q: KeyRequest) -> Result<Option<PrivateKey>, GetKeyError> {
    match q {
        KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
        KeyRequest::Bip32(ks) => if xpriv_fp(x) != ks.0 { Ok(None) } else { match xpriv_derive(x, ks.1) { Ok(k) => Ok(Some(xpriv_key(k))), Err(e) => Err(GetKeyError::Bip32(e)) } },
    }
}
pub open spec fn set_res0(s: Set<Xpriv>, q: KeyRequest, r: Result<Option<PrivateKey>, GetKeyError>) -> bool {
    match q { KeyRequest::Pubkey(_) => r == Err::<Option<PrivateKey>, _>(GetKeyError::NotSupported),
        KeyRequest::Bip32(ks) => (exists|x: Xpriv| #[trigger] s.contains(x) && xpriv_fp(x) == ks.0 && r == xpriv_res0(x, q)) || (r == Ok::<Option<PrivateKey>, GetKeyError>(None) && forall|x: Xpriv| #[trigger] s.contains(x) ==> xpriv_fp(x) != ks.0) }
}
pub open spec fn map_res0(m: Map<PublicKey, PrivateKey>, q: KeyRequest) -> Result<Option<PrivateKey>, GetKeyError> {
    match q { KeyRequest::Bip32(_) => Err(GetKeyError::NotSupported), KeyRequest::Pubkey(p) => Ok(if m.contains_key(p) { Some(m[p]) } else { None }) }
}
}
@type src/v0/bitcoin/mod.rs GetKeyError
@append src/v0/bitcoin/mod.rs
impl vstd::std_specs::convert::FromSpecImpl<bip32::Error> for GetKeyError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: bip32::Error) -> Self { GetKeyError::Bip32(e) } }
@fn src/v0/bitcoin/mod.rs From<bip32::Error> for GetKeyError::from
@spec
r => ensures r == GetKeyError::Bip32(e)
@fn src/v0/bitcoin/mod.rs GetKey for Xpriv::get_key
@spec
r => ensures r == xpriv_res0(*self, key_request)
@macro src/v0/bitcoin/mod.rs impl_get_key_for_map
@replace impl GetKey for ==> #[verus_verify] impl GetKey for
@replace fn get_key ==> #[verus_spec(r => ensures r == map_res0(self@, key_request))] fn get_key
@replace _: &Secp256k1<C> ==> _secp: &Secp256k1<C>
@macro src/v0/bitcoin/mod.rs impl_get_key_for_set
@replace impl GetKey for ==> #[verus_verify] impl GetKey for
@replace fn get_key ==> #[verifier::loop_isolation(false)] #[verus_spec(r => ensures set_res0(self@, key_request, r))] fn get_key
@replace for xpriv in self.iter() ==> #[verus_spec(it => invariant it.iter.obeys_prophetic_iter_laws(), all_in(it.seq(), self@), no_hit(it.seq(), it.index(), fingerprint))] for xpriv in self.iter()
@replace if xpriv ==> proof!{ assert(self@.contains(*xpriv)); } if xpriv
