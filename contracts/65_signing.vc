@onlyprops C16
@fileprops C16
@mod signing_spec
@broadcast ax_key_order ax_pk_order ax_borrow
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use core::borrow::Borrow;
use bitcoin::{PublicKey, PrivateKey, Transaction};
use bitcoin::bip32::KeySource;
use bitcoin::sighash::{EcdsaSighashType, SighashCache};
use bitcoin::secp256k1::{self, Message, Secp256k1, SecretKey, Signing};
use crate::v2::{GetKey, KeyRequest, Psbt, Input, Global, SignError};
verus!{
pub broadcast axiom fn ax_key_order() ensures #[trigger] vstd::std_specs::btree::key_obeys_cmp_spec::<secp256k1::PublicKey>();
pub broadcast axiom fn ax_pk_order() ensures #[trigger] vstd::std_specs::btree::key_obeys_cmp_spec::<PublicKey>();
pub uninterp spec fn borrow_tx<T: Borrow<Transaction>>(t: T) -> Transaction;
pub broadcast axiom fn ax_borrow(t: &Transaction) ensures #[trigger] borrow_tx::<&Transaction>(t) == *t;
pub assume_specification<T: Borrow<Transaction>> [SighashCache::<T>::new](t: T) -> (r: SighashCache<T>) ensures cache_tx(r) == borrow_tx(t);
impl VxClone for Result<(Message, EcdsaSighashType), SignError> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { self.clone() } }
/// the ECDSA signature of a message under a secret key (deterministic nonces, RFC 6979)
pub uninterp spec fn ec_sign(m: Message, k: SecretKey) -> secp256k1::ecdsa::Signature;
pub assume_specification<C: Signing> [Secp256k1::<C>::sign_ecdsa](s: &Secp256k1<C>, m: &Message, k: &SecretKey) -> (r: secp256k1::ecdsa::Signature) ensures r == ec_sign(*m, *k);
// a key provider answers a request always the same way
#[verifier::external_trait_specification] #[verifier::external_trait_extension(GetKeySpec via GetKeySpecImpl)]
pub trait ExGetKey { type ExternalTraitSpecificationFor: GetKey; type Error: core::fmt::Debug;
  spec fn serve(&self, r: KeyRequest) -> Option<PrivateKey>;
  fn get_key<C: Signing>(&self, key_request: KeyRequest, secp: &Secp256k1<C>) -> (res: Result<Option<PrivateKey>, Self::Error>)
    ensures match res { Ok(Some(k)) => self.serve(key_request) == Some(k), _ => self.serve(key_request) is None };
}
// ---- BIP-370: what a signature of a type does to PSBT_GLOBAL_TX_MODIFIABLE ----
pub open spec fn acp(n: u32) -> bool { n == 0x81 || n == 0x82 || n == 0x83 }
pub open spec fn signed_flags(f: u8, n: u32) -> u8 {
    let f1 = if acp(n) { f } else { f & !1u8 };
    let f2 = if n == 2 || n == 0x82 { f1 } else { f1 & !2u8 };
    if n == 3 || n == 0x83 { f2 | 4u8 } else { f2 }
}
// ---- signing one input ----
/// the private key the provider serves for a derivation key of an input
pub open spec fn key_for<K: GetKey>(k: K, pk: secp256k1::PublicKey, ks: KeySource) -> Option<PrivateKey> {
    match k.serve(KeyRequest::Bip32(ks)) { Some(s) => Some(s), None => k.serve(KeyRequest::Pubkey(full_key(pk))) }
}
pub open spec fn served<K: GetKey>(k: K, x: Input, pk: secp256k1::PublicKey) -> bool { x.bip32_derivations@.contains_key(pk) && key_for(k, pk, x.bip32_derivations@[pk]) is Some }
pub open spec fn serves<K: GetKey>(k: K, x: Input) -> bool { exists|pk: secp256k1::PublicKey| #[trigger] served(k, x, pk) }
/// `p` is the public key of a private key served for `pk`
pub open spec fn signs<K: GetKey>(k: K, x: Input, pk: secp256k1::PublicKey, p: PublicKey) -> bool { served(k, x, pk) && pub_of(key_for(k, pk, x.bip32_derivations@[pk])->0) == p }
pub open spec fn is_new<K: GetKey>(k: K, x: Input, p: PublicKey) -> bool { exists|pk: secp256k1::PublicKey| #[trigger] signs(k, x, pk, p) }
pub open spec fn good_sig<K: GetKey>(k: K, x: Input, p: PublicKey, m: (Message, EcdsaSighashType), s: bitcoin::ecdsa::Signature) -> bool {
    exists|pk: secp256k1::PublicKey| #[trigger] signs(k, x, pk, p) && s.signature == ec_sign(m.0, key_for(k, pk, x.bip32_derivations@[pk])->0.inner) && s.sighash_type == m.1
}
pub open spec fn sigs_added<K: GetKey>(k: K, x: Input, m: (Message, EcdsaSighashType), r: Input) -> bool {
    r == (Input { partial_sigs: r.partial_sigs, ..x })
    && (forall|p: PublicKey| #![trigger r.partial_sigs@.contains_key(p)] r.partial_sigs@.contains_key(p) <==> x.partial_sigs@.contains_key(p) || is_new(k, x, p))
    && (forall|p: PublicKey| #![trigger r.partial_sigs@[p]] is_new(k, x, p) ==> good_sig(k, x, p, m, r.partial_sigs@[p]))
    && (forall|p: PublicKey| #![trigger r.partial_sigs@[p]] x.partial_sigs@.contains_key(p) && !is_new(k, x, p) ==> r.partial_sigs@[p] == x.partial_sigs@[p])
}
pub open spec fn same(p: Psbt, q: Psbt) -> bool { p.global == q.global && p.outputs == q.outputs && p.inputs@ =~= q.inputs@ }
pub open spec fn done_new<K: GetKey>(k: K, x: Input, s: Seq<(&secp256k1::PublicKey, &KeySource)>, p: PublicKey) -> bool { exists|pk: secp256k1::PublicKey| #[trigger] signs(k, x, pk, p) && !in_rem(s, pk) }
pub open spec fn done_any<K: GetKey>(k: K, x: Input, s: Seq<(&secp256k1::PublicKey, &KeySource)>) -> bool { exists|pk: secp256k1::PublicKey| #[trigger] served(k, x, pk) && !in_rem(s, pk) }
pub open spec fn done_upto<K: GetKey>(k: K, x: Input, s: Seq<(&secp256k1::PublicKey, &KeySource)>, m: Option<(Message, EcdsaSighashType)>, r: Input) -> bool {
    r == (Input { partial_sigs: r.partial_sigs, ..x })
    && (done_any(k, x, s) ==> m is Some) && (!done_any(k, x, s) ==> r.partial_sigs == x.partial_sigs)
    && (forall|p: PublicKey| #![trigger r.partial_sigs@.contains_key(p)] r.partial_sigs@.contains_key(p) <==> x.partial_sigs@.contains_key(p) || done_new(k, x, s, p))
    && (forall|p: PublicKey| #![trigger r.partial_sigs@[p]] done_new(k, x, s, p) ==> good_sig(k, x, p, m->0, r.partial_sigs@[p]))
    && (forall|p: PublicKey| #![trigger r.partial_sigs@[p]] x.partial_sigs@.contains_key(p) && !done_new(k, x, s, p) ==> r.partial_sigs@[p] == x.partial_sigs@[p])
}
pub open spec fn one_signed<K: GetKey>(k: K, p: Psbt, i: int, tx: Transaction, q: Psbt) -> bool {
    q.outputs == p.outputs && q.inputs@.len() == p.inputs@.len() && (forall|j: int| #![trigger q.inputs@[j]] 0 <= j < p.inputs@.len() && j != i ==> q.inputs@[j] == p.inputs@[j])
    && (if serves(k, p.inputs@[i]) { sigs_added(k, p.inputs@[i], msg_v2(p, i, tx)->0, q.inputs@[i]) && q.global == flags(p.global, signed_flags(p.global.tx_modifiable_flags, ecd((msg_v2(p, i, tx)->0).1))) }
        else { q.inputs@[i] == p.inputs@[i] && q.global == p.global })
}
// ---- signing all inputs ----
pub open spec fn ecdsa_in(p: Psbt, i: int) -> bool { in_range(p, i) && funding(p.inputs@[i]) is Some && !(in_kind(p.inputs@[i]) is Unknown) && !(in_kind(p.inputs@[i]) is Tr) }
pub open spec fn is_signed<K: GetKey>(k: K, p: Psbt, tx: Transaction, i: int) -> bool { ecdsa_in(p, i) && serves(k, p.inputs@[i]) && msg_v2(p, i, tx) is Some }
pub open spec fn fails<K: GetKey>(k: K, p: Psbt, tx: Transaction, i: int) -> bool { ecdsa_in(p, i) && serves(k, p.inputs@[i]) && msg_v2(p, i, tx) is None }
/// the flags after the first `n` inputs have been signed
pub open spec fn flags_after<K: GetKey>(k: K, p: Psbt, tx: Transaction, n: int) -> u8 decreases n {
    if n <= 0 { p.global.tx_modifiable_flags } else if is_signed(k, p, tx, n - 1) { signed_flags(flags_after(k, p, tx, n - 1), ecd((msg_v2(p, n - 1, tx)->0).1)) } else { flags_after(k, p, tx, n - 1) }
}
pub open spec fn signed_upto<K: GetKey>(k: K, p: Psbt, tx: Transaction, n: int, q: Psbt) -> bool {
    q.outputs == p.outputs && q.inputs@.len() == p.inputs@.len() && q.global == flags(p.global, flags_after(k, p, tx, n))
    && forall|j: int| #![trigger q.inputs@[j]] 0 <= j < p.inputs@.len() ==> if j < n && is_signed(k, p, tx, j) { sigs_added(k, p.inputs@[j], msg_v2(p, j, tx)->0, q.inputs@[j]) } else { q.inputs@[j] == p.inputs@[j] }
}
pub open spec fn errs_upto<K: GetKey>(k: K, p: Psbt, tx: Transaction, n: int, e: Map<usize, SignError>) -> bool { forall|j: usize| #![trigger e.contains_key(j)] #![trigger fails(k, p, tx, j as int)] e.contains_key(j) <==> j < n && fails(k, p, tx, j as int) }
pub open spec fn used_upto<K: GetKey>(k: K, p: Psbt, tx: Transaction, n: int, u: Map<usize, Vec<PublicKey>>) -> bool { forall|j: usize| #[trigger] u.contains_key(j) <==> j < n && ecdsa_in(p, j as int) && !fails(k, p, tx, j as int) }
pub open spec fn any_fails<K: GetKey>(k: K, p: Psbt, tx: Transaction) -> bool { exists|j: usize| #[trigger] fails(k, p, tx, j as int) }
}
@fn src/v2/mod.rs Psbt::clear_tx_modifiable
@spec
ensures *final(self) == pflags(*old(self), signed_flags(old(self).global.tx_modifiable_flags, sighash_type as u32))
@entry
broadcast use flag_lemmas;
@fn src/v2/mod.rs Signer::ecdsa_clear_tx_modifiable
@spec
ensures final(self).vx() == pflags(old(self).vx(), signed_flags(old(self).vx().global.tx_modifiable_flags, ecd(ty)))
@fn src/v2/mod.rs Psbt::bip32_sign_ecdsa
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
r => requires cache_tx(*old(cache)).input@.len() >= old(self).inputs@.len(), input_index < old(self).inputs@.len()
  ensures cache_tx(*final(cache)) == cache_tx(*old(cache)),
    r is Err <==> serves(*k, old(self).inputs@[input_index as int]) && msg_v2(*old(self), input_index as int, cache_tx(*old(cache))) is None,
    r is Err ==> same(*old(self), *final(self)),
    r is Ok ==> one_signed(*k, *old(self), input_index as int, cache_tx(*old(cache)), *final(self))
@replace PublicKey::new(*pk) ==> vx_full_key(*pk)
@replace key_source.clone() ==> key_source.vx_clone()
@replace msg_sighash_ty_res.clone() ==> msg_sighash_ty_res.vx_clone()
@closure 1
t: (EcdsaSighashType) => ensures t == vx_p1_0.1
@desugar 1
@loop 1
invariant vx_it1.obeys_prophetic_iter_laws(), vx_it1.decrease() is Some, of_map(vx_it1.remaining(), input.bip32_derivations@), vx_it1.remaining().no_duplicates(),
  forall|pk: bitcoin::secp256k1::PublicKey| !old(self).inputs@[input_index as int].bip32_derivations@.contains_key(pk) ==> !in_rem(vx_it1.remaining(), pk),
  done_upto(*k, old(self).inputs@[input_index as int], vx_it1.remaining(), msg_v2(*old(self), input_index as int, cache_tx(*old(cache))), *input),
  used@.len() > 0 <==> done_any(*k, old(self).inputs@[input_index as int], vx_it1.remaining())
  ensures vx_it1.remaining().len() == 0
  decreases vx_it1.decrease()->0
@before let (msg, sighash_ty) = match
assert(served(*k, old(self).inputs@[input_index as int], *pk));
assert(!in_rem(vx_it1.remaining(), *pk));
@before continue;
assert(!in_rem(vx_it1.remaining(), *pk));
assert(!served(*k, old(self).inputs@[input_index as int], *pk));
@before let pk = sk.public_key
assert(signs(*k, old(self).inputs@[input_index as int], *pk, pub_of(sk)));
@fn src/v2/mod.rs Psbt::sign
@spec
r => requires tx.input@.len() >= old(self).inputs@.len()
  ensures signed_upto(*k, *old(self), tx, old(self).global.input_count as int, *final(self)),
    r is Err <==> any_fails(*k, *old(self), tx),
    r is Err ==> errs_upto(*k, *old(self), tx, old(self).global.input_count as int, r->Err_0.1@) && used_upto(*k, *old(self), tx, old(self).global.input_count as int, r->Err_0.0@),
    r is Ok ==> used_upto(*k, *old(self), tx, old(self).global.input_count as int, r->Ok_0@)
@loop 1
it => invariant it.index() <= it.seq().len() == old(self).global.input_count, tx.input@.len() >= old(self).inputs@.len(), cache_tx(cache) == tx,
   forall|n: int| 0 <= n < it.seq().len() ==> #[trigger] it.seq()[n] == n,
   signed_upto(*k, *old(self), tx, it.index(), *self), errs_upto(*k, *old(self), tx, it.index(), errors@), used_upto(*k, *old(self), tx, it.index(), used@)
@fn src/v2/mod.rs Signer::sign
@spec
r => requires !lock_undetermined(self.vx().inputs@)
  ensures match r {
     Ok((q, used)) => exists|t: Transaction| #[trigger] is_utx(self.vx(), t) && !any_fails(*k, self.vx(), t) && signed_upto(*k, self.vx(), t, self.vx().global.input_count as int, q) && used_upto(*k, self.vx(), t, self.vx().global.input_count as int, used@),
     Err((used, errors)) => exists|t: Transaction| #[trigger] is_utx(self.vx(), t) && any_fails(*k, self.vx(), t) && errs_upto(*k, self.vx(), t, self.vx().global.input_count as int, errors@) && used_upto(*k, self.vx(), t, self.vx().global.input_count as int, used@) }
@closure 1
p: ((Psbt, SigningKeys)) => ensures p.0 == psbt, p.1 == signing_keys
