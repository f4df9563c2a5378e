@onlyprops C09 C10 C12 C23
@fileprops C09 C10 C23
@mod exact_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{absolute, ecdsa, taproot, transaction, Amount, ScriptBuf, Sequence, Transaction, TxOut, Txid, Witness, PublicKey, XOnlyPublicKey, TapLeafHash, TapNodeHash, secp256k1};
use bitcoin::hashes::{self, hash160, sha256, sha256d, ripemd160};
use bitcoin::taproot::{ControlBlock, LeafVersion, TapTree};
use bitcoin::bip32::{KeySource, Fingerprint, DerivationPath};
use crate::sighash_type::PsbtSighashType;
use crate::raw::{Key, Pair, ProprietaryKey};
use crate::v2::{Input, Output};
use crate::serialize;
verus!{
// ---- a field is exactly what the pairs say ----
/// the selected pairs are well formed, name every key once, and give the entries of m, all of them
#[verifier::opaque]
pub open spec fn x_gen<P, K, V>(m: Map<K, V>, sel: spec_fn(P) -> bool, kf: spec_fn(P) -> Option<K>, vf: spec_fn(P) -> Option<V>, ps: Seq<P>) -> bool {
    (forall|j: int| #![trigger ps[j]] 0 <= j < ps.len() && sel(ps[j]) ==> kf(ps[j]) is Some && vf(ps[j]) is Some && m.contains_key(kf(ps[j])->0) && m[kf(ps[j])->0] == vf(ps[j])->0)
    && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|j: int| 0 <= j < ps.len() && sel(#[trigger] ps[j]) && kf(ps[j]) == Some(k))
    && (forall|i: int, j: int| #![trigger ps[i], ps[j]] 0 <= i < j < ps.len() && sel(ps[i]) && sel(ps[j]) ==> kf(ps[i]) != kf(ps[j]))
}
pub proof fn lem_gen_empty<P, K, V>(sel: spec_fn(P) -> bool, kf: spec_fn(P) -> Option<K>, vf: spec_fn(P) -> Option<V>) ensures x_gen(Map::<K, V>::empty(), sel, kf, vf, Seq::<P>::empty()) { reveal(x_gen); }
pub proof fn lem_gen_push<P, K, V>(m: Map<K, V>, n: Map<K, V>, sel: spec_fn(P) -> bool, kf: spec_fn(P) -> Option<K>, vf: spec_fn(P) -> Option<V>, ps: Seq<P>, p: P)
    requires x_gen(m, sel, kf, vf, ps), if sel(p) { kf(p) is Some && vf(p) is Some && !m.contains_key(kf(p)->0) && n == m.insert(kf(p)->0, vf(p)->0) } else { n == m }
    ensures x_gen(n, sel, kf, vf, ps.push(p))
{ reveal(x_gen); let qs = ps.push(p); assert forall|k: K| #[trigger] n.contains_key(k) implies exists|j: int| 0 <= j < qs.len() && sel(#[trigger] qs[j]) && kf(qs[j]) == Some(k) by {
    if m.contains_key(k) { let j = choose|j: int| 0 <= j < ps.len() && sel(#[trigger] ps[j]) && kf(ps[j]) == Some(k); assert(qs[j] == ps[j]); } else { assert(qs[ps.len() as int] == p); } }
  assert forall|j: int| #![trigger qs[j]] 0 <= j < qs.len() && sel(qs[j]) implies kf(qs[j]) is Some && vf(qs[j]) is Some && n.contains_key(kf(qs[j])->0) && n[kf(qs[j])->0] == vf(qs[j])->0 by { if j < ps.len() { assert(qs[j] == ps[j]); } }
  assert forall|i: int, j: int| #![trigger qs[i], qs[j]] 0 <= i < j < qs.len() && sel(qs[i]) && sel(qs[j]) implies kf(qs[i]) != kf(qs[j]) by { assert(qs[i] == ps[i]); if j < ps.len() { assert(qs[j] == ps[j]); } else { assert(m.contains_key(kf(ps[i])->0)); } } }
/// the same pairs give the same map
pub proof fn lem_gen_eq<P, K, V>(m: Map<K, V>, n: Map<K, V>, sel: spec_fn(P) -> bool, kf: spec_fn(P) -> Option<K>, vf: spec_fn(P) -> Option<V>, ps: Seq<P>)
    requires x_gen(m, sel, kf, vf, ps), x_gen(n, sel, kf, vf, ps) ensures m == n
{ reveal(x_gen);
  assert forall|k: K| #[trigger] m.contains_key(k) implies n.contains_key(k) && n[k] == m[k] by { let j = choose|j: int| 0 <= j < ps.len() && sel(#[trigger] ps[j]) && kf(ps[j]) == Some(k); }
  assert forall|k: K| #[trigger] n.contains_key(k) implies m.contains_key(k) by { let j = choose|j: int| 0 <= j < ps.len() && sel(#[trigger] ps[j]) && kf(ps[j]) == Some(k); }
  assert(m =~= n); }
/// the next pair of a well-formed map can always be taken
pub proof fn lem_gen_can<P, K, V>(m: Map<K, V>, n: Map<K, V>, sel: spec_fn(P) -> bool, kf: spec_fn(P) -> Option<K>, vf: spec_fn(P) -> Option<V>, qs: Seq<P>, k: int)
    requires x_gen(m, sel, kf, vf, qs.take(k)), x_gen(n, sel, kf, vf, qs), 0 <= k < qs.len(), sel(qs[k]) ensures kf(qs[k]) is Some, vf(qs[k]) is Some, !m.contains_key(kf(qs[k])->0)
{ reveal(x_gen); let ps = qs.take(k); if m.contains_key(kf(qs[k])->0) { let j = choose|j: int| 0 <= j < ps.len() && sel(#[trigger] ps[j]) && kf(ps[j]) == Some(kf(qs[k])->0); assert(qs[j] == ps[j]); } }
pub open spec fn opt_map<T>(o: Option<T>) -> Map<(), T> { match o { Some(x) => Map::empty().insert((), x), None => Map::empty() } }
pub proof fn lem_opt_map<T>(a: Option<T>, b: Option<T>) ensures opt_map(a) == opt_map(b) ==> a == b { if a is Some { assert(opt_map(a).contains_key(())); assert(opt_map(a)[()] == a->0); } if b is Some { assert(opt_map(b).contains_key(())); assert(opt_map(b)[()] == b->0); } }

// ---- the kinds of fields ----
pub open spec fn sel_t(c: u8) -> spec_fn(Pair) -> bool { |p: Pair| p.key.type_value == c }
pub open spec fn kf_opt() -> spec_fn(Pair) -> Option<()> { |p: Pair| if p.key.key@.len() == 0 { Some(()) } else { None } }
pub open spec fn vf_de<V>() -> spec_fn(Pair) -> Option<V> { |p: Pair| de_of::<V>(p.value@) }
pub open spec fn kf_de<K>() -> spec_fn(Pair) -> Option<K> { |p: Pair| if p.key.key@.len() > 0 { de_of::<K>(p.key.key@) } else { None } }
pub open spec fn vf_hash<H>() -> spec_fn(Pair) -> Option<Vec<u8>> { |p: Pair| if Some(hash_of::<H>(p.value@)) == de_of::<H>(p.key.key@) { Some(p.value) } else { None } }
pub open spec fn kf_prop() -> spec_fn(Pair) -> Option<ProprietaryKey> { |p: Pair| cons_de::<ProprietaryKey>(p.key.key@) }
pub open spec fn kf_unk() -> spec_fn(Pair) -> Option<Key> { |p: Pair| Some(p.key) }
pub open spec fn vf_any() -> spec_fn(Pair) -> Option<Vec<u8>> { |p: Pair| Some(p.value) }
pub open spec fn x_opt<T>(o: Option<T>, c: u8, ps: Seq<Pair>) -> bool { x_gen(opt_map(o), sel_t(c), kf_opt(), vf_de::<T>(), ps) }
pub open spec fn x_map<K, V>(m: Map<K, V>, c: u8, ps: Seq<Pair>) -> bool { x_gen(m, sel_t(c), kf_de::<K>(), vf_de::<V>(), ps) }
pub open spec fn x_hash<H>(m: Map<H, Vec<u8>>, c: u8, ps: Seq<Pair>) -> bool { x_gen(m, sel_t(c), kf_de::<H>(), vf_hash::<H>(), ps) }
pub open spec fn x_prop(m: Map<ProprietaryKey, Vec<u8>>, c: u8, ps: Seq<Pair>) -> bool { x_gen(m, sel_t(c), kf_prop(), vf_any(), ps) }
pub broadcast proof fn lem_gen_push_b<P, K, V>(m: Map<K, V>, n: Map<K, V>, sel: spec_fn(P) -> bool, kf: spec_fn(P) -> Option<K>, vf: spec_fn(P) -> Option<V>, ps: Seq<P>, p: P)
    requires #[trigger] x_gen(m, sel, kf, vf, ps), if sel(p) { kf(p) is Some && vf(p) is Some && !m.contains_key(kf(p)->0) && n == m.insert(kf(p)->0, vf(p)->0) } else { n == m }
    ensures #[trigger] x_gen(n, sel, kf, vf, ps.push(p)) { lem_gen_push(m, n, sel, kf, vf, ps, p); }
pub broadcast proof fn lem_gen_empty_b<P, K, V>(m: Map<K, V>, sel: spec_fn(P) -> bool, kf: spec_fn(P) -> Option<K>, vf: spec_fn(P) -> Option<V>, ps: Seq<P>) requires m == Map::<K, V>::empty(), ps == Seq::<P>::empty() ensures #[trigger] x_gen(m, sel, kf, vf, ps) { lem_gen_empty(sel, kf, vf); }
pub broadcast proof fn lem_gen_can_b<P, K, V>(m: Map<K, V>, n: Map<K, V>, sel: spec_fn(P) -> bool, kf: spec_fn(P) -> Option<K>, vf: spec_fn(P) -> Option<V>, qs: Seq<P>, k: int)
    requires #[trigger] x_gen(m, sel, kf, vf, qs.take(k)), #[trigger] x_gen(n, sel, kf, vf, qs), 0 <= k < qs.len(), sel(qs[k]) ensures kf(qs[k]) is Some, vf(qs[k]) is Some, !m.contains_key(kf(qs[k])->0)
{ lem_gen_can(m, n, sel, kf, vf, qs, k); }
/// silent payments (only with the feature)
#[cfg(feature = "silent-payments")] verus!{
use bitcoin::CompressedPublicKey; use crate::v2::dleq::DleqProof;
pub open spec fn in_sp_exact(x: Input, ps: Seq<Pair>) -> bool { x_map::<CompressedPublicKey, CompressedPublicKey>(x.sp_ecdh_shares@, 0x1d, ps) && x_map::<CompressedPublicKey, DleqProof>(x.sp_dleq_proofs@, 0x1e, ps) }
pub open spec fn out_sp_exact(x: Output, ps: Seq<Pair>) -> bool { x_gen(opt_map(x.sp_v0_info), sel_t(0x09), kf_opt(), vf_len(66), ps) && x_gen(opt_map(x.sp_v0_label), sel_t(0x0a), kf_opt(), vf_le4(), ps) }
pub proof fn lem_in_sp_eq(x: Input, y: Input, ps: Seq<Pair>) requires in_sp_exact(x, ps), in_sp_exact(y, ps) ensures in_sp_fin(x) == in_sp_fin(y) {
    lem_gen_eq(x.sp_ecdh_shares@, y.sp_ecdh_shares@, sel_t(0x1d), kf_de::<CompressedPublicKey>(), vf_de::<CompressedPublicKey>(), ps); lem_gen_eq(x.sp_dleq_proofs@, y.sp_dleq_proofs@, sel_t(0x1e), kf_de::<CompressedPublicKey>(), vf_de::<DleqProof>(), ps); }
pub proof fn lem_out_sp_eq(x: Output, y: Output, ps: Seq<Pair>) requires out_sp_exact(x, ps), out_sp_exact(y, ps) ensures out_sp_fin(x) == out_sp_fin(y) {
    lem_gen_eq(opt_map(x.sp_v0_info), opt_map(y.sp_v0_info), sel_t(0x09), kf_opt(), vf_len(66), ps); lem_gen_eq(opt_map(x.sp_v0_label), opt_map(y.sp_v0_label), sel_t(0x0a), kf_opt(), vf_le4(), ps); lem_opt_map(x.sp_v0_info, y.sp_v0_info); lem_opt_map(x.sp_v0_label, y.sp_v0_label); }
}
#[cfg(not(feature = "silent-payments"))] verus!{
pub open spec fn in_sp_exact(x: Input, ps: Seq<Pair>) -> bool { true }
pub open spec fn out_sp_exact(x: Output, ps: Seq<Pair>) -> bool { true }
pub proof fn lem_in_sp_eq(x: Input, y: Input, ps: Seq<Pair>) ensures in_sp_fin(x) == in_sp_fin(y) { }
pub proof fn lem_out_sp_eq(x: Output, y: Output, ps: Seq<Pair>) ensures out_sp_fin(x) == out_sp_fin(y) { }
}
pub open spec fn in_known(c: u8) -> bool { c == 0x10 || c == 0x11 || c == 0x12 || c == 0x00 || c == 0x01 || c == 0x02 || c == 0x03 || c == 0x04 || c == 0x05 || c == 0x06 || c == 0x07 || c == 0x08 || c == 0x0a || c == 0x0b || c == 0x0c || c == 0x0d || c == 0x13 || c == 0x14 || c == 0x15 || c == 0x16 || c == 0x17 || c == 0x18 || c == 0xfc || c == 0x0e || c == 0x0f || in_sp_t(c) }
pub open spec fn sel_in_unk() -> spec_fn(Pair) -> bool { |p: Pair| !in_known(p.key.type_value) }
/// the fields of a map are exactly what its pairs say; a and b tell whether the two mandatory fields were there
pub open spec fn in_exact(x: Input, a: bool, b: bool, ps: Seq<Pair>) -> bool {
    x_opt::<Txid>(if a { Some(x.previous_txid) } else { None }, 0x0e, ps)
    && x_opt::<u32>(if b { Some(x.spent_output_index) } else { None }, 0x0f, ps)
    && x_opt::<Sequence>(x.sequence, 0x10, ps)
    && x_opt::<absolute::Time>(x.min_time, 0x11, ps)
    && x_opt::<absolute::Height>(x.min_height, 0x12, ps)
    && x_opt::<Transaction>(x.non_witness_utxo, 0x00, ps)
    && x_opt::<TxOut>(x.witness_utxo, 0x01, ps)
    && x_map::<PublicKey, ecdsa::Signature>(x.partial_sigs@, 0x02, ps)
    && x_opt::<PsbtSighashType>(x.sighash_type, 0x03, ps)
    && x_opt::<ScriptBuf>(x.redeem_script, 0x04, ps)
    && x_opt::<ScriptBuf>(x.witness_script, 0x05, ps)
    && x_map::<secp256k1::PublicKey, KeySource>(x.bip32_derivations@, 0x06, ps)
    && x_opt::<ScriptBuf>(x.final_script_sig, 0x07, ps)
    && x_opt::<Witness>(x.final_script_witness, 0x08, ps)
    && x_hash::<ripemd160::Hash>(x.ripemd160_preimages@, 0x0a, ps)
    && x_hash::<sha256::Hash>(x.sha256_preimages@, 0x0b, ps)
    && x_hash::<hash160::Hash>(x.hash160_preimages@, 0x0c, ps)
    && x_hash::<sha256d::Hash>(x.hash256_preimages@, 0x0d, ps)
    && x_opt::<taproot::Signature>(x.tap_key_sig, 0x13, ps)
    && x_map::<(XOnlyPublicKey, TapLeafHash), taproot::Signature>(x.tap_script_sigs@, 0x14, ps)
    && x_map::<ControlBlock, (ScriptBuf, LeafVersion)>(x.tap_scripts@, 0x15, ps)
    && x_map::<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>(x.tap_key_origins@, 0x16, ps)
    && x_opt::<XOnlyPublicKey>(x.tap_internal_key, 0x17, ps)
    && x_opt::<TapNodeHash>(x.tap_merkle_root, 0x18, ps)
    && x_prop(x.proprietaries@, 0xfc, ps)
    && x_gen(x.unknowns@, sel_in_unk(), kf_unk(), vf_any(), ps)
    && in_sp_exact(x, ps)
}

pub open spec fn out_known(c: u8) -> bool { c == 0x00 || c == 0x01 || c == 0x02 || c == 0x05 || c == 0x06 || c == 0x07 || c == 0xfc || c == 0x03 || c == 0x04 || out_sp_t(c) }
pub open spec fn sel_out_unk() -> spec_fn(Pair) -> bool { |p: Pair| !out_known(p.key.type_value) }
/// the fields of a map are exactly what its pairs say; a and b tell whether the two mandatory fields were there
pub open spec fn out_exact(x: Output, a: bool, b: bool, ps: Seq<Pair>) -> bool {
    x_opt::<Amount>(if a { Some(x.amount) } else { None }, 0x03, ps)
    && x_opt::<ScriptBuf>(if b { Some(x.script_pubkey) } else { None }, 0x04, ps)
    && x_opt::<ScriptBuf>(x.redeem_script, 0x00, ps)
    && x_opt::<ScriptBuf>(x.witness_script, 0x01, ps)
    && x_map::<secp256k1::PublicKey, KeySource>(x.bip32_derivations@, 0x02, ps)
    && x_opt::<XOnlyPublicKey>(x.tap_internal_key, 0x05, ps)
    && x_opt::<TapTree>(x.tap_tree, 0x06, ps)
    && x_map::<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>(x.tap_key_origins@, 0x07, ps)
    && x_prop(x.proprietaries@, 0xfc, ps)
    && x_gen(x.unknowns@, sel_out_unk(), kf_unk(), vf_any(), ps)
    && out_sp_exact(x, ps) && (!b && sp_on() ==> x.script_pubkey == empty_script())
}


pub proof fn lem_in_push(x: Input, a: bool, b: bool, y: Input, ps: Seq<Pair>, p: Pair)
    requires in_exact(x, a, b, ps), in_ok(x, a, b, p), in_ins(x, p, y) ensures in_exact(y, a || p.key.type_value == 0x0e, b || p.key.type_value == 0x0f, ps.push(p))
{ broadcast use lem_gen_push_b; }
pub proof fn lem_in_can(x: Input, a: bool, b: bool, y: Input, qs: Seq<Pair>, k: int)
    requires 0 <= k < qs.len(), in_exact(x, a, b, qs.take(k)), in_exact(y, true, true, qs) ensures in_ok(x, a, b, qs[k])
{ broadcast use lem_gen_can_b; }
pub proof fn lem_out_push(x: Output, a: bool, b: bool, y: Output, ps: Seq<Pair>, p: Pair)
    requires out_exact(x, a, b, ps), out_ok(x, a, b, p), out_ins(x, p, y) ensures out_exact(y, a || p.key.type_value == 0x03, b || p.key.type_value == 0x04, ps.push(p))
{ broadcast use lem_gen_push_b; }
pub proof fn lem_out_can(x: Output, a: bool, b: bool, y: Output, j: bool, qs: Seq<Pair>, k: int)
    requires 0 <= k < qs.len(), out_exact(x, a, b, qs.take(k)), out_exact(y, true, j, qs) ensures out_ok(x, a, b, qs[k])
{ broadcast use lem_gen_can_b; }
}
