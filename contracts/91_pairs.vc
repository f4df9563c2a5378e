@onlyprops C09 C10 C12 C23
@fileprops C09 C10 C23
@mod pairs_spec
@broadcast lem_wrote0 lem_wrote1
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{absolute, ecdsa, taproot, transaction, Amount, ScriptBuf, Sequence, Transaction, TxOut, Txid, Witness, PublicKey, XOnlyPublicKey, TapLeafHash, TapNodeHash, secp256k1};
use bitcoin::hashes::{self, hash160, sha256, sha256d, ripemd160};
use crate::raw::{Key, Pair, ProprietaryKey};
use bitcoin::taproot::{ControlBlock, LeafVersion, TapTree};
use bitcoin::bip32::{KeySource, Fingerprint, DerivationPath};
use crate::sighash_type::PsbtSighashType;
use crate::v2::{Input, Output};
verus!{
// ---- what can be written and read back ----
/// the value decodes from its own encoding
pub open spec fn rt<T>(x: T) -> bool { de_of::<T>(ser_of::<&T>(&x)) == Some(x) }
pub open spec fn ok_opt<T>(o: Option<T>) -> bool { o is Some ==> rt(o->0) }
pub open spec fn ok_map<K, V>(m: Map<K, V>) -> bool { forall|k: K| #[trigger] m.contains_key(k) ==> rt(k) && ser_of::<&K>(&k).len() > 0 && rt(m[k]) }
/// the preimages hash to their keys
pub open spec fn ok_hash<H>(m: Map<H, Vec<u8>>) -> bool { forall|k: H| #[trigger] m.contains_key(k) ==> rt(k) && ser_of::<&H>(&k).len() > 0 && hash_of::<H>(m[k]@) == k }
pub open spec fn ok_prop(m: Map<ProprietaryKey, Vec<u8>>) -> bool { forall|k: ProprietaryKey| #[trigger] m.contains_key(k) ==> pk_small(k) }
pub broadcast axiom fn ax_ser_bytes(v: &Vec<u8>) ensures #[trigger] ser_of::<&Vec<u8>>(v) == v@;
// ---- pairs of one type are appended ----
#[verifier::opaque]
pub open spec fn absent(sel: spec_fn(Pair) -> bool, ps: Seq<Pair>) -> bool { forall|i: int| 0 <= i < ps.len() ==> !sel(#[trigger] ps[i]) }
/// to r0 only pairs of sel were added
#[verifier::opaque]
pub open spec fn seg(sel: spec_fn(Pair) -> bool, r0: Seq<Pair>, r1: Seq<Pair>) -> bool { r0.len() <= r1.len() && (forall|i: int| 0 <= i < r0.len() ==> r0[i] == #[trigger] r1[i]) && forall|i: int| r0.len() <= i < r1.len() ==> sel(#[trigger] r1[i]) }
pub broadcast proof fn lem_absent0(sel: spec_fn(Pair) -> bool, ps: Seq<Pair>) requires ps.len() == 0 ensures #[trigger] absent(sel, ps) { reveal(absent); }
pub broadcast proof fn lem_absent_push(sel: spec_fn(Pair) -> bool, ps: Seq<Pair>, p: Pair) requires absent(sel, ps), !sel(p) ensures #[trigger] absent(sel, ps.push(p))
{ reveal(absent); let qs = ps.push(p); assert forall|i: int| 0 <= i < qs.len() implies !sel(#[trigger] qs[i]) by { if i < ps.len() { assert(qs[i] == ps[i]); } } }
pub open spec fn apart(s: spec_fn(Pair) -> bool, t: spec_fn(Pair) -> bool) -> bool { forall|p: Pair| !(#[trigger] s(p) && #[trigger] t(p)) }
pub proof fn lem_absent_seg(sel: spec_fn(Pair) -> bool, s: spec_fn(Pair) -> bool, r0: Seq<Pair>, r1: Seq<Pair>) requires seg(s, r0, r1), absent(sel, r0), apart(sel, s) ensures absent(sel, r1)
{ reveal(absent); reveal(seg); assert forall|i: int| 0 <= i < r1.len() implies !sel(#[trigger] r1[i]) by { if i < r0.len() { assert(!sel(r0[i])); } else { assert(s(r1[i])); } } }
pub proof fn lem_gen_seg<K, V>(m: Map<K, V>, sel: spec_fn(Pair) -> bool, kf: spec_fn(Pair) -> Option<K>, vf: spec_fn(Pair) -> Option<V>, s: spec_fn(Pair) -> bool, r0: Seq<Pair>, r1: Seq<Pair>)
    requires seg(s, r0, r1), x_gen(m, sel, kf, vf, r0), apart(sel, s) ensures x_gen(m, sel, kf, vf, r1)
{ reveal(x_gen); reveal(seg);
  assert forall|j: int| #![trigger r1[j]] 0 <= j < r1.len() && sel(r1[j]) implies kf(r1[j]) is Some && vf(r1[j]) is Some && m.contains_key(kf(r1[j])->0) && m[kf(r1[j])->0] == vf(r1[j])->0 by { if j < r0.len() { assert(r0[j] == r1[j]); } else { assert(s(r1[j])); } }
  assert forall|k: K| #[trigger] m.contains_key(k) implies exists|j: int| 0 <= j < r1.len() && sel(#[trigger] r1[j]) && kf(r1[j]) == Some(k) by { let j = choose|j: int| 0 <= j < r0.len() && sel(#[trigger] r0[j]) && kf(r0[j]) == Some(k); assert(r1[j] == r0[j]); }
  assert forall|i: int, j: int| #![trigger r1[i], r1[j]] 0 <= i < j < r1.len() && sel(r1[i]) && sel(r1[j]) implies kf(r1[i]) != kf(r1[j]) by { assert(s(r1[j]) || j < r0.len()); assert(r0[i] == r1[i]); assert(r0[j] == r1[j]); } }
pub broadcast proof fn lem_absent_tt(c: u8, d: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] seg(sel_t(d), r0, r1), absent(sel_t(c), r0), c != d ensures #[trigger] absent(sel_t(c), r1) { lem_absent_seg(sel_t(c), sel_t(d), r0, r1); }
pub broadcast proof fn lem_gen_tt<K, V>(m: Map<K, V>, c: u8, kf: spec_fn(Pair) -> Option<K>, vf: spec_fn(Pair) -> Option<V>, d: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] seg(sel_t(d), r0, r1), x_gen(m, sel_t(c), kf, vf, r0), c != d
    ensures #[trigger] x_gen(m, sel_t(c), kf, vf, r1) { lem_gen_seg(m, sel_t(c), kf, vf, sel_t(d), r0, r1); }
pub broadcast proof fn lem_gen_push_other<K, V>(m: Map<K, V>, c: u8, kf: spec_fn(Pair) -> Option<K>, vf: spec_fn(Pair) -> Option<V>, ps: Seq<Pair>, p: Pair) requires x_gen(m, sel_t(c), kf, vf, ps), p.key.type_value != c
    ensures #[trigger] x_gen(m, sel_t(c), kf, vf, ps.push(p)) { lem_gen_push(m, m, sel_t(c), kf, vf, ps, p); }
pub proof fn lem_gen_absent<K, V>(sel: spec_fn(Pair) -> bool, kf: spec_fn(Pair) -> Option<K>, vf: spec_fn(Pair) -> Option<V>, ps: Seq<Pair>) requires absent(sel, ps) ensures x_gen(Map::<K, V>::empty(), sel, kf, vf, ps) { reveal(x_gen); reveal(absent); }
pub proof fn lem_opt_push<T>(x: T, c: u8, ps: Seq<Pair>, p: Pair) requires absent(sel_t(c), ps), rt(x), p.key.type_value == c, p.key.key@.len() == 0, p.value@ == ser_of::<&T>(&x)
    ensures x_opt(Some(x), c, ps.push(p)) { lem_gen_absent(sel_t(c), kf_opt(), vf_de::<T>(), ps); lem_gen_push(Map::<(), T>::empty(), opt_map(Some(x)), sel_t(c), kf_opt(), vf_de::<T>(), ps, p); }
pub broadcast proof fn lem_opt_push_b<T>(x: T, c: u8, ps: Seq<Pair>, p: Pair) requires absent(sel_t(c), ps), rt(x), p.key.type_value == c, p.key.key@.len() == 0, p.value@ == ser_of::<&T>(&x)
    ensures #[trigger] x_gen(opt_map(Some(x)), sel_t(c), kf_opt(), vf_de::<T>(), ps.push(p)) { lem_opt_push(x, c, ps, p); }
/// an optional field was written
pub open spec fn wrote_opt<T>(o: Option<T>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool {
    match o { None => r1 == r0, Some(x) => r1.len() > 0 && r1.drop_last() == r0 && r1.last().key.type_value == c && r1.last().key.key@.len() == 0 && r1.last().value@ == ser_of::<&T>(&x) } }
pub proof fn lem_wrote_opt<T>(o: Option<T>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires wrote_opt(o, c, r0, r1), ok_opt(o) ensures seg(sel_t(c), r0, r1), absent(sel_t(c), r0) ==> x_opt(o, c, r1)
{ reveal(seg); if o is Some { assert(r1 =~= r0.push(r1.last())); if absent(sel_t(c), r0) { lem_opt_push(o->0, c, r0, r1.last()); } assert forall|i: int| 0 <= i < r0.len() implies r0[i] == #[trigger] r1[i] by { assert(r1.drop_last()[i] == r1[i]); } } else if absent(sel_t(c), r0) { lem_gen_absent(sel_t(c), kf_opt(), vf_de::<T>(), r0); } }
/// the first i entries of s were written, each as w says
#[verifier::opaque]
pub open spec fn wrote<K, V>(s: Seq<(&K, &V)>, i: int, w: spec_fn(K, V, Pair) -> bool, r0: Seq<Pair>, r1: Seq<Pair>) -> bool {
    0 <= i <= s.len() && r1.len() == r0.len() + i && (forall|j: int| 0 <= j < r0.len() ==> r0[j] == #[trigger] r1[j])
    && forall|j: int| 0 <= j < i ==> wr_is(s, w, j, #[trigger] r1[r0.len() + j]) }
pub open spec fn wr_is<K, V>(s: Seq<(&K, &V)>, w: spec_fn(K, V, Pair) -> bool, j: int, p: Pair) -> bool { w(*s[j].0, *s[j].1, p) }
pub open spec fn w_map<K, V>(c: u8) -> spec_fn(K, V, Pair) -> bool { |k: K, v: V, p: Pair| p.key.type_value == c && p.key.key@ == ser_of::<&K>(&k) && p.value@ == ser_of::<&V>(&v) }
pub open spec fn w_prop() -> spec_fn(ProprietaryKey, Vec<u8>, Pair) -> bool { |k: ProprietaryKey, v: Vec<u8>, p: Pair| p.key.type_value == 0xfc && p.key.key@ == pk_enc(k) && p.value == v }
pub open spec fn w_unk() -> spec_fn(Key, Vec<u8>, Pair) -> bool { |k: Key, v: Vec<u8>, p: Pair| p.key == k && p.value == v }
pub broadcast proof fn lem_wrote0<K, V>(s: Seq<(&K, &V)>, w: spec_fn(K, V, Pair) -> bool, r0: Seq<Pair>) ensures #[trigger] wrote(s, 0, w, r0, r0) { reveal(wrote); }
pub broadcast proof fn lem_wrote1<K, V>(s: Seq<(&K, &V)>, i: int, w: spec_fn(K, V, Pair) -> bool, r0: Seq<Pair>, r1: Seq<Pair>, p: Pair) requires #[trigger] wrote(s, i, w, r0, r1), i < s.len(), wr_is(s, w, i, p) ensures wrote(s, i + 1, w, r0, #[trigger] r1.push(p))
{ reveal(wrote); let r2 = r1.push(p); assert forall|j: int| 0 <= j < i + 1 implies wr_is(s, w, j, #[trigger] r2[r0.len() + j]) by { if j < i { assert(r2[r0.len() + j] == r1[r0.len() + j]); } } assert forall|j: int| 0 <= j < r0.len() implies r0[j] == #[trigger] r2[j] by { assert(r1[j] == r2[j]); } }
/// s are the entries of m
pub open spec fn entries<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool { s.no_duplicates() && of_map(s, m) && forall|k: K| #![trigger m.contains_key(k)] m.contains_key(k) ==> in_rem(s, k) }
pub proof fn lem_wrote_gen<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>, w: spec_fn(K, V, Pair) -> bool, sel: spec_fn(Pair) -> bool, kf: spec_fn(Pair) -> Option<K>, vf: spec_fn(Pair) -> Option<V>, r0: Seq<Pair>, r1: Seq<Pair>)
    requires wrote(s, s.len() as int, w, r0, r1), entries(s, m), forall|k: K, p: Pair| #[trigger] m.contains_key(k) && #[trigger] w(k, m[k], p) ==> sel(p) && kf(p) == Some(k) && vf(p) == Some(m[k]) ensures seg(sel, r0, r1), absent(sel, r0) ==> x_gen(m, sel, kf, vf, r1)
{ reveal(x_gen); reveal(absent); reveal(wrote); reveal(seg); let n = r0.len() as int;
  assert forall|j: int| 0 <= j < s.len() implies m.contains_key(*(#[trigger] s[j]).0) && m[*s[j].0] == *s[j].1 && wr_is(s, w, j, r1[n + j]) && sel(r1[n + j]) && kf(r1[n + j]) == Some(*s[j].0) && vf(r1[n + j]) == Some(*s[j].1) by { let e = s[j]; assert(m.contains_key(*e.0)); assert(wr_is(s, w, j, r1[n + j])); assert(w(*e.0, m[*e.0], r1[n + j])); }
  assert forall|i: int| r0.len() <= i < r1.len() implies sel(#[trigger] r1[i]) by { let e = s[i - n]; assert(r1[n + (i - n)] == r1[i]); }
  if absent(sel, r0) {
    assert forall|j: int| #![trigger r1[j]] 0 <= j < n implies !sel(r1[j]) by { assert(r0[j] == r1[j]); }
    assert forall|j: int| #![trigger r1[j]] 0 <= j < r1.len() && sel(r1[j]) implies kf(r1[j]) is Some && vf(r1[j]) is Some && m.contains_key(kf(r1[j])->0) && m[kf(r1[j])->0] == vf(r1[j])->0 by { let e = s[j - n]; assert(r1[n + (j - n)] == r1[j]); }
    assert forall|k: K| #[trigger] m.contains_key(k) implies exists|j: int| 0 <= j < r1.len() && sel(#[trigger] r1[j]) && kf(r1[j]) == Some(k) by { assert(in_rem(s, k)); let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k; assert(sel(r1[n + i])); }
    assert forall|i: int, j: int| #![trigger r1[i], r1[j]] 0 <= i < j < r1.len() && sel(r1[i]) && sel(r1[j]) implies kf(r1[i]) != kf(r1[j]) by { let e = s[i - n]; let f = s[j - n]; assert(r1[n + (i - n)] == r1[i]); assert(r1[n + (j - n)] == r1[j]); assert(e != f); }
  } }
/// what a loop over a map has written when it ends
pub open spec fn wrote_all<K, V>(m: Map<K, V>, w: spec_fn(K, V, Pair) -> bool, r0: Seq<Pair>, r1: Seq<Pair>) -> bool { exists|s: Seq<(&K, &V)>| #[trigger] wrote(s, s.len() as int, w, r0, r1) && entries(s, m) }
pub broadcast proof fn lem_all_seg<K, V>(m: Map<K, V>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] wrote_all(m, w_map::<K, V>(c), r0, r1) ensures seg(sel_t(c), r0, r1)
{ let s = choose|s: Seq<(&K, &V)>| #[trigger] wrote(s, s.len() as int, w_map::<K, V>(c), r0, r1) && entries(s, m); reveal(wrote); reveal(seg);
  assert forall|i: int| r0.len() <= i < r1.len() implies sel_t(c)(#[trigger] r1[i]) by { assert(wr_is(s, w_map::<K, V>(c), i - r0.len(), r1[r0.len() + (i - r0.len())])); } }
pub broadcast proof fn lem_all_map<K, V>(m: Map<K, V>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] wrote_all(m, w_map::<K, V>(c), r0, r1), absent(sel_t(c), r0), ok_map(m) ensures #[trigger] x_gen(m, sel_t(c), kf_de::<K>(), vf_de::<V>(), r1)
{ let s = choose|s: Seq<(&K, &V)>| #[trigger] wrote(s, s.len() as int, w_map::<K, V>(c), r0, r1) && entries(s, m); lem_wrote_gen(s, m, w_map::<K, V>(c), sel_t(c), kf_de::<K>(), vf_de::<V>(), r0, r1); }
pub broadcast proof fn lem_all_hash<H>(m: Map<H, Vec<u8>>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] wrote_all(m, w_map::<H, Vec<u8>>(c), r0, r1), absent(sel_t(c), r0), ok_hash(m) ensures #[trigger] x_gen(m, sel_t(c), kf_de::<H>(), vf_hash::<H>(), r1)
{ broadcast use ax_ser_bytes, ax_vec_ext; let w = w_map::<H, Vec<u8>>(c); let s = choose|s: Seq<(&H, &Vec<u8>)>| #[trigger] wrote(s, s.len() as int, w, r0, r1) && entries(s, m);
  assert forall|k: H, p: Pair| #[trigger] m.contains_key(k) && #[trigger] w(k, m[k], p) implies sel_t(c)(p) && kf_de::<H>()(p) == Some(k) && vf_hash::<H>()(p) == Some(m[k]) by { assert(p.value@ == m[k]@); }
  lem_wrote_gen(s, m, w, sel_t(c), kf_de::<H>(), vf_hash::<H>(), r0, r1); }
pub broadcast proof fn lem_all_prop_seg(m: Map<ProprietaryKey, Vec<u8>>, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] wrote_all(m, w_prop(), r0, r1) ensures seg(sel_t(0xfc), r0, r1)
{ let s = choose|s: Seq<(&ProprietaryKey, &Vec<u8>)>| #[trigger] wrote(s, s.len() as int, w_prop(), r0, r1) && entries(s, m); reveal(wrote); reveal(seg);
  assert forall|i: int| r0.len() <= i < r1.len() implies sel_t(0xfc)(#[trigger] r1[i]) by { assert(wr_is(s, w_prop(), i - r0.len(), r1[r0.len() + (i - r0.len())])); } }
pub broadcast proof fn lem_all_prop(m: Map<ProprietaryKey, Vec<u8>>, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] wrote_all(m, w_prop(), r0, r1), absent(sel_t(0xfc), r0), ok_prop(m) ensures #[trigger] x_gen(m, sel_t(0xfc), kf_prop(), vf_any(), r1)
{ let s = choose|s: Seq<(&ProprietaryKey, &Vec<u8>)>| #[trigger] wrote(s, s.len() as int, w_prop(), r0, r1) && entries(s, m);
  assert forall|k: ProprietaryKey, p: Pair| #[trigger] m.contains_key(k) && #[trigger] w_prop()(k, m[k], p) implies sel_t(0xfc)(p) && kf_prop()(p) == Some(k) && vf_any()(p) == Some(m[k]) by { lem_pk_round(k); }
  lem_wrote_gen(s, m, w_prop(), sel_t(0xfc), kf_prop(), vf_any(), r0, r1); }
/// the unknown keys are not of the types sel leaves out
pub open spec fn ok_unk(m: Map<Key, Vec<u8>>, sel: spec_fn(Pair) -> bool) -> bool { forall|k: Key| #[trigger] m.contains_key(k) ==> sel(Pair { key: k, value: m[k] }) }
/// whether sel takes a pair is decided by the pair's type
pub open spec fn by_type(sel: spec_fn(Pair) -> bool) -> bool { forall|p: Pair, q: Pair| p.key.type_value == q.key.type_value ==> #[trigger] sel(p) == #[trigger] sel(q) }
pub proof fn lem_all_unk(m: Map<Key, Vec<u8>>, sel: spec_fn(Pair) -> bool, r0: Seq<Pair>, r1: Seq<Pair>) requires wrote_all(m, w_unk(), r0, r1), ok_unk(m, sel) ensures seg(sel, r0, r1), absent(sel, r0) ==> x_gen(m, sel, kf_unk(), vf_any(), r1)
{ let s = choose|s: Seq<(&Key, &Vec<u8>)>| #[trigger] wrote(s, s.len() as int, w_unk(), r0, r1) && entries(s, m);
  assert forall|k: Key, p: Pair| #[trigger] m.contains_key(k) && #[trigger] w_unk()(k, m[k], p) implies sel(p) && kf_unk()(p) == Some(k) && vf_any()(p) == Some(m[k]) by { assert(p == Pair { key: k, value: m[k] }); }
  lem_wrote_gen(s, m, w_unk(), sel, kf_unk(), vf_any(), r0, r1); }
pub broadcast proof fn lem_absent_ut(sel: spec_fn(Pair) -> bool, d: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] seg(sel_t(d), r0, r1), absent(sel, r0), forall|p: Pair| p.key.type_value == d ==> !#[trigger] sel(p) ensures #[trigger] absent(sel, r1) { lem_absent_seg(sel, sel_t(d), r0, r1); }
pub broadcast proof fn lem_gen_tu<K, V>(m: Map<K, V>, c: u8, kf: spec_fn(Pair) -> Option<K>, vf: spec_fn(Pair) -> Option<V>, s: spec_fn(Pair) -> bool, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] seg(s, r0, r1), x_gen(m, sel_t(c), kf, vf, r0), forall|p: Pair| p.key.type_value == c ==> !#[trigger] s(p)
    ensures #[trigger] x_gen(m, sel_t(c), kf, vf, r1) { lem_gen_seg(m, sel_t(c), kf, vf, s, r0, r1); }
pub broadcast proof fn lem_absent_in(d: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] seg(sel_t(d), r0, r1), absent(sel_in_unk(), r0), in_known(d) ensures #[trigger] absent(sel_in_unk(), r1) { lem_absent_seg(sel_in_unk(), sel_t(d), r0, r1); }
pub broadcast proof fn lem_absent_out(d: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] seg(sel_t(d), r0, r1), absent(sel_out_unk(), r0), out_known(d) ensures #[trigger] absent(sel_out_unk(), r1) { lem_absent_seg(sel_out_unk(), sel_t(d), r0, r1); }
impl VxClone for Vec<u8> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { self.clone() } }
pub broadcast proof fn lem_opt_seg<T>(o: Option<T>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] wrote_opt(o, c, r0, r1) ensures seg(sel_t(c), r0, r1)
{ reveal(seg); if o is Some { assert forall|i: int| 0 <= i < r0.len() implies r0[i] == #[trigger] r1[i] by { assert(r1.drop_last()[i] == r1[i]); } } }
pub broadcast proof fn lem_opt_x<T>(o: Option<T>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] wrote_opt(o, c, r0, r1), absent(sel_t(c), r0), ok_opt(o) ensures #[trigger] x_gen(opt_map(o), sel_t(c), kf_opt(), vf_de::<T>(), r1)
{ lem_wrote_opt(o, c, r0, r1); }
pub broadcast proof fn lem_push_drop(s: Seq<Pair>, p: Pair) ensures #[trigger] s.push(p).drop_last() == s { assert(s.push(p).drop_last() =~= s); }
pub broadcast group pairs_lemmas { lem_push_drop, lem_v_seg, lem_v_x, lem_all_seg, lem_all_map, lem_all_hash, lem_opt_seg, lem_opt_x, lem_wrote0, lem_wrote1, lem_absent_tt, lem_gen_tt, lem_absent_in, lem_absent_out, lem_all_prop_seg, lem_all_prop, lem_absent0, lem_absent_push, lem_gen_push_other, lem_opt_push_b }
// ---- silent payments (only with the feature) ----
#[cfg(feature = "silent-payments")] verus!{
use bitcoin::CompressedPublicKey; use crate::v2::dleq::DleqProof;
pub open spec fn in_sp_enc(x: Input) -> bool { true }
pub open spec fn in_sp_field(x: Input, c: u8, ps: Seq<Pair>) -> bool { if c == 0x1d { x_map::<CompressedPublicKey, CompressedPublicKey>(x.sp_ecdh_shares@, 0x1d, ps) } else { x_map::<CompressedPublicKey, DleqProof>(x.sp_dleq_proofs@, 0x1e, ps) } }
pub open spec fn in_sp_wrote(x: Input, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool { if c == 0x1d { wrote_all(x.sp_ecdh_shares@, w_map(c), r0, r1) } else { wrote_all(x.sp_dleq_proofs@, w_map(c), r0, r1) } }
/// the keys, shares and proofs of silent payments always come back
pub broadcast proof fn lem_sp_shares(m: Map<CompressedPublicKey, CompressedPublicKey>) ensures #[trigger] ok_map(m) { broadcast use sp_axioms; }
pub broadcast proof fn lem_sp_proofs(m: Map<CompressedPublicKey, DleqProof>) ensures #[trigger] ok_map(m) { broadcast use sp_axioms; assert forall|k: CompressedPublicKey| #[trigger] m.contains_key(k) implies rt(m[k]) by { let d = m[k]; assert(d.0@.len() == 64); } }
pub broadcast group sp_ok { lem_sp_shares, lem_sp_proofs }
pub open spec fn out_sp_enc(x: Output) -> bool { x.sp_v0_info is Some ==> (x.sp_v0_info->0)@.len() == 66 }
pub open spec fn out_sp_field(x: Output, c: u8, ps: Seq<Pair>) -> bool { if c == 0x09 { x_gen(opt_map(x.sp_v0_info), sel_t(0x09), kf_opt(), vf_len(66), ps) } else { x_gen(opt_map(x.sp_v0_label), sel_t(0x0a), kf_opt(), vf_le4(), ps) } }
pub open spec fn out_sp_wrote(x: Output, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool { if c == 0x09 { wrote_v(x.sp_v0_info, c, vf_len(66), r0, r1) } else { wrote_v(x.sp_v0_label, c, vf_le4(), r0, r1) } }
pub proof fn lem_in_sp_fin(x: Input, r0: Seq<Pair>, r1: Seq<Pair>) requires seg(sel_in_unk(), r0, r1), in_sp_field(x, 0x1d, r0), in_sp_field(x, 0x1e, r0) ensures in_sp_exact(x, r1) { broadcast use lem_gen_tu; }
pub proof fn lem_out_sp_fin(x: Output, r0: Seq<Pair>, r1: Seq<Pair>) requires seg(sel_out_unk(), r0, r1), out_sp_field(x, 0x09, r0), out_sp_field(x, 0x0a, r0) ensures out_sp_exact(x, r1) { broadcast use lem_gen_tu; }
}
#[cfg(not(feature = "silent-payments"))] verus!{
pub broadcast proof fn lem_sp_none(m: Map<u8, u8>) ensures #[trigger] ok_map(m) == ok_map(m) { }
pub broadcast group sp_ok { lem_sp_none }
pub open spec fn in_sp_enc(x: Input) -> bool { true }
pub open spec fn in_sp_field(x: Input, c: u8, ps: Seq<Pair>) -> bool { true }
pub open spec fn in_sp_wrote(x: Input, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool { true }
pub open spec fn out_sp_enc(x: Output) -> bool { true }
pub open spec fn out_sp_field(x: Output, c: u8, ps: Seq<Pair>) -> bool { true }
pub open spec fn out_sp_wrote(x: Output, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool { true }
pub proof fn lem_in_sp_fin(x: Input, r0: Seq<Pair>, r1: Seq<Pair>) ensures in_sp_exact(x, r1) { }
pub proof fn lem_out_sp_fin(x: Output, r0: Seq<Pair>, r1: Seq<Pair>) ensures out_sp_exact(x, r1) { }
}
pub trait VxLe { fn vx_to_le(&self) -> (r: [u8; 4]); }
impl VxLe for u32 { #[verifier::external_body] fn vx_to_le(&self) -> (r: [u8; 4]) ensures le4(r@) == *self { self.to_le_bytes() } }
/// an optional field was written so that vf reads it back
pub open spec fn wrote_v<T>(o: Option<T>, c: u8, vf: spec_fn(Pair) -> Option<T>, r0: Seq<Pair>, r1: Seq<Pair>) -> bool {
    match o { None => r1 == r0, Some(x) => r1.len() > 0 && r1.drop_last() == r0 && r1.last().key.type_value == c && r1.last().key.key@.len() == 0 && vf(r1.last()) == Some(x) } }
pub broadcast proof fn lem_v_seg<T>(o: Option<T>, c: u8, vf: spec_fn(Pair) -> Option<T>, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] wrote_v(o, c, vf, r0, r1) ensures seg(sel_t(c), r0, r1)
{ reveal(seg); if o is Some { assert forall|i: int| 0 <= i < r0.len() implies r0[i] == #[trigger] r1[i] by { assert(r1.drop_last()[i] == r1[i]); } } }
pub broadcast proof fn lem_v_x<T>(o: Option<T>, c: u8, vf: spec_fn(Pair) -> Option<T>, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] wrote_v(o, c, vf, r0, r1), absent(sel_t(c), r0) ensures #[trigger] x_gen(opt_map(o), sel_t(c), kf_opt(), vf, r1)
{ lem_gen_absent(sel_t(c), kf_opt(), vf, r0); if o is Some { let p = r1.last(); assert(r1 =~= r0.push(p)); lem_gen_push(Map::<(), T>::empty(), opt_map(o), sel_t(c), kf_opt(), vf, r0, p); } }
// ---- generated: one clause for each field ----
/// every field of the map can be written and read back
#[verifier::opaque]
pub open spec fn in_enc(x: Input) -> bool {
    ok_opt(Some(x.previous_txid))
    && ok_opt(Some(x.spent_output_index))
    && ok_opt(x.sequence)
    && ok_opt(x.min_time)
    && ok_opt(x.min_height)
    && ok_opt(x.non_witness_utxo)
    && ok_opt(x.witness_utxo)
    && ok_map(x.partial_sigs@)
    && ok_opt(x.sighash_type)
    && ok_opt(x.redeem_script)
    && ok_opt(x.witness_script)
    && ok_map(x.bip32_derivations@)
    && ok_opt(x.final_script_sig)
    && ok_opt(x.final_script_witness)
    && ok_hash(x.ripemd160_preimages@)
    && ok_hash(x.sha256_preimages@)
    && ok_hash(x.hash160_preimages@)
    && ok_hash(x.hash256_preimages@)
    && ok_opt(x.tap_key_sig)
    && ok_map(x.tap_script_sigs@)
    && ok_map(x.tap_scripts@)
    && ok_map(x.tap_key_origins@)
    && ok_opt(x.tap_internal_key)
    && ok_opt(x.tap_merkle_root)
    && ok_prop(x.proprietaries@)
    && ok_unk(x.unknowns@, sel_in_unk())
    && in_sp_enc(x)
}
/// the field of this type is exactly what the pairs say
pub open spec fn in_field(x: Input, c: u8, ps: Seq<Pair>) -> bool {
    match c {
        0x0e => x_opt::<Txid>(Some(x.previous_txid), 0x0e, ps),
        0x0f => x_opt::<u32>(Some(x.spent_output_index), 0x0f, ps),
        0x10 => x_opt::<Sequence>(x.sequence, 0x10, ps),
        0x11 => x_opt::<absolute::Time>(x.min_time, 0x11, ps),
        0x12 => x_opt::<absolute::Height>(x.min_height, 0x12, ps),
        0x00 => x_opt::<Transaction>(x.non_witness_utxo, 0x00, ps),
        0x01 => x_opt::<TxOut>(x.witness_utxo, 0x01, ps),
        0x02 => x_map::<PublicKey, ecdsa::Signature>(x.partial_sigs@, 0x02, ps),
        0x03 => x_opt::<PsbtSighashType>(x.sighash_type, 0x03, ps),
        0x04 => x_opt::<ScriptBuf>(x.redeem_script, 0x04, ps),
        0x05 => x_opt::<ScriptBuf>(x.witness_script, 0x05, ps),
        0x06 => x_map::<secp256k1::PublicKey, KeySource>(x.bip32_derivations@, 0x06, ps),
        0x07 => x_opt::<ScriptBuf>(x.final_script_sig, 0x07, ps),
        0x08 => x_opt::<Witness>(x.final_script_witness, 0x08, ps),
        0x0a => x_hash::<ripemd160::Hash>(x.ripemd160_preimages@, 0x0a, ps),
        0x0b => x_hash::<sha256::Hash>(x.sha256_preimages@, 0x0b, ps),
        0x0c => x_hash::<hash160::Hash>(x.hash160_preimages@, 0x0c, ps),
        0x0d => x_hash::<sha256d::Hash>(x.hash256_preimages@, 0x0d, ps),
        0x13 => x_opt::<taproot::Signature>(x.tap_key_sig, 0x13, ps),
        0x14 => x_map::<(XOnlyPublicKey, TapLeafHash), taproot::Signature>(x.tap_script_sigs@, 0x14, ps),
        0x15 => x_map::<ControlBlock, (ScriptBuf, LeafVersion)>(x.tap_scripts@, 0x15, ps),
        0x16 => x_map::<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>(x.tap_key_origins@, 0x16, ps),
        0x17 => x_opt::<XOnlyPublicKey>(x.tap_internal_key, 0x17, ps),
        0x18 => x_opt::<TapNodeHash>(x.tap_merkle_root, 0x18, ps),
        0xfc => x_prop(x.proprietaries@, 0xfc, ps),
        c => in_sp_t(c) ==> in_sp_field(x, c, ps),
    }
}
/// the field of this type was written after r0
#[verifier::opaque]
pub open spec fn in_wrote(x: Input, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool {
    match c {
        0x0e => wrote_opt(Some(x.previous_txid), c, r0, r1),
        0x0f => wrote_opt(Some(x.spent_output_index), c, r0, r1),
        0x10 => wrote_opt(x.sequence, c, r0, r1),
        0x11 => wrote_opt(x.min_time, c, r0, r1),
        0x12 => wrote_opt(x.min_height, c, r0, r1),
        0x00 => wrote_opt(x.non_witness_utxo, c, r0, r1),
        0x01 => wrote_opt(x.witness_utxo, c, r0, r1),
        0x02 => wrote_all(x.partial_sigs@, w_map(c), r0, r1),
        0x03 => wrote_opt(x.sighash_type, c, r0, r1),
        0x04 => wrote_opt(x.redeem_script, c, r0, r1),
        0x05 => wrote_opt(x.witness_script, c, r0, r1),
        0x06 => wrote_all(x.bip32_derivations@, w_map(c), r0, r1),
        0x07 => wrote_opt(x.final_script_sig, c, r0, r1),
        0x08 => wrote_opt(x.final_script_witness, c, r0, r1),
        0x0a => wrote_all(x.ripemd160_preimages@, w_map(c), r0, r1),
        0x0b => wrote_all(x.sha256_preimages@, w_map(c), r0, r1),
        0x0c => wrote_all(x.hash160_preimages@, w_map(c), r0, r1),
        0x0d => wrote_all(x.hash256_preimages@, w_map(c), r0, r1),
        0x13 => wrote_opt(x.tap_key_sig, c, r0, r1),
        0x14 => wrote_all(x.tap_script_sigs@, w_map(c), r0, r1),
        0x15 => wrote_all(x.tap_scripts@, w_map(c), r0, r1),
        0x16 => wrote_all(x.tap_key_origins@, w_map(c), r0, r1),
        0x17 => wrote_opt(x.tap_internal_key, c, r0, r1),
        0x18 => wrote_opt(x.tap_merkle_root, c, r0, r1),
        0xfc => wrote_all(x.proprietaries@, w_prop(), r0, r1),
        c => in_sp_t(c) && in_sp_wrote(x, c, r0, r1),
    }
}
impl VxMap for Input { open spec fn wf(self, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool { in_wrote(self, c, r0, r1) } open spec fn pf(self, s: Set<u8>, ps: Seq<Pair>) -> bool { in_enc(self) ==> in_prog(self, s, ps) } open spec fn known(self, c: u8) -> bool { in_known(c) }
  proof fn step(self, s: Set<u8>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) { if in_enc(self) { lem_in_p1(self, s, c, r0, r1); } } }
/// the fields in s were written, the others not yet
#[verifier::opaque]
pub open spec fn in_prog(x: Input, s: Set<u8>, ps: Seq<Pair>) -> bool { absent(sel_in_unk(), ps) && forall|c: u8| #[trigger] in_known(c) ==> if s.contains(c) { in_field(x, c, ps) } else { absent(sel_t(c), ps) } }
pub broadcast proof fn lem_in_p0(x: Input, ps: Seq<Pair>) requires ps.len() == 0 ensures #[trigger] in_prog(x, Set::empty(), ps) { broadcast use lem_absent0; reveal(in_prog); }
pub proof fn lem_in_fseg(x: Input, c: u8, d: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires seg(sel_t(d), r0, r1), c != d, in_field(x, c, r0) ensures in_field(x, c, r1) { broadcast use lem_gen_tt; }
pub proof fn lem_in_fw(x: Input, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires in_wrote(x, c, r0, r1), absent(sel_t(c), r0), in_enc(x) ensures seg(sel_t(c), r0, r1), in_field(x, c, r1)
{ broadcast use pairs_lemmas, sp_ok; reveal(in_wrote); reveal(in_enc); }
pub broadcast proof fn lem_in_p1(x: Input, s: Set<u8>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] in_prog(x, s, r0), #[trigger] in_wrote(x, c, r0, r1), in_known(c), !s.contains(c), in_enc(x) ensures in_prog(x, s.insert(c), r1)
{ reveal(in_prog); lem_in_fw(x, c, r0, r1); lem_absent_seg(sel_in_unk(), sel_t(c), r0, r1);
  assert forall|d: u8| #[trigger] in_known(d) implies if s.insert(c).contains(d) { in_field(x, d, r1) } else { absent(sel_t(d), r1) } by { if d != c { if s.contains(d) { lem_in_fseg(x, d, c, r0, r1); } else { lem_absent_seg(sel_t(d), sel_t(c), r0, r1); } } } }
/// the mandatory fields
pub broadcast proof fn lem_in_pm(x: Input, s: Set<u8>, r0: Seq<Pair>, p: Pair) requires #[trigger] in_prog(x, s, r0), p.key.key@.len() == 0, !s.contains(p.key.type_value), in_enc(x),
    p.key.type_value == 0xe && p.value@ == ser_of(&x.previous_txid) || p.key.type_value == 0xf && p.value@ == ser_of(&x.spent_output_index) ensures in_prog(x, s.insert(p.key.type_value), #[trigger] r0.push(p))
{ broadcast use lem_push_drop; reveal(in_wrote); assert(in_wrote(x, p.key.type_value, r0, r0.push(p))); lem_in_p1(x, s, p.key.type_value, r0, r0.push(p)); }
pub open spec fn in_all() -> Set<u8> { Set::<u8>::empty().insert(0x0e).insert(0x0f).insert(0x10).insert(0x11).insert(0x12).insert(0x00).insert(0x01).insert(0x02).insert(0x03).insert(0x04).insert(0x05).insert(0x06).insert(0x07).insert(0x08).insert(0x0a).insert(0x0b).insert(0x0c).insert(0x0d).insert(0x13).insert(0x14).insert(0x15).insert(0x16).insert(0x17).insert(0x18).insert(0xfc) }
pub broadcast proof fn lem_in_fin(x: Input, s: Set<u8>, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] in_prog(x, s, r0), #[trigger] wrote_all(x.unknowns@, w_unk(), r0, r1), in_enc(x), s.contains(0x0e) && s.contains(0x0f) && s.contains(0x10) && s.contains(0x11) && s.contains(0x12) && s.contains(0x00) && s.contains(0x01) && s.contains(0x02) && s.contains(0x03) && s.contains(0x04) && s.contains(0x05) && s.contains(0x06) && s.contains(0x07) && s.contains(0x08) && s.contains(0x0a) && s.contains(0x0b) && s.contains(0x0c) && s.contains(0x0d) && s.contains(0x13) && s.contains(0x14) && s.contains(0x15) && s.contains(0x16) && s.contains(0x17) && s.contains(0x18) && s.contains(0xfc), sp_on() ==> s.contains(0x1d) && s.contains(0x1e) ensures in_exact(x, true, true, r1)
{ broadcast use lem_gen_tu; reveal(in_prog); reveal(in_enc); lem_all_unk(x.unknowns@, sel_in_unk(), r0, r1); assert forall|c: u8| in_known(c) implies #[trigger] in_field(x, c, r0) by { assert(s.contains(c)); }
  if sp_on() { assert(in_field(x, 0x1d, r0)); assert(in_field(x, 0x1e, r0)); }
  lem_in_sp_fin(x, r0, r1);
  assert(in_field(x, 0x0e, r0)); assert(in_field(x, 0x0f, r0)); assert(in_field(x, 0x10, r0)); assert(in_field(x, 0x11, r0)); assert(in_field(x, 0x12, r0)); assert(in_field(x, 0x00, r0)); assert(in_field(x, 0x01, r0)); assert(in_field(x, 0x02, r0)); assert(in_field(x, 0x03, r0)); assert(in_field(x, 0x04, r0)); assert(in_field(x, 0x05, r0)); assert(in_field(x, 0x06, r0)); assert(in_field(x, 0x07, r0)); assert(in_field(x, 0x08, r0)); assert(in_field(x, 0x0a, r0)); assert(in_field(x, 0x0b, r0)); assert(in_field(x, 0x0c, r0)); assert(in_field(x, 0x0d, r0)); assert(in_field(x, 0x13, r0)); assert(in_field(x, 0x14, r0)); assert(in_field(x, 0x15, r0)); assert(in_field(x, 0x16, r0)); assert(in_field(x, 0x17, r0)); assert(in_field(x, 0x18, r0)); assert(in_field(x, 0xfc, r0)); }
pub broadcast group in_pairs { lem_wrote0, lem_wrote1, lem_push_drop, lem_in_p0, lem_in_pm }
/// every field of the map can be written and read back
#[verifier::opaque]
pub open spec fn out_enc(x: Output) -> bool {
    ok_opt(Some(x.amount))
    && ok_opt(Some(x.script_pubkey))
    && ok_opt(x.redeem_script)
    && ok_opt(x.witness_script)
    && ok_map(x.bip32_derivations@)
    && ok_opt(x.tap_internal_key)
    && ok_opt(x.tap_tree)
    && ok_map(x.tap_key_origins@)
    && ok_prop(x.proprietaries@)
    && ok_unk(x.unknowns@, sel_out_unk())
    && out_sp_enc(x)
}
/// the field of this type is exactly what the pairs say
pub open spec fn out_field(x: Output, c: u8, ps: Seq<Pair>) -> bool {
    match c {
        0x03 => x_opt::<Amount>(Some(x.amount), 0x03, ps),
        0x04 => x_opt::<ScriptBuf>(Some(x.script_pubkey), 0x04, ps),
        0x00 => x_opt::<ScriptBuf>(x.redeem_script, 0x00, ps),
        0x01 => x_opt::<ScriptBuf>(x.witness_script, 0x01, ps),
        0x02 => x_map::<secp256k1::PublicKey, KeySource>(x.bip32_derivations@, 0x02, ps),
        0x05 => x_opt::<XOnlyPublicKey>(x.tap_internal_key, 0x05, ps),
        0x06 => x_opt::<TapTree>(x.tap_tree, 0x06, ps),
        0x07 => x_map::<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>(x.tap_key_origins@, 0x07, ps),
        0xfc => x_prop(x.proprietaries@, 0xfc, ps),
        c => out_sp_t(c) ==> out_sp_field(x, c, ps),
    }
}
/// the field of this type was written after r0
#[verifier::opaque]
pub open spec fn out_wrote(x: Output, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool {
    match c {
        0x03 => wrote_opt(Some(x.amount), c, r0, r1),
        0x04 => wrote_opt(Some(x.script_pubkey), c, r0, r1),
        0x00 => wrote_opt(x.redeem_script, c, r0, r1),
        0x01 => wrote_opt(x.witness_script, c, r0, r1),
        0x02 => wrote_all(x.bip32_derivations@, w_map(c), r0, r1),
        0x05 => wrote_opt(x.tap_internal_key, c, r0, r1),
        0x06 => wrote_opt(x.tap_tree, c, r0, r1),
        0x07 => wrote_all(x.tap_key_origins@, w_map(c), r0, r1),
        0xfc => wrote_all(x.proprietaries@, w_prop(), r0, r1),
        c => out_sp_t(c) && out_sp_wrote(x, c, r0, r1),
    }
}
impl VxMap for Output { open spec fn wf(self, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool { out_wrote(self, c, r0, r1) } open spec fn pf(self, s: Set<u8>, ps: Seq<Pair>) -> bool { out_enc(self) ==> out_prog(self, s, ps) } open spec fn known(self, c: u8) -> bool { out_known(c) }
  proof fn step(self, s: Set<u8>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) { if out_enc(self) { lem_out_p1(self, s, c, r0, r1); } } }
/// the fields in s were written, the others not yet
#[verifier::opaque]
pub open spec fn out_prog(x: Output, s: Set<u8>, ps: Seq<Pair>) -> bool { absent(sel_out_unk(), ps) && forall|c: u8| #[trigger] out_known(c) ==> if s.contains(c) { out_field(x, c, ps) } else { absent(sel_t(c), ps) } }
pub broadcast proof fn lem_out_p0(x: Output, ps: Seq<Pair>) requires ps.len() == 0 ensures #[trigger] out_prog(x, Set::empty(), ps) { broadcast use lem_absent0; reveal(out_prog); }
pub proof fn lem_out_fseg(x: Output, c: u8, d: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires seg(sel_t(d), r0, r1), c != d, out_field(x, c, r0) ensures out_field(x, c, r1) { broadcast use lem_gen_tt; }
pub proof fn lem_out_fw(x: Output, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires out_wrote(x, c, r0, r1), absent(sel_t(c), r0), out_enc(x) ensures seg(sel_t(c), r0, r1), out_field(x, c, r1)
{ broadcast use pairs_lemmas; reveal(out_wrote); reveal(out_enc); }
pub broadcast proof fn lem_out_p1(x: Output, s: Set<u8>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] out_prog(x, s, r0), #[trigger] out_wrote(x, c, r0, r1), out_known(c), !s.contains(c), out_enc(x) ensures out_prog(x, s.insert(c), r1)
{ reveal(out_prog); lem_out_fw(x, c, r0, r1); lem_absent_seg(sel_out_unk(), sel_t(c), r0, r1);
  assert forall|d: u8| #[trigger] out_known(d) implies if s.insert(c).contains(d) { out_field(x, d, r1) } else { absent(sel_t(d), r1) } by { if d != c { if s.contains(d) { lem_out_fseg(x, d, c, r0, r1); } else { lem_absent_seg(sel_t(d), sel_t(c), r0, r1); } } } }
/// the mandatory fields
pub broadcast proof fn lem_out_pm(x: Output, s: Set<u8>, r0: Seq<Pair>, p: Pair) requires #[trigger] out_prog(x, s, r0), p.key.key@.len() == 0, !s.contains(p.key.type_value), out_enc(x),
    p.key.type_value == 0x3 && p.value@ == ser_of(&x.amount) || p.key.type_value == 0x4 && p.value@ == ser_of(&x.script_pubkey) ensures out_prog(x, s.insert(p.key.type_value), #[trigger] r0.push(p))
{ broadcast use lem_push_drop; reveal(out_wrote); assert(out_wrote(x, p.key.type_value, r0, r0.push(p))); lem_out_p1(x, s, p.key.type_value, r0, r0.push(p)); }
pub open spec fn out_all() -> Set<u8> { Set::<u8>::empty().insert(0x03).insert(0x04).insert(0x00).insert(0x01).insert(0x02).insert(0x05).insert(0x06).insert(0x07).insert(0xfc) }
pub broadcast proof fn lem_out_fin(x: Output, s: Set<u8>, r0: Seq<Pair>, r1: Seq<Pair>) requires #[trigger] out_prog(x, s, r0), #[trigger] wrote_all(x.unknowns@, w_unk(), r0, r1), out_enc(x), s.contains(0x03) && s.contains(0x04) && s.contains(0x00) && s.contains(0x01) && s.contains(0x02) && s.contains(0x05) && s.contains(0x06) && s.contains(0x07) && s.contains(0xfc), sp_on() ==> s.contains(0x09) && s.contains(0x0a) ensures out_exact(x, true, true, r1)
{ broadcast use lem_gen_tu; reveal(out_prog); reveal(out_enc); lem_all_unk(x.unknowns@, sel_out_unk(), r0, r1); assert forall|c: u8| out_known(c) implies #[trigger] out_field(x, c, r0) by { assert(s.contains(c)); }
  if sp_on() { assert(out_field(x, 0x09, r0)); assert(out_field(x, 0x0a, r0)); }
  lem_out_sp_fin(x, r0, r1);
  assert(out_field(x, 0x03, r0)); assert(out_field(x, 0x04, r0)); assert(out_field(x, 0x00, r0)); assert(out_field(x, 0x01, r0)); assert(out_field(x, 0x02, r0)); assert(out_field(x, 0x05, r0)); assert(out_field(x, 0x06, r0)); assert(out_field(x, 0x07, r0)); assert(out_field(x, 0xfc, r0)); }
pub broadcast group out_pairs { lem_wrote0, lem_wrote1, lem_push_drop, lem_out_p0, lem_out_pm }
#[cfg(feature = "silent-payments")] verus!{
/// after the address
pub open spec fn out_sp_mid(x: Output, a: Seq<Pair>, r: Seq<Pair>) -> Seq<Pair> { r.take(a.len() + if x.sp_v0_info is Some { 1int } else { 0int }) }
pub open spec fn out_sp_two(x: Output, a: Seq<Pair>, r: Seq<Pair>) -> bool {
    let n = a.len() as int; let i = if x.sp_v0_info is Some { 1int } else { 0int }; let l = if x.sp_v0_label is Some { 1int } else { 0int };
    r.len() == n + i + l && r.take(n) == a && (i == 1 ==> r[n].key.type_value == 0x09 && r[n].key.key@.len() == 0 && r[n].value == x.sp_v0_info->0)
    && (l == 1 ==> r[n + i].key.type_value == 0x0a && r[n + i].key.key@.len() == 0 && r[n + i].value@.len() == 4 && le4(r[n + i].value@) == x.sp_v0_label->0) }
pub proof fn lem_out_sp_mid(x: Output, a: Seq<Pair>, r: Seq<Pair>) requires out_enc(x), out_sp_two(x, a, r) ensures out_wrote(x, 0x09, a, out_sp_mid(x, a, r)), out_wrote(x, 0x0a, out_sp_mid(x, a, r), r)
{ reveal(out_enc); reveal(out_wrote); let n = a.len() as int; let m = out_sp_mid(x, a, r); if x.sp_v0_info is Some { assert(m.drop_last() =~= r.take(n)); assert(m.last() == r[n]); } else { assert(m == a); } if x.sp_v0_label is Some { assert(r.drop_last() =~= m); } else { assert(m =~= r); } }
}
#[cfg(not(feature = "silent-payments"))] verus!{
pub open spec fn out_sp_mid(x: Output, a: Seq<Pair>, r: Seq<Pair>) -> Seq<Pair> { a }
pub proof fn lem_out_sp_mid(x: Output, a: Seq<Pair>, r: Seq<Pair>) { }
}
pub trait VxMap: Sized { spec fn wf(self, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) -> bool; spec fn pf(self, s: Set<u8>, ps: Seq<Pair>) -> bool; spec fn known(self, c: u8) -> bool;
  proof fn step(self, s: Set<u8>, c: u8, r0: Seq<Pair>, r1: Seq<Pair>) requires self.wf(c, r0, r1), self.pf(s, r0), self.known(c), !s.contains(c) ensures self.pf(s.insert(c), r1); }
pub open spec fn in_sp_set(s: Set<u8>) -> Set<u8> { if sp_on() { s.insert(0x1d).insert(0x1e) } else { s } }
pub proof fn lem_in_sp_steps(x: Input, s: Set<u8>, ra: Seq<Pair>, rb: Seq<Pair>, rc: Seq<Pair>)
    requires x.pf(s, ra), !s.contains(0x1d), !s.contains(0x1e), if sp_on() { in_sp_wrote(x, 0x1d, ra, rb) && in_sp_wrote(x, 0x1e, rb, rc) } else { ra == rc } ensures x.pf(in_sp_set(s), rc)
{ if sp_on() { assert(x.wf(0x1d, ra, rb)) by { reveal(in_wrote); } x.step(s, 0x1d, ra, rb); assert(x.wf(0x1e, rb, rc)) by { reveal(in_wrote); } x.step(s.insert(0x1d), 0x1e, rb, rc); } }
}
@macro src/macros.rs v2_impl_psbt_get_pair
@replace type_value: $unkeyed_typeval ==> type_value: vx_t
@replace type_value: $keyed_typeval ==> type_value: vx_t
@replace if let Some(ref $unkeyed_name) ==> let vx_t: u8 = $unkeyed_typeval; proof_decl!{ let ghost vx_r0 = $rv@; } if let Some(ref $unkeyed_name)
@replace Serialize::serialize($unkeyed_name), }); } ==> Serialize::serialize($unkeyed_name), }); } proof!{ assert($slf.wf(vx_t, vx_r0, $rv@)) by { reveal(in_wrote); reveal(out_wrote); } $slf.step(vx_s, vx_t, vx_r0, $rv@); vx_s = vx_s.insert(vx_t); vx_l = $rv@; }
@replace for (key, val) in ==> let vx_t: u8 = $keyed_typeval; proof_decl!{ let ghost vx_r0 = $rv@; } #[verus_spec(it => invariant it.iter.obeys_prophetic_iter_laws(), entries(it.seq(), $slf.$keyed_name@), wrote(it.seq(), it.index(), w_map(vx_t), vx_r0, $rv@))] for (key, val) in
@replace Serialize::serialize(val), }); } ==> Serialize::serialize(val), }); } proof!{ assert($slf.wf(vx_t, vx_r0, $rv@)) by { reveal(in_wrote); reveal(out_wrote); } $slf.step(vx_s, vx_t, vx_r0, $rv@); vx_s = vx_s.insert(vx_t); vx_l = $rv@; }
@fn src/v2/map/input.rs Map for Input::get_pairs
@props C09 C10 C12 C23
@attr #[verifier::rlimit(120)]
@inline src/macros.rs v2_impl_psbt_get_pair
@loop 1
it => invariant it.iter.obeys_prophetic_iter_laws(), entries(it.seq(), self.sp_ecdh_shares@), wrote(it.seq(), it.index(), w_map(0x1d), vx_ra, rv@)
@loop 2
it => invariant it.iter.obeys_prophetic_iter_laws(), entries(it.seq(), self.sp_dleq_proofs@), wrote(it.seq(), it.index(), w_map(0x1e), vx_rb, rv@)
@loop 3
it => invariant it.iter.obeys_prophetic_iter_laws(), entries(it.seq(), self.proprietaries@), wrote(it.seq(), it.index(), w_prop(), vx_r1, rv@)
@loop 4
it => invariant it.iter.obeys_prophetic_iter_laws(), entries(it.seq(), self.unknowns@), wrote(it.seq(), it.index(), w_unk(), vx_r2, rv@)
@spec
r => ensures in_enc(*self) ==> in_exact(*self, true, true, r@)
@entry
broadcast use in_pairs, def_says; assert(in_prog(*self, Set::empty(), Seq::empty()));
@decl
let ghost mut vx_l = Seq::<crate::raw::Pair>::empty(); let ghost mut vx_s = Set::<u8>::empty().insert(0x0e).insert(0x0f);
@rewrite .clone() ==> .vx_clone()
@rewrite self.proprietaries.iter() ==> &self.proprietaries
@rewrite self.unknowns.iter() ==> &self.unknowns
@atloop 1
let ghost vx_ra = rv@;
@atloop 2
let ghost vx_rb = rv@;
@atloop 3
let ghost vx_r1 = rv@; lem_in_sp_steps(*self, vx_s, vx_ra, vx_rb, vx_r1); vx_s = in_sp_set(vx_s);
@atloop 4
let ghost vx_r2 = rv@; assert(self.wf(0xfc, vx_r1, vx_r2)) by { reveal(in_wrote); } self.step(vx_s, 0xfc, vx_r1, vx_r2); vx_s = vx_s.insert(0xfc);
@tail
assert(wrote_all(self.unknowns@, w_unk(), vx_r2, rv@)); if in_enc(*self) { lem_in_fin(*self, vx_s, vx_r2, rv@); }
@fn src/v2/map/output.rs Map for Output::get_pairs
@props C09 C10 C12 C23
@attr #[verifier::rlimit(120)]
@inline src/macros.rs v2_impl_psbt_get_pair
@loop 1
it => invariant it.iter.obeys_prophetic_iter_laws(), entries(it.seq(), self.proprietaries@), wrote(it.seq(), it.index(), w_prop(), vx_r1, rv@)
@loop 2
it => invariant it.iter.obeys_prophetic_iter_laws(), entries(it.seq(), self.unknowns@), wrote(it.seq(), it.index(), w_unk(), vx_r2, rv@)
@spec
r => ensures out_enc(*self) ==> out_exact(*self, true, true, r@)
@entry
broadcast use out_pairs, def_says; assert(out_prog(*self, Set::empty(), Seq::empty()));
@decl
let ghost mut vx_l = Seq::<crate::raw::Pair>::empty(); let ghost mut vx_s = Set::<u8>::empty().insert(0x03).insert(0x04);
@rewrite .to_le_bytes() ==> .vx_to_le()
@rewrite .clone() ==> .vx_clone()
@rewrite self.proprietaries.iter() ==> &self.proprietaries
@rewrite self.unknowns.iter() ==> &self.unknowns
@atloop 1
let ghost vx_r1 = rv@; if out_enc(*self) && sp_on() { assert(vx_r1.take(vx_l.len() as int) =~= vx_l); let m = out_sp_mid(*self, vx_l, vx_r1); lem_out_sp_mid(*self, vx_l, vx_r1); self.step(vx_s, 0x09, vx_l, m); vx_s = vx_s.insert(0x09); self.step(vx_s, 0x0a, m, vx_r1); vx_s = vx_s.insert(0x0a); }
@atloop 2
let ghost vx_r2 = rv@; assert(self.wf(0xfc, vx_r1, vx_r2)) by { reveal(out_wrote); } self.step(vx_s, 0xfc, vx_r1, vx_r2); vx_s = vx_s.insert(0xfc);
@tail
assert(wrote_all(self.unknowns@, w_unk(), vx_r2, rv@)); if out_enc(*self) { lem_out_fin(*self, vx_s, vx_r2, rv@); }
