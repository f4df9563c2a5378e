@onlyprops C09 C10 C12 C23
@fileprops C09 C10 C23
@mod decode_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use crate::raw::{Key, Pair};
use crate::serialize;
use crate::v2::{Input, Output};
use bitcoin::Amount;
verus!{
#[verifier::external_type_specification] pub struct ExIDE(crate::v2::input::DecodeError);
#[verifier::external_type_specification] pub struct ExODE(crate::v2::output::DecodeError);
pub assume_specification [Amount::ZERO] -> (r: Amount) ensures sat(r) == 0;
/// the pairs of a map, one after the other
pub open spec fn enc_all(ps: Seq<Pair>) -> Seq<u8> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { enc_all(ps.drop_last()) + pair_enc(ps.last()) } }
/// a map ends with a zero byte
pub open spec fn map_enc(ps: Seq<Pair>) -> Seq<u8> { enc_all(ps) + seq![0u8] }
pub open spec fn keys_small(ps: Seq<Pair>) -> bool { forall|i: int| 0 <= i < ps.len() ==> key_small((#[trigger] ps[i]).key) }
pub open spec fn all_small(ps: Seq<Pair>) -> bool { forall|i: int| 0 <= i < ps.len() ==> pair_small(#[trigger] ps[i]) }
pub proof fn lem_enc_push(ps: Seq<Pair>, p: Pair) ensures enc_all(ps.push(p)) == enc_all(ps) + pair_enc(p) { assert(ps.push(p).drop_last() =~= ps); }
pub proof fn lem_enc_app(a: Seq<Pair>, b: Seq<Pair>) ensures enc_all(a + b) == enc_all(a) + enc_all(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(enc_all(a) + enc_all(b) =~= enc_all(a)); } else { lem_enc_app(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(enc_all(a + b) =~= enc_all(a) + enc_all(b)); } }
pub proof fn lem_enc_at(ps: Seq<Pair>, k: int) requires 0 <= k < ps.len() ensures enc_all(ps) == enc_all(ps.take(k)) + (pair_enc(ps[k]) + enc_all(ps.skip(k + 1)))
{ let t = ps.take(k + 1); assert(t.drop_last() =~= ps.take(k)); assert(ps =~= t + ps.skip(k + 1)); lem_enc_app(t, ps.skip(k + 1)); assert(enc_all(t) == enc_all(ps.take(k)) + pair_enc(ps[k])); assert(enc_all(ps) =~= enc_all(ps.take(k)) + (pair_enc(ps[k]) + enc_all(ps.skip(k + 1)))); }
/// what follows the first k pairs
pub open spec fn from(ps: Seq<Pair>, k: int, t: Seq<u8>) -> Seq<u8> { if k < ps.len() { pair_enc(ps[k]) + (enc_all(ps.skip(k + 1)) + t) } else { t } }
pub proof fn lem_from(ps: Seq<Pair>, k: int, t: Seq<u8>) requires 0 <= k <= ps.len() ensures enc_all(ps) + t == enc_all(ps.take(k)) + from(ps, k, t)
{ if k < ps.len() { lem_enc_at(ps, k); assert(enc_all(ps) + t =~= enc_all(ps.take(k)) + from(ps, k, t)); } else { assert(ps.take(k) =~= ps); } }
pub proof fn lem_bytes_uniq(v: Seq<u8>, w: Seq<u8>, s: Seq<u8>, t: Seq<u8>) requires bytes_enc(v) + s == bytes_enc(w) + t, v.len() <= u64::MAX, w.len() <= u64::MAX ensures v == w
{ let b = bytes_enc(v) + s; assert(b =~= cs(v.len() as int) + (v + s)); assert(b =~= cs(w.len() as int) + (w + t)); let l = v.len() as u64; let m = w.len() as u64; assert(cs(l as int) =~= b.take(cs(l as int).len() as int)); assert(cs(m as int) =~= b.take(cs(m as int).len() as int)); assert(cs(l as int).is_prefix_of(b)); assert(cs(m as int).is_prefix_of(b)); ax_cs_uniq(b, l, m);
  let n = cs(l as int).len() as int; assert(v =~= b.subrange(n, n + l)); assert(w =~= b.subrange(n, n + l)); }
pub proof fn lem_pair_uniq(p: Pair, q: Pair, s: Seq<u8>, t: Seq<u8>) requires pair_enc(p) + s == pair_enc(q) + t, key_small(p.key), key_small(q.key) ensures p == q, s == t
{ let b = pair_enc(p) + s; let u = bytes_enc(p.value@) + s; let w = bytes_enc(q.value@) + t; assert(b =~= key_enc(p.key) + u); assert(b =~= key_enc(q.key) + w);
  assert(key_enc(p.key) =~= b.take(key_enc(p.key).len() as int)); assert(key_enc(q.key) =~= b.take(key_enc(q.key).len() as int)); assert(key_enc(p.key).is_prefix_of(b)); assert(key_enc(q.key).is_prefix_of(b)); lem_key_uniq(b, p.key, q.key);
  assert(u =~= b.skip(key_enc(p.key).len() as int)); assert(w =~= b.skip(key_enc(p.key).len() as int));
  vstd::std_specs::vec::axiom_spec_len(&p.value); vstd::std_specs::vec::axiom_spec_len(&q.value); lem_bytes_uniq(p.value@, q.value@, s, t); ax_vec_ext(p.value, q.value);
  assert(s =~= b.skip(pair_enc(p).len() as int)); assert(t =~= b.skip(pair_enc(q).len() as int)); }
pub proof fn lem_pair_not_end(p: Pair, s: Seq<u8>) requires key_small(p.key) ensures !map_end(pair_enc(p) + s) { assert(pair_enc(p) + s =~= key_enc(p.key) + (bytes_enc(p.value@) + s)); lem_key_not_end(p.key, bytes_enc(p.value@) + s); }
/// two readings of the same bytes agree as far as they go
pub proof fn lem_align(ps: Seq<Pair>, qs: Seq<Pair>, s: Seq<u8>, t: Seq<u8>, k: int)
    requires enc_all(ps) + s == enc_all(qs) + (seq![0u8] + t), keys_small(ps), keys_small(qs), 0 <= k <= ps.len()
    ensures k <= qs.len(), ps.take(k) == qs.take(k), from(ps, k, s) == from(qs, k, seq![0u8] + t) decreases k
{ let z = seq![0u8] + t;
  if k == 0 { assert(ps.take(0) =~= qs.take(0)); }
  else { lem_align(ps, qs, s, t, k - 1); let i = k - 1;
    if i >= qs.len() { lem_pair_not_end(ps[i], enc_all(ps.skip(i + 1)) + s); assert(map_end(z)); assert(false); }
    lem_pair_uniq(ps[i], qs[i], enc_all(ps.skip(k)) + s, enc_all(qs.skip(k)) + z);
    assert(ps.take(k) =~= ps.take(i).push(ps[i])); assert(qs.take(k) =~= qs.take(i).push(qs[i])); }
  lem_from(ps, k, s); lem_from(qs, k, z); let e = enc_all(ps.take(k)); assert(from(ps, k, s) =~= (e + from(ps, k, s)).skip(e.len() as int)); assert(from(qs, k, z) =~= (e + from(qs, k, z)).skip(e.len() as int)); }

// ---- input maps ----
/// the pairs read so far and what is left
pub open spec fn in_part(b: Seq<u8>, x: Input, h: bool, i: bool, rest: Seq<u8>) -> bool { exists|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + rest && in_exact(x, h, i, ps) }
/// b is a map that stands for y, and after is what follows it
pub open spec fn in_map(b: Seq<u8>, y: Input, after: Seq<u8>) -> bool { exists|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + (seq![0u8] + after) && in_exact(y, true, true, ps) && in_sp_fin(y) }
/// b does not start with a map (of pairs small enough) that stands for anything
pub open spec fn in_none(b: Seq<u8>) -> bool { forall|qs: Seq<Pair>, y: Input, t: Seq<u8>| #![trigger in_exact(y, true, true, qs), seq![0u8] + t] all_small(qs) && in_exact(y, true, true, qs) && in_sp_fin(y) ==> b != enc_all(qs) + (seq![0u8] + t) }
pub broadcast proof fn lem_in_start(x: Input, b: Seq<u8>) requires in_exact(x, false, false, Seq::<Pair>::empty()) ensures #[trigger] in_part(b, x, false, false, b) { let ps = Seq::<Pair>::empty(); assert(b =~= enc_all(ps) + b); }
pub broadcast proof fn lem_in_step(b: Seq<u8>, x: Input, h: bool, i: bool, p: Pair, y: Input, rest: Seq<u8>)
    requires #[trigger] in_part(b, x, h, i, pair_enc(p) + rest), key_small(p.key), in_ok(x, h, i, p), #[trigger] in_ins(x, p, y) ensures in_part(b, y, h || p.key.type_value == 0x0e, i || p.key.type_value == 0x0f, rest)
{ let ps = choose|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + (pair_enc(p) + rest) && in_exact(x, h, i, ps); lem_in_push(x, h, i, y, ps, p); lem_enc_push(ps, p); let qs = ps.push(p); assert(b =~= enc_all(qs) + rest);
  assert forall|k: int| 0 <= k < qs.len() implies key_small((#[trigger] qs[k]).key) by { if k < ps.len() { assert(qs[k] == ps[k]); } } }
pub broadcast proof fn lem_in_end(b: Seq<u8>, x: Input, rest: Seq<u8>) requires #[trigger] in_part(b, x, true, true, rest), map_end(rest), in_sp_fin(x) ensures in_map(b, x, #[trigger] rest.skip(1))
{ let ps = choose|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + rest && in_exact(x, true, true, ps); assert(rest =~= seq![0u8] + rest.skip(1)); }
/// the map goes wrong: the next pair cannot be read or cannot be taken, or it ends too early
pub proof fn lem_in_bad(b: Seq<u8>, x: Input, h: bool, i: bool, rest: Seq<u8>)
    requires in_part(b, x, h, i, rest), (map_end(rest) ==> !(h && i && in_sp_fin(x))), forall|p: Pair| pair_small(p) && (#[trigger] pair_enc(p)).is_prefix_of(rest) ==> !in_ok(x, h, i, p) ensures in_none(b)
{ let ps = choose|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + rest && in_exact(x, h, i, ps);
  assert forall|qs: Seq<Pair>, y: Input, t: Seq<u8>| #![trigger in_exact(y, true, true, qs), seq![0u8] + t] all_small(qs) && in_exact(y, true, true, qs) && in_sp_fin(y) implies b != enc_all(qs) + (seq![0u8] + t) by {
    if b == enc_all(qs) + (seq![0u8] + t) {
      let k = ps.len() as int; let z = seq![0u8] + t; assert(keys_small(qs)); lem_align(ps, qs, rest, t, k); assert(ps.take(k) =~= ps); assert(from(ps, k, rest) == rest); 
      if k < qs.len() { lem_in_can(x, h, i, y, qs, k); assert(pair_enc(qs[k]) =~= rest.take(pair_enc(qs[k]).len() as int)); assert(pair_enc(qs[k]).is_prefix_of(rest)); }
      else { assert(map_end(rest)); assert(qs.take(k) =~= qs); lem_in_flags(x, h, i, y, qs); lem_in_sp_eq(x, y, qs); }
    } } }
pub broadcast proof fn lem_in_bad_pair(b: Seq<u8>, x: Input, h: bool, i: bool, p: Pair, rest: Seq<u8>)
    requires #[trigger] in_part(b, x, h, i, pair_enc(p) + rest), key_small(p.key), !in_ok(x, h, i, p) ensures in_none(b)
{ let r = pair_enc(p) + rest; lem_pair_not_end(p, rest); assert forall|q: Pair| pair_small(q) && (#[trigger] pair_enc(q)).is_prefix_of(r) implies !in_ok(x, h, i, q) by { assert(pair_enc(q) =~= r.take(pair_enc(q).len() as int)); assert(r =~= pair_enc(q) + r.skip(pair_enc(q).len() as int)); lem_pair_uniq(p, q, rest, r.skip(pair_enc(q).len() as int)); } lem_in_bad(b, x, h, i, r); }
pub broadcast proof fn lem_in_bad_read(b: Seq<u8>, x: Input, h: bool, i: bool, rest: Seq<u8>)
    requires #[trigger] in_part(b, x, h, i, rest), !map_end(rest), forall|p: Pair| pair_small(p) ==> !(#[trigger] pair_enc(p)).is_prefix_of(rest) ensures in_none(b)
{ lem_in_bad(b, x, h, i, rest); }
pub broadcast proof fn lem_in_bad_end(b: Seq<u8>, x: Input, h: bool, i: bool, rest: Seq<u8>) requires #[trigger] in_part(b, x, h, i, rest), map_end(rest), !(h && i && in_sp_fin(x)) ensures in_none(b)
{ assert forall|p: Pair| pair_small(p) && (#[trigger] pair_enc(p)).is_prefix_of(rest) implies false by { assert(pair_enc(p) =~= rest.take(pair_enc(p).len() as int)); assert(rest =~= pair_enc(p) + rest.skip(pair_enc(p).len() as int)); lem_pair_not_end(p, rest.skip(pair_enc(p).len() as int)); } lem_in_bad(b, x, h, i, rest); }
/// whether the mandatory fields were there is determined by the pairs
pub proof fn lem_in_flags(x: Input, h: bool, i: bool, y: Input, qs: Seq<Pair>) requires in_exact(x, h, i, qs), in_exact(y, true, true, qs) ensures h && i
{ reveal(x_gen); if !h { assert(x_opt(Some(y.previous_txid), 0x0e, qs)); assert(opt_map(Some(y.previous_txid)).contains_key(())); } if !i { assert(opt_map(Some(y.spent_output_index)).contains_key(())); } }
/// the end of the map was read
pub open spec fn in_done(b: Seq<u8>, x: Input, h: bool, i: bool, after: Seq<u8>) -> bool { exists|r: Seq<u8>| #![trigger r.skip(1)] in_part(b, x, h, i, r) && map_end(r) && after == r.skip(1) }
pub broadcast proof fn lem_in_done(b: Seq<u8>, x: Input, h: bool, i: bool, r: Seq<u8>) requires #[trigger] in_part(b, x, h, i, r), map_end(r) ensures in_done(b, x, h, i, #[trigger] r.skip(1)) { }
pub broadcast proof fn lem_in_done2(b: Seq<u8>, x: Input, h: bool, i: bool, after: Seq<u8>) requires #[trigger] in_done(b, x, h, i, after) ensures h && i && in_sp_fin(x) ==> in_map(b, x, after), !(h && i && in_sp_fin(x)) ==> in_none(b)
{ let r = choose|r: Seq<u8>| #![trigger r.skip(1)] in_part(b, x, h, i, r) && map_end(r) && after == r.skip(1); if h && i && in_sp_fin(x) { lem_in_end(b, x, r); } else { lem_in_bad_end(b, x, h, i, r); } }
pub broadcast group in_lemmas { lem_in_step, lem_in_done, lem_in_done2, lem_in_bad_pair, lem_in_bad_read, lem_in_start }

// ---- output maps ----
/// the pairs read so far and what is left
pub open spec fn out_part(b: Seq<u8>, x: Output, h: bool, i: bool, rest: Seq<u8>) -> bool { exists|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + rest && out_exact(x, h, i, ps) }
/// what is needed at the end: the amount, the script (with silent payments an address may stand in for it) and an address for every label
pub open spec fn out_fin(x: Output, h: bool, i: bool) -> bool { h && (i || sp_on()) && out_sp_fin(x) }
/// b is a map that stands for y, and after is what follows it
pub open spec fn out_map(b: Seq<u8>, y: Output, after: Seq<u8>) -> bool { exists|ps: Seq<Pair>, j: bool| #![trigger enc_all(ps), out_fin(y, true, j)] keys_small(ps) && b == enc_all(ps) + (seq![0u8] + after) && out_exact(y, true, j, ps) && out_fin(y, true, j) }
/// b does not start with a map (of pairs small enough) that stands for anything
pub open spec fn out_none(b: Seq<u8>) -> bool { forall|qs: Seq<Pair>, y: Output, j: bool, t: Seq<u8>| #![trigger out_exact(y, true, j, qs), seq![0u8] + t] all_small(qs) && out_exact(y, true, j, qs) && out_fin(y, true, j) ==> b != enc_all(qs) + (seq![0u8] + t) }
pub broadcast proof fn lem_out_start(x: Output, b: Seq<u8>) requires out_exact(x, false, false, Seq::<Pair>::empty()) ensures #[trigger] out_part(b, x, false, false, b) { let ps = Seq::<Pair>::empty(); assert(b =~= enc_all(ps) + b); }
pub broadcast proof fn lem_out_step(b: Seq<u8>, x: Output, h: bool, i: bool, p: Pair, y: Output, rest: Seq<u8>)
    requires #[trigger] out_part(b, x, h, i, pair_enc(p) + rest), key_small(p.key), out_ok(x, h, i, p), #[trigger] out_ins(x, p, y) ensures out_part(b, y, h || p.key.type_value == 0x03, i || p.key.type_value == 0x04, rest)
{ let ps = choose|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + (pair_enc(p) + rest) && out_exact(x, h, i, ps); lem_out_push(x, h, i, y, ps, p); lem_enc_push(ps, p); let qs = ps.push(p); assert(b =~= enc_all(qs) + rest);
  assert forall|k: int| 0 <= k < qs.len() implies key_small((#[trigger] qs[k]).key) by { if k < ps.len() { assert(qs[k] == ps[k]); } } }
pub broadcast proof fn lem_out_end(b: Seq<u8>, x: Output, i: bool, rest: Seq<u8>) requires #[trigger] out_part(b, x, true, i, rest), map_end(rest), out_fin(x, true, i) ensures out_map(b, x, #[trigger] rest.skip(1))
{ let ps = choose|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + rest && out_exact(x, true, i, ps); assert(rest =~= seq![0u8] + rest.skip(1)); }
/// the map goes wrong: the next pair cannot be read or cannot be taken, or it ends too early
pub proof fn lem_out_bad(b: Seq<u8>, x: Output, h: bool, i: bool, rest: Seq<u8>)
    requires out_part(b, x, h, i, rest), (map_end(rest) ==> !out_fin(x, h, i)), forall|p: Pair| pair_small(p) && (#[trigger] pair_enc(p)).is_prefix_of(rest) ==> !out_ok(x, h, i, p) ensures out_none(b)
{ let ps = choose|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + rest && out_exact(x, h, i, ps);
  assert forall|qs: Seq<Pair>, y: Output, j: bool, t: Seq<u8>| #![trigger out_exact(y, true, j, qs), seq![0u8] + t] all_small(qs) && out_exact(y, true, j, qs) && out_fin(y, true, j) implies b != enc_all(qs) + (seq![0u8] + t) by {
    if b == enc_all(qs) + (seq![0u8] + t) {
      let k = ps.len() as int; let z = seq![0u8] + t; assert(keys_small(qs)); lem_align(ps, qs, rest, t, k); assert(ps.take(k) =~= ps); assert(from(ps, k, rest) == rest); 
      if k < qs.len() { lem_out_can(x, h, i, y, j, qs, k); assert(pair_enc(qs[k]) =~= rest.take(pair_enc(qs[k]).len() as int)); assert(pair_enc(qs[k]).is_prefix_of(rest)); }
      else { assert(map_end(rest)); assert(qs.take(k) =~= qs); lem_out_flags(x, h, i, y, j, qs); lem_out_sp_eq(x, y, qs); }
    } } }
pub broadcast proof fn lem_out_bad_pair(b: Seq<u8>, x: Output, h: bool, i: bool, p: Pair, rest: Seq<u8>)
    requires #[trigger] out_part(b, x, h, i, pair_enc(p) + rest), key_small(p.key), !out_ok(x, h, i, p) ensures out_none(b)
{ let r = pair_enc(p) + rest; lem_pair_not_end(p, rest); assert forall|q: Pair| pair_small(q) && (#[trigger] pair_enc(q)).is_prefix_of(r) implies !out_ok(x, h, i, q) by { assert(pair_enc(q) =~= r.take(pair_enc(q).len() as int)); assert(r =~= pair_enc(q) + r.skip(pair_enc(q).len() as int)); lem_pair_uniq(p, q, rest, r.skip(pair_enc(q).len() as int)); } lem_out_bad(b, x, h, i, r); }
pub broadcast proof fn lem_out_bad_read(b: Seq<u8>, x: Output, h: bool, i: bool, rest: Seq<u8>)
    requires #[trigger] out_part(b, x, h, i, rest), !map_end(rest), forall|p: Pair| pair_small(p) ==> !(#[trigger] pair_enc(p)).is_prefix_of(rest) ensures out_none(b)
{ lem_out_bad(b, x, h, i, rest); }
pub broadcast proof fn lem_out_bad_end(b: Seq<u8>, x: Output, h: bool, i: bool, rest: Seq<u8>) requires #[trigger] out_part(b, x, h, i, rest), map_end(rest), !out_fin(x, h, i) ensures out_none(b)
{ assert forall|p: Pair| pair_small(p) && (#[trigger] pair_enc(p)).is_prefix_of(rest) implies false by { assert(pair_enc(p) =~= rest.take(pair_enc(p).len() as int)); assert(rest =~= pair_enc(p) + rest.skip(pair_enc(p).len() as int)); lem_pair_not_end(p, rest.skip(pair_enc(p).len() as int)); } lem_out_bad(b, x, h, i, rest); }
/// whether the mandatory fields were there is determined by the pairs
pub proof fn lem_out_flags(x: Output, h: bool, i: bool, y: Output, j: bool, qs: Seq<Pair>) requires out_exact(x, h, i, qs), out_exact(y, true, j, qs) ensures h, i == j
{ reveal(x_gen); if !h { assert(x_opt(Some(y.amount), 0x03, qs)); assert(opt_map(Some(y.amount)).contains_key(())); } if i != j { if j { assert(opt_map(Some(y.script_pubkey)).contains_key(())); } else { assert(opt_map(Some(x.script_pubkey)).contains_key(())); } } }
/// the end of the map was read
pub open spec fn out_done(b: Seq<u8>, x: Output, h: bool, i: bool, after: Seq<u8>) -> bool { exists|r: Seq<u8>| #![trigger r.skip(1)] out_part(b, x, h, i, r) && map_end(r) && after == r.skip(1) }
pub broadcast proof fn lem_out_done(b: Seq<u8>, x: Output, h: bool, i: bool, r: Seq<u8>) requires #[trigger] out_part(b, x, h, i, r), map_end(r) ensures out_done(b, x, h, i, #[trigger] r.skip(1)) { }
pub broadcast proof fn lem_out_done2(b: Seq<u8>, x: Output, h: bool, i: bool, after: Seq<u8>) requires #[trigger] out_done(b, x, h, i, after) ensures out_fin(x, h, i) ==> out_map(b, x, after), !out_fin(x, h, i) ==> out_none(b)
{ let r = choose|r: Seq<u8>| #![trigger r.skip(1)] out_part(b, x, h, i, r) && map_end(r) && after == r.skip(1); if out_fin(x, h, i) { lem_out_end(b, x, i, r); } else { lem_out_bad_end(b, x, h, i, r); } }
pub broadcast group out_lemmas { lem_out_step, lem_out_done, lem_out_done2, lem_out_bad_pair, lem_out_bad_read, lem_out_start }
}
@append src/v2/map/input.rs
impl vstd::std_specs::convert::FromSpecImpl<InsertPairError> for DecodeError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: InsertPairError) -> Self { DecodeError::InsertPair(e) } }
@fn src/v2/map/input.rs From<InsertPairError> for DecodeError::from
@fn src/v2/map/input.rs Input::new
@props C09 C10 C12 C23
@spec
r => ensures in_exact(r, false, false, Seq::<crate::raw::Pair>::empty())
@entry
broadcast use lem_gen_empty_b;
@fn src/v2/map/input.rs Input::decode
@props C09 C10 C12 C23
@spec
o => ensures o is Ok ==> in_map(rem(&*old(r)), o->Ok_0, rem(&*final(r))), o is Err ==> in_none(rem(&*old(r)))
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry
broadcast use in_lemmas;
@loop 1
invariant_except_break in_part(rem(&*old(r)), rv, have_txid, have_index, rem(&*r)) ensures in_done(rem(&*old(r)), rv, have_txid, have_index, rem(&*r)) decreases rem(&*r).len()
@append src/v2/map/output.rs
impl vstd::std_specs::convert::FromSpecImpl<InsertPairError> for DecodeError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: InsertPairError) -> Self { DecodeError::InsertPair(e) } }
@fn src/v2/map/output.rs From<InsertPairError> for DecodeError::from
@fn src/v2/map/output.rs Output::new
@props C09 C10 C12 C23
@spec
r => ensures utxo.script_pubkey == empty_script() ==> out_exact(r, false, false, Seq::<crate::raw::Pair>::empty())
@entry
broadcast use lem_gen_empty_b;
@fn src/v2/map/output.rs Output::decode
@props C09 C10 C12 C23
@spec
o => ensures o is Ok ==> out_map(rem(&*old(r)), o->Ok_0, rem(&*final(r))), o is Err ==> out_none(rem(&*old(r)))
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry
broadcast use out_lemmas;
@loop 1
invariant_except_break out_part(rem(&*old(r)), rv, have_amount, have_script_pubkey, rem(&*r)) ensures out_done(rem(&*old(r)), rv, have_amount, have_script_pubkey, rem(&*r)) decreases rem(&*r).len()
