@onlyprops C09 C10 C12 C23
@fileprops C09 C10 C23
@mod psbt_spec
@broadcast ser_map
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{absolute, ecdsa, taproot, transaction, Amount, ScriptBuf, Sequence, Transaction, TxOut, Txid, Witness, PublicKey, XOnlyPublicKey, TapLeafHash, TapNodeHash, secp256k1};
use bitcoin::hashes::{self, hash160, sha256, sha256d, ripemd160};
use bitcoin::taproot::{ControlBlock, LeafVersion, TapTree};
use bitcoin::bip32::{KeySource, Fingerprint, DerivationPath};
use crate::sighash_type::PsbtSighashType;
use crate::raw::{Key, Pair, ProprietaryKey};
use crate::v2::{Input, Output};
use crate::serialize;
use crate::v2::{Global, Psbt};
#[cfg(feature = "silent-payments")] use bitcoin::CompressedPublicKey;
#[cfg(feature = "silent-payments")] use crate::v2::dleq::DleqProof;
use super::*;
verus!{
#[verifier::external_type_specification] pub struct ExDeserializeError(crate::v2::DeserializeError);
// ---- what a map is written as ----
/// the pairs stand for the map. The three definitions below are all there is to it: it only gives the trait one name for them
pub uninterp spec fn map_says<M: ?Sized>(m: &M, ps: Seq<Pair>) -> bool;
pub broadcast axiom fn def_says_in(m: &Input, ps: Seq<Pair>) ensures #[trigger] map_says::<Input>(m, ps) == (in_enc(*m) ==> in_exact(*m, true, true, ps));
pub broadcast axiom fn def_says_out(m: &Output, ps: Seq<Pair>) ensures #[trigger] map_says::<Output>(m, ps) == (out_enc(*m) ==> out_exact(*m, true, true, ps));
pub broadcast axiom fn def_says_gl(m: &Global, ps: Seq<Pair>) ensures #[trigger] map_says::<Global>(m, ps) == (gl_enc(*m) ==> gl_exact(gl_from(*m), ps));
pub broadcast group def_says { def_says_in, def_says_out, def_says_gl }
pub open spec fn map_bytes<M: ?Sized>(m: &M, b: Seq<u8>) -> bool { exists|ps: Seq<Pair>| #[trigger] map_says(m, ps) && b == map_enc(ps) }
/// maps one after the other
pub open spec fn flat(ms: Seq<Seq<Pair>>) -> Seq<u8> decreases ms.len() { if ms.len() == 0 { Seq::empty() } else { flat(ms.drop_last()) + map_enc(ms.last()) } }
pub proof fn lem_flat_push(ms: Seq<Seq<Pair>>, p: Seq<Pair>) ensures flat(ms.push(p)) == flat(ms) + map_enc(p) { assert(ms.push(p).drop_last() =~= ms); }
pub proof fn lem_flat_app(a: Seq<Seq<Pair>>, b: Seq<Seq<Pair>>) ensures flat(a + b) == flat(a) + flat(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(flat(a) + flat(b) =~= flat(a)); } else { lem_flat_app(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(flat(a + b) =~= flat(a) + flat(b)); } }
/// what is left of the bytes of the maps from the k-th on
pub open spec fn flat_from(ms: Seq<Seq<Pair>>, k: int, t: Seq<u8>) -> Seq<u8> { flat(ms.skip(k)) + t }
pub proof fn lem_flat_at(ms: Seq<Seq<Pair>>, k: int, t: Seq<u8>) requires 0 <= k < ms.len() ensures flat_from(ms, k, t) == enc_all(ms[k]) + (seq![0u8] + flat_from(ms, k + 1, t))
{ assert(ms.skip(k) =~= seq![ms[k]] + ms.skip(k + 1)); lem_flat_app(seq![ms[k]], ms.skip(k + 1)); lem_flat_push(Seq::empty(), ms[k]); assert(seq![ms[k]] =~= Seq::empty().push(ms[k])); assert(flat(Seq::<Seq<Pair>>::empty()) =~= Seq::empty()); assert(flat(seq![ms[k]]) =~= map_enc(ms[k])); assert(flat_from(ms, k, t) =~= enc_all(ms[k]) + (seq![0u8] + flat_from(ms, k + 1, t))); }
pub proof fn lem_flat_end(ms: Seq<Seq<Pair>>, t: Seq<u8>) ensures flat_from(ms, ms.len() as int, t) == t, flat_from(ms, 0, t) == flat(ms) + t
{ assert(ms.skip(ms.len() as int) =~= Seq::empty()); assert(flat(Seq::<Seq<Pair>>::empty()) =~= Seq::empty()); assert(flat_from(ms, ms.len() as int, t) =~= t); assert(ms.skip(0) =~= ms); }
pub open spec fn all_say<M>(ms: Seq<M>, n: int, ps: Seq<Seq<Pair>>) -> bool { ps.len() == n && n <= ms.len() && forall|i: int| 0 <= i < n ==> map_says(&#[trigger] ms[i], ps[i]) }
/// the first n maps were written after pre
#[verifier::opaque]
pub open spec fn maps_after<M>(pre: Seq<u8>, ms: Seq<M>, n: int, buf: Seq<u8>) -> bool { exists|ps: Seq<Seq<Pair>>| #[trigger] all_say(ms, n, ps) && buf == pre + flat(ps) }
pub broadcast proof fn lem_maps0<M>(pre: Seq<u8>, ms: Seq<M>) ensures #[trigger] maps_after(pre, ms, 0, pre) { reveal(maps_after); let ps = Seq::<Seq<Pair>>::empty(); assert(all_say(ms, 0, ps)); assert(pre + flat(ps) =~= pre); }
pub broadcast proof fn lem_maps1<M>(pre: Seq<u8>, ms: Seq<M>, n: int, buf: Seq<u8>, c: Seq<u8>) requires maps_after(pre, ms, n, buf), 0 <= n < ms.len(), map_bytes(&ms[n], c) ensures #![trigger maps_after(pre, ms, n, buf), buf + c] maps_after(pre, ms, n + 1, buf + c)
{ reveal(maps_after); let ps = choose|ps: Seq<Seq<Pair>>| #[trigger] all_say(ms, n, ps) && buf == pre + flat(ps); let q = choose|q: Seq<Pair>| #[trigger] map_says(&ms[n], q) && c == map_enc(q); let qs = ps.push(q); lem_flat_push(ps, q);
  assert forall|i: int| 0 <= i < n + 1 implies map_says(&#[trigger] ms[i], qs[i]) by { if i < n { assert(qs[i] == ps[i]); } } assert(all_say(ms, n + 1, qs)); assert(buf + c =~= pre + flat(qs)); }
pub open spec fn head() -> Seq<u8> { seq![0x70u8, 0x73u8, 0x62u8, 0x74u8, 0xffu8] }
/// b is what the psbt is written as
pub open spec fn psbt_bytes(p: Psbt, b: Seq<u8>) -> bool { exists|g: Seq<Pair>, i: Seq<Seq<Pair>>, o: Seq<Seq<Pair>>| #![trigger map_enc(g), flat(i), flat(o)] map_says(&p.global, g) && all_say(p.inputs@, p.inputs.len() as int, i) && all_say(p.outputs@, p.outputs.len() as int, o) && b == head() + (map_enc(g) + (flat(i) + flat(o))) }
/// the head and the global map are in the buffer
pub open spec fn wrote_head(p: Psbt, b: Seq<u8>) -> bool { exists|a: Seq<u8>| #[trigger] map_bytes(&p.global, a) && b =~= head() + a }
pub broadcast proof fn lem_psbt_bytes(p: Psbt, h: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires wrote_head(p, h), #[trigger] maps_after(h, p.inputs@, p.inputs.len() as int, b), #[trigger] maps_after(b, p.outputs@, p.outputs.len() as int, c) ensures psbt_bytes(p, c)
{ reveal(maps_after); let a = choose|a: Seq<u8>| #[trigger] map_bytes(&p.global, a) && h =~= head() + a; let g = choose|g: Seq<Pair>| #[trigger] map_says(&p.global, g) && a == map_enc(g); let i = choose|i: Seq<Seq<Pair>>| #[trigger] all_say(p.inputs@, p.inputs.len() as int, i) && b == (head() + a) + flat(i); let o = choose|o: Seq<Seq<Pair>>| #[trigger] all_say(p.outputs@, p.outputs.len() as int, o) && c == b + flat(o); assert(c =~= head() + (map_enc(g) + (flat(i) + flat(o)))); }
pub broadcast proof fn lem_enc_next(ps: Seq<Pair>, n: int) requires 0 <= n < ps.len() ensures #![trigger enc_all(ps.take(n)), ps[n]] enc_all(ps.take(n)) + pair_enc(ps[n]) == enc_all(ps.take(n + 1)) { assert(ps.take(n + 1) =~= ps.take(n).push(ps[n])); lem_enc_push(ps.take(n), ps[n]); }
pub broadcast proof fn lem_enc_end(ps: Seq<Pair>) ensures #![trigger enc_all(ps.take(ps.len() as int))] enc_all(ps.take(ps.len() as int)) == enc_all(ps) { assert(ps.take(ps.len() as int) =~= ps); }
pub broadcast proof fn lem_enc_end0(ps: Seq<Pair>) ensures #![trigger ps.take(0)] enc_all(ps.take(0)) == Seq::<u8>::empty() { assert(ps.take(0) =~= Seq::empty()); }
pub broadcast proof fn lem_map_push(ps: Seq<Pair>) ensures #[trigger] enc_all(ps).push(0u8) == map_enc(ps) { assert(enc_all(ps).push(0u8) =~= map_enc(ps)); }
pub broadcast group ser_map { lem_enc_next, lem_enc_end, lem_enc_end0, lem_map_push, ax_ser_pair }
pub broadcast proof fn lem_skip_app(a: Seq<u8>, c: Seq<u8>, n: int) requires n == a.len() ensures #[trigger] (a + c).skip(n) == c { assert((a + c).skip(n) =~= c); }
pub broadcast group ser_psbt { lem_skip_app, lem_maps0, lem_maps1, lem_psbt_bytes }
#[verifier::external_body] pub fn vx_magic() -> (r: &'static [u8]) ensures r@ == seq![0x70u8, 0x73u8, 0x62u8, 0x74u8], r@.len() == 4, r@[0] == 0x70, r@[1] == 0x73, r@[2] == 0x62, r@[3] == 0x74 { b"psbt" }

// ---- what bytes are read as ----
/// a map is determined by the bytes it starts
pub proof fn lem_map_uniq(ps: Seq<Pair>, qs: Seq<Pair>, s: Seq<u8>, t: Seq<u8>) requires enc_all(ps) + (seq![0u8] + s) == enc_all(qs) + (seq![0u8] + t), keys_small(ps), keys_small(qs) ensures ps == qs, s == t
{ let y = seq![0u8] + s; let z = seq![0u8] + t; let n = ps.len() as int; lem_align(ps, qs, y, t, n); assert(from(ps, n, y) == y);
  if n < qs.len() { lem_pair_not_end(qs[n], enc_all(qs.skip(n + 1)) + z); assert(map_end(y)); assert(false); }
  assert(ps.take(n) =~= ps); assert(qs.take(n) =~= qs); assert(y.skip(1) =~= s); assert(z.skip(1) =~= t); }
pub open spec fn in_maps(b: Seq<u8>, s: Seq<Input>, rest: Seq<u8>) -> bool decreases s.len() { if s.len() == 0 { b == rest } else { exists|mid: Seq<u8>| in_maps(b, s.drop_last(), mid) && #[trigger] in_map(mid, s.last(), rest) } }
pub open spec fn out_maps(b: Seq<u8>, s: Seq<Output>, rest: Seq<u8>) -> bool decreases s.len() { if s.len() == 0 { b == rest } else { exists|mid: Seq<u8>| out_maps(b, s.drop_last(), mid) && #[trigger] out_map(mid, s.last(), rest) } }
/// a psbt that can be read, as its maps and their pairs
pub ghost struct Ps { pub g: Gl, pub gp: Seq<Pair>, pub x: Seq<Input>, pub ip: Seq<Seq<Pair>>, pub y: Seq<Output>, pub j: Seq<bool>, pub op: Seq<Seq<Pair>>, pub t: Seq<u8> }
pub open spec fn ps_in(p: Ps, i: int) -> bool { all_small(p.ip[i]) && in_exact(p.x[i], true, true, p.ip[i]) && in_sp_fin(p.x[i]) }
pub open spec fn ps_out(p: Ps, i: int) -> bool { all_small(p.op[i]) && out_exact(p.y[i], true, p.j[i], p.op[i]) && out_fin(p.y[i], true, p.j[i]) }
pub open spec fn ps_ok(p: Ps) -> bool { all_small(p.gp) && gl_exact(p.g, p.gp) && gl_fin(p.g) && p.x.len() == p.ip.len() == p.g.ic->0 && p.y.len() == p.j.len() == p.op.len() == p.g.oc->0
    && (forall|i: int| 0 <= i < p.ip.len() ==> #[trigger] ps_in(p, i)) && (forall|i: int| 0 <= i < p.op.len() ==> #[trigger] ps_out(p, i)) }
pub open spec fn ps_tail(p: Ps) -> Seq<u8> { flat(p.op) + p.t }
pub open spec fn ps_bytes(p: Ps) -> Seq<u8> { head() + (enc_all(p.gp) + (seq![0u8] + (flat(p.ip) + ps_tail(p)))) }
/// b does not start with a psbt (of pairs small enough) that stands for anything
pub open spec fn psbt_none(b: Seq<u8>) -> bool { forall|p: Ps| #[trigger] ps_ok(p) ==> b != ps_bytes(p) }
pub proof fn lem_small(ps: Seq<Pair>) requires all_small(ps) ensures keys_small(ps) { assert forall|i: int| 0 <= i < ps.len() implies key_small((#[trigger] ps[i]).key) by { assert(pair_small(ps[i])); } }
pub proof fn lem_head(p: Ps, b: Seq<u8>) requires b == ps_bytes(p) ensures b.len() >= 5, b.skip(5) == enc_all(p.gp) + (seq![0u8] + (flat(p.ip) + ps_tail(p))), b[0] == 0x70, b[1] == 0x73, b[2] == 0x62, b[3] == 0x74, b[4] == 0xff { assert(b.skip(5) =~= enc_all(p.gp) + (seq![0u8] + (flat(p.ip) + ps_tail(p)))); }
pub proof fn lem_ps_g(p: Ps, b: Seq<u8>, g: Global, r: Seq<u8>) requires ps_ok(p), b == ps_bytes(p), gl_map(b.skip(5), g, r) ensures gl_res(p.g, g), r == flat(p.ip) + ps_tail(p), g.input_count == p.ip.len(), g.output_count == p.op.len()
{ lem_head(p, b); let (ps, x) = choose|ps: Seq<Pair>, x: Gl| #![trigger enc_all(ps), gl_res(x, g)] keys_small(ps) && b.skip(5) == enc_all(ps) + (seq![0u8] + r) && gl_exact(x, ps) && gl_fin(x) && gl_res(x, g); lem_small(p.gp); lem_map_uniq(p.gp, ps, flat(p.ip) + ps_tail(p), r); lem_gl_eq(x, p.g, ps); }
pub proof fn lem_ps_in(p: Ps, s: Seq<Input>, mid: Seq<u8>) requires ps_ok(p), in_maps(flat(p.ip) + ps_tail(p), s, mid), s.len() <= p.ip.len() ensures mid == flat_from(p.ip, s.len() as int, ps_tail(p)), forall|i: int| 0 <= i < s.len() ==> in_same(p.x[i], #[trigger] s[i]) decreases s.len()
{ let b = flat(p.ip) + ps_tail(p); if s.len() == 0 { lem_flat_end(p.ip, ps_tail(p)); } else { let m = choose|m: Seq<u8>| in_maps(b, s.drop_last(), m) && #[trigger] in_map(m, s.last(), mid); lem_ps_in(p, s.drop_last(), m); let k = s.len() - 1; lem_flat_at(p.ip, k, ps_tail(p)); assert(ps_in(p, k)); lem_small(p.ip[k]);
    let ps = choose|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && m == enc_all(ps) + (seq![0u8] + mid) && in_exact(s.last(), true, true, ps) && in_sp_fin(s.last()); lem_map_uniq(p.ip[k], ps, flat_from(p.ip, k + 1, ps_tail(p)), mid); lem_in_same(p.x[k], s.last(), ps);
    assert forall|i: int| 0 <= i < s.len() implies in_same(p.x[i], #[trigger] s[i]) by { if i < k { assert(s.drop_last()[i] == s[i]); } } } }
pub proof fn lem_ps_out(p: Ps, s: Seq<Output>, mid: Seq<u8>) requires ps_ok(p), out_maps(ps_tail(p), s, mid), s.len() <= p.op.len() ensures mid == flat_from(p.op, s.len() as int, p.t), forall|i: int| 0 <= i < s.len() ==> out_same(p.y[i], #[trigger] s[i]) decreases s.len()
{ let b = ps_tail(p); if s.len() == 0 { lem_flat_end(p.op, p.t); } else { let m = choose|m: Seq<u8>| out_maps(b, s.drop_last(), m) && #[trigger] out_map(m, s.last(), mid); lem_ps_out(p, s.drop_last(), m); let k = s.len() - 1; lem_flat_at(p.op, k, p.t); assert(ps_out(p, k)); lem_small(p.op[k]);
    let (ps, j) = choose|ps: Seq<Pair>, j: bool| #![trigger enc_all(ps), out_fin(s.last(), true, j)] keys_small(ps) && m == enc_all(ps) + (seq![0u8] + mid) && out_exact(s.last(), true, j, ps) && out_fin(s.last(), true, j); lem_map_uniq(p.op[k], ps, flat_from(p.op, k + 1, p.t), mid); lem_out_flags(s.last(), true, j, p.y[k], p.j[k], ps); lem_out_same(p.y[k], s.last(), j, ps);
    assert forall|i: int| 0 <= i < s.len() implies out_same(p.y[i], #[trigger] s[i]) by { if i < k { assert(s.drop_last()[i] == s[i]); } } } }
/// the global map and these inputs were read, m is left
#[verifier::opaque]
pub open spec fn de_in(b: Seq<u8>, g: Global, s: Seq<Input>, m: Seq<u8>) -> bool { exists|r: Seq<u8>| #[trigger] gl_map(b.skip(5), g, r) && in_maps(r, s, m) }
#[verifier::opaque]
pub open spec fn de_out(b: Seq<u8>, g: Global, s: Seq<Input>, z: Seq<Output>, m: Seq<u8>) -> bool { exists|r: Seq<u8>| #[trigger] de_in(b, g, s, r) && s.len() == g.input_count && out_maps(r, z, m) }
pub broadcast proof fn lem_de_gl(b: Seq<u8>, g: Global, r: Seq<u8>) requires #[trigger] gl_map(b.skip(5), g, r) ensures de_in(b, g, Seq::empty(), r) { reveal(de_in); }
pub broadcast proof fn lem_de_gl_bad(b: Seq<u8>) requires #[trigger] gl_none(b.skip(5)) ensures psbt_none(b)
{ assert forall|p: Ps| #[trigger] ps_ok(p) implies b != ps_bytes(p) by { if b == ps_bytes(p) { lem_head(p, b); let t = flat(p.ip) + ps_tail(p); assert(gl_exact(p.g, p.gp) && gl_fin(p.g) && all_small(p.gp)); assert(b.skip(5) == enc_all(p.gp) + (seq![0u8] + t)); } } }
pub broadcast proof fn lem_de_in(b: Seq<u8>, g: Global, s: Seq<Input>, m: Seq<u8>, y: Input, r: Seq<u8>) requires #[trigger] de_in(b, g, s, m), #[trigger] in_map(m, y, r) ensures de_in(b, g, s.push(y), r)
{ reveal(de_in); let c = choose|c: Seq<u8>| #[trigger] gl_map(b.skip(5), g, c) && in_maps(c, s, m); let n = s.push(y); assert(n.drop_last() =~= s); assert(n.last() == y); assert(in_maps(c, n.drop_last(), m) && in_map(m, n.last(), r)); assert(in_maps(c, n, r)); }
pub broadcast proof fn lem_de_in_bad(b: Seq<u8>, g: Global, s: Seq<Input>, m: Seq<u8>) requires #[trigger] de_in(b, g, s, m), s.len() < g.input_count, #[trigger] in_none(m) ensures psbt_none(b)
{ reveal(de_in); let c = choose|c: Seq<u8>| #[trigger] gl_map(b.skip(5), g, c) && in_maps(c, s, m); let k = s.len() as int;
  assert forall|p: Ps| #[trigger] ps_ok(p) implies b != ps_bytes(p) by { if b == ps_bytes(p) { lem_ps_g(p, b, g, c); lem_ps_in(p, s, m); lem_flat_at(p.ip, k, ps_tail(p)); assert(ps_in(p, k)); let t = flat_from(p.ip, k + 1, ps_tail(p)); assert(m == enc_all(p.ip[k]) + (seq![0u8] + t)); assert(in_exact(p.x[k], true, true, p.ip[k])); } } }
pub broadcast proof fn lem_de_ins(b: Seq<u8>, g: Global, s: Seq<Input>, m: Seq<u8>) requires #[trigger] de_in(b, g, s, m), s.len() == g.input_count ensures de_out(b, g, s, Seq::empty(), m) { reveal(de_out); }
pub broadcast proof fn lem_de_out(b: Seq<u8>, g: Global, s: Seq<Input>, z: Seq<Output>, m: Seq<u8>, y: Output, r: Seq<u8>) requires #[trigger] de_out(b, g, s, z, m), #[trigger] out_map(m, y, r) ensures de_out(b, g, s, z.push(y), r)
{ reveal(de_out); let c = choose|c: Seq<u8>| #[trigger] de_in(b, g, s, c) && s.len() == g.input_count && out_maps(c, z, m); let n = z.push(y); assert(n.drop_last() =~= z); assert(n.last() == y); assert(out_maps(c, n.drop_last(), m) && out_map(m, n.last(), r)); assert(out_maps(c, n, r)); }
pub broadcast proof fn lem_de_out_bad(b: Seq<u8>, g: Global, s: Seq<Input>, z: Seq<Output>, m: Seq<u8>) requires #[trigger] de_out(b, g, s, z, m), z.len() < g.output_count, #[trigger] out_none(m) ensures psbt_none(b)
{ reveal(de_in); reveal(de_out); let c = choose|c: Seq<u8>| #[trigger] de_in(b, g, s, c) && s.len() == g.input_count && out_maps(c, z, m); let d = choose|d: Seq<u8>| #[trigger] gl_map(b.skip(5), g, d) && in_maps(d, s, c); let k = z.len() as int;
  assert forall|p: Ps| #[trigger] ps_ok(p) implies b != ps_bytes(p) by { if b == ps_bytes(p) { lem_ps_g(p, b, g, d); lem_ps_in(p, s, c); lem_flat_end(p.ip, ps_tail(p)); lem_ps_out(p, z, m); lem_flat_at(p.op, k, p.t); assert(ps_out(p, k)); let t = flat_from(p.op, k + 1, p.t); assert(m == enc_all(p.op[k]) + (seq![0u8] + t)); assert(out_exact(p.y[k], true, p.j[k], p.op[k])); } } }
pub broadcast group de_psbt { lem_de_gl, lem_de_gl_bad, lem_de_in, lem_de_in_bad, lem_de_ins, lem_de_out, lem_de_out_bad }
/// the bytes start with the magic and the separator
pub open spec fn de_head(b: Seq<u8>) -> bool { b.len() >= 5 && b[0] == 0x70 && b[1] == 0x73 && b[2] == 0x62 && b[3] == 0x74 && b[4] == 0xff }
pub broadcast proof fn lem_de_head(b: Seq<u8>) requires !#[trigger] de_head(b) ensures psbt_none(b) { assert forall|p: Ps| #[trigger] ps_ok(p) implies b != ps_bytes(p) by { if b == ps_bytes(p) { lem_head(p, b); } } }
/// b is read as p
pub open spec fn psbt_read(b: Seq<u8>, p: Psbt) -> bool { de_head(b) && p.inputs.len() == p.global.input_count && p.outputs.len() == p.global.output_count && exists|m: Seq<u8>| #[trigger] de_out(b, p.global, p.inputs@, p.outputs@, m) }
#[verifier::external_body] pub fn vx_is_magic(b: &[u8], m: &[u8]) -> (r: bool) ensures r == (b@.len() >= m@.len() && b@.take(m@.len() as int) == m@) { b.get(0..m.len()) == Some(m) }
#[verifier::external_body] pub fn vx_is_at(b: &[u8], n: usize, v: u8) -> (r: bool) ensures r == (b@.len() > n && b@[n as int] == v) { b.get(n) == Some(&v) }
#[verifier::external_body] pub fn vx_get_from(b: &[u8], n: usize) -> (r: Option<&[u8]>) ensures r is Some == (b@.len() >= n), r is Some ==> r->0@ == b@.skip(n as int) { b.get(n..) }

// ---- the round trip ----
pub proof fn lem_opt_eq<T>(a: Option<T>, b: Option<T>, c: u8, ps: Seq<Pair>) requires x_opt(a, c, ps), x_opt(b, c, ps) ensures a == b { lem_gen_eq(opt_map(a), opt_map(b), sel_t(c), kf_opt(), vf_de::<T>(), ps); lem_opt_map(a, b); }
pub proof fn lem_map_eq<K, V>(a: Map<K, V>, b: Map<K, V>, c: u8, ps: Seq<Pair>) requires x_map(a, c, ps), x_map(b, c, ps) ensures a == b { lem_gen_eq(a, b, sel_t(c), kf_de::<K>(), vf_de::<V>(), ps); }
pub proof fn lem_hash_eq<H>(a: Map<H, Vec<u8>>, b: Map<H, Vec<u8>>, c: u8, ps: Seq<Pair>) requires x_hash::<H>(a, c, ps), x_hash::<H>(b, c, ps) ensures a == b { lem_gen_eq(a, b, sel_t(c), kf_de::<H>(), vf_hash::<H>(), ps); }
pub proof fn lem_prop_eq(a: Map<ProprietaryKey, Vec<u8>>, b: Map<ProprietaryKey, Vec<u8>>, c: u8, ps: Seq<Pair>) requires x_prop(a, c, ps), x_prop(b, c, ps) ensures a == b { lem_gen_eq(a, b, sel_t(c), kf_prop(), vf_any(), ps); }
#[cfg(feature = "silent-payments")] verus!{
pub open spec fn in_sp_same(x: Input, y: Input) -> bool { x.sp_ecdh_shares@ == y.sp_ecdh_shares@ && x.sp_dleq_proofs@ == y.sp_dleq_proofs@ }
pub open spec fn out_sp_same(x: Output, y: Output) -> bool { x.sp_v0_info == y.sp_v0_info && x.sp_v0_label == y.sp_v0_label }
pub proof fn lem_in_sp_same(x: Input, y: Input, ps: Seq<Pair>) requires in_sp_exact(x, ps), in_sp_exact(y, ps) ensures in_sp_same(x, y), in_sp_fin(x) == in_sp_fin(y) { lem_map_eq::<CompressedPublicKey, CompressedPublicKey>(x.sp_ecdh_shares@, y.sp_ecdh_shares@, 0x1d, ps); lem_map_eq::<CompressedPublicKey, DleqProof>(x.sp_dleq_proofs@, y.sp_dleq_proofs@, 0x1e, ps); }
pub proof fn lem_out_sp_same(x: Output, y: Output, ps: Seq<Pair>) requires out_sp_exact(x, ps), out_sp_exact(y, ps) ensures out_sp_same(x, y), out_sp_fin(x) == out_sp_fin(y) { lem_out_sp_eq(x, y, ps); lem_gen_eq(opt_map(x.sp_v0_info), opt_map(y.sp_v0_info), sel_t(0x09), kf_opt(), vf_len(66), ps); lem_gen_eq(opt_map(x.sp_v0_label), opt_map(y.sp_v0_label), sel_t(0x0a), kf_opt(), vf_le4(), ps); lem_opt_map(x.sp_v0_info, y.sp_v0_info); lem_opt_map(x.sp_v0_label, y.sp_v0_label); }
}
#[cfg(not(feature = "silent-payments"))] verus!{
pub open spec fn in_sp_same(x: Input, y: Input) -> bool { true }
pub open spec fn out_sp_same(x: Output, y: Output) -> bool { true }
pub proof fn lem_in_sp_same(x: Input, y: Input, ps: Seq<Pair>) ensures in_sp_same(x, y), in_sp_fin(x) == in_sp_fin(y) { }
pub proof fn lem_out_sp_same(x: Output, y: Output, ps: Seq<Pair>) ensures out_sp_same(x, y), out_sp_fin(x) == out_sp_fin(y) { }
}
/// every field of the two maps is the same
pub open spec fn in_same(x: Input, y: Input) -> bool { x.previous_txid == y.previous_txid && x.spent_output_index == y.spent_output_index && x.sequence == y.sequence && x.min_time == y.min_time && x.min_height == y.min_height && x.non_witness_utxo == y.non_witness_utxo && x.witness_utxo == y.witness_utxo && x.partial_sigs@ == y.partial_sigs@ && x.sighash_type == y.sighash_type && x.redeem_script == y.redeem_script && x.witness_script == y.witness_script && x.bip32_derivations@ == y.bip32_derivations@ && x.final_script_sig == y.final_script_sig && x.final_script_witness == y.final_script_witness && x.tap_key_sig == y.tap_key_sig && x.tap_script_sigs@ == y.tap_script_sigs@ && x.tap_scripts@ == y.tap_scripts@ && x.tap_key_origins@ == y.tap_key_origins@ && x.tap_internal_key == y.tap_internal_key && x.tap_merkle_root == y.tap_merkle_root && x.ripemd160_preimages@ == y.ripemd160_preimages@ && x.sha256_preimages@ == y.sha256_preimages@ && x.hash160_preimages@ == y.hash160_preimages@ && x.hash256_preimages@ == y.hash256_preimages@ && x.proprietaries@ == y.proprietaries@ && x.unknowns@ == y.unknowns@ && in_sp_same(x, y) }
pub proof fn lem_in_same(x: Input, y: Input, ps: Seq<Pair>) requires in_exact(x, true, true, ps), in_exact(y, true, true, ps) ensures in_same(x, y)
{ lem_opt_eq::<Txid>(Some(x.previous_txid), Some(y.previous_txid), 0x0e, ps); lem_opt_eq::<u32>(Some(x.spent_output_index), Some(y.spent_output_index), 0x0f, ps); lem_opt_eq::<Sequence>(x.sequence, y.sequence, 0x10, ps); lem_opt_eq::<absolute::Time>(x.min_time, y.min_time, 0x11, ps); lem_opt_eq::<absolute::Height>(x.min_height, y.min_height, 0x12, ps); lem_opt_eq::<Transaction>(x.non_witness_utxo, y.non_witness_utxo, 0x00, ps); lem_opt_eq::<TxOut>(x.witness_utxo, y.witness_utxo, 0x01, ps); lem_map_eq::<PublicKey, ecdsa::Signature>(x.partial_sigs@, y.partial_sigs@, 0x02, ps); lem_opt_eq::<PsbtSighashType>(x.sighash_type, y.sighash_type, 0x03, ps); lem_opt_eq::<ScriptBuf>(x.redeem_script, y.redeem_script, 0x04, ps); lem_opt_eq::<ScriptBuf>(x.witness_script, y.witness_script, 0x05, ps); lem_map_eq::<secp256k1::PublicKey, KeySource>(x.bip32_derivations@, y.bip32_derivations@, 0x06, ps); lem_opt_eq::<ScriptBuf>(x.final_script_sig, y.final_script_sig, 0x07, ps); lem_opt_eq::<Witness>(x.final_script_witness, y.final_script_witness, 0x08, ps); lem_opt_eq::<taproot::Signature>(x.tap_key_sig, y.tap_key_sig, 0x13, ps); lem_map_eq::<(XOnlyPublicKey, TapLeafHash), taproot::Signature>(x.tap_script_sigs@, y.tap_script_sigs@, 0x14, ps); lem_map_eq::<ControlBlock, (ScriptBuf, LeafVersion)>(x.tap_scripts@, y.tap_scripts@, 0x15, ps); lem_map_eq::<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>(x.tap_key_origins@, y.tap_key_origins@, 0x16, ps); lem_opt_eq::<XOnlyPublicKey>(x.tap_internal_key, y.tap_internal_key, 0x17, ps); lem_opt_eq::<TapNodeHash>(x.tap_merkle_root, y.tap_merkle_root, 0x18, ps); lem_hash_eq::<ripemd160::Hash>(x.ripemd160_preimages@, y.ripemd160_preimages@, 0x0a, ps); lem_hash_eq::<sha256::Hash>(x.sha256_preimages@, y.sha256_preimages@, 0x0b, ps); lem_hash_eq::<hash160::Hash>(x.hash160_preimages@, y.hash160_preimages@, 0x0c, ps); lem_hash_eq::<sha256d::Hash>(x.hash256_preimages@, y.hash256_preimages@, 0x0d, ps); lem_prop_eq(x.proprietaries@, y.proprietaries@, 0xfc, ps); lem_gen_eq(x.unknowns@, y.unknowns@, sel_in_unk(), kf_unk(), vf_any(), ps); lem_in_sp_same(x, y, ps); }
/// every field of the two maps is the same
pub open spec fn out_same(x: Output, y: Output) -> bool { x.amount == y.amount && x.script_pubkey == y.script_pubkey && x.redeem_script == y.redeem_script && x.witness_script == y.witness_script && x.bip32_derivations@ == y.bip32_derivations@ && x.tap_internal_key == y.tap_internal_key && x.tap_tree == y.tap_tree && x.tap_key_origins@ == y.tap_key_origins@ && x.proprietaries@ == y.proprietaries@ && x.unknowns@ == y.unknowns@ && out_sp_same(x, y) }
pub proof fn lem_out_same(x: Output, y: Output, j: bool, ps: Seq<Pair>) requires out_exact(x, true, j, ps), out_exact(y, true, j, ps), j || sp_on() ensures out_same(x, y)
{ lem_opt_eq::<Amount>(Some(x.amount), Some(y.amount), 0x03, ps); lem_opt_eq::<ScriptBuf>((if j { Some(x.script_pubkey) } else { None }), (if j { Some(y.script_pubkey) } else { None }), 0x04, ps); lem_opt_eq::<ScriptBuf>(x.redeem_script, y.redeem_script, 0x00, ps); lem_opt_eq::<ScriptBuf>(x.witness_script, y.witness_script, 0x01, ps); lem_map_eq::<secp256k1::PublicKey, KeySource>(x.bip32_derivations@, y.bip32_derivations@, 0x02, ps); lem_opt_eq::<XOnlyPublicKey>(x.tap_internal_key, y.tap_internal_key, 0x05, ps); lem_opt_eq::<TapTree>(x.tap_tree, y.tap_tree, 0x06, ps); lem_map_eq::<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>(x.tap_key_origins@, y.tap_key_origins@, 0x07, ps); lem_prop_eq(x.proprietaries@, y.proprietaries@, 0xfc, ps); lem_gen_eq(x.unknowns@, y.unknowns@, sel_out_unk(), kf_unk(), vf_any(), ps); lem_out_sp_same(x, y, ps); }

pub open spec fn psbt_enc(p: Psbt) -> bool { gl_enc(p.global) && gl_fin(gl_from(p.global)) && p.inputs.len() == p.global.input_count && p.outputs.len() == p.global.output_count
    && (forall|i: int| 0 <= i < p.inputs.len() ==> in_enc(#[trigger] p.inputs@[i]) && in_sp_fin(p.inputs@[i])) && (forall|i: int| 0 <= i < p.outputs.len() ==> out_enc(#[trigger] p.outputs@[i]) && out_sp_fin(p.outputs@[i])) }
pub open spec fn psbt_same(p: Psbt, q: Psbt) -> bool { gl_res(gl_from(p.global), q.global) && p.inputs.len() == q.inputs.len() && p.outputs.len() == q.outputs.len()
    && (forall|i: int| 0 <= i < p.inputs.len() ==> in_same(p.inputs@[i], #[trigger] q.inputs@[i])) && (forall|i: int| 0 <= i < p.outputs.len() ==> out_same(p.outputs@[i], #[trigger] q.outputs@[i])) }
pub proof fn lem_enc_len(ps: Seq<Pair>, i: int) requires 0 <= i < ps.len() ensures pair_enc(ps[i]).len() <= enc_all(ps).len() { lem_enc_at(ps, i); }
pub proof fn lem_enc_small(ps: Seq<Pair>) requires enc_all(ps).len() <= max_vec() ensures all_small(ps) { assert forall|i: int| 0 <= i < ps.len() implies pair_small(#[trigger] ps[i]) by { lem_enc_len(ps, i); } }
pub proof fn lem_flat_len(ms: Seq<Seq<Pair>>, i: int) requires 0 <= i < ms.len() ensures enc_all(ms[i]).len() <= flat(ms).len() { let e = Seq::<u8>::empty(); lem_flat_app(ms.take(i), ms.skip(i)); assert(ms =~= ms.take(i) + ms.skip(i)); lem_flat_at(ms, i, e); }
/// what a psbt is written as is read, and as that psbt: this is the round trip, from the two contracts alone
pub proof fn lem_roundtrip(p: Psbt, b: Seq<u8>, o: Result<Psbt, crate::v2::DeserializeError>)
    requires psbt_enc(p), psbt_bytes(p, b), b.len() <= max_vec(), o is Ok ==> psbt_read(b, o->Ok_0), o is Err ==> psbt_none(b)
    ensures o is Ok, psbt_same(p, o->Ok_0)
{ broadcast use def_says; let (g, i, u) = choose|g: Seq<Pair>, i: Seq<Seq<Pair>>, u: Seq<Seq<Pair>>| #![trigger map_enc(g), flat(i), flat(u)] map_says(&p.global, g) && all_say(p.inputs@, p.inputs.len() as int, i) && all_say(p.outputs@, p.outputs.len() as int, u) && b == head() + (map_enc(g) + (flat(i) + flat(u)));
  let w = Ps { g: gl_from(p.global), gp: g, x: p.inputs@, ip: i, y: p.outputs@, j: Seq::new(u.len(), |k: int| true), op: u, t: Seq::empty() };
  assert(ps_bytes(w) =~= b); lem_enc_small(g);
  assert forall|k: int| 0 <= k < i.len() implies #[trigger] ps_in(w, k) by { lem_flat_len(i, k); lem_enc_small(i[k]); assert(map_says(&p.inputs@[k], i[k])); }
  assert forall|k: int| 0 <= k < u.len() implies #[trigger] ps_out(w, k) by { lem_flat_len(u, k); lem_enc_small(u[k]); assert(map_says(&p.outputs@[k], u[k])); }
  assert(ps_ok(w));
  if o is Ok { let q = o->Ok_0; reveal(de_in); reveal(de_out); let m = choose|m: Seq<u8>| #[trigger] de_out(b, q.global, q.inputs@, q.outputs@, m); let c = choose|c: Seq<u8>| #[trigger] de_in(b, q.global, q.inputs@, c) && out_maps(c, q.outputs@, m); let d = choose|d: Seq<u8>| #[trigger] gl_map(b.skip(5), q.global, d) && in_maps(d, q.inputs@, c);
    lem_ps_g(w, b, q.global, d); lem_ps_in(w, q.inputs@, c); lem_flat_end(w.ip, ps_tail(w)); lem_ps_out(w, q.outputs@, m); } }
}
@append src/v2/error.rs
impl vstd::std_specs::convert::FromSpecImpl<global::DecodeError> for DeserializeError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: global::DecodeError) -> Self { Self::DecodeGlobal(e) } }
impl vstd::std_specs::convert::FromSpecImpl<input::DecodeError> for DeserializeError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: input::DecodeError) -> Self { Self::DecodeInput(e) } }
impl vstd::std_specs::convert::FromSpecImpl<output::DecodeError> for DeserializeError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: output::DecodeError) -> Self { Self::DecodeOutput(e) } }
@fn src/v2/error.rs From<global::DecodeError> for DeserializeError::from
@fn src/v2/error.rs From<input::DecodeError> for DeserializeError::from
@fn src/v2/error.rs From<output::DecodeError> for DeserializeError::from
@type src/v2/map/mod.rs Map
@replace pub(crate) trait ==> pub trait
@sig src/v2/map/mod.rs Map::get_pairs
@spec
r => ensures crate::vspec::map_says(self, r@)
@fn src/v2/map/mod.rs Map::serialize_map
@props C09 C10 C12 C23
@rewrite .extend( ==> .vx_extend(
@spec
r => ensures crate::vspec::map_bytes(self, r@)
@loop 1
it => invariant 0 <= it.index() <= it.seq().len(), map_says(self, it.seq()), buf@ == enc_all(it.seq().take(it.index()))
@fn src/v2/mod.rs Psbt::serialize
@props C09 C10 C12 C23
@rewrite b"psbt" ==> vx_magic()
@rewrite .extend( ==> .vx_extend(
@attr #[verifier::loop_isolation(false)]
@spec
r => ensures psbt_bytes(*self, r@)
@entry
broadcast use ser_psbt;
@atloop 1
let ghost vx_b1 = buf@;
@loop 1
i1 => invariant 0 <= i1.index() <= i1.seq().len(), i1.seq() == self.inputs@.as_ref(), maps_after(vx_b1, self.inputs@, i1.index(), buf@)
@atloop 2
let ghost vx_b2 = buf@; assert(maps_after(vx_b1, self.inputs@, self.inputs.len() as int, vx_b2));
@loop 2
i2 => invariant 0 <= i2.index() <= i2.seq().len(), i2.seq() == self.outputs@.as_ref(), maps_after(vx_b2, self.outputs@, i2.index(), buf@)
@tail
assert(map_bytes(&self.global, vx_b1.skip(5)) && vx_b1 =~= head() + vx_b1.skip(5)); assert(wrote_head(*self, vx_b1)); assert(maps_after(vx_b1, self.inputs@, self.inputs.len() as int, vx_b2)); assert(maps_after(vx_b2, self.outputs@, self.outputs.len() as int, buf@)); assert(psbt_bytes(*self, buf@));
@fn src/v2/mod.rs Psbt::deserialize
@props C09 C10 C12 C23
@rewrite const MAGIC_BYTES: &[u8] = b"psbt" ==> let MAGIC_BYTES: &[u8] = vx_magic()
@rewrite const PSBT_SERPARATOR: u8 ==> let PSBT_SERPARATOR: u8
@rewrite bytes.get(0..MAGIC_BYTES.len()) != Some(MAGIC_BYTES) ==> !vx_is_magic(bytes, MAGIC_BYTES)
@rewrite bytes.get(MAGIC_BYTES.len()) != Some(&PSBT_SERPARATOR) ==> !vx_is_at(bytes, MAGIC_BYTES.len(), PSBT_SERPARATOR)
@rewrite bytes.get(5..) ==> vx_get_from(bytes, 5)
@attr #[verifier::loop_isolation(false)]
@spec
o => ensures o is Ok ==> psbt_read(bytes@, o->Ok_0), o is Err ==> psbt_none(bytes@)
@entry
broadcast use de_psbt, lem_de_head, ax_rem_slice; assert(bytes@.len() >= 4 ==> (bytes@.take(4)[0] == bytes@[0] && bytes@.take(4)[1] == bytes@[1] && bytes@.take(4)[2] == bytes@[2] && bytes@.take(4)[3] == bytes@[3])); assert(de_head(bytes@) ==> bytes@.take(4) =~= seq![0x70u8, 0x73u8, 0x62u8, 0x74u8]);
@loop 1
i1 => invariant i1.index() <= i1.seq().len() == inputs_len, inputs@.len() == i1.index(), de_in(bytes@, global, inputs@, rem(&d))
@loop 2
i2 => invariant i2.index() <= i2.seq().len() == outputs_len, outputs@.len() == i2.index(), de_out(bytes@, global, inputs@, outputs@, rem(&d))
