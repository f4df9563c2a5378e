@onlyprops C09 C10 C11 C12 C13 C23
@fileprops C09 C10 C13 C23
@mod raw_spec
@broadcast raw_axioms
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::io::{self, Read, BufRead, Write};
use bitcoin::consensus::{self, Decodable, Encodable};
use bitcoin::VarInt;
use crate::serialize::{self, Deserialize, Serialize};
use crate::raw::{Key, Pair, ProprietaryKey};
verus!{
// ---- compact size (rust-bitcoin) ----
pub uninterp spec fn cs(v: int) -> Seq<u8>;
pub broadcast axiom fn ax_cs(v: int) ensures 1 <= (#[trigger] cs(v)).len() <= 9, 0 <= v <= 0xfc ==> cs(v) == seq![v as u8];
/// compact sizes are decoded exactly, and only the shortest form is
pub axiom fn ax_cs_dec(b: Seq<u8>) ensures match cons_dec::<VarInt>(b) {
    Some((v, n)) => n == cs(v.0 as int).len() && n <= b.len() && b.take(n) == cs(v.0 as int),
    None => forall|v: u64| !(#[trigger] cs(v as int)).is_prefix_of(b) };
pub axiom fn ax_cs_uniq(b: Seq<u8>, v: u64, w: u64) requires cs(v as int).is_prefix_of(b), cs(w as int).is_prefix_of(b) ensures v == w;
pub broadcast axiom fn ax_u8_dec(b: Seq<u8>) ensures #[trigger] cons_dec::<u8>(b) == (if b.len() == 0 { None } else { Some((b[0], 1int)) });
/// the largest vector rust-bitcoin reads
pub open spec fn max_vec() -> int { 4_000_000 }
pub open spec fn bytes_enc(v: Seq<u8>) -> Seq<u8> { cs(v.len() as int) + v }
pub axiom fn ax_vec_dec(b: Seq<u8>) ensures match cons_dec::<Vec<u8>>(b) {
    Some((v, n)) => n == bytes_enc(v@).len() && n <= b.len() && b.take(n) == bytes_enc(v@) && v@.len() <= u64::MAX,
    None => forall|v: Seq<u8>| (#[trigger] bytes_enc(v)).len() <= max_vec() ==> !bytes_enc(v).is_prefix_of(b) };
pub assume_specification [consensus::encode::MAX_VEC_SIZE] -> (o: usize) ensures o == max_vec();
// encoding
pub broadcast axiom fn ax_enc_u8(x: &u8) ensures #[trigger] cons_ser::<&u8>(x) == seq![*x];
pub broadcast axiom fn ax_enc_vi(x: &VarInt) ensures #[trigger] cons_ser::<&VarInt>(x) == cs(x.0 as int);
pub broadcast axiom fn ax_enc_vec(x: &Vec<u8>) ensures #[trigger] cons_ser::<&Vec<u8>>(x) == bytes_enc(x@);
// ---- keys and pairs (BIP-174) ----
pub open spec fn key_enc(k: Key) -> Seq<u8> { cs(1 + k.key@.len() as int) + seq![k.type_value] + k.key@ }
pub open spec fn pair_enc(p: Pair) -> Seq<u8> { key_enc(p.key) + bytes_enc(p.value@) }
pub open spec fn key_small(k: Key) -> bool { k.key@.len() <= max_vec() }
pub open spec fn pair_small(p: Pair) -> bool { key_small(p.key) && bytes_enc(p.value@).len() <= max_vec() }
/// the end of a map: a zero length
pub open spec fn map_end(b: Seq<u8>) -> bool { b.len() > 0 && b[0] == 0 }
pub open spec fn key_dec(b: Seq<u8>, after: Seq<u8>, r: Result<Key, serialize::Error>) -> bool {
    match r {
        Ok(k) => key_small(k) && b == key_enc(k) + after,
        Err(serialize::Error::NoMorePairs) => map_end(b) && after == b.skip(1),
        Err(_) => !map_end(b) && forall|k: Key| key_small(k) ==> !(#[trigger] key_enc(k)).is_prefix_of(b),
    } }
pub open spec fn pair_dec(b: Seq<u8>, after: Seq<u8>, r: Result<Pair, serialize::Error>) -> bool {
    match r {
        Ok(p) => key_small(p.key) && b == pair_enc(p) + after,
        Err(serialize::Error::NoMorePairs) => map_end(b) && after == b.skip(1),
        Err(_) => !map_end(b) && forall|p: Pair| pair_small(p) ==> !(#[trigger] pair_enc(p)).is_prefix_of(b),
    } }
pub broadcast axiom fn ax_ser_key(k: &Key) ensures #[trigger] ser_of::<&Key>(k) == key_enc(*k);
pub broadcast axiom fn ax_ser_pair(k: &Pair) ensures #[trigger] ser_of::<&Pair>(k) == pair_enc(*k);
pub proof fn lem_prefix(a: Seq<u8>, c: Seq<u8>, b: Seq<u8>) requires (a + c).is_prefix_of(b) ensures a.is_prefix_of(b) { assert(a =~= (a + c).take(a.len() as int)); assert((a + c) =~= b.take((a + c).len() as int)); assert(a =~= b.take(a.len() as int)); }
pub broadcast proof fn lem_vi(b: Seq<u8>) ensures match #[trigger] cons_dec::<VarInt>(b) { Some((v, n)) => n == cs(v.0 as int).len() && n <= b.len() && b == cs(v.0 as int) + b.skip(n) && (v.0 == 0 <==> map_end(b)), None => !map_end(b) }
{ ax_cs_dec(b); ax_cs(0);
  if map_end(b) { assert(cs(0u64 as int).is_prefix_of(b)) by { assert(seq![0u8] =~= b.take(1)); } }
  match cons_dec::<VarInt>(b) { Some((v, n)) => { assert(cs(v.0 as int) =~= b.take(n)); assert(b =~= cs(v.0 as int) + b.skip(n)); assert(cs(v.0 as int).is_prefix_of(b)); if map_end(b) { ax_cs_uniq(b, 0, v.0); } if v.0 == 0 { assert(b.take(1)[0] == b[0]); } } None => {} } }
pub broadcast proof fn lem_key_prefix(b: Seq<u8>, k: Key) requires key_small(k), #[trigger] key_enc(k).is_prefix_of(b)
  ensures match #[trigger] cons_dec::<VarInt>(b) { Some((v, n)) => v.0 == 1 + k.key@.len(), None => false }, b.len() >= key_enc(k).len(), key_enc(k).len() == cs(1 + k.key@.len() as int).len() + 1 + k.key@.len()
{ ax_cs_dec(b); lem_vi(b); let l = (1 + k.key@.len()) as u64; assert(cs(l as int) + (seq![k.type_value] + k.key@) =~= key_enc(k)); lem_prefix(cs(l as int), seq![k.type_value] + k.key@, b); assert(cs(l as int).is_prefix_of(b));
  match cons_dec::<VarInt>(b) { Some((v, n)) => { assert(cs(v.0 as int).is_prefix_of(b)); ax_cs_uniq(b, l, v.0); } None => {} } }
pub broadcast proof fn lem_vec_dec(b: Seq<u8>) ensures match #[trigger] cons_dec::<Vec<u8>>(b) { Some((v, n)) => n <= b.len() && b == bytes_enc(v@) + b.skip(n), None => forall|v: Seq<u8>| (#[trigger] bytes_enc(v)).len() <= max_vec() ==> !bytes_enc(v).is_prefix_of(b) }
{ ax_vec_dec(b); match cons_dec::<Vec<u8>>(b) { Some((v, n)) => { assert(b =~= b.take(n) + b.skip(n)); } None => {} } }
/// no key encoding is the start of another
pub broadcast proof fn lem_key_uniq(b: Seq<u8>, k: Key, j: Key) requires key_small(k), key_small(j), #[trigger] key_enc(k).is_prefix_of(b), #[trigger] key_enc(j).is_prefix_of(b) ensures k == j
{ lem_key_prefix(b, k); lem_key_prefix(b, j); let n = cs(1 + k.key@.len() as int).len() as int; assert(key_enc(k) =~= b.take(key_enc(k).len() as int)); assert(key_enc(j) =~= b.take(key_enc(j).len() as int)); assert(key_enc(k) == key_enc(j));
  assert(key_enc(k)[n] == k.type_value); assert(key_enc(j)[n] == j.type_value); assert(k.key@ =~= key_enc(k).skip(n + 1)); assert(j.key@ =~= key_enc(j).skip(n + 1)); ax_vec_ext(k.key, j.key); }
pub broadcast proof fn lem_pair_key(b: Seq<u8>, p: Pair, k: Key, a: Seq<u8>) requires key_small(k), key_small(p.key), #[trigger] pair_enc(p).is_prefix_of(b), b == #[trigger] (key_enc(k) + a) ensures p.key == k, bytes_enc(p.value@).is_prefix_of(a)
{ lem_prefix(key_enc(p.key), bytes_enc(p.value@), b); assert(key_enc(k) =~= b.take(key_enc(k).len() as int)); assert(key_enc(k).is_prefix_of(b)); lem_key_uniq(b, p.key, k); assert(pair_enc(p) =~= b.take(pair_enc(p).len() as int)); assert(bytes_enc(p.value@) =~= a.take(bytes_enc(p.value@).len() as int)) by { assert(pair_enc(p).skip(key_enc(k).len() as int) =~= bytes_enc(p.value@)); assert(b.skip(key_enc(k).len() as int) =~= a); } }
pub broadcast proof fn lem_pair_prefix(b: Seq<u8>, p: Pair) requires key_small(p.key), #[trigger] pair_enc(p).is_prefix_of(b) ensures key_enc(p.key).is_prefix_of(b)
{ lem_prefix(key_enc(p.key), bytes_enc(p.value@), b); }
pub broadcast proof fn lem_pair_split(p: Pair, t: Seq<u8>) ensures #[trigger] (pair_enc(p) + t) == key_enc(p.key) + (bytes_enc(p.value@) + t) { assert(pair_enc(p) + t =~= key_enc(p.key) + (bytes_enc(p.value@) + t)); }
pub broadcast proof fn lem_key_not_end(k: Key, a: Seq<u8>) requires key_small(k) ensures !map_end(#[trigger] (key_enc(k) + a)) { let b = key_enc(k) + a; assert(key_enc(k) =~= b.take(key_enc(k).len() as int)); lem_key_prefix(b, k); lem_vi(b); }
pub trait VxItems<T>: Sized { spec fn items(self) -> Seq<T>; fn vx_into(self) -> (r: Vec<T>) ensures r@ == self.items(); }
impl<T> VxItems<T> for Vec<T> { open spec fn items(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into(self) -> Vec<T> { self } }
impl<T: Copy> VxItems<T> for &Vec<T> { open spec fn items(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into(self) -> Vec<T> { self.to_vec() } }
pub trait VxVecExt<T>: View<V = Seq<T>> { fn vx_extend<O: VxItems<T>>(&mut self, o: O) ensures final(self)@ == old(self)@ + o.items(); }
impl<T> VxVecExt<T> for Vec<T> { #[verifier::external_body] fn vx_extend<O: VxItems<T>>(&mut self, o: O) { self.extend(o.vx_into()) } }
/// a Vec<u8> holds at most a quarter of the address space
pub broadcast axiom fn ax_vec_len(v: &Vec<u8>) ensures #[trigger] v@.len() <= usize::MAX / 4;

pub assume_specification [<VarInt as From<usize>>::from](x: usize) -> (r: VarInt) ensures r.0 == x;
pub broadcast proof fn lem_skip2(b: Seq<u8>, i: int, j: int) requires 0 <= i, 0 <= j, i + j <= b.len() ensures #[trigger] b.skip(i).skip(j) == b.skip(i + j) { assert(b.skip(i).skip(j) =~= b.skip(i + j)); }
// ---- proprietary keys ----
/// the subtype's byte
pub uninterp spec fn sub_u8<S>(s: S) -> u8;
pub uninterp spec fn sub_of<S>(b: u8) -> S;
pub broadcast axiom fn ax_sub8(x: u8) ensures #![trigger sub_u8::<u8>(x)] #![trigger sub_of::<u8>(x)] sub_u8::<u8>(x) == x, sub_of::<u8>(x) == x;
#[verifier::external_body] pub fn vx_sub_u8<S: Into<u8>>(s: S) -> (r: u8) ensures r == sub_u8(s) { s.into() }
#[verifier::external_body] pub fn vx_sub_of<S: From<u8>>(b: u8) -> (r: S) ensures r == sub_of::<S>(b) { S::from(b) }
pub open spec fn pk_enc<S: Copy + From<u8> + Into<u8>>(p: ProprietaryKey<S>) -> Seq<u8> { bytes_enc(p.prefix@) + seq![sub_u8(p.subtype)] + p.key@ }
/// how many bytes of key data are read
pub open spec fn pk_left(b: Seq<u8>) -> int { min_int(1024, b.len() - 1) }
/// what decoding a proprietary key gives: defined here, and the code is verified against it
pub broadcast axiom fn def_pk_dec<S: Copy + From<u8> + Into<u8>>(b: Seq<u8>) ensures match #[trigger] cons_dec::<ProprietaryKey<S>>(b) {
    Some((p, n)) => match cons_dec::<Vec<u8>>(b) { Some((v, k)) => b.skip(k).len() > 0 && p.prefix == v && p.subtype == sub_of::<S>(b.skip(k)[0]) && p.key@ == b.skip(k).skip(1).take(pk_left(b.skip(k))) && n == k + 1 + pk_left(b.skip(k)), None => false },
    None => match cons_dec::<Vec<u8>>(b) { Some((v, k)) => b.skip(k).len() == 0, None => true } };
pub broadcast axiom fn def_pk_ser<S: Copy + From<u8> + Into<u8>>(p: &ProprietaryKey<S>) ensures #[trigger] cons_ser::<&ProprietaryKey<S>>(p) == pk_enc(*p);
/// rust-bitcoin's deserialize wants every byte used
pub broadcast axiom fn ax_pk_de<S: Copy + From<u8> + Into<u8>>(b: Seq<u8>) ensures #[trigger] cons_de::<ProprietaryKey<S>>(b) == (match cons_dec::<ProprietaryKey<S>>(b) { Some((p, n)) => if n == b.len() { Some(p) } else { None }, None => None });
pub open spec fn pk_small<S: Copy + From<u8> + Into<u8>>(p: ProprietaryKey<S>) -> bool { bytes_enc(p.prefix@).len() <= max_vec() && p.key@.len() <= 1024 && sub_of::<S>(sub_u8(p.subtype)) == p.subtype }
pub broadcast proof fn lem_pk_app<S: Copy + From<u8> + Into<u8>>(o: Seq<u8>, p: ProprietaryKey<S>) ensures #[trigger] (o + pk_enc(p)) == (o + bytes_enc(p.prefix@)).push(sub_u8(p.subtype)) + p.key@ { assert(o + pk_enc(p) =~= (o + bytes_enc(p.prefix@)).push(sub_u8(p.subtype)) + p.key@); }
/// a proprietary key converts to a raw key and back unchanged
pub proof fn lem_pk_round<S: Copy + From<u8> + Into<u8>>(p: ProprietaryKey<S>) requires pk_small(p) ensures cons_de::<ProprietaryKey<S>>(pk_enc(p)) == Some(p)
{ broadcast use raw_axioms; let b = pk_enc(p); let e = bytes_enc(p.prefix@); def_pk_dec::<S>(b); ax_pk_de::<S>(b); ax_vec_round(p.prefix, seq![sub_u8(p.subtype)] + p.key@); assert(b =~= e + (seq![sub_u8(p.subtype)] + p.key@));
  let c = b.skip(e.len() as int); assert(c =~= seq![sub_u8(p.subtype)] + p.key@); assert(b[e.len() as int] == c[0]); assert(c.skip(1).take(pk_left(c)) =~= p.key@);
  match cons_dec::<ProprietaryKey<S>>(b) { Some((q, n)) => { ax_vec_ext(q.key, p.key); } None => {} } }
pub axiom fn ax_vec_round(v: Vec<u8>, t: Seq<u8>) requires bytes_enc(v@).len() <= max_vec() ensures cons_dec::<Vec<u8>>(bytes_enc(v@) + t) == Some((v, bytes_enc(v@).len() as int));
pub broadcast group raw_axioms { ax_out_vec, ax_rem_slice, ax_cs, lem_vi, lem_key_prefix, lem_vec_dec, lem_key_not_end, lem_skip2, lem_pk_app, ax_sub8, def_pk_dec, def_pk_ser, ax_pk_de, ax_vec_len, ax_nf_vec, ax_u8_dec, ax_enc_u8, ax_enc_vi, ax_enc_vec, ax_ser_key, ax_ser_pair }
}
@fn src/raw.rs Key::decode
@attr #[verifier::loop_isolation(false)]
@props C09 C10 C13
@spec
o => ensures key_dec(rem(&*old(r)), rem(&*final(r)), o)
@loop 1
it => invariant it.index() <= it.seq().len() == key_byte_size, key@.len() == it.index(), rem(&*old(r)) == cs(byte_size as int) + seq![type_value] + key@ + rem(&*r)
@fn src/raw.rs Pair::decode
@props C09 C10 C13
@spec
o => ensures pair_dec(rem(&*old(r)), rem(&*final(r)), o)
@entry
broadcast use lem_pair_key; broadcast use lem_pair_split; broadcast use lem_pair_prefix;
@fn src/raw.rs Serialize for Key::serialize
@attr #[verifier::loop_isolation(false)]
@loop 1
it => invariant it.seq() == self.key@.as_ref(), it.index() <= self.key@.len(), buf@ == cs(1 + self.key@.len() as int) + seq![self.type_value] + self.key@.take(it.index())
@props C09 C13
@fn src/raw.rs Serialize for Pair::serialize
@replace .extend( ==> .vx_extend(
@props C09 C13
@fn src/raw.rs ProprietaryKey<Subtype>::to_key
@props C09 C13
@spec
o => ensures o.type_value == 0xfc, o.key@ == pk_enc(*self)
@fn src/raw.rs Encodable for ProprietaryKey<Subtype>::consensus_encode
@props C09 C13
@replace self.subtype.into() ==> vx_sub_u8(self.subtype)
@fn src/raw.rs Decodable for ProprietaryKey<Subtype>::consensus_decode
@props C09 C13
@replace Subtype::from( ==> vx_sub_of(
@entry
broadcast use ax_vec_ext;
