@onlyprops C11 C13
@fileprops C11 C13
@mod raw0_spec
@broadcast raw0_axioms
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::io::{self, Read, BufRead, Write};
use bitcoin::consensus::{self, Decodable, Encodable};
use bitcoin::VarInt;
use crate::v0::bitcoin::Error;
use crate::v0::bitcoin::raw::{Key, Pair, ProprietaryKey};
verus!{
// ---- keys and pairs (BIP-174) ----
pub open spec fn key_enc0(k: Key) -> Seq<u8> { cs(1 + k.key@.len() as int) + seq![k.type_value] + k.key@ }
pub open spec fn pair_enc0(p: Pair) -> Seq<u8> { key_enc0(p.key) + bytes_enc(p.value@) }
pub open spec fn key_small0(k: Key) -> bool { k.key@.len() <= max_vec() }
pub open spec fn pair_small0(p: Pair) -> bool { key_small0(p.key) && bytes_enc(p.value@).len() <= max_vec() }
/// the end of a map: a zero length
pub open spec fn key_dec0(b: Seq<u8>, after: Seq<u8>, r: Result<Key, Error>) -> bool {
    match r {
        Ok(k) => key_small0(k) && b == key_enc0(k) + after,
        Err(Error::NoMorePairs) => map_end(b) && after == b.skip(1),
        Err(_) => !map_end(b) && forall|k: Key| key_small0(k) ==> !(#[trigger] key_enc0(k)).is_prefix_of(b),
    } }
pub open spec fn pair_dec0(b: Seq<u8>, after: Seq<u8>, r: Result<Pair, Error>) -> bool {
    match r {
        Ok(p) => key_small0(p.key) && b == pair_enc0(p) + after,
        Err(Error::NoMorePairs) => map_end(b) && after == b.skip(1),
        Err(_) => !map_end(b) && forall|p: Pair| pair_small0(p) ==> !(#[trigger] pair_enc0(p)).is_prefix_of(b),
    } }
pub broadcast axiom fn ax_ser_key0(k: &Key) ensures #[trigger] ser0_of::<&Key>(k) == key_enc0(*k);
pub broadcast axiom fn ax_ser_pair0(k: &Pair) ensures #[trigger] ser0_of::<&Pair>(k) == pair_enc0(*k);
pub broadcast proof fn lem_key_prefix0(b: Seq<u8>, k: Key) requires key_small0(k), #[trigger] key_enc0(k).is_prefix_of(b)
  ensures match #[trigger] cons_dec::<VarInt>(b) { Some((v, n)) => v.0 == 1 + k.key@.len(), None => false }, b.len() >= key_enc0(k).len(), key_enc0(k).len() == cs(1 + k.key@.len() as int).len() + 1 + k.key@.len()
{ ax_cs_dec(b); lem_vi(b); let l = (1 + k.key@.len()) as u64; assert(cs(l as int) + (seq![k.type_value] + k.key@) =~= key_enc0(k)); lem_prefix(cs(l as int), seq![k.type_value] + k.key@, b); assert(cs(l as int).is_prefix_of(b));
  match cons_dec::<VarInt>(b) { Some((v, n)) => { assert(cs(v.0 as int).is_prefix_of(b)); ax_cs_uniq(b, l, v.0); } None => {} } }
/// no key encoding is the start of another
pub broadcast proof fn lem_key_uniq0(b: Seq<u8>, k: Key, j: Key) requires key_small0(k), key_small0(j), #[trigger] key_enc0(k).is_prefix_of(b), #[trigger] key_enc0(j).is_prefix_of(b) ensures k == j
{ lem_key_prefix0(b, k); lem_key_prefix0(b, j); let n = cs(1 + k.key@.len() as int).len() as int; assert(key_enc0(k) =~= b.take(key_enc0(k).len() as int)); assert(key_enc0(j) =~= b.take(key_enc0(j).len() as int)); assert(key_enc0(k) == key_enc0(j));
  assert(key_enc0(k)[n] == k.type_value); assert(key_enc0(j)[n] == j.type_value); assert(k.key@ =~= key_enc0(k).skip(n + 1)); assert(j.key@ =~= key_enc0(j).skip(n + 1)); ax_vec_ext(k.key, j.key); }
pub broadcast proof fn lem_pair_key0(b: Seq<u8>, p: Pair, k: Key, a: Seq<u8>) requires key_small0(k), key_small0(p.key), #[trigger] pair_enc0(p).is_prefix_of(b), b == #[trigger] (key_enc0(k) + a) ensures p.key == k, bytes_enc(p.value@).is_prefix_of(a)
{ lem_prefix(key_enc0(p.key), bytes_enc(p.value@), b); assert(key_enc0(k) =~= b.take(key_enc0(k).len() as int)); assert(key_enc0(k).is_prefix_of(b)); lem_key_uniq0(b, p.key, k); assert(pair_enc0(p) =~= b.take(pair_enc0(p).len() as int)); assert(bytes_enc(p.value@) =~= a.take(bytes_enc(p.value@).len() as int)) by { assert(pair_enc0(p).skip(key_enc0(k).len() as int) =~= bytes_enc(p.value@)); assert(b.skip(key_enc0(k).len() as int) =~= a); } }
pub broadcast proof fn lem_pair_prefix0(b: Seq<u8>, p: Pair) requires key_small0(p.key), #[trigger] pair_enc0(p).is_prefix_of(b) ensures key_enc0(p.key).is_prefix_of(b)
{ lem_prefix(key_enc0(p.key), bytes_enc(p.value@), b); }
pub broadcast proof fn lem_pair_split0(p: Pair, t: Seq<u8>) ensures #[trigger] (pair_enc0(p) + t) == key_enc0(p.key) + (bytes_enc(p.value@) + t) { assert(pair_enc0(p) + t =~= key_enc0(p.key) + (bytes_enc(p.value@) + t)); }
pub broadcast proof fn lem_key_not_end0(k: Key, a: Seq<u8>) requires key_small0(k) ensures !map_end(#[trigger] (key_enc0(k) + a)) { let b = key_enc0(k) + a; assert(key_enc0(k) =~= b.take(key_enc0(k).len() as int)); lem_key_prefix0(b, k); lem_vi(b); }
/// a Vec<u8> holds at most a quarter of the address space
// ---- proprietary keys ----
/// the subtype's byte
pub open spec fn pk_enc0<S: Copy + From<u8> + Into<u8>>(p: ProprietaryKey<S>) -> Seq<u8> { bytes_enc(p.prefix@) + seq![sub_u8(p.subtype)] + p.key@ }
/// how many bytes of key data are read
/// what decoding a proprietary key gives: defined here, and the code is verified against it
pub broadcast axiom fn def_pk_dec0<S: Copy + From<u8> + Into<u8>>(b: Seq<u8>) ensures match #[trigger] cons_dec::<ProprietaryKey<S>>(b) {
    Some((p, n)) => match cons_dec::<Vec<u8>>(b) { Some((v, k)) => b.skip(k).len() > 0 && p.prefix == v && p.subtype == sub_of::<S>(b.skip(k)[0]) && p.key@ == b.skip(k).skip(1).take(pk_left(b.skip(k))) && n == k + 1 + pk_left(b.skip(k)), None => false },
    None => match cons_dec::<Vec<u8>>(b) { Some((v, k)) => b.skip(k).len() == 0, None => true } };
pub broadcast axiom fn def_pk_ser0<S: Copy + From<u8> + Into<u8>>(p: &ProprietaryKey<S>) ensures #[trigger] cons_ser::<&ProprietaryKey<S>>(p) == pk_enc0(*p);
/// rust-bitcoin's deserialize wants every byte used
pub broadcast axiom fn ax_pk_de0<S: Copy + From<u8> + Into<u8>>(b: Seq<u8>) ensures #[trigger] cons_de::<ProprietaryKey<S>>(b) == (match cons_dec::<ProprietaryKey<S>>(b) { Some((p, n)) => if n == b.len() { Some(p) } else { None }, None => None });
pub open spec fn pk_small0<S: Copy + From<u8> + Into<u8>>(p: ProprietaryKey<S>) -> bool { bytes_enc(p.prefix@).len() <= max_vec() && p.key@.len() <= 1024 && sub_of::<S>(sub_u8(p.subtype)) == p.subtype }
pub broadcast proof fn lem_pk_app0<S: Copy + From<u8> + Into<u8>>(o: Seq<u8>, p: ProprietaryKey<S>) ensures #[trigger] (o + pk_enc0(p)) == (o + bytes_enc(p.prefix@)).push(sub_u8(p.subtype)) + p.key@ { assert(o + pk_enc0(p) =~= (o + bytes_enc(p.prefix@)).push(sub_u8(p.subtype)) + p.key@); }
/// a proprietary key converts to a raw key and back unchanged
pub proof fn lem_pk_round0<S: Copy + From<u8> + Into<u8>>(p: ProprietaryKey<S>) requires pk_small0(p) ensures cons_de::<ProprietaryKey<S>>(pk_enc0(p)) == Some(p)
{ broadcast use raw_axioms; broadcast use raw0_axioms; let b = pk_enc0(p); let e = bytes_enc(p.prefix@); def_pk_dec0::<S>(b); ax_pk_de0::<S>(b); ax_vec_round(p.prefix, seq![sub_u8(p.subtype)] + p.key@); assert(b =~= e + (seq![sub_u8(p.subtype)] + p.key@));
  let c = b.skip(e.len() as int); assert(c =~= seq![sub_u8(p.subtype)] + p.key@); assert(b[e.len() as int] == c[0]); assert(c.skip(1).take(pk_left(c)) =~= p.key@);
  match cons_dec::<ProprietaryKey<S>>(b) { Some((q, n)) => { ax_vec_ext(q.key, p.key); } None => {} } }
pub broadcast group raw0_axioms { ax_ser_key0, ax_ser_pair0, lem_key_prefix0, lem_key_not_end0, lem_pk_app0, def_pk_dec0, def_pk_ser0, ax_pk_de0 }
}
@fn src/v0/bitcoin/raw.rs Key::decode
@attr #[verifier::loop_isolation(false)]
@props C11 C13
@spec
o => ensures key_dec0(rem(&*old(r)), rem(&*final(r)), o)
@loop 1
it => invariant it.index() <= it.seq().len() == key_byte_size, key@.len() == it.index(), rem(&*old(r)) == cs(byte_size as int) + seq![type_value] + key@ + rem(&*r)
@fn src/v0/bitcoin/raw.rs Pair::decode
@props C11 C13
@spec
o => ensures pair_dec0(rem(&*old(r)), rem(&*final(r)), o)
@entry
broadcast use lem_pair_key0; broadcast use lem_pair_split0; broadcast use lem_pair_prefix0;
@fn src/v0/bitcoin/raw.rs Serialize for Key::serialize
@attr #[verifier::loop_isolation(false)]
@loop 1
it => invariant it.seq() == self.key@.as_ref(), it.index() <= self.key@.len(), buf@ == cs(1 + self.key@.len() as int) + seq![self.type_value] + self.key@.take(it.index())
@props C11 C13
@fn src/v0/bitcoin/raw.rs Serialize for Pair::serialize
@replace .extend( ==> .vx_extend(
@props C11 C13
@fn src/v0/bitcoin/raw.rs ProprietaryKey<Subtype>::to_key
@props C11 C13
@spec
o => ensures o.type_value == 0xfc, o.key@ == pk_enc0(*self)
@fn src/v0/bitcoin/raw.rs Encodable for ProprietaryKey<Subtype>::consensus_encode
@props C11 C13
@replace self.subtype.into() ==> vx_sub_u8(self.subtype)
@fn src/v0/bitcoin/raw.rs Decodable for ProprietaryKey<Subtype>::consensus_decode
@props C11 C13
@replace Subtype::from( ==> vx_sub_of(
@entry
broadcast use ax_vec_ext;
