@onlyprops C09 C10 C11 C12 C13 C23 C24
@mod reader_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::io::{self, Read, BufRead, Write};
use bitcoin::consensus;
verus!{
// ---- readers and writers ----
#[verifier::external_trait_specification] pub trait ExRead: core::marker::MetaSized { type ExternalTraitSpecificationFor: io::Read;
  fn read_to_limit(&mut self, buf: &mut Vec<u8>, limit: u64) -> (o: Result<usize, io::Error>) ensures o is Ok, o->Ok_0 == min_int(limit as int, rem(&*old(self)).len() as int), final(buf)@ == old(buf)@ + rem(&*old(self)).take(o->Ok_0 as int), rem(&*final(self)) == rem(&*old(self)).skip(o->Ok_0 as int); }
pub open spec fn min_int(a: int, b: int) -> int { if a < b { a } else { b } }
#[verifier::external_trait_specification] pub trait ExBufRead: core::marker::MetaSized + io::Read { type ExternalTraitSpecificationFor: io::BufRead; }
#[verifier::external_trait_specification] pub trait ExWrite: core::marker::MetaSized { type ExternalTraitSpecificationFor: io::Write;
  fn write_all(&mut self, buf: &[u8]) -> (o: Result<(), io::Error>) ensures o is Ok ==> out(&*final(self)) == out(&*old(self)) + buf@, never_fails::<Self>() ==> o is Ok; }
#[verifier::external_trait_specification] pub trait ExReadExt: io::Read { type ExternalTraitSpecificationFor: consensus::ReadExt;
  fn read_u8(&mut self) -> (o: Result<u8, consensus::encode::Error>) ensures match o { Ok(x) => rem(&*old(self)).len() > 0 && x == rem(&*old(self))[0] && rem(&*final(self)) == rem(&*old(self)).skip(1), Err(_) => rem(&*old(self)).len() == 0 }; }
#[verifier::external_trait_specification] pub trait ExWriteExt: io::Write { type ExternalTraitSpecificationFor: consensus::WriteExt;
  fn emit_u8(&mut self, v: u8) -> (o: Result<(), io::Error>) ensures o is Ok ==> out(&*final(self)) == out(&*old(self)).push(v), never_fails::<Self>() ==> o is Ok; }
/// what a reader still has to give
pub uninterp spec fn rem<R: core::marker::PointeeSized>(r: &R) -> Seq<u8>;
/// what a writer has taken
pub uninterp spec fn out<W: core::marker::PointeeSized>(w: &W) -> Seq<u8>;
/// a writer that takes everything
pub uninterp spec fn never_fails<W: core::marker::PointeeSized>() -> bool;
pub broadcast axiom fn ax_out_vec(w: &Vec<u8>) ensures #[trigger] out::<Vec<u8>>(w) == w@;
pub broadcast axiom fn ax_nf_vec() ensures #[trigger] never_fails::<Vec<u8>>();
pub broadcast axiom fn ax_rem_slice(r: &&[u8]) ensures #[trigger] rem::<&[u8]>(r) == r@;
/// consensus decoding: the value at the start of the bytes and how many bytes it takes
pub uninterp spec fn cons_dec<T>(b: Seq<u8>) -> Option<(T, int)>;
pub open spec fn dec_ok<T, R: core::marker::PointeeSized>(before: &R, after: &R, o: Result<T, consensus::encode::Error>) -> bool {
    match o { Ok(x) => cons_dec::<T>(rem(before)) is Some && (cons_dec::<T>(rem(before))->0).0 == x && 0 <= (cons_dec::<T>(rem(before))->0).1 <= rem(before).len() && rem(after) == rem(before).skip((cons_dec::<T>(rem(before))->0).1),
              Err(_) => cons_dec::<T>(rem(before)) is None } }
// encoding
pub open spec fn enc_ok<T: core::marker::PointeeSized, W: core::marker::PointeeSized>(x: &T, before: &W, after: &W, o: Result<usize, io::Error>) -> bool {
    (o is Ok ==> out(after) == out(before) + cons_ser::<&T>(x) && o->Ok_0 == cons_ser::<&T>(x).len()) && (never_fails::<W>() ==> o is Ok) }
#[verifier::external_trait_specification] pub trait ExDecodable: Sized { type ExternalTraitSpecificationFor: consensus::Decodable;
  fn consensus_decode<R: Read + ?Sized>(r: &mut R) -> (o: Result<Self, consensus::encode::Error>) ensures dec_ok::<Self, R>(&*old(r), &*final(r), o); }
pub uninterp spec fn cons_ser<T>(x: T) -> Seq<u8>;
#[verifier::external_trait_specification] pub trait ExEncodable { type ExternalTraitSpecificationFor: consensus::Encodable;
  fn consensus_encode<W: Write + ?Sized>(&self, w: &mut W) -> (o: Result<usize, io::Error>) ensures enc_ok::<Self, W>(self, &*old(w), &*final(w), o); }
}
