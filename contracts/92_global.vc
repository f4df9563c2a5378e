@onlyprops C09 C10 C12 C23
@fileprops C09 C10 C23
@mod global_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::{absolute, transaction, VarInt};
use bitcoin::bip32::{self, ChildNumber, KeySource, Fingerprint, DerivationPath, Xpub};
use bitcoin::io::{self, Cursor};
use crate::raw::{Key, Pair, ProprietaryKey};
use crate::v2::Global;
use crate::v2::global;
use crate::version::Version;
#[cfg(feature = "silent-payments")] use bitcoin::CompressedPublicKey;
#[cfg(feature = "silent-payments")] use crate::v2::dleq::DleqProof;
verus!{
#[verifier::external_type_specification] pub struct ExGIPE(global::InsertPairError);
#[verifier::external_type_specification] pub struct ExGDE(global::DecodeError);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ExCursor<T>(Cursor<T>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBip32E(bip32::Error);
/// the bytes of a buffer
pub uninterp spec fn bytes_of<T>(t: T) -> Seq<u8>;
pub broadcast axiom fn ax_bytes_vec(v: Vec<u8>) ensures #[trigger] bytes_of::<Vec<u8>>(v) == v@;
pub assume_specification<T: AsRef<[u8]>> [Cursor::<T>::new](t: T) -> (r: Cursor<T>) ensures rem(&r) == bytes_of(t);
/// the first bytes, which must be there
#[verifier::external_body] pub fn vx_read4<T: AsRef<[u8]>>(r: &mut Cursor<T>, b: &mut [u8; 4]) -> (o: Result<(), io::Error>) ensures rem(&*old(r)).len() >= 4 ==> o is Ok && final(b)@ == rem(&*old(r)).take(4) && rem(&*final(r)) == rem(&*old(r)).skip(4) { use bitcoin::io::Read; r.read_exact(&mut b[..]) }
pub broadcast axiom fn def_u32_dec(b: Seq<u8>) ensures #[trigger] cons_dec::<u32>(b) == (if b.len() < 4 { None } else { Some((le4(b), 4int)) });
pub uninterp spec fn cn_of(n: u32) -> ChildNumber;
pub assume_specification [<ChildNumber as From<u32>>::from](n: u32) -> (r: ChildNumber) ensures r == cn_of(n);
pub uninterp spec fn dp_mk(s: Seq<ChildNumber>) -> DerivationPath;
pub assume_specification [<DerivationPath as From<Vec<ChildNumber>>>::from](v: Vec<ChildNumber>) -> (r: DerivationPath) ensures r == dp_mk(v@);
pub uninterp spec fn fp_mk(b: Seq<u8>) -> Fingerprint;
#[verifier::external_body] pub fn vx_fp(b: [u8; 4]) -> (r: Fingerprint) ensures r == fp_mk(b@) { Fingerprint::from(b) }
pub uninterp spec fn xpub_of(b: Seq<u8>) -> Option<Xpub>;
pub assume_specification [Xpub::decode](b: &[u8]) -> (r: Result<Xpub, bip32::Error>) ensures match r { Ok(x) => xpub_of(b@) == Some(x), Err(_) => xpub_of(b@) is None };
/// the children of a path, four bytes each
pub open spec fn kids(b: Seq<u8>, n: int) -> Seq<ChildNumber> { Seq::new(n as nat, |i: int| cn_of(le4(b.skip(4 + 4 * i)))) }
pub proof fn lem_kids(b: Seq<u8>, n: int) requires 0 <= n ensures kids(b, n + 1) == kids(b, n).push(cn_of(le4(b.skip(4 + 4 * n)))) { assert(kids(b, n + 1) =~= kids(b, n).push(cn_of(le4(b.skip(4 + 4 * n))))); }

// ---- the kinds of fields ----
/// a consensus value of n bytes
pub open spec fn vf_fix<T>(n: int) -> spec_fn(Pair) -> Option<T> { |p: Pair| if p.value@.len() == n { match cons_dec::<T>(p.value@) { Some((x, _)) => Some(x), None => None } } else { None } }
/// the version: it must be 2
pub open spec fn vf_ver() -> spec_fn(Pair) -> Option<u32> { |p: Pair| if p.value@.len() == 4 && le4(p.value@) == 2 { Some(2) } else { None } }
/// a count (what follows it in the value is not looked at)
pub open spec fn vf_vi() -> spec_fn(Pair) -> Option<u64> { |p: Pair| match cons_dec::<VarInt>(p.value@) { Some((v, _)) => Some(v.0), None => None } }
pub open spec fn kf_xpub() -> spec_fn(Pair) -> Option<Xpub> { |p: Pair| if p.key.key@.len() > 0 { xpub_of(p.key.key@) } else { None } }
pub open spec fn vf_xpub() -> spec_fn(Pair) -> Option<KeySource> { |p: Pair| if p.value@.len() >= 4 && p.value@.len() % 4 == 0 { Some((fp_mk(p.value@.take(4)), dp_mk(kids(p.value@, p.value@.len() as int / 4 - 1)))) } else { None } }
/// keys of unknown types; the unsigned transaction of version 0 is not one of them
pub open spec fn kf_gunk() -> spec_fn(Pair) -> Option<Key> { |p: Pair| if p.key.type_value != 0 { Some(p.key) } else { None } }
pub open spec fn gl_sp_t(c: u8) -> bool { sp_on() && (c == 0x07 || c == 0x08) }
pub open spec fn gl_known(c: u8) -> bool { c == 0xfb || c == 0x01 || c == 0x02 || c == 0x03 || c == 0x04 || c == 0x05 || c == 0x06 || c == 0xfc || gl_sp_t(c) }
pub open spec fn sel_gl_unk() -> spec_fn(Pair) -> bool { |p: Pair| !gl_known(p.key.type_value) }

// ---- what was read so far ----
#[cfg(feature = "silent-payments")] pub ghost struct GlSp { pub es: Map<CompressedPublicKey, CompressedPublicKey>, pub dp: Map<CompressedPublicKey, DleqProof> }
#[cfg(not(feature = "silent-payments"))] pub ghost struct GlSp { pub none: () }
pub ghost struct Gl { pub v: Option<u32>, pub tv: Option<transaction::Version>, pub fb: Option<absolute::LockTime>, pub mf: Option<u8>, pub ic: Option<u64>, pub oc: Option<u64>, pub xp: Map<Xpub, KeySource>, pub sp: GlSp, pub pr: Map<ProprietaryKey, Vec<u8>>, pub un: Map<Key, Vec<u8>> }
pub open spec fn gl_ver(v: Option<Version>) -> Option<u32> { match v { Some(x) => Some(x.vx()), None => None } }
#[cfg(feature = "silent-payments")] verus!{
pub open spec fn gl_sp_ok(x: Gl, p: Pair) -> bool { if p.key.type_value == 0x07 { map_ok::<CompressedPublicKey, CompressedPublicKey>(x.sp.es, p) } else { map_ok::<CompressedPublicKey, DleqProof>(x.sp.dp, p) } }
pub open spec fn gl_sp_ins(x: Gl, p: Pair, y: Gl) -> bool { if p.key.type_value == 0x07 { y == (Gl { sp: GlSp { es: y.sp.es, ..x.sp }, ..x }) && map_set(x.sp.es, p, y.sp.es) } else { y == (Gl { sp: GlSp { dp: y.sp.dp, ..x.sp }, ..x }) && map_set(x.sp.dp, p, y.sp.dp) } }
pub open spec fn gl_sp_exact(x: Gl, ps: Seq<Pair>) -> bool { x_map::<CompressedPublicKey, CompressedPublicKey>(x.sp.es, 0x07, ps) && x_map::<CompressedPublicKey, DleqProof>(x.sp.dp, 0x08, ps) }
pub open spec fn gl_sp_fin(x: Gl) -> bool { x.sp.es.is_empty() == x.sp.dp.is_empty() }
pub open spec fn gl_sp_res(x: Gl, y: Global) -> bool { x.sp.es == y.sp_ecdh_shares@ && x.sp.dp == y.sp_dleq_proofs@ }
pub proof fn lem_gl_sp_eq(x: Gl, y: Gl, ps: Seq<Pair>) requires gl_sp_exact(x, ps), gl_sp_exact(y, ps) ensures x.sp == y.sp {
    lem_gen_eq(x.sp.es, y.sp.es, sel_t(0x07), kf_de::<CompressedPublicKey>(), vf_de::<CompressedPublicKey>(), ps); lem_gen_eq(x.sp.dp, y.sp.dp, sel_t(0x08), kf_de::<CompressedPublicKey>(), vf_de::<DleqProof>(), ps); }
pub open spec fn gl_mk(v: Option<Version>, tv: Option<transaction::Version>, fb: Option<absolute::LockTime>, mf: Option<u8>, ic: Option<u64>, oc: Option<u64>, xp: Map<Xpub, KeySource>, es: Map<CompressedPublicKey, CompressedPublicKey>, dp: Map<CompressedPublicKey, DleqProof>, pr: Map<ProprietaryKey, Vec<u8>>, un: Map<Key, Vec<u8>>) -> Gl { Gl { v: gl_ver(v), tv, fb, mf, ic, oc, xp, sp: GlSp { es, dp }, pr, un } }
pub open spec fn gl_sp_from(y: Global) -> GlSp { GlSp { es: y.sp_ecdh_shares@, dp: y.sp_dleq_proofs@ } }
}
#[cfg(not(feature = "silent-payments"))] verus!{
pub open spec fn gl_sp_ok(x: Gl, p: Pair) -> bool { true }
pub open spec fn gl_sp_ins(x: Gl, p: Pair, y: Gl) -> bool { true }
pub open spec fn gl_sp_exact(x: Gl, ps: Seq<Pair>) -> bool { true }
pub open spec fn gl_sp_fin(x: Gl) -> bool { true }
pub open spec fn gl_sp_res(x: Gl, y: Global) -> bool { true }
pub proof fn lem_gl_sp_eq(x: Gl, y: Gl, ps: Seq<Pair>) ensures x.sp == y.sp { }
pub open spec fn gl_mk(v: Option<Version>, tv: Option<transaction::Version>, fb: Option<absolute::LockTime>, mf: Option<u8>, ic: Option<u64>, oc: Option<u64>, xp: Map<Xpub, KeySource>, pr: Map<ProprietaryKey, Vec<u8>>, un: Map<Key, Vec<u8>>) -> Gl { Gl { v: gl_ver(v), tv, fb, mf, ic, oc, xp, sp: GlSp { none: () }, pr, un } }
pub open spec fn gl_sp_from(y: Global) -> GlSp { GlSp { none: () } }
}
/// when the global map takes a pair
pub open spec fn gl_ok(x: Gl, p: Pair) -> bool {
    match p.key.type_value {
        0xfb => x.v is None && kf_opt()(p) is Some && vf_ver()(p) is Some,
        0x02 => x.tv is None && kf_opt()(p) is Some && vf_fix::<transaction::Version>(4)(p) is Some,
        0x03 => x.fb is None && kf_opt()(p) is Some && vf_fix::<absolute::LockTime>(4)(p) is Some,
        0x04 => x.ic is None && kf_opt()(p) is Some && vf_vi()(p) is Some,
        0x05 => x.oc is None && kf_opt()(p) is Some && vf_vi()(p) is Some,
        0x06 => x.mf is None && kf_opt()(p) is Some && vf_fix::<u8>(1)(p) is Some,
        0x01 => kf_xpub()(p) is Some && vf_xpub()(p) is Some && !x.xp.contains_key(kf_xpub()(p)->0),
        0xfc => prop_ok(x.pr, p),
        0x00 => false,
        c => if gl_sp_t(c) { gl_sp_ok(x, p) } else { !x.un.contains_key(p.key) },
    }
}
/// the fields after the pair
pub open spec fn gl_ins(x: Gl, p: Pair, y: Gl) -> bool {
    match p.key.type_value {
        0xfb => y == (Gl { v: vf_ver()(p), ..x }),
        0x02 => y == (Gl { tv: vf_fix::<transaction::Version>(4)(p), ..x }),
        0x03 => y == (Gl { fb: vf_fix::<absolute::LockTime>(4)(p), ..x }),
        0x04 => y == (Gl { ic: vf_vi()(p), ..x }),
        0x05 => y == (Gl { oc: vf_vi()(p), ..x }),
        0x06 => y == (Gl { mf: vf_fix::<u8>(1)(p), ..x }),
        0x01 => y == (Gl { xp: x.xp.insert(kf_xpub()(p)->0, vf_xpub()(p)->0), ..x }),
        0xfc => y == (Gl { pr: y.pr, ..x }) && prop_set(x.pr, p, y.pr),
        c => if gl_sp_t(c) { gl_sp_ins(x, p, y) } else { y == (Gl { un: x.un.insert(p.key, p.value), ..x }) },
    }
}
/// the fields are exactly what the pairs say
pub open spec fn gl_exact(x: Gl, ps: Seq<Pair>) -> bool {
    x_gen(opt_map(x.v), sel_t(0xfb), kf_opt(), vf_ver(), ps)
    && x_gen(opt_map(x.tv), sel_t(0x02), kf_opt(), vf_fix::<transaction::Version>(4), ps)
    && x_gen(opt_map(x.fb), sel_t(0x03), kf_opt(), vf_fix::<absolute::LockTime>(4), ps)
    && x_gen(opt_map(x.ic), sel_t(0x04), kf_opt(), vf_vi(), ps)
    && x_gen(opt_map(x.oc), sel_t(0x05), kf_opt(), vf_vi(), ps)
    && x_gen(opt_map(x.mf), sel_t(0x06), kf_opt(), vf_fix::<u8>(1), ps)
    && x_gen(x.xp, sel_t(0x01), kf_xpub(), vf_xpub(), ps)
    && x_prop(x.pr, 0xfc, ps)
    && x_gen(x.un, sel_gl_unk(), kf_gunk(), vf_any(), ps)
    && gl_sp_exact(x, ps)
}
pub proof fn lem_gl_push(x: Gl, y: Gl, ps: Seq<Pair>, p: Pair) requires gl_exact(x, ps), gl_ok(x, p), gl_ins(x, p, y) ensures gl_exact(y, ps.push(p)) { broadcast use lem_gen_push_b; }
pub proof fn lem_gl_can(x: Gl, y: Gl, qs: Seq<Pair>, k: int) requires 0 <= k < qs.len(), gl_exact(x, qs.take(k)), gl_exact(y, qs) ensures gl_ok(x, qs[k]) { broadcast use lem_gen_can_b; }
pub proof fn lem_gl_eq(x: Gl, y: Gl, ps: Seq<Pair>) requires gl_exact(x, ps), gl_exact(y, ps) ensures x == y {
    lem_gen_eq(opt_map(x.v), opt_map(y.v), sel_t(0xfb), kf_opt(), vf_ver(), ps); lem_opt_map(x.v, y.v);
    lem_gen_eq(opt_map(x.tv), opt_map(y.tv), sel_t(0x02), kf_opt(), vf_fix::<transaction::Version>(4), ps); lem_opt_map(x.tv, y.tv);
    lem_gen_eq(opt_map(x.fb), opt_map(y.fb), sel_t(0x03), kf_opt(), vf_fix::<absolute::LockTime>(4), ps); lem_opt_map(x.fb, y.fb);
    lem_gen_eq(opt_map(x.ic), opt_map(y.ic), sel_t(0x04), kf_opt(), vf_vi(), ps); lem_opt_map(x.ic, y.ic);
    lem_gen_eq(opt_map(x.oc), opt_map(y.oc), sel_t(0x05), kf_opt(), vf_vi(), ps); lem_opt_map(x.oc, y.oc);
    lem_gen_eq(opt_map(x.mf), opt_map(y.mf), sel_t(0x06), kf_opt(), vf_fix::<u8>(1), ps); lem_opt_map(x.mf, y.mf);
    lem_gen_eq(x.xp, y.xp, sel_t(0x01), kf_xpub(), vf_xpub(), ps); lem_gen_eq(x.pr, y.pr, sel_t(0xfc), kf_prop(), vf_any(), ps); lem_gen_eq(x.un, y.un, sel_gl_unk(), kf_gunk(), vf_any(), ps); lem_gl_sp_eq(x, y, ps); }
/// what is needed at the end: the versions and the counts, which fit; shares come with proofs
pub open spec fn gl_fin(x: Gl) -> bool { x.v is Some && x.tv is Some && x.ic is Some && x.oc is Some && x.ic->0 <= usize::MAX && x.oc->0 <= usize::MAX && gl_sp_fin(x) }
/// the map that the fields make
pub open spec fn gl_res(x: Gl, y: Global) -> bool {
    x.v == Some(y.version.vx()) && x.tv == Some(y.tx_version) && x.fb == y.fallback_lock_time && y.tx_modifiable_flags == (match x.mf { Some(f) => f, None => 0u8 }) && x.ic == Some(y.input_count as u64) && x.oc == Some(y.output_count as u64)
    && x.xp == y.xpubs@ && x.pr == y.proprietaries@ && x.un == y.unknowns@ && gl_sp_res(x, y) }
// ---- reading ----
pub open spec fn gl_part(b: Seq<u8>, x: Gl, rest: Seq<u8>) -> bool { exists|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + rest && gl_exact(x, ps) }
/// b is a map that stands for y, and after is what follows it
pub open spec fn gl_map(b: Seq<u8>, y: Global, after: Seq<u8>) -> bool { exists|ps: Seq<Pair>, x: Gl| #![trigger enc_all(ps), gl_res(x, y)] keys_small(ps) && b == enc_all(ps) + (seq![0u8] + after) && gl_exact(x, ps) && gl_fin(x) && gl_res(x, y) }
/// b does not start with a map (of pairs small enough) that stands for anything
pub open spec fn gl_none(b: Seq<u8>) -> bool { forall|qs: Seq<Pair>, y: Gl, t: Seq<u8>| #![trigger gl_exact(y, qs), seq![0u8] + t] all_small(qs) && gl_exact(y, qs) && gl_fin(y) ==> b != enc_all(qs) + (seq![0u8] + t) }
pub broadcast proof fn lem_gl_start(x: Gl, b: Seq<u8>) requires x.v is None, x.tv is None, x.fb is None, x.mf is None, x.ic is None, x.oc is None, x.xp == Map::<Xpub, KeySource>::empty(), x.pr == Map::<ProprietaryKey, Vec<u8>>::empty(), x.un == Map::<Key, Vec<u8>>::empty(), gl_sp_exact(x, Seq::<Pair>::empty())
    ensures #[trigger] gl_part(b, x, b) { broadcast use lem_gen_empty_b; let ps = Seq::<Pair>::empty(); assert(b =~= enc_all(ps) + b); assert(gl_exact(x, ps)); }
pub broadcast proof fn lem_gl_step(b: Seq<u8>, x: Gl, p: Pair, y: Gl, rest: Seq<u8>)
    requires #[trigger] gl_part(b, x, pair_enc(p) + rest), key_small(p.key), gl_ok(x, p), #[trigger] gl_ins(x, p, y) ensures gl_part(b, y, rest)
{ let ps = choose|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + (pair_enc(p) + rest) && gl_exact(x, ps); lem_gl_push(x, y, ps, p); lem_enc_push(ps, p); let qs = ps.push(p); assert(b =~= enc_all(qs) + rest);
  assert forall|k: int| 0 <= k < qs.len() implies key_small((#[trigger] qs[k]).key) by { if k < ps.len() { assert(qs[k] == ps[k]); } } }
/// the map goes wrong: the next pair cannot be read or cannot be taken, or it ends too early
pub proof fn lem_gl_bad(b: Seq<u8>, x: Gl, rest: Seq<u8>)
    requires gl_part(b, x, rest), (map_end(rest) ==> !gl_fin(x)), forall|p: Pair| pair_small(p) && (#[trigger] pair_enc(p)).is_prefix_of(rest) ==> !gl_ok(x, p) ensures gl_none(b)
{ let ps = choose|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + rest && gl_exact(x, ps);
  assert forall|qs: Seq<Pair>, y: Gl, t: Seq<u8>| #![trigger gl_exact(y, qs), seq![0u8] + t] all_small(qs) && gl_exact(y, qs) && gl_fin(y) implies b != enc_all(qs) + (seq![0u8] + t) by {
    if b == enc_all(qs) + (seq![0u8] + t) {
      let k = ps.len() as int; let z = seq![0u8] + t; assert(keys_small(qs)); lem_align(ps, qs, rest, t, k); assert(ps.take(k) =~= ps); assert(from(ps, k, rest) == rest);
      if k < qs.len() { lem_gl_can(x, y, qs, k); assert(pair_enc(qs[k]) =~= rest.take(pair_enc(qs[k]).len() as int)); assert(pair_enc(qs[k]).is_prefix_of(rest)); }
      else { assert(map_end(rest)); assert(qs.take(k) =~= qs); lem_gl_eq(x, y, qs); }
    } } }
pub broadcast proof fn lem_gl_bad_pair(b: Seq<u8>, x: Gl, p: Pair, rest: Seq<u8>)
    requires #[trigger] gl_part(b, x, pair_enc(p) + rest), key_small(p.key), !gl_ok(x, p) ensures gl_none(b)
{ let r = pair_enc(p) + rest; lem_pair_not_end(p, rest); assert forall|q: Pair| pair_small(q) && (#[trigger] pair_enc(q)).is_prefix_of(r) implies !gl_ok(x, q) by { assert(pair_enc(q) =~= r.take(pair_enc(q).len() as int)); assert(r =~= pair_enc(q) + r.skip(pair_enc(q).len() as int)); lem_pair_uniq(p, q, rest, r.skip(pair_enc(q).len() as int)); } lem_gl_bad(b, x, r); }
pub broadcast proof fn lem_gl_bad_read(b: Seq<u8>, x: Gl, rest: Seq<u8>)
    requires #[trigger] gl_part(b, x, rest), !map_end(rest), forall|p: Pair| pair_small(p) ==> !(#[trigger] pair_enc(p)).is_prefix_of(rest) ensures gl_none(b)
{ lem_gl_bad(b, x, rest); }
/// the end of the map was read
pub open spec fn gl_done(b: Seq<u8>, x: Gl, after: Seq<u8>) -> bool { exists|r: Seq<u8>| #![trigger r.skip(1)] gl_part(b, x, r) && map_end(r) && after == r.skip(1) }
pub broadcast proof fn lem_gl_done(b: Seq<u8>, x: Gl, r: Seq<u8>) requires #[trigger] gl_part(b, x, r), map_end(r) ensures gl_done(b, x, #[trigger] r.skip(1)) { }
pub broadcast proof fn lem_gl_bad_end(b: Seq<u8>, x: Gl, after: Seq<u8>) requires #[trigger] gl_done(b, x, after), !gl_fin(x) ensures gl_none(b)
{ let rest = choose|r: Seq<u8>| #![trigger r.skip(1)] gl_part(b, x, r) && map_end(r) && after == r.skip(1);
  assert forall|p: Pair| pair_small(p) && (#[trigger] pair_enc(p)).is_prefix_of(rest) implies false by { assert(pair_enc(p) =~= rest.take(pair_enc(p).len() as int)); assert(rest =~= pair_enc(p) + rest.skip(pair_enc(p).len() as int)); lem_pair_not_end(p, rest.skip(pair_enc(p).len() as int)); } lem_gl_bad(b, x, rest); }
pub broadcast proof fn lem_gl_end(b: Seq<u8>, x: Gl, after: Seq<u8>, y: Global) requires #[trigger] gl_done(b, x, after), gl_fin(x), gl_res(x, y) ensures #[trigger] gl_map(b, y, after)
{ let r = choose|r: Seq<u8>| #![trigger r.skip(1)] gl_part(b, x, r) && map_end(r) && after == r.skip(1); let ps = choose|ps: Seq<Pair>| #![trigger enc_all(ps)] keys_small(ps) && b == enc_all(ps) + r && gl_exact(x, ps); assert(r =~= seq![0u8] + r.skip(1)); }
pub broadcast group gl_lemmas { lem_gl_step, lem_gl_done, lem_gl_bad_pair, lem_gl_bad_read, lem_gl_bad_end, lem_gl_end, lem_gl_start }
pub proof fn lem_prop_empty(b: Seq<u8>) requires b.len() == 0 ensures cons_de::<ProprietaryKey>(b) is None { broadcast use ax_pk_de, def_pk_dec; ax_vec_dec(b); match cons_dec::<Vec<u8>>(b) { Some((v, n)) => { assert(b.skip(n).len() == 0); } None => {} } }
pub broadcast proof fn lem_prop_empty_b(b: Seq<u8>) requires b.len() == 0 ensures #[trigger] cons_de::<ProprietaryKey>(b) is None { lem_prop_empty(b); }
pub broadcast proof fn lem_kids_b(b: Seq<u8>, n: int, c: ChildNumber) requires 0 <= n, c == cn_of(le4(b.skip(4 + 4 * n))) ensures #[trigger] kids(b, n).push(c) == kids(b, n + 1) { lem_kids(b, n); }
/// the keys of the xpub map are ordered
pub broadcast axiom fn ax_xpub_order() ensures #[trigger] vstd::std_specs::btree::key_obeys_cmp_spec::<Xpub>();
pub broadcast group gl_pair { ax_xpub_order, lem_kids_b, lem_prop_empty_b, ax_bytes_vec, def_u32_dec }
}
@const src/consts.rs PSBT_GLOBAL_SP_ECDH_SHARE
@spec
ensures PSBT_GLOBAL_SP_ECDH_SHARE == 0x07
@const src/consts.rs PSBT_GLOBAL_SP_DLEQ
@spec
ensures PSBT_GLOBAL_SP_DLEQ == 0x08
@append src/version.rs
impl vstd::std_specs::convert::TryFromSpecImpl<u32> for Version { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(k: u32) -> Result<Self, UnsupportedVersionError> { arbitrary() } }
@fn src/version.rs TryFrom<u32> for Version::try_from
@spec
r => ensures match r { Ok(x) => (n == 0 || n == 2) && x.vx() == n, Err(_) => n != 0 && n != 2 }
@append src/v2/map/global.rs
impl vstd::std_specs::convert::FromSpecImpl<serialize::Error> for InsertPairError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: serialize::Error) -> Self { Self::Deser(e) } }
impl vstd::std_specs::convert::FromSpecImpl<consensus::Error> for InsertPairError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: consensus::Error) -> Self { Self::Consensus(e) } }
impl vstd::std_specs::convert::FromSpecImpl<bip32::Error> for InsertPairError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: bip32::Error) -> Self { Self::Bip32(e) } }
impl vstd::std_specs::convert::FromSpecImpl<InsertPairError> for DecodeError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: InsertPairError) -> Self { Self::InsertPair(e) } }
@fn src/v2/map/global.rs From<serialize::Error> for InsertPairError::from
@fn src/v2/map/global.rs From<consensus::Error> for InsertPairError::from
@fn src/v2/map/global.rs From<bip32::Error> for InsertPairError::from
@fn src/v2/map/global.rs From<InsertPairError> for DecodeError::from
@fn src/v2/map/global.rs vx_insert_pair
@props C09 C10 C12 C23
@rewrite decoder.read_exact(&mut fingerprint[..]) ==> vx_read4(&mut decoder, &mut fingerprint)
@rewrite Fingerprint::from( ==> vx_fp(
@rewrite .clone() ==> .vx_clone()
@closure 1
vx_r: (InsertPairError) => ensures true
@decl
let ghost vx_v = pair.value@;
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@loop 1
invariant_except_break path@ == kids(vx_v, path@.len() as int), rem(&decoder) == vx_v.skip(4 + 4 * path@.len() as int), 4 + 4 * path@.len() <= vx_v.len(), vx_v.len() % 4 == 0 ensures path@ == kids(vx_v, vx_v.len() as int / 4 - 1) decreases rem(&decoder).len()
@spec
#!silent-payments r => ensures r is Ok <==> gl_ok(gl_mk(*old(version), *old(tx_version), *old(fallback_lock_time), *old(tx_modifiable_flags), *old(input_count), *old(output_count), old(xpubs)@, old(proprietaries)@, old(unknowns)@), pair), r is Ok ==> gl_ins(gl_mk(*old(version), *old(tx_version), *old(fallback_lock_time), *old(tx_modifiable_flags), *old(input_count), *old(output_count), old(xpubs)@, old(proprietaries)@, old(unknowns)@), pair, gl_mk(*final(version), *final(tx_version), *final(fallback_lock_time), *final(tx_modifiable_flags), *final(input_count), *final(output_count), final(xpubs)@, final(proprietaries)@, final(unknowns)@))
#?silent-payments r => ensures r is Ok <==> gl_ok(gl_mk(*old(version), *old(tx_version), *old(fallback_lock_time), *old(tx_modifiable_flags), *old(input_count), *old(output_count), old(xpubs)@, old(sp_ecdh_shares)@, old(sp_dleq_proofs)@, old(proprietaries)@, old(unknowns)@), pair), r is Ok ==> gl_ins(gl_mk(*old(version), *old(tx_version), *old(fallback_lock_time), *old(tx_modifiable_flags), *old(input_count), *old(output_count), old(xpubs)@, old(sp_ecdh_shares)@, old(sp_dleq_proofs)@, old(proprietaries)@, old(unknowns)@), pair, gl_mk(*final(version), *final(tx_version), *final(fallback_lock_time), *final(tx_modifiable_flags), *final(input_count), *final(output_count), final(xpubs)@, final(sp_ecdh_shares)@, final(sp_dleq_proofs)@, final(proprietaries)@, final(unknowns)@))
@entry
broadcast use gl_pair; assert(vstd::std_specs::btree::key_obeys_cmp_spec::<Xpub>());
@fn src/v2/map/global.rs Global::decode
@props C09 C10 C12 C23
@liftclosure insert_pair Result<(), InsertPairError>
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry
broadcast use gl_lemmas, lem_gen_empty_b;
@closure 1
vx_r: (DecodeError) => requires input_count is Some
@closure 2
vx_r: (DecodeError) => requires output_count is Some
@spec
o => ensures o is Ok ==> gl_map(rem(&*old(r)), o->Ok_0, rem(&*final(r))), o is Err ==> gl_none(rem(&*old(r)))
@loop 1
#!silent-payments invariant_except_break gl_part(rem(&*old(r)), gl_mk(version, tx_version, fallback_lock_time, tx_modifiable_flags, input_count, output_count, xpubs@, proprietaries@, unknowns@), rem(&*r)) ensures gl_done(rem(&*old(r)), gl_mk(version, tx_version, fallback_lock_time, tx_modifiable_flags, input_count, output_count, xpubs@, proprietaries@, unknowns@), rem(&*r)) decreases rem(&*r).len()
#?silent-payments invariant_except_break gl_part(rem(&*old(r)), gl_mk(version, tx_version, fallback_lock_time, tx_modifiable_flags, input_count, output_count, xpubs@, sp_ecdh_shares@, sp_dleq_proofs@, proprietaries@, unknowns@), rem(&*r)) ensures gl_done(rem(&*old(r)), gl_mk(version, tx_version, fallback_lock_time, tx_modifiable_flags, input_count, output_count, xpubs@, sp_ecdh_shares@, sp_dleq_proofs@, proprietaries@, unknowns@), rem(&*r)) decreases rem(&*r).len()
