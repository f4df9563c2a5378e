//! C09-C11, C13, C23, C24: encodings. The bytes are made and taken apart by enc.rs, never by the crate.
use super::note;
use super::tx::{show, show0};
use crate::enc::{self, hex, join, pairs, PMap, Pairs};
use crate::gen::{self, *};
use crate::rng::Rng;
use crate::{ck, ok, trivial, R};
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::{OutPoint, ScriptBuf, TxIn, Witness};
use psbt_v2::{v0, v2};

const SP: bool = cfg!(feature = "silent-payments");
type Maps = Vec<Pairs>;
fn maps2(p: &v2::Psbt) -> Maps { enc::maps2(p).iter().map(pairs).collect() }
fn maps0(p: &v0::Psbt) -> Maps { enc::maps0(p).iter().map(pairs).collect() }
fn pmap(p: &Pairs) -> Option<PMap> { let mut m = PMap::new(); for (t, k, v) in p { if m.insert((*t, k.clone()), v.clone()).is_some() { return None } } Some(m) }

/// the maps in the bytes are those expected, whatever the order of their pairs
fn same_maps(bytes: &[u8], want: &[PMap], optional: &dyn Fn(usize, u8, &[u8]) -> bool) -> Result<(), String> {
    let got = enc::split(bytes).ok_or_else(|| format!("serialized bytes are not maps of pairs: {}", hex(bytes)))?;
    ck!(got.len() == want.len(), "{} maps serialized, expected {}: {}", got.len(), want.len(), hex(bytes));
    for (n, (g, w)) in got.iter().zip(want).enumerate() {
        let g = pmap(g).ok_or_else(|| format!("repeated key in map {n}: {}", hex(bytes)))?;
        for (k, v) in w { if !optional(n, k.0, v) || g.contains_key(k) { ck!(g.get(k) == Some(v), "map {n} key {:02x}{}: serialized {:?}, expected {}: {}", k.0, hex(&k.1), g.get(k).map(|x| hex(x)), hex(v), hex(bytes)); } }
        for (k, v) in &g { ck!(w.contains_key(k), "map {n} has a pair {:02x}{}={} too many: {}", k.0, hex(&k.1), hex(v), hex(bytes)); }
    }
    Ok(())
}
pub fn c09(r: &mut Rng) -> R {
    let p = psbt2(r);
    note(|| show(&p));
    let b = p.serialize();
    same_maps(&b, &enc::maps2(&p), &|n, t, v| n == 0 && t == 6 && v == [0])?;
    let q = v2::Psbt::deserialize(&b).map_err(|e| format!("{e:?}: {}", hex(&b)))?;
    ck!(q == p, "{} deserialized to {}", hex(&b), show(&q));
    ck!(p.serialize_hex() == hex(&b), "serialize_hex differs from serialize");
    let s = p.to_string();
    { use bitcoin::base64::Engine; ck!(bitcoin::base64::prelude::BASE64_STANDARD.decode(&s).ok() == Some(b.clone()), "Display is not the base64 of serialize: {s}"); }
    match s.parse::<v2::Psbt>() { Ok(q) => ck!(q == p, "base64 {s} parsed to {}", show(&q)), Err(e) => return Err(format!("{e:?}: {s}")) }
    // the bytes a different encoder makes are read the same way
    let e = join(&maps2(&p));
    match v2::Psbt::deserialize(&e) { Ok(q) => ck!(q == p, "{} deserialized to {}", hex(&e), show(&q)), Err(x) => return Err(format!("{x:?}: {}", hex(&e))) }
    ok(hex(&b))
}

// ---- structural mutations whose verdict is known ----
#[derive(Clone, Copy, PartialEq, Debug)]
enum M { Global, Input, Output }
fn which(n: usize, ni: usize) -> M { if n == 0 { M::Global } else if n <= ni { M::Input } else { M::Output } }
fn unkeyed2(m: M) -> &'static [u8] { match m { M::Global => &[0xfb, 2, 3, 4, 5, 6], M::Input => &[0, 1, 3, 4, 5, 7, 8, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x17, 0x18], M::Output => if SP { &[0, 1, 3, 4, 5, 6, 9, 0x0a] } else { &[0, 1, 3, 4, 5, 6] } } }
fn unkeyed0(m: M) -> &'static [u8] { match m { M::Global => &[0, 0xfb], M::Input => &[0, 1, 3, 4, 5, 7, 8, 0x13, 0x17, 0x18], M::Output => &[0, 1, 5, 6] } }
fn keyed(m: M) -> &'static [u8] { match m { M::Global => if SP { &[1, 0xfc, 7, 8] } else { &[1, 0xfc] }, M::Input => if SP { &[2, 6, 0x0a, 0x0b, 0x0c, 0x0d, 0x14, 0x15, 0x16, 0xfc, 0x1d, 0x1e] } else { &[2, 6, 0x0a, 0x0b, 0x0c, 0x0d, 0x14, 0x15, 0x16, 0xfc] }, M::Output => &[2, 7, 0xfc] } }
fn fixed2(m: M) -> &'static [u8] { match m { M::Global => if SP { &[0xfb, 2, 3, 6, 7, 8] } else { &[0xfb, 2, 3, 6] }, M::Input => if SP { &[3, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x17, 0x18, 0x1d, 0x1e] } else { &[3, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x17, 0x18] }, M::Output => if SP { &[3, 5, 9, 0x0a] } else { &[3, 5] } } }
fn fixed0(m: M) -> &'static [u8] { match m { M::Global => &[0xfb], M::Input => &[3, 0x17, 0x18], M::Output => &[5] } }
/// a valid value for an unkeyed type, to add key data to or to repeat
fn find(maps: &Maps, n: usize, t: u8) -> Option<usize> { maps[n].iter().position(|p| p.0 == t) }
/// changes one thing; None if there is nothing of the kind in this PSBT
fn mutate(r: &mut Rng, maps: &mut Maps, ni: usize, v: u8) -> Option<String> {
    let n = r.below(maps.len()); let m = which(n, ni);
    let (un, fx) = if v == 2 { (unkeyed2(m), fixed2(m)) } else { (unkeyed0(m), fixed0(m)) };
    Some(match r.below(8) {
        0 => { if maps[n].is_empty() { return None } let k = r.below(maps[n].len()); let mut p = maps[n][k].clone(); if r.chance(1, 4) { let x = r.below(40); p.2 = r.bytes(x); } let at = r.below(maps[n].len() + 1); maps[n].insert(at, p.clone()); format!("repeated key {:02x}{} in {m:?}", p.0, hex(&p.1)) }
        1 => { // key data where none belongs: on the pair itself or on another of that type
            let t = *r.pick(un); let kd = r.range(1, 34); let kd = r.bytes(kd);
            match find(maps, n, t) { Some(i) => { if r.bool() { maps[n][i].1 = kd.clone() } else { let mut p = maps[n][i].clone(); p.1 = kd.clone(); let at = r.below(maps[n].len() + 1); maps[n].insert(at, p); } } None => { let x = *r.pick(&[0usize, 1, 4, 8, 32, 33, 64]); let val = r.bytes(x); let at = r.below(maps[n].len() + 1); maps[n].insert(at, (t, kd.clone(), val)); } }
            format!("key data {} on type {t:02x} in {m:?}", hex(&kd)) }
        2 => { // no key data where it is needed
            let mut t = *r.pick(keyed(m)); if v == 0 { while matches!((m, t), (M::Global, 7 | 8) | (M::Input, 0x1d | 0x1e)) { t = *r.pick(keyed(m)); } }
            match find(maps, n, t) { Some(i) => maps[n][i].1 = vec![], None => { let x = *r.pick(&[0usize, 1, 4, 8, 32, 33, 64]); let val = r.bytes(x); let at = r.below(maps[n].len() + 1); maps[n].insert(at, (t, vec![], val)); } }
            format!("no key data on type {t:02x} in {m:?}") }
        3 => { let req: &[u8] = if v == 2 { match m { M::Global => &[0xfb, 2, 4, 5], M::Input => &[0x0e, 0x0f], M::Output => if SP { &[3] } else { &[3, 4] } } } else if m == M::Global { &[0] } else { return None };
            let t = *r.pick(req); let i = find(maps, n, t)?; maps[n].remove(i); format!("type {t:02x} missing in {m:?}") }
        4 => { // wrong length
            let t = *r.pick(fx); let i = find(maps, n, t)?; let val = &mut maps[n][i].2;
            match r.below(4) { 0 => { val.pop(); } 1 => val.push(r.u8()), 2 => { let x = r.below(val.len()); val.truncate(x) } _ => { let x = r.range(1, 40); let b = r.bytes(x); val.extend(b) } }
            format!("type {t:02x} with a value of {} bytes in {m:?}", val.len()) }
        5 => { // wrong key length
            let t = *r.pick(keyed(m)); if t == 0xfc { return None } let i = find(maps, n, t)?; let k = &mut maps[n][i].1;
            if r.bool() { k.pop(); } else { k.push(r.u8()); }
            format!("type {t:02x} with {} bytes of key data in {m:?}", k.len()) }
        6 => { if v == 2 { let i = find(maps, 0, 0xfb)?; let x = match r.below(5) { 0 => 0, 1 => 1, 2 => 3, 3 => 0x0200_0000, _ => r.edge_u32() }; if x == 2 { return None } maps[0][i].2 = x.to_le_bytes().to_vec(); format!("version {x}") }
            else { let x = match r.below(3) { 0 => 1, 1 => 2, _ => r.edge_u32() | 4 }; match find(maps, 0, 0xfb) { Some(i) => maps[0][i].2 = x.to_le_bytes().to_vec(), None => maps[0].push((0xfb, vec![], x.to_le_bytes().to_vec())) } format!("version {x}") } }
        _ => if v == 2 { match r.below(2) {
                0 => { let t = unsigned_tx(r); let k = if r.chance(1, 4) { r.bytes(1) } else { vec![] }; let at = r.below(maps[0].len() + 1); maps[0].insert(at, (0, k, enc::legacy_tx(&t))); "an unsigned transaction".into() }
                _ => { let t = *r.pick(&[4u8, 5]); let i = find(maps, 0, t)?; let c = enc::read_compact(&mut &maps[0][i].2[..])?; let add = match r.below(3) { 0 => 1, 1 => r.range(1, 300) as u64, _ => r.next() >> 1 }; maps[0][i].2 = enc::compact(c.checked_add(add)?); format!("count {t:02x} raised by {add}") } } }
             else { // keys only version 2 allows
                let ts: &[u8] = match m { M::Global => &[2, 3, 4, 5, 6], M::Input => &[0x0e, 0x0f, 0x10, 0x11, 0x12], M::Output => &[3, 4] };
                let t = *r.pick(ts); let x = *r.pick(&[0usize, 1, 4, 8, 32]); let val = r.bytes(x); let kx = r.below(3); let k = if kx == 0 { r.bytes(1) } else { vec![] }; let at = r.below(maps[n].len() + 1); maps[n].insert(at, (t, k, val)); format!("version 2 type {t:02x} in {m:?}") },
    })
}
fn broken_bytes(r: &mut Rng, b: &mut Vec<u8>) -> String {
    match r.below(4) {
        0 => { let i = r.below(5); let x = 1 << r.below(8); b[i] ^= x; format!("magic byte {i} changed") }
        _ => { let n = if r.bool() { r.below(b.len()) } else { b.len() - 1 - r.below(4.min(b.len() - 1)) }; b.truncate(n); format!("truncated to {n} bytes") }
    }
}
pub fn c10(r: &mut Rng) -> R {
    let d = *r.pick(&[15usize, 40, 60]); let p = psbt2_d(r, d);
    let mut maps = maps2(&p);
    let (what, b) = if r.chance(1, 6) { let mut b = join(&maps); (broken_bytes(r, &mut b), b) } else {
        if r.bool() { for m in &mut maps { r.shuffle(m) } }
        let Some(w) = mutate(r, &mut maps, p.inputs.len(), 2) else { return trivial(String::new()) };
        (w, join(&maps))
    };
    note(|| hex(&b));
    ck!(v2::Psbt::deserialize(&b).is_err(), "accepted with {what}: {}", hex(&b));
    ok(format!("{what} {}", hex(&b)))
}
pub fn c10_order(r: &mut Rng) -> R {
    let p = psbt2(r); let mut maps = maps2(&p);
    for m in &mut maps { r.shuffle(m) }
    let b = join(&maps);
    note(|| hex(&b));
    match v2::Psbt::deserialize(&b) { Ok(q) => ck!(q == p, "{} deserialized to {}", hex(&b), show(&q)), Err(e) => return Err(format!("reordered pairs refused, {e:?}: {}", hex(&b))) }
    ok(hex(&b))
}
/// whatever is accepted after random damage is complete
pub fn c10_accepted(r: &mut Rng) -> R {
    let d = *r.pick(&[0usize, 5, 15, 40]); let p = psbt2_d(r, d);
    let mut b = join(&maps2(&p));
    for _ in 0..r.range(1, 3) { let i = r.range(5.min(b.len() - 1), b.len() - 1); match r.below(4) { 0 => b[i] = r.u8(), 1 => b[i] ^= 1 << r.below(8), 2 => { b.remove(i); } _ => { let x = r.u8(); b.insert(i, x) } } }
    note(|| hex(&b));
    let Ok(q) = v2::Psbt::deserialize(&b) else { return trivial(String::new()) };
    ck!(q.inputs.len() == q.global.input_count && q.outputs.len() == q.global.output_count, "counts {} {} but {} inputs, {} outputs: {}", q.global.input_count, q.global.output_count, q.inputs.len(), q.outputs.len(), hex(&b));
    let (ni, no) = (q.inputs.len(), q.outputs.len());
    let mut rest = &b[5..]; let mut maps: Maps = vec![];
    for _ in 0..1 + ni + no { let one = take_map(&mut rest).ok_or_else(|| format!("accepted without {} maps: {}", 1 + ni + no, hex(&b)))?; maps.push(one); }
    for (n, m) in maps.iter().enumerate() {
        let k = which(n, ni);
        ck!(pmap(m).is_some(), "accepted with a repeated key in map {n}: {}", hex(&b));
        for t in unkeyed2(k) { ck!(m.iter().all(|p| p.0 != *t || p.1.is_empty()), "accepted with key data on type {t:02x} in map {n}: {}", hex(&b)); }
        for t in keyed(k) { ck!(m.iter().all(|p| p.0 != *t || !p.1.is_empty()), "accepted without key data on type {t:02x} in map {n}: {}", hex(&b)); }
        let req: &[u8] = match k { M::Global => &[0xfb, 2, 4, 5], M::Input => &[0x0e, 0x0f], M::Output => if SP { &[3] } else { &[3, 4] } };
        for t in req { ck!(m.iter().any(|p| p.0 == *t), "accepted without type {t:02x} in map {n}: {}", hex(&b)); }
        for p in m { if fixed2(k).contains(&p.0) { let want = match (k, p.0) { (M::Global, 6) => 1, (M::Global, 7) => 33, (M::Global, 8) => 64, (M::Input, 0x0e | 0x17 | 0x18) => 32, (M::Input, 0x1d) => 33, (M::Input, 0x1e) => 64, (M::Output, 3) => 8, (M::Output, 5) => 32, (M::Output, 9) => 66, _ => 4 }; ck!(p.2.len() == want, "accepted a value of {} bytes for type {:02x} in map {n}: {}", p.2.len(), p.0, hex(&b)); } }
    }
    ck!(maps[0].iter().all(|p| p.0 != 0), "accepted an unsigned transaction: {}", hex(&b));
    ck!(maps[0].iter().all(|p| p.0 != 0xfb || p.2 == [2, 0, 0, 0]), "accepted another version: {}", hex(&b));
    let s = q.serialize();
    match v2::Psbt::deserialize(&s) { Ok(x) => ck!(x == q, "decoding {} and encoding gives {}, which is another PSBT", hex(&b), hex(&s)), Err(e) => return Err(format!("decoding {} and encoding gives {}, which is refused: {e:?}", hex(&b), hex(&s))) }
    ok(hex(&b))
}
fn take_map(d: &mut &[u8]) -> Option<Pairs> {
    let mut m = vec![];
    loop {
        let n = enc::read_compact(d)? as usize; if n == 0 { return Some(m) } if d.len() < n { return None }
        let (t, k) = (d[0], d[1..n].to_vec()); *d = &d[n..];
        let l = enc::read_compact(d)? as usize; if d.len() < l { return None }
        m.push((t, k, d[..l].to_vec())); *d = &d[l..];
    }
}

// ---- version 0 ----
pub fn c11(r: &mut Rng) -> R {
    let p = psbt0(r);
    note(|| show0(&p));
    let b = p.serialize();
    same_maps(&b, &enc::maps0(&p), &|_, _, _| false)?;
    let q = v0::Psbt::deserialize(&b).map_err(|e| format!("{e:?}: {}", hex(&b)))?;
    ck!(q == p, "{} deserialized to {}", hex(&b), show0(&q));
    ck!(p.serialize_hex() == hex(&b), "serialize_hex differs from serialize");
    let s = p.to_string();
    { use bitcoin::base64::Engine; ck!(bitcoin::base64::prelude::BASE64_STANDARD.decode(&s).ok() == Some(b.clone()), "Display is not the base64 of serialize: {s}"); }
    match s.parse::<v0::Psbt>() { Ok(q) => ck!(q == p, "base64 {s} parsed to {}", show0(&q)), Err(e) => return Err(format!("{e:?}: {s}")) }
    let mut m = maps0(&p); for x in &mut m { r.shuffle(x) }
    let e = join(&m);
    match v0::Psbt::deserialize(&e) { Ok(q) => ck!(q == p, "{} deserialized to {}", hex(&e), show0(&q)), Err(x) => return Err(format!("{x:?}: {}", hex(&e))) }
    ok(hex(&b))
}
pub fn c11_mutated(r: &mut Rng) -> R {
    let d = *r.pick(&[15usize, 40, 60]); let mut p = empty0(unsigned_tx(r)); fill0(&mut p, r, d);
    let mut maps = maps0(&p);
    let (what, b) = match r.below(8) {
        0 => { let mut b = join(&maps); (broken_bytes(r, &mut b), b) }
        1 => { let mut t = p.unsigned_tx.clone(); if t.input.is_empty() { return trivial(String::new()) } let i = r.below(t.input.len()); let n = r.range(1, 5); t.input[i].script_sig = ScriptBuf::from(r.bytes(n)); let k = find(&maps, 0, 0).unwrap(); maps[0][k].2 = enc::legacy_tx(&t); ("scriptSig in the unsigned transaction".to_string(), join(&maps)) }
        2 => { let mut t = p.unsigned_tx.clone(); if t.input.is_empty() { return trivial(String::new()) } let i = r.below(t.input.len()); t.input[i].witness = Witness::from_slice(&[r.bytes(3)]); let k = find(&maps, 0, 0).unwrap(); maps[0][k].2 = bitcoin::consensus::serialize(&t); /* by chance the bytes are also the encoding of a transaction without inputs */ if v0::Psbt::deserialize(&join(&maps)).map_or(false, |q| q.unsigned_tx.input.is_empty()) { return trivial(String::new()) } ("witness in the unsigned transaction".to_string(), join(&maps)) }
        3 => { let k = find(&maps, 0, 0).unwrap(); let v = &mut maps[0][k].2; if r.bool() { v.push(r.u8()); } else { v.pop(); } ("unsigned transaction of another length".to_string(), join(&maps)) }
        _ => { if r.bool() { for m in &mut maps { r.shuffle(m) } } let Some(w) = mutate(r, &mut maps, p.inputs.len(), 0) else { return trivial(String::new()) }; (w, join(&maps)) }
    };
    note(|| hex(&b));
    ck!(v0::Psbt::deserialize(&b).is_err(), "accepted with {what}: {}", hex(&b));
    ok(format!("{what} {}", hex(&b)))
}
pub fn c11_construct(r: &mut Rng) -> R {
    let mut t = unsigned_tx(r);
    while t.input.len() < 3 && r.bool() { t.input.push(TxIn { previous_output: outpoint(r), ..Default::default() }); }
    let mut bad = false;
    for i in &mut t.input { if r.chance(1, 6) { i.script_sig = ScriptBuf::from(r.bytes(1)); bad = true; } if r.chance(1, 6) { i.witness = Witness::from_slice(&[r.bytes(2)]); bad = true; } }
    note(|| format!("{t:?}"));
    match v0::Psbt::from_unsigned_tx(t.clone()) { Ok(p) => { ck!(!bad, "accepted {t:?}"); ck!(p == empty0(t.clone()), "from_unsigned_tx is not empty: {}", show0(&p)); } Err(e) => ck!(bad, "refused {t:?}: {e:?}") }
    ok(format!("{t:?}"))
}

// ---- C13 ----
fn pair(r: &mut Rng) -> (u8, Vec<u8>, Vec<u8>) {
    let big = [0usize, 1, 2, 75, 250, 251, 252, 253, 254, 255, 256, 300, 0xfffd, 0xfffe, 0xffff, 0x1_0000, 0x1_0001];
    let mut len = |r: &mut Rng| { let n = if r.chance(1, 12) { *r.pick(&big[12..]) } else { *r.pick(&big[..12]) }; r.bytes(n) };
    let t = *r.pick(&[0x09u8, 0x19, 0x20, 0x5b, 0xaa, 0xfd, 0xfe, 0xff]);
    let k = len(r); let v = len(r); (t, k, v)
}
macro_rules! c13 { ($name:ident, $ver:ident, $raw:ident, $start:expr, $maps:ident, $gp:ident, $unk:ident, $show:ident) => {
    pub fn $name(r: &mut Rng) -> R {
        let base = $start(r);
        let mut p = base.clone();
        let mut set = PMap::new();
        for _ in 0..r.range(1, 4) { let (t, k, v) = pair(r); set.insert((t, k), v); }
        for ((t, k), v) in &set { $gp(&mut p).insert($raw::Key { type_value: *t, key: k.clone() }, v.clone()); }
        let want = { let mut m = $maps(&base); m[0].extend(pairs(&set)); m };
        note(|| hex(&join(&want)));
        // encoding: the bytes of each pair are exactly these
        let b = p.serialize();
        same_maps(&b, &want.iter().map(|m| pmap(m).unwrap()).collect::<Vec<_>>(), &|n, t, v| n == 0 && t == 6 && v == [0])?;
        let mut d = &b[5..]; let first = take_map(&mut d).unwrap();
        let again: Vec<u8> = first.iter().flat_map(|(t, k, v)| enc::pair_bytes(*t, k, v)).collect();
        ck!(b[5..5 + again.len()] == again[..] && b[5 + again.len()] == 0, "pairs are not encoded as compact size, type, key data, compact size, value: {}", hex(&b));
        // decoding returns them and consumes exactly their bytes
        let e = join(&want);
        match $ver::Psbt::deserialize(&e) { Ok(q) => ck!(q == p, "{} deserialized to {}", hex(&e), $show(&q)), Err(x) => return Err(format!("{x:?}: {}", hex(&e))) }
        // a truncated pair, an unfinished map, a length that promises more than there is
        let cut = r.below(again.len().max(1)); let mut t = e.clone(); let start = 5; t.truncate(start + cut);
        ck!($ver::Psbt::deserialize(&t).is_err(), "truncated pair accepted: {}", hex(&t));
        // a length byte of zero ends the map early: the required rest is then missing or misplaced
        let mut z = b"psbt\xff\0".to_vec(); z.extend(&e[5..]);
        ck!($ver::Psbt::deserialize(&z).is_err(), "an empty global map was accepted: {}", hex(&z));
        // sizes that are not in their shortest form
        let ((t1, k1), v1) = set.iter().next().unwrap();
        if k1.len() < 200 && v1.len() < 200 {
            let mut m: Vec<u8> = b"psbt\xff".to_vec();
            if r.bool() { m.push(0xfd); m.extend((k1.len() as u16 + 1).to_le_bytes()); m.push(*t1); m.extend(k1); m.push(v1.len() as u8); m.extend(v1); } else { m.push(k1.len() as u8 + 1); m.push(*t1); m.extend(k1); m.push(0xfd); m.extend((v1.len() as u16).to_le_bytes()); m.extend(v1); }
            let orig = join(&$maps(&base)); m.extend(&orig[5..]);
            ck!($ver::Psbt::deserialize(&m).is_err(), "a size not in its shortest form was accepted: {}", hex(&m));
        }
        ok(hex(&e))
    }
} }
fn small2(r: &mut Rng) -> v2::Psbt { let mut p = psbt2_d(r, 0); p.inputs.truncate(1); p.outputs.truncate(1); p.global.input_count = p.inputs.len(); p.global.output_count = p.outputs.len(); p }
fn small0(r: &mut Rng) -> v0::Psbt { empty0(unsigned_tx(r)) }
fn gp2(p: &mut v2::Psbt) -> &mut std::collections::BTreeMap<raw2::Key, Vec<u8>> { &mut p.global.unknowns }
fn gp0(p: &mut v0::Psbt) -> &mut std::collections::BTreeMap<raw0::Key, Vec<u8>> { &mut p.unknown }
use psbt_v2::raw as raw2;
use psbt_v2::v0::bitcoin::raw as raw0;
c13!(c13_v2, v2, raw2, small2, maps2, gp2, unknowns, show);
c13!(c13_v0, v0, raw0, small0, maps0, gp0, unknown, show0);
pub fn c13_prop(r: &mut Rng) -> R {
    let n = *r.pick(&[0usize, 1, 2, 5, 251, 252, 253, 254, 0xffff, 0x1_0000]); let prefix = r.bytes(n);
    let n = *r.pick(&[0usize, 1, 2, 32, 252, 253, 1023, 1024]); let key = r.bytes(n); let sub = r.u8();
    let mut want = enc::compact(prefix.len() as u64); want.extend(&prefix); want.push(sub); want.extend(&key);
    let other = loop { let t = r.u8(); if t != 0xfc { break t } };
    macro_rules! t { ($raw:ident) => { {
        let p: $raw::ProprietaryKey = $raw::ProprietaryKey { prefix: prefix.clone(), subtype: sub, key: key.clone() };
        let k = p.to_key();
        ck!(k.type_value == 0xfc && k.key == want, "{p:?} gives raw key {:02x} {}", k.type_value, hex(&k.key));
        match $raw::ProprietaryKey::<u8>::try_from(k.clone()) { Ok(q) => ck!(q == p, "{p:?} came back as {q:?}"), Err(e) => return Err(format!("{e:?}: {p:?}")) }
        ck!($raw::ProprietaryKey::<u8>::try_from($raw::Key { type_value: other, key: want.clone() }).is_err(), "type {other:02x} accepted as proprietary");
        // cut within the prefix or before the subtype
        let c = r.below(want.len() - key.len());
        ck!($raw::ProprietaryKey::<u8>::try_from($raw::Key { type_value: 0xfc, key: want[..c].to_vec() }).is_err(), "truncated proprietary key accepted: {}", hex(&want[..c]));
    } } }
    t!(raw2); t!(raw0);
    ok(hex(&want))
}

// ---- C24 ----
fn hash(k: u8, b: &[u8]) -> Vec<u8> { match k { 0x0a => ripemd160::Hash::hash(b).to_byte_array().to_vec(), 0x0b => sha256::Hash::hash(b).to_byte_array().to_vec(), 0x0c => hash160::Hash::hash(b).to_byte_array().to_vec(), _ => sha256d::Hash::hash(b).to_byte_array().to_vec() } }
fn preimages(r: &mut Rng) -> (Pairs, bool) {
    let mut v: Pairs = vec![]; let mut good = true;
    for _ in 0..r.range(1, 4) {
        let t = 0x0a + r.below(4) as u8; let n = *r.pick(&[0usize, 1, 31, 32, 33, 64]); let b = vec![r.below(2) as u8; n];
        let mut k = hash(t, &b); let mut val = b.clone();
        if r.chance(1, 5) { match r.below(7) {
            0 => { let i = r.below(k.len()); k[i] ^= 1 << r.below(8); }
            1 => { k.pop(); } 2 => k.push(0), 3 => k.clear(),
            4 => k = hash(*r.pick(&[0x0a, 0x0b, 0x0c, 0x0d]), &b),
            5 => val.push(r.u8()),
            _ => k = b.clone(),
        } }
        good &= k == hash(t, &val) && !v.iter().any(|p| p.0 == t && p.1 == k);
        v.push((t, k, val));
    }
    (v, good)
}
macro_rules! c24 { ($name:ident, $ver:ident, $start:expr, $maps:ident, $ty:ty) => {
    pub fn $name(r: &mut Rng) -> R {
        let p: $ty = $start(r);
        if p.inputs.is_empty() { return trivial(String::new()) }
        let (ps, good) = preimages(r);
        let mut m = $maps(&p); let n = 1 + r.below(p.inputs.len()); for x in &ps { let at = r.below(m[n].len() + 1); m[n].insert(at, x.clone()); }
        // pairs of one map are met in this order; only repetition matters
        let b = join(&m);
        note(|| hex(&b));
        match $ver::Psbt::deserialize(&b) {
            Err(e) => ck!(!good, "refused, {e:?}: {}", hex(&b)),
            Ok(q) => {
                ck!(good, "accepted a preimage that is not that of its key: {}", hex(&b));
                let i = &q.inputs[n - 1]; let mut got: Pairs = vec![];
                for (k, v) in &i.ripemd160_preimages { got.push((0x0a, k.to_byte_array().to_vec(), v.clone())) } for (k, v) in &i.sha256_preimages { got.push((0x0b, k.to_byte_array().to_vec(), v.clone())) }
                for (k, v) in &i.hash160_preimages { got.push((0x0c, k.to_byte_array().to_vec(), v.clone())) } for (k, v) in &i.hash256_preimages { got.push((0x0d, k.to_byte_array().to_vec(), v.clone())) }
                let mut w = ps.clone(); w.sort(); got.sort(); ck!(got == w, "recorded {got:?} for {}", hex(&b));
            }
        }
        ok(hex(&b))
    }
} }
fn in2only(r: &mut Rng) -> v2::Psbt { let mut p = small2(r); if p.inputs.is_empty() { p.inputs.push(v2::Input::new(&outpoint(r))); p.global.input_count = 1; } p }
c24!(c24_v2, v2, in2only, maps2, v2::Psbt);
c24!(c24_v0, v0, small0, maps0, v0::Psbt);

// ---- C23 ----
#[cfg(feature = "silent-payments")]
pub fn c23(r: &mut Rng) -> R {
    let mut p = in2only(r);
    if r.bool() { let d = *r.pick(&[15usize, 40]); let (ni, no) = (p.global.input_count, p.global.output_count); p.global = global2(r, d); p.global.input_count = ni; p.global.output_count = no; for i in &mut p.inputs { fill2(i, r, d); i.sp_ecdh_shares.clear(); i.sp_dleq_proofs.clear(); } for o in &mut p.outputs { fill2o(o, r, d); o.sp_v0_info = None; o.sp_v0_label = None; } p.global.sp_ecdh_shares.clear(); p.global.sp_dleq_proofs.clear(); }
    if p.outputs.is_empty() { p.outputs.push(v2::Output::new(txout(r))); p.global.output_count = 1; }
    let mut m = maps2(&p);
    let no_script = r.chance(1, 6);
    let mut good = true;
    let key = |r: &mut Rng, good: &mut bool, bad: bool| -> Vec<u8> {
        let mut k = spk1(r).serialize().to_vec();
        if bad { *good = false; match r.below(6) { 0 => { k.pop(); } 1 => k.push(2), 2 => k.clear(), 3 => k[0] = *r.pick(&[0u8, 1, 4, 5, 0xff]), 4 => { for x in &mut k[1..] { *x = 0xff } } _ => k = spk1(r).serialize_uncompressed().to_vec() } }
        k
    };
    for (n, te, tp) in [(0usize, 7u8, 8u8), (1, 0x1d, 0x1e)] {
        let (ne, np) = match r.below(6) { 0 => (1, 0), 1 => (0, 1), 2 => (0, 0), 3 => (2, 1), _ => (1, 1) };
        if (ne > 0) != (np > 0) { good = false }
        let mut seen = std::collections::BTreeSet::new();
        for (t, c) in [(te, ne), (tp, np)] { for _ in 0..c {
            let bk = r.chance(1, 16); let bv = r.chance(1, 16);
            let k = key(r, &mut good, bk);
            let v = if t == te { key(r, &mut good, bv) } else { let l = if bv { good = false; *r.pick(&[0usize, 32, 63, 65, 128]) } else { 64 }; r.bytes(l) };
            if !seen.insert((t, k.clone())) { good = false }
            let at = r.below(m[n].len() + 1); m[n].insert(at, (t, k, v));
        } }
    }
    let o = 1 + p.inputs.len();
    let (info, label) = (r.bool(), r.bool());
    if label && !info { good = false }
    for (t, on, len) in [(9u8, info, 66usize), (0x0a, label, 4)] { if on {
        let l = if r.chance(1, 16) { good = false; *r.pick(&[0usize, 3, 5, 33, 65, 67, 8]) } else { len };
        let k = if r.chance(1, 16) { good = false; r.bytes(1) } else { vec![] };
        let v = r.bytes(l); let at = r.below(m[o].len() + 1); m[o].insert(at, (t, k.clone(), v));
        if r.chance(1, 16) { good = false; let v = r.bytes(len); m[o].push((t, k, v)) }
    } }
    if no_script { m[o].retain(|x| x.0 != 4) }
    let b = join(&m);
    note(|| hex(&b));
    match v2::Psbt::deserialize(&b) {
        Err(e) => ck!(!good, "refused, {e:?}: {}", hex(&b)),
        Ok(q) => { ck!(good, "accepted silent payment fields that are not paired, sized or unique: {}", hex(&b)); let mut w: Vec<PMap> = m.iter().map(|x| pmap(x).unwrap()).collect(); if no_script { w[o].insert((4, vec![]), vec![]); } ck!(enc::maps2(&q) == w, "{} deserialized to {}", hex(&b), show(&q)); }
    }
    ok(hex(&b))
}
#[allow(dead_code)]
fn unused() { let _ = (gen::density as usize, OutPoint::null()); }
