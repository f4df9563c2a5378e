//! C07, C08: combining. Both sides and the result are turned into key-value maps by the independent encoder.
use super::note;
use super::tx::{show, show0};
use crate::enc::{self, hex, PMap};
use crate::gen::{self, *};
use crate::rng::Rng;
use crate::{ck, ok, trivial, R};
use bitcoin::bip32::KeySource;
use bitcoin::{Amount, OutPoint, ScriptBuf, TxOut};
use psbt_v2::{v0, v2};

/// every key of either, nothing else, each value from one side
fn union(a: &PMap, b: &PMap, c: &PMap, skip: &dyn Fn(u8) -> bool, what: &str) -> Result<(), String> {
    for (k, v) in c {
        if skip(k.0) { continue }
        ck!(a.get(k) == Some(v) || b.get(k) == Some(v), "{what}: key {:02x}{} has value {} which neither side has", k.0, hex(&k.1), hex(v));
    }
    for k in a.keys().chain(b.keys()) { if !skip(k.0) { ck!(c.contains_key(k), "{what}: key {:02x}{} was lost", k.0, hex(&k.1)); } }
    Ok(())
}
fn suffix(s: &KeySource, l: &KeySource) -> bool { let (a, b): (Vec<_>, Vec<_>) = (s.1.into_iter().collect(), l.1.into_iter().collect()); a.len() < b.len() && b[b.len() - a.len()..] == a[..] }
/// the key source to keep, or none if they are inconsistent
fn keep<'a>(a: &'a KeySource, b: &'a KeySource) -> Option<&'a KeySource> { if a == b { Some(a) } else if suffix(a, b) { Some(b) } else if suffix(b, a) { Some(a) } else { None } }
type Xs = std::collections::BTreeMap<bitcoin::bip32::Xpub, KeySource>;
fn xpubs(a: &Xs, b: &Xs) -> Option<Xs> {
    let mut o = a.clone();
    for (k, v) in b { match a.get(k) { None => { o.insert(*k, v.clone()); } Some(w) => { o.insert(*k, keep(w, v)?.clone()); } } }
    Some(o)
}
fn check2(a: &v2::Psbt, b: &v2::Psbt) -> R {
    note(|| format!("{} with {}", show(a), show(b)));
    let (sa, sb) = (show(a), show(b));
    let x = xpubs(&a.global.xpubs, &b.global.xpubs);
    let c = if sa.len() % 2 == 0 { a.clone().combine_with(b.clone()) } else { v2::combine(a.clone(), b.clone()) };
    let c = match (c, &x) { (Ok(c), Some(_)) => c, (Err(_), None) => return ok(format!("xpub conflict {sa} {sb}")), (Err(e), _) => return Err(format!("combining failed: {e:?}: {sa} with {sb}")), (Ok(_), None) => return Err(format!("inconsistent xpubs accepted: {sa} with {sb}")) };
    let e = |e: String| format!("{e}: {sa} with {sb}");
    ck!(c.global.xpubs == *x.as_ref().unwrap(), "xpubs {:?}, expected {:?}: {sa} with {sb}", c.global.xpubs, x);
    ck!(c.inputs.len() == a.inputs.len() && c.outputs.len() == a.outputs.len(), "number of inputs or outputs changed: {sa} with {sb}");
    union(&enc::glob2(&a.global), &enc::glob2(&b.global), &enc::glob2(&c.global), &|t| t == 0x06 || t == 0x01, "global").map_err(e)?;
    let (f, g, h) = (a.global.tx_modifiable_flags, b.global.tx_modifiable_flags, c.global.tx_modifiable_flags);
    ck!(h & 3 == f & g & 3 && h & 4 == (f | g) & 4, "flags {f:#x} and {g:#x} combined to {h:#x}: {sa} with {sb}");
    for k in 0..a.inputs.len() { union(&enc::in2(&a.inputs[k]), &enc::in2(&b.inputs[k]), &enc::in2(&c.inputs[k]), &|_| false, &format!("input {k}")).map_err(e)?; }
    for k in 0..a.outputs.len() { union(&enc::out2(&a.outputs[k]), &enc::out2(&b.outputs[k]), &enc::out2(&c.outputs[k]), &|_| false, &format!("output {k}")).map_err(e)?; }
    ok(format!("{sa} {sb}"))
}
pub fn c07(r: &mut Rng) -> R {
    let d = gen::density(r);
    let a = psbt2_d(r, d); let mut b = a.clone();
    let d2 = gen::density(r); vary2(&mut b, r, d2);
    if r.chance(4, 5) { for (k, v) in &a.global.xpubs { if b.global.xpubs.contains_key(k) { b.global.xpubs.insert(*k, v.clone()); } } }
    if r.bool() { check2(&a, &b) } else { check2(&b, &a) }
}
fn rand_ks(r: &mut Rng) -> KeySource {
    let p = if r.bool() { gen::path(r) } else { let n = r.below(4); bitcoin::bip32::DerivationPath::from((0..n).map(|_| bitcoin::bip32::ChildNumber::from(r.below(2) as u32)).collect::<Vec<_>>()) };
    (fp(r), p)
}
pub fn c07_xpub(r: &mut Rng) -> R {
    let mut a = psbt2_d(r, 0); let mut b = a.clone();
    for _ in 0..r.range(1, 3) { let x = *r.pick(&pool().xpubs); a.global.xpubs.insert(x, rand_ks(r)); if r.chance(4, 5) { b.global.xpubs.insert(x, if r.chance(1, 4) { a.global.xpubs[&x].clone() } else { rand_ks(r) }); } }
    if r.chance(1, 4) { b.global.xpubs.insert(*r.pick(&pool().xpubs), rand_ks(r)); }
    check2(&a, &b)
}
pub fn c07_mismatch(r: &mut Rng) -> R {
    let d = *r.pick(&[0usize, 10]);
    let mut a = psbt2_d(r, d);
    if a.inputs.is_empty() { a.inputs.push(v2::Input::new(&outpoint(r))); a.global.input_count = 1; }
    if a.outputs.is_empty() { a.outputs.push(v2::Output::new(txout(r))); a.global.output_count = 1; }
    let mut b = a.clone();
    let k = r.below(9); let i = r.below(a.inputs.len()); let o = r.below(a.outputs.len());
    match k {
        0 => b.global.version = psbt_v2::V0,
        1 => b.global.tx_version.0 = b.global.tx_version.0.wrapping_add(1 + r.below(3) as i32),
        2 => { b.inputs.push(v2::Input::new(&outpoint(r))); b.global.input_count += 1; }
        3 => { b.outputs.pop(); b.global.output_count -= 1; }
        4 => b.global.input_count += 1,
        5 => { use bitcoin::hashes::Hash; let mut t = b.inputs[i].previous_txid.to_byte_array(); t[r.below(32)] ^= 1 << r.below(8); b.inputs[i].previous_txid = bitcoin::Txid::from_byte_array(t); }
        6 => b.inputs[i].spent_output_index ^= 1 << r.below(32),
        7 => b.outputs[o].amount = Amount::from_sat(b.outputs[o].amount.to_sat() ^ 1 << r.below(64)),
        _ => { let mut s = b.outputs[o].script_pubkey.to_bytes(); if s.is_empty() || r.bool() { s.push(r.u8()) } else { let j = r.below(s.len()); s[j] ^= 1; } b.outputs[o].script_pubkey = ScriptBuf::from(s); }
    }
    note(|| format!("mismatch {k}: {} with {}", show(&a), show(&b)));
    ck!(a.clone().combine_with(b.clone()).is_err(), "combined although kind {k} of the PSBTs differ: {} with {}", show(&a), show(&b));
    ck!(b.clone().combine_with(a.clone()).is_err(), "combined although kind {k} of the PSBTs differ: {} with {}", show(&b), show(&a));
    ok(format!("{k} {}", show(&a)))
}
/// the combine functions of single maps
pub fn c07_maps(r: &mut Rng) -> R {
    let d = gen::density(r).max(5);
    let (op, to): (OutPoint, TxOut) = (outpoint(r), txout(r));
    let mut a = v2::Input::new(&op); fill2(&mut a, r, d); let mut b = v2::Input::new(&op); let d2 = gen::density(r); fill2(&mut b, r, d2);
    let s = format!("{:?} with {:?}", enc::in2(&a), enc::in2(&b));
    note(|| s.clone());
    let mut c = a.clone(); c.combine(b.clone()).map_err(|e| format!("{e:?}: {s}"))?;
    union(&enc::in2(&a), &enc::in2(&b), &enc::in2(&c), &|_| false, "input").map_err(|e| format!("{e}: {s}"))?;
    let mut a = v2::Output::new(to.clone()); fill2o(&mut a, r, d); let mut b = v2::Output::new(to); fill2o(&mut b, r, d2);
    let s2 = format!("{:?} with {:?}", enc::out2(&a), enc::out2(&b));
    let mut c = a.clone(); c.combine(b.clone()).map_err(|e| format!("{e:?}: {s2}"))?;
    union(&enc::out2(&a), &enc::out2(&b), &enc::out2(&c), &|_| false, "output").map_err(|e| format!("{e}: {s2}"))?;
    ok(s)
}
fn check0(a: &v0::Psbt, b: &v0::Psbt) -> R {
    note(|| format!("{} with {}", show0(a), show0(b)));
    let (sa, sb) = (show0(a), show0(b));
    let x = xpubs(&a.xpub, &b.xpub);
    let mut c = a.clone();
    match (c.combine(b.clone()), &x) { (Ok(()), Some(_)) => {} (Err(_), None) => return ok(format!("xpub conflict {sa} {sb}")), (Err(e), _) => return Err(format!("combining failed: {e:?}: {sa} with {sb}")), (Ok(_), None) => return Err(format!("inconsistent xpubs accepted: {sa} with {sb}")) };
    let e = |e: String| format!("{e}: {sa} with {sb}");
    ck!(c.xpub == *x.as_ref().unwrap(), "xpubs {:?}, expected {:?}: {sa} with {sb}", c.xpub, x);
    ck!(c.unsigned_tx == a.unsigned_tx, "unsigned tx changed: {sa} with {sb}");
    ck!(c.version == a.version.max(b.version), "version {}: {sa} with {sb}", c.version);
    ck!(c.inputs.len() == a.inputs.len() && c.outputs.len() == a.outputs.len(), "number of inputs or outputs changed: {sa} with {sb}");
    union(&enc::glob0(a), &enc::glob0(b), &enc::glob0(&c), &|t| t == 0x01, "global").map_err(e)?;
    for k in 0..a.inputs.len() { union(&enc::in0(&a.inputs[k]), &enc::in0(&b.inputs[k]), &enc::in0(&c.inputs[k]), &|_| false, &format!("input {k}")).map_err(e)?; }
    for k in 0..a.outputs.len() { union(&enc::out0(&a.outputs[k]), &enc::out0(&b.outputs[k]), &enc::out0(&c.outputs[k]), &|_| false, &format!("output {k}")).map_err(e)?; }
    ok(format!("{sa} {sb}"))
}
fn two0(r: &mut Rng, d: usize) -> (v0::Psbt, v0::Psbt) {
    let t = unsigned_tx(r);
    let mut a = empty0(t.clone()); fill0(&mut a, r, d); let mut b = empty0(t); let d2 = if d == 0 { 0 } else { gen::density(r) }; fill0(&mut b, r, d2);
    if r.chance(1, 4) { a.version = r.below(4) as u32 } if r.chance(1, 4) { b.version = r.edge_u32() }
    (a, b)
}
pub fn c08(r: &mut Rng) -> R {
    let d = gen::density(r).max(5);
    let (a, mut b) = two0(r, d);
    if r.chance(4, 5) { for (k, v) in &a.xpub { if b.xpub.contains_key(k) { b.xpub.insert(*k, v.clone()); } } }
    check0(&a, &b)
}
pub fn c08_xpub(r: &mut Rng) -> R {
    let (mut a, mut b) = two0(r, 0);
    for _ in 0..r.range(1, 3) { let x = *r.pick(&pool().xpubs); a.xpub.insert(x, rand_ks(r)); if r.chance(4, 5) { b.xpub.insert(x, if r.chance(1, 4) { a.xpub[&x].clone() } else { rand_ks(r) }); } }
    check0(&a, &b)
}
pub fn c08_mismatch(r: &mut Rng) -> R {
    let (a, mut b) = two0(r, 20);
    let t = &mut b.unsigned_tx;
    let k = r.below(8);
    match k {
        0 => t.version.0 = t.version.0.wrapping_add(1),
        1 => t.lock_time = bitcoin::absolute::LockTime::from_consensus(t.lock_time.to_consensus_u32() ^ 1 << r.below(32)),
        2 if !t.input.is_empty() => { let i = r.below(t.input.len()); t.input[i].sequence.0 ^= 1 << r.below(32); }
        3 if !t.input.is_empty() => { let i = r.below(t.input.len()); t.input[i].previous_output.vout ^= 1 << r.below(32); }
        4 if !t.output.is_empty() => { let i = r.below(t.output.len()); t.output[i].value = Amount::from_sat(t.output[i].value.to_sat() ^ 1 << r.below(64)); }
        5 if !t.output.is_empty() => { let i = r.below(t.output.len()); let mut s = t.output[i].script_pubkey.to_bytes(); s.push(0); t.output[i].script_pubkey = ScriptBuf::from(s); }
        6 => { t.output.push(txout(r)); b.outputs.push(Default::default()); }
        7 => { t.input.push(bitcoin::TxIn { previous_output: outpoint(r), ..Default::default() }); b.inputs.push(Default::default()); }
        _ => return trivial(String::new()),
    }
    note(|| format!("mismatch {k}: {} with {}", show0(&a), show0(&b)));
    let mut c = a.clone();
    ck!(c.combine(b.clone()).is_err(), "combined although the transactions differ ({k}): {} with {}", show0(&a), show0(&b));
    ck!(c.inputs == a.inputs && c.outputs == a.outputs && c.unsigned_tx == a.unsigned_tx, "partial merge ({k}): {} with {} left {}", show0(&a), show0(&b), show0(&c));
    ok(format!("{k} {}", show0(&a)))
}
