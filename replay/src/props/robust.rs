//! C12: nothing panics or allocates out of proportion, whatever the data.
use super::note;
use super::sign::Mixed;
use crate::alloc_count::peak;
use crate::enc::{self, hex};
use crate::gen::{self, *};
use crate::rng::Rng;
use crate::{ck, ok, trivial, R};
use bitcoin::sighash::SighashCache;
use bitcoin::FeeRate;
use psbt_v2::{v0, v2};
use std::error::Error;
use std::fmt::{Debug, Display};

fn say<E: Error + Debug + Display>(e: &E) { let _ = format!("{e} {e:?}"); let mut s = e.source(); while let Some(x) = s { let _ = format!("{x} {x:?}"); s = x.source(); } }
macro_rules! tell { ($x:expr) => { if let Err(e) = &$x { say(e) } } }
/// decoders may reserve up to 4 MB ahead for one vector
const SLACK: isize = 12 << 20;
fn limit(n: usize) -> isize { SLACK + 200 * n as isize }

fn corrupt(b: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..*r.pick(&[0usize, 1, 1, 2, 3, 8]) {
        if b.is_empty() { return }
        let i = if r.chance(1, 2) { r.below(b.len().min(120)) } else { r.below(b.len()) };
        match r.below(9) {
            0 => b[i] = r.u8(), 1 => b[i] ^= 1 << r.below(8), 2 => b.truncate(i), 3 => { b.remove(i); } 4 => b.insert(i, r.u8()),
            5 => b[i] = *r.pick(&[0u8, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x10]),
            6 => { let n = r.below(9).min(b.len() - i); for x in &mut b[i..i + n] { *x = 0xff; } }
            7 => { let n = r.below(40).min(b.len() - i); let s: Vec<u8> = b[i..i + n].to_vec(); let j = r.below(b.len()); for (k, x) in s.into_iter().enumerate() { b.insert(j + k, x); } }
            _ => { let s = match r.below(4) { 0 => vec![0xff; 9], 1 => vec![0xfe, 0xff, 0xff, 0xff, 0xff], 2 => vec![0xfd, 0xff, 0xff], _ => vec![0xfe, 0, 0x09, 0x3d, 0] }; for (k, x) in s.into_iter().enumerate() { if i + k < b.len() { b[i + k] = x } } }
        }
    }
}
/// changes at the level of pairs: values and key data replaced by other lengths and edge values
fn twist(maps: &mut Vec<enc::Pairs>, r: &mut Rng) {
    for _ in 0..r.below(4) {
        if maps.is_empty() { return }
        let m = r.below(maps.len());
        match r.below(6) {
            0 if !maps[m].is_empty() => { let i = r.below(maps[m].len()); let n = *r.pick(&[0usize, 1, 3, 4, 8, 31, 32, 33, 64, 65, 66, 79]); maps[m][i].2 = if r.bool() { r.bytes(n) } else { vec![0xff; n] }; }
            1 if !maps[m].is_empty() => { let i = r.below(maps[m].len()); let n = *r.pick(&[0usize, 1, 20, 32, 33, 64, 65, 78]); maps[m][i].1 = r.bytes(n); }
            2 if !maps[m].is_empty() => { let i = r.below(maps[m].len()); corrupt(&mut maps[m][i].2, r); }
            3 if !maps[m].is_empty() => { let i = r.below(maps[m].len()); maps[m][i].0 = r.below(0x20) as u8; }
            4 => { let n = *r.pick(&[0usize, 1, 4, 8, 9, 32, 36]); let v = match r.below(3) { 0 => vec![0xff; n], 1 => vec![0; n], _ => r.bytes(n) }; let t = r.below(0x20) as u8; let kn = *r.pick(&[0usize, 1, 32, 33]); let k = r.bytes(kn); maps[m].push((t, k, v)); }
            _ => { if !maps[m].is_empty() { let i = r.below(maps[m].len()); maps[m].remove(i); } }
        }
    }
}
fn data(r: &mut Rng, two: bool) -> Vec<u8> {
    let mut b = match r.below(10) {
        0 => { let n = r.below(60); let mut b = r.bytes(n); if r.chance(7, 8) { let mut h = b"psbt\xff".to_vec(); h.append(&mut b); h } else { b } }
        1 => { let p = if two { psbt2(r).serialize() } else { psbt0(r).serialize() }; p }
        _ => {
            let mut m: Vec<enc::Pairs> = if two { let p = if r.bool() { psbt2(r) } else { wallet2(r, 3).0 }; enc::maps2(&p) } else { let p = if r.bool() { psbt0(r) } else { wallet0(r, 3).0 }; enc::maps0(&p) }.iter().map(enc::pairs).collect();
            twist(&mut m, r); if r.chance(1, 20) { m.pop(); }
            enc::join(&m)
        }
    };
    if r.bool() { corrupt(&mut b, r); }
    b
}
pub fn ops2_of(p: &v2::Psbt, r: &mut Rng) {
    let s = &pool().secp;
    let _ = (p.serialize(), p.serialize_hex(), p.to_string(), format!("{p:?}"));
    tell!(p.determine_lock_time()); tell!(p.fee()); let _ = p.is_finalized();
    for u in p.iter_funding_utxos() { tell!(u) }
    for i in &p.inputs { tell!(i.funding_utxo()); let _ = (i.is_finalized(), i.ecdsa_hash_ty().map_err(|e| say(&e)), i.taproot_hash_ty().map_err(|e| say(&e))); }
    let t = gen::tx(r); let mut c = SighashCache::new(&t);
    let _ = &mut c;
    if let Ok(sg) = v2::Signer::new(p.clone()).map_err(|e| say(&e)) {
        let t = sg.unsigned_tx(); let _ = sg.id().map_err(|e| say(&e));
        let mut c = SighashCache::new(&t);
        for k in 0..p.inputs.len() + 1 { tell!(p.sighash_ecdsa(k, &mut c)); }
        tell!(p.sighash_ecdsa(usize::MAX, &mut c));
        // a provider that has a key for everything listed
        let mut m = Mixed { path: Default::default(), key: Default::default(), fail: r.bool() };
        for i in &p.inputs { for (_, s) in &i.bip32_derivations { m.path.insert(s.clone(), bitcoin::PrivateKey::new(pool().sks[0], bitcoin::NetworkKind::Main)); } }
        match sg.sign(&m, s) { Ok((q, _)) => { let _ = q.serialize(); fin2(&q, r); } Err((_, e)) => for x in e.values() { say(x) } }
    }
    if let Ok(u) = v2::Updater::new(p.clone()) { let _ = u.id(); let k = r.below(4); let _ = u.set_sequence(sequence(r), k).map_err(|e| say(&e)); }
    macro_rules! con { ($t:ty) => { let c = v2::Constructor::<$t>::new(p.clone()); tell!(c); if let Ok(c) = c { let c = c.no_more_inputs().no_more_outputs(); if let Ok(u) = c.updater() { let _ = u.id(); } } } }
    con!(v2::Modifiable); con!(v2::InputsOnlyModifiable); con!(v2::OutputsOnlyModifiable);
    fin2(p, r);
    if let Ok(e) = v2::Extractor::new(p.clone()).map_err(|e| say(&e)) { let _ = e.id(); tell!(e.extract_tx()); tell!(e.extract_tx_with_fee_rate_limit(FeeRate::from_sat_per_kwu(r.edge_u64()))); tell!(e.extract_tx_unchecked_fee_rate()); }
}
fn fin2(p: &v2::Psbt, r: &mut Rng) {
    let s = &pool().secp;
    if let Ok(f) = v2::Finalizer::new(p.clone()).map_err(|e| say(&e)) { let _ = f.id(); match f.finalize(s) { Ok(q) => { let _ = q.serialize(); if let Ok(e) = v2::Extractor::new(q) { tell!(e.extract_tx()); } } Err(e) => say(&e) } }
    // with final fields present, as a PSBT from elsewhere may have them
    let ready = p.inputs.iter().all(|i| i.funding_utxo().is_ok());
    if ready { let mut q = p.clone(); for i in &mut q.inputs { if i.final_script_sig.is_none() { i.final_script_sig = Some(script(r)); } if i.final_script_witness.is_none() { i.final_script_witness = Some(witness(r)); } } let c = q.interpreter_check(s); tell!(c); }
}
pub fn ops0_of(p: &v0::Psbt, r: &mut Rng) {
    use psbt_v2::v0::miniscript::PsbtExt;
    let s = &pool().secp;
    let _ = (p.serialize(), p.serialize_hex(), p.to_string(), format!("{p:?}"));
    tell!(p.fee()); tell!(p.signer_checks());
    for u in p.iter_funding_utxos() { tell!(u) }
    let t = p.unsigned_tx.clone(); let mut c = SighashCache::new(&t);
    for k in 0..p.inputs.len() + 1 { tell!(p.spend_utxo(k)); tell!(p.sighash_ecdsa(k, &mut c)); }
    for k in 0..p.inputs.len() + 1 { tell!(PsbtExt::sighash_msg(p, k, &mut c, None)); let l = gen::leafhash(r); tell!(PsbtExt::sighash_msg(p, k, &mut c, Some(l))); }
    let mut q = p.clone();
    let keys: std::collections::BTreeMap<bitcoin::PublicKey, bitcoin::PrivateKey> = p.inputs.iter().flat_map(|i| i.bip32_derivation.keys().copied().chain(i.tap_key_origins.keys().map(|k| k.public_key(bitcoin::secp256k1::Parity::Even)))).map(|k| (bitcoin::PublicKey::new(k), bitcoin::PrivateKey::new(pool().sks[r.below(8)], bitcoin::NetworkKind::Main))).collect();
    if let Err((_, e)) = q.sign(&keys, s) { for x in e.values() { say(x) } }
    let x = pool().xprivs[r.below(3)]; if let Err((_, e)) = p.clone().sign(&x, s) { for x in e.values() { say(x) } }
    for p in [p, &q] {
        let mut f = p.clone(); if let Err(e) = f.finalize_mut(s) { for x in &e { say(x) } } let _ = f.serialize(); tell!(f.extract(s));
        let mut f = p.clone(); if let Err(e) = f.finalize_mall_mut(s) { for x in &e { say(x) } }
        let k = r.below(p.inputs.len() + 2); let mut f = p.clone(); tell!(f.finalize_inp_mut(s, k)); tell!(f.finalize_inp_mall_mut(s, k));
        tell!(psbt_v2::v0::miniscript::interpreter_check(p, s));
        tell!(p.clone().extract_tx()); tell!(p.clone().extract_tx_with_fee_rate_limit(FeeRate::from_sat_per_kwu(r.edge_u64()))); let _ = p.clone().extract_tx_unchecked_fee_rate();
    }
}
pub fn bytes2(r: &mut Rng) -> R {
    let b = data(r, true); note(|| hex(&b));
    let (g, m) = peak(|| v2::Psbt::deserialize(&b));
    ck!(m <= limit(b.len()), "deserializing {} bytes allocated {m}: {}", b.len(), hex(&b));
    match g { Ok(p) => { let ((), m) = peak(|| ops2_of(&p, r)); ck!(m <= limit(b.len()) * 8, "operations on a PSBT of {} bytes allocated {m}: {}", b.len(), hex(&b)); if r.chance(1, 2) { let q = v2::Psbt::deserialize(&data(r, true)).unwrap_or(p.clone()); tell!(p.clone().combine_with(q.clone())); tell!(q.combine_with(p)); } ok(hex(&b)) } Err(e) => { say(&e); if b.len() < 6 { trivial(hex(&b)) } else { ok(hex(&b)) } } }
}
pub fn bytes0(r: &mut Rng) -> R {
    let b = data(r, false); note(|| hex(&b));
    let (g, m) = peak(|| v0::Psbt::deserialize(&b));
    ck!(m <= limit(b.len()), "deserializing {} bytes allocated {m}: {}", b.len(), hex(&b));
    match g { Ok(p) => { let ((), m) = peak(|| ops0_of(&p, r)); ck!(m <= limit(b.len()) * 8, "operations on a PSBT of {} bytes allocated {m}: {}", b.len(), hex(&b)); if r.chance(1, 2) { let q = v0::Psbt::deserialize(&data(r, false)).unwrap_or(p.clone()); tell!(p.clone().combine(q.clone())); tell!(q.clone().combine(p)); } ok(hex(&b)) } Err(e) => { say(&e); if b.len() < 6 { trivial(hex(&b)) } else { ok(hex(&b)) } } }
}
/// PSBTs that decode, with inconsistent indices, counts, scripts and types
pub fn ops2(r: &mut Rng) -> R {
    let mut p = if r.chance(1, 3) { psbt2(r) } else { wallet2(r, 3).0 };
    let n = p.inputs.len();
    for i in &mut p.inputs {
        if r.chance(1, 4) { i.sighash_type = Some(sighash_type(r)) } if r.chance(1, 6) { i.spent_output_index = r.edge_u32() }
        if r.chance(1, 6) { i.redeem_script = Some(script(r)) } if r.chance(1, 6) { i.witness_script = Some(script(r)) }
        if r.chance(1, 6) { i.witness_utxo = Some(txout(r)) } if r.chance(1, 6) { i.non_witness_utxo = Some(tx(r)) } if r.chance(1, 8) { i.witness_utxo = None } if r.chance(1, 8) { i.non_witness_utxo = None }
        if r.chance(1, 6) { i.partial_sigs.insert(pk(r), *r.pick(&pool().esigs)); }
        if r.chance(1, 8) { i.min_time = None } if r.chance(1, 8) { i.min_height = None }
        if r.chance(1, 8) { tap2(i, r) }
    }
    let b = p.serialize(); note(|| hex(&b));
    let p = v2::Psbt::deserialize(&b).map_err(|e| format!("{e:?}: {}", hex(&b)))?;
    ops2_of(&p, r);
    let mut q = p.clone(); if r.bool() { vary2(&mut q, r, 40) } else if n > 0 { let k = r.below(n); q.inputs[k].sequence = Some(sequence(r)); }
    for (k, v) in &p.global.xpubs { if r.bool() { q.global.xpubs.insert(*k, v.clone()); } else { q.global.xpubs.insert(*k, key_source(r)); } }
    tell!(p.clone().combine_with(q.clone())); tell!(v2::combine(q, p));
    ok(hex(&b))
}
macro_rules! tap { ($i:ident, $r:ident) => { { let x = xonly($r); $i.witness_utxo = Some(bitcoin::TxOut { value: amount($r), script_pubkey: bitcoin::ScriptBuf::from([&[0x51u8, 0x20][..], &x.serialize()].concat()) }); $i.redeem_script = None; $i.witness_script = None;
    if $r.bool() { $i.tap_internal_key = Some(x) } if $r.bool() { $i.tap_key_origins.insert(x, (vec![leafhash($r)], key_source($r))); } if $r.bool() { $i.tap_key_sig = Some(*$r.pick(&pool().tsigs)) } if $r.bool() { $i.tap_script_sigs.insert((x, leafhash($r)), *$r.pick(&pool().tsigs)); }
    if $r.bool() { let c = $r.pick(&pool().cbs).clone(); let s = if $r.bool() { script($r) } else { c.1 }; $i.tap_scripts.insert(c.0, (s, c.2)); } if $r.bool() { $i.sighash_type = Some(sighash_type($r)) } } } }
fn tap2(i: &mut v2::Input, r: &mut Rng) { tap!(i, r) }
fn tap0(i: &mut v0::Input, r: &mut Rng) { tap!(i, r) }
pub fn ops0(r: &mut Rng) -> R {
    let mut p = if r.chance(1, 3) { psbt0(r) } else { wallet0(r, 3).0 };
    for (k, i) in p.inputs.iter_mut().enumerate() {
        if r.chance(1, 4) { i.sighash_type = Some(sighash_type(r)) } if r.chance(1, 6) { p.unsigned_tx.input[k].previous_output.vout = r.edge_u32() }
        if r.chance(1, 6) { i.redeem_script = Some(script(r)) } if r.chance(1, 6) { i.witness_script = Some(script(r)) }
        if r.chance(1, 6) { i.witness_utxo = Some(txout(r)) } if r.chance(1, 6) { i.non_witness_utxo = Some(tx(r)) } if r.chance(1, 8) { i.witness_utxo = None } if r.chance(1, 8) { i.non_witness_utxo = None }
        if r.chance(1, 6) { i.partial_sigs.insert(pk(r), *r.pick(&pool().esigs)); }
        if r.chance(1, 8) { tap0(i, r) }
    }
    let b = p.serialize(); note(|| hex(&b));
    let p = v0::Psbt::deserialize(&b).map_err(|e| format!("{e:?}: {}", hex(&b)))?;
    ops0_of(&p, r);
    let mut q = p.clone(); fill0(&mut q, r, 40);
    for (k, _) in &p.xpub { if r.bool() { q.xpub.insert(*k, key_source(r)); } }
    tell!(p.clone().combine(q.clone())); tell!(q.clone().combine(p));
    ok(hex(&b))
}
