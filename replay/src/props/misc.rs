//! C19 (sighash types), C22 (version 0 signer checks), C25 (descriptors).
use super::note;
use super::tx::{show, show0};
use crate::enc;
use crate::gen::{self, *};
use crate::rng::Rng;
use crate::{ck, ok, trivial, R};
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1;
use bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use bitcoin::{Amount, OutPoint, ScriptBuf, TxOut, Txid};
use miniscript::{DefiniteDescriptorKey, Descriptor};
use psbt_v2::v0::{Psbt, SignerChecksError as S};
use psbt_v2::{v0, v2, InvalidSighashTypeError, PsbtSighashType};
use std::str::FromStr;

const E: [(u32, EcdsaSighashType); 6] = [(1, EcdsaSighashType::All), (2, EcdsaSighashType::None), (3, EcdsaSighashType::Single), (0x81, EcdsaSighashType::AllPlusAnyoneCanPay), (0x82, EcdsaSighashType::NonePlusAnyoneCanPay), (0x83, EcdsaSighashType::SinglePlusAnyoneCanPay)];
const T: [(u32, TapSighashType); 7] = [(0, TapSighashType::Default), (1, TapSighashType::All), (2, TapSighashType::None), (3, TapSighashType::Single), (0x81, TapSighashType::AllPlusAnyoneCanPay), (0x82, TapSighashType::NonePlusAnyoneCanPay), (0x83, TapSighashType::SinglePlusAnyoneCanPay)];
fn conv(n: u32) -> Result<(), String> {
    let t = PsbtSighashType::from_u32(n);
    ck!(t.to_u32() == n, "{n:#x}: to_u32 = {:#x}", t.to_u32());
    match (t.ecdsa_hash_ty(), E.iter().find(|e| e.0 == n)) { (Ok(a), Some(b)) => ck!(a == b.1, "{n:#x}: ecdsa type {a:?}"), (Err(e), None) => ck!(e.0 == n, "{n:#x}: reported {:#x}", e.0), (a, _) => return Err(format!("{n:#x}: ecdsa_hash_ty = {a:?}")) }
    match (t.taproot_hash_ty(), T.iter().find(|e| e.0 == n)) { (Ok(a), Some(b)) => ck!(a == b.1, "{n:#x}: taproot type {a:?}"), (Err(InvalidSighashTypeError::Invalid(e)), None) => ck!(e == n, "{n:#x}: reported {e:#x}"), (Err(InvalidSighashTypeError::Bitcoin(e)), None) => { let s = e.to_string(); ck!(s == format!("invalid sighash type {n}"), "{n}: reported {s}"); } (a, _) => return Err(format!("{n:#x}: taproot_hash_ty = {a:?}")) }
    let s = t.to_string(); let u = PsbtSighashType::from_str(&s);
    ck!(u == Ok(t), "{n:#x}: prints {s:?}, which parses to {u:?}");
    for p in [format!("{n:x}"), format!("{n:#x}")] { let u = PsbtSighashType::from_str(&p); ck!(u == Ok(t), "{p:?} parses to {u:?}"); }
    Ok(())
}
pub fn c19(r: &mut Rng) -> R {
    let i = (r.0 ^ 0x9e37_79b9_7f4a_7c15) as u32;
    let n = match i % 4 { 0 => i / 4, 1 => (i / 4).wrapping_mul(0x0100_0001), 2 => r.edge_u32(), _ => r.u32() };
    conv(n)?;
    ok(format!("{n:#x}"))
}
pub fn c19_types(r: &mut Rng) -> R {
    for (n, t) in E { let p = PsbtSighashType::from(t); ck!(p.to_u32() == n && p.ecdsa_hash_ty() == Ok(t), "{t:?} converts to {:#x} and back to {:?}", p.to_u32(), p.ecdsa_hash_ty()); let q = PsbtSighashType::from_str(&p.to_string()); ck!(q == Ok(p), "{t:?}: {p} parses to {q:?}"); }
    for (n, t) in T { let p = PsbtSighashType::from(t); ck!(p.to_u32() == n && p.taproot_hash_ty().ok() == Some(t), "{t:?} converts to {:#x}", p.to_u32()); let q = PsbtSighashType::from_str(&p.to_string()); ck!(q == Ok(p), "{t:?}: {p} parses to {q:?}"); let q = PsbtSighashType::from_str(&t.to_string()); ck!(q == Ok(p), "{t} parses to {q:?}"); }
    let junk: String = (0..r.below(12)).map(|_| *r.pick(&['S', 'I', 'G', 'H', '_', 'x', '0', 'g', ' ', '|', 'A', 'f', '9'])).collect();
    note(|| junk.clone());
    if let Ok(t) = PsbtSighashType::from_str(&junk) { let u = u32::from_str_radix(junk.trim_start_matches("0x"), 16).ok(); ck!(u == Some(t.to_u32()), "{junk:?} parses to {t:?}"); }
    ok(junk)
}
/// the type survives both serializations
pub fn c19_ser(r: &mut Rng) -> R {
    let n = match r.below(3) { 0 => r.edge_u32(), 1 => r.below(300) as u32, _ => r.u32() }; let t = PsbtSighashType::from_u32(n);
    let mut p = v2::Psbt { global: v2::Global::default(), inputs: vec![v2::Input::new(&OutPoint { txid: Txid::from_byte_array([3; 32]), vout: 1 })], outputs: vec![] };
    p.global.input_count = 1; p.inputs[0].sighash_type = Some(t);
    let b = p.serialize(); note(|| enc::hex(&b));
    let pair = enc::pair_bytes(3, &[], &n.to_le_bytes());
    ck!(b.windows(pair.len()).any(|w| w == &pair[..]), "{n:#x} is not serialized as four little endian bytes: {}", enc::hex(&b));
    let q = v2::Psbt::deserialize(&b).map_err(|e| format!("{n:#x}: {e:?}"))?; ck!(q.inputs[0].sighash_type == Some(t), "{n:#x} read back as {:?}", q.inputs[0].sighash_type);
    let mut u = gen::unsigned_tx(r); if u.input.is_empty() { u.input.push(bitcoin::TxIn::default()); }
    let mut p = empty0(u); p.inputs[0].sighash_type = Some(t);
    let q = v0::Psbt::deserialize(&p.serialize()).map_err(|e| format!("{n:#x}: {e:?}"))?; ck!(q.inputs[0].sighash_type == Some(t), "v0: {n:#x} read back as {:?}", q.inputs[0].sighash_type);
    ok(format!("{n:#x}"))
}

// ---- C22 ----
fn sh(s: &ScriptBuf) -> Vec<u8> { [&[0xa9, 20][..], &s.script_hash().to_byte_array(), &[0x87]].concat() }
fn wsh(s: &ScriptBuf) -> Vec<u8> { [&[0, 32][..], &s.wscript_hash().to_byte_array()].concat() }
fn is_sh(s: &[u8]) -> bool { s.len() == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87 }
fn is_wsh(s: &[u8]) -> bool { s.len() == 34 && s[0] == 0 && s[1] == 32 }
fn is_prog(s: &[u8]) -> bool { s.len() >= 4 && s.len() <= 42 && (s[0] == 0 || (0x51..=0x60).contains(&s[0])) && s[1] as usize + 2 == s.len() }
/// the reasons to refuse an input
fn reasons(p: &Psbt, k: usize) -> Vec<S> {
    let i = &p.inputs[k]; let o = p.unsigned_tx.input[k].previous_output; let mut v = vec![];
    let utxo = match (&i.witness_utxo, &i.non_witness_utxo) { (Some(w), _) => Some(w), (_, Some(t)) => t.output.get(o.vout as usize), _ => None };
    if let Some(w) = &i.witness_utxo { let s = w.script_pubkey.as_bytes(); if !is_sh(s) && !is_prog(s) { v.push(S::NonWitnessSig) } }
    if let Some(t) = &i.non_witness_utxo { if t.compute_txid() != o.txid { v.push(S::NonWitnessUtxoTxidMismatch) } }
    if let Some(s) = &i.redeem_script { match utxo { None => v.push(S::MissingTxOut), Some(u) => if u.script_pubkey.as_bytes() != sh(s) { v.push(S::RedeemScriptMismatch) } } }
    if let Some(s) = &i.witness_script { match utxo { None => v.push(S::MissingTxOut), Some(u) => { let b = u.script_pubkey.as_bytes(); if is_wsh(b) { if b != wsh(s) { v.push(S::WitnessScriptMismatchWsh) } } else if is_sh(b) { if let Some(rs) = &i.redeem_script { if rs.as_bytes() != wsh(s) { v.push(S::WitnessScriptMismatchShWsh) } } } } } }
    v
}
pub fn c22(r: &mut Rng) -> R {
    let (mut p, _) = wallet0(r, 3);
    let calm = r.below(3);
    for (k, i) in p.inputs.iter_mut().enumerate() {
        if calm == 0 { continue }
        if r.chance(1, 12) { i.redeem_script = if r.bool() { None } else { Some(script(r)) } }
        if r.chance(1, 12) { i.witness_script = if r.bool() { None } else { Some(script(r)) } }
        if r.chance(1, 16) { i.witness_utxo = None } if r.chance(1, 16) { i.non_witness_utxo = None }
        if r.chance(1, 12) { i.witness_utxo = Some(txout(r)) } if r.chance(1, 16) { i.non_witness_utxo = Some(tx(r)) }
        if r.chance(1, 16) { p.unsigned_tx.input[k].previous_output.txid = txid(r) } if r.chance(1, 16) { p.unsigned_tx.input[k].previous_output.vout = r.edge_u32() }
        if r.chance(1, 10) { if let (Some(w), None) = (i.witness_script.clone(), i.redeem_script.clone()) { let rs = ScriptBuf::from(wsh(&w)); if let Some(u) = &mut i.witness_utxo { u.script_pubkey = ScriptBuf::from(sh(&rs)); } if r.bool() { i.redeem_script = Some(rs) } } }
        if r.chance(1, 10) { if let Some(rs) = &mut i.redeem_script { let mut b = rs.to_bytes(); if !b.is_empty() { let j = r.below(b.len()); b[j] ^= 1 << r.below(8); *rs = ScriptBuf::from(b); } } }
        if r.chance(1, 10) { if let Some(rs) = &mut i.witness_script { let mut b = rs.to_bytes(); if !b.is_empty() { let j = r.below(b.len()); b[j] ^= 1 << r.below(8); *rs = ScriptBuf::from(b); } } }
    }
    note(|| show0(&p));
    let why: Vec<Vec<S>> = (0..p.inputs.len()).map(|k| reasons(&p, k)).collect();
    let g = p.signer_checks();
    let first = why.iter().find(|v| !v.is_empty());
    match (&g, first) { (Ok(()), None) => {} (Err(e), Some(v)) => ck!(v.contains(e), "signer_checks = {e:?}, expected {v:?}: {}", show0(&p)), (g, v) => return Err(format!("signer_checks = {g:?}, expected {v:?}: {}", show0(&p))) }
    ok(format!("{why:?} {}", show0(&p)))
}

// ---- C25 ----
struct Desc { d: Descriptor<DefiniteDescriptorKey>, spk: ScriptBuf, redeem: Option<ScriptBuf>, witness: Option<ScriptBuf>, keys: Vec<(secp256k1::PublicKey, (Fingerprint, DerivationPath))>, segwit: bool, tr: bool }
fn desc(r: &mut Rng) -> Desc {
    let p = pool(); let s = &p.secp;
    let n = r.range(1, 3);
    let ks: Vec<_> = (0..n).map(|j| {
        let x = &p.xprivs[(j + r.below(3)) % 2]; let (a, b) = (r.below(5) as u32, j as u32 * 10 + r.below(5) as u32);
        let path = DerivationPath::from(vec![ChildNumber::from_hardened_idx(a).unwrap(), ChildNumber::from(b)]);
        let acc = x.derive_priv(s, &[ChildNumber::from_hardened_idx(a).unwrap()]).unwrap();
        let f = x.fingerprint(s);
        let text = format!("[{f}/{a}']{}/{b}", bitcoin::bip32::Xpub::from_priv(s, &acc));
        (text, x.derive_priv(s, &path).unwrap().to_priv().public_key(s), (f, path))
    }).collect();
    let k = r.below(9);
    let multi = format!("multi({},{})", r.range(1, n), ks.iter().map(|k| k.0.clone()).collect::<Vec<_>>().join(","));
    let text = match k { 0 => format!("pkh({})", ks[0].0), 1 => format!("wpkh({})", ks[0].0), 2 => format!("sh(wpkh({}))", ks[0].0), 3 => format!("wsh({multi})"), 4 => format!("sh({multi})"), 5 => format!("sh(wsh({multi}))"), 6 => format!("pk({})", ks[0].0), 7 => format!("wsh(and_v(v:pk({}),older(5)))", ks[0].0), _ => format!("tr({})", ks[0].0) };
    let d = Descriptor::<DefiniteDescriptorKey>::from_str(&text).unwrap_or_else(|e| panic!("{text}: {e}"));
    let c = d.derived_descriptor(s).unwrap();
    let inner = || c.explicit_script().unwrap();
    let one = matches!(k, 0 | 1 | 2 | 6 | 7 | 8);
    let wp = ScriptBuf::new_p2wpkh(&ks[0].1.wpubkey_hash().unwrap());
    let (spk, redeem, witness) = match k {
        0 => (ScriptBuf::new_p2pkh(&ks[0].1.pubkey_hash()), None, None), 1 => (wp, None, None),
        2 => (ScriptBuf::from(sh(&wp)), Some(wp), None), 3 | 7 => { let w = inner(); (ScriptBuf::from(wsh(&w)), None, Some(w)) }
        4 => { let w = inner(); (ScriptBuf::from(sh(&w)), Some(w), None) } 5 => { let w = inner(); let x = ScriptBuf::from(wsh(&w)); (ScriptBuf::from(sh(&x)), Some(x), Some(w)) }
        6 => (ScriptBuf::new_p2pk(&ks[0].1), None, None), _ => (c.script_pubkey(), None, None),
    };
    Desc { d, spk, redeem, witness, keys: ks.into_iter().take(if one { 1 } else { n }).map(|k| (k.1.inner, k.2)).collect(), segwit: matches!(k, 1 | 2 | 3 | 5 | 7 | 8), tr: k == 8 }
}
pub fn c25(r: &mut Rng) -> R {
    use psbt_v2::v0::miniscript::PsbtExt;
    let a = desc(r); let b = if r.chance(1, 3) { desc(r) } else { desc_clone(&a) };
    // input 0 spends an output of a; the update is with b
    let out = TxOut { value: Amount::from_sat(r.below(9999) as u64), script_pubkey: a.spk.clone() };
    let mut prev = tx(r); prev.input.push(bitcoin::TxIn { previous_output: outpoint(r), ..Default::default() });
    while prev.output.len() < 3 { prev.output.push(txout(r)); }
    let v = r.below(prev.output.len()); prev.output[v] = out.clone();
    let mut u = unsigned_tx(r);
    u.input.insert(0, bitcoin::TxIn { previous_output: OutPoint { txid: prev.compute_txid(), vout: v as u32 }, ..Default::default() });
    u.output.insert(0, TxOut { value: Amount::ZERO, script_pubkey: a.spk.clone() });
    let mut p = empty0(u); let d = gen::density(r); fill0(&mut p, r, d);
    let i = &mut p.inputs[0]; i.witness_utxo = None; i.non_witness_utxo = None;
    match r.below(4) { 0 => i.witness_utxo = Some(out.clone()), 1 => i.non_witness_utxo = Some(prev.clone()), 2 => { i.witness_utxo = Some(out.clone()); i.non_witness_utxo = Some(prev.clone()); } _ => if r.bool() { i.witness_utxo = Some(out.clone()) } else { i.non_witness_utxo = Some(prev.clone()) } }
    match r.below(8) { 0 => p.unsigned_tx.input[0].previous_output.txid = txid(r), 1 => p.unsigned_tx.input[0].previous_output.vout = r.below(5) as u32, 2 => if let Some(w) = &mut i.witness_utxo { if r.bool() { w.value = Amount::from_sat(w.value.to_sat() + 1) } else { w.script_pubkey = script(r) } }, 3 => { i.witness_utxo = None; i.non_witness_utxo = None } _ => {} }
    // anywhere among the others
    let (ki, ko) = (r.below(p.inputs.len()), r.below(p.outputs.len()));
    p.inputs.swap(0, ki); p.unsigned_tx.input.swap(0, ki); p.outputs.swap(0, ko); p.unsigned_tx.output.swap(0, ko);
    note(|| format!("{} {}", b.d, show0(&p)));
    let i = &p.inputs[ki]; let o = p.unsigned_tx.input[ki].previous_output;
    let tx_ok = i.non_witness_utxo.as_ref().map_or(true, |t| t.compute_txid() == o.txid);
    let spk = match (&i.witness_utxo, &i.non_witness_utxo) { (Some(w), None) => if b.segwit { Some(w.script_pubkey.clone()) } else { None }, (None, Some(t)) => t.output.get(o.vout as usize).map(|x| x.script_pubkey.clone()), (Some(w), Some(t)) => t.output.get(o.vout as usize).filter(|x| *x == w).map(|x| x.script_pubkey.clone()), _ => None };
    let want = tx_ok && spk.as_ref() == Some(&b.spk);
    let mut q = p.clone();
    let g = q.update_input_with_descriptor(ki, &b.d);
    let e = |m: String| format!("{m}: descriptor {}: {}", b.d, show0(&p));
    ck!(g.is_ok() == want, "{}", e(format!("update_input_with_descriptor = {g:?}, expected success {want}")));
    let mut w = p.clone();
    if want {
        if !b.tr {
            let i = &mut w.inputs[ki]; for (k, s) in &b.keys { i.bip32_derivation.insert(*k, s.clone()); }
            if b.redeem.is_some() { i.redeem_script = b.redeem.clone() } if b.witness.is_some() { i.witness_script = b.witness.clone() }
            ck!(q == w, "{}", e(format!("updated to {}, expected {}", show0(&q), show0(&w))));
        } else {
            let x = bitcoin::XOnlyPublicKey::from(b.keys[0].0); let i = &q.inputs[ki];
            ck!(i.tap_internal_key == Some(x) && i.tap_key_origins.get(&x) == Some(&(vec![], b.keys[0].1.clone())) && i.tap_merkle_root.is_none(), "{}", e(format!("taproot fields {:?} {:?}", i.tap_internal_key, i.tap_key_origins)));
        }
    } else { ck!(q == w, "{}", e("a refused update changed the PSBT".into())); }
    let g = q.clone().update_input_with_descriptor(p.inputs.len() + r.below(2), &b.d); ck!(g.is_err(), "{}", e("index out of bounds accepted".into()));
    let mut q = p.clone(); let g = q.update_output_with_descriptor(ko, &b.d); let want = a.spk == b.spk;
    ck!(g.is_ok() == want, "{}", e(format!("update_output_with_descriptor = {g:?}, expected success {want}")));
    let mut w = p.clone();
    if want && !b.tr { let i = &mut w.outputs[ko]; for (k, s) in &b.keys { i.bip32_derivation.insert(*k, s.clone()); } if b.redeem.is_some() { i.redeem_script = b.redeem.clone() } if b.witness.is_some() { i.witness_script = b.witness.clone() } }
    if !(want && b.tr) { ck!(q == w, "{}", e(format!("output updated to {}, expected {}", show0(&q), show0(&w)))); } else { let x = bitcoin::XOnlyPublicKey::from(b.keys[0].0); ck!(q.outputs[ko].tap_internal_key == Some(x), "{}", e("output internal key".into())); }
    let g = q.update_output_with_descriptor(p.outputs.len() + r.below(2), &b.d); ck!(g.is_err(), "{}", e("index out of bounds accepted".into()));
    // a map the unsigned transaction has nothing for
    let mut x = p.clone(); x.outputs.push(Default::default()); x.inputs.push(Default::default());
    let mut y = x.clone(); let g = y.update_output_with_descriptor(p.outputs.len(), &b.d); ck!(g.is_err() && x == y, "{}", e(format!("a map without an output was updated, {g:?}")));
    let g = y.update_input_with_descriptor(p.inputs.len(), &b.d); ck!(g.is_err() && x == y, "{}", e(format!("a map without an input was updated, {g:?}")));
    if show0(&p).is_empty() { return trivial(String::new()) }
    let _ = show;
    ok(format!("{} {}", b.d, show0(&p)))
}
fn desc_clone(a: &Desc) -> Desc { Desc { d: a.d.clone(), spk: a.spk.clone(), redeem: a.redeem.clone(), witness: a.witness.clone(), keys: a.keys.clone(), segwit: a.segwit, tr: a.tr } }
