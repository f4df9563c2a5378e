//! C14-C17: messages to sign, signing, key providers.
use super::note;
use super::tx::{expected_tx, show, show0};
use crate::gen::{self, *};
use crate::rng::Rng;
use crate::{ck, ok, trivial, R};
use bitcoin::bip32::{ChildNumber, DerivationPath, KeySource, Xpriv};
use bitcoin::hashes::Hash;
use bitcoin::key::{PrivateKey, PublicKey};
use bitcoin::secp256k1::{Message, Secp256k1, Signing};
use bitcoin::sighash::{EcdsaSighashType, SighashCache};
use bitcoin::{ecdsa, ScriptBuf, Transaction, TxOut};
use psbt_v2::{v0, v2, PsbtSighashType};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

// ---- classification by the bytes of the script ----
fn is_sh(s: &[u8]) -> bool { s.len() == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87 }
fn wit_prog(s: &[u8]) -> Option<(u8, usize)> { if s.len() < 4 || s.len() > 42 { return None } let v = match s[0] { 0 => 0, 0x51..=0x60 => s[0] - 0x50, _ => return None }; if s[1] as usize + 2 == s.len() { Some((v, s.len() - 2)) } else { None } }
#[derive(Debug, Clone, PartialEq)]
pub enum Msg { Ecdsa([u8; 32], EcdsaSighashType), Schnorr, Err }
/// whether the scriptPubkey is one for ECDSA, one for Schnorr, or unknown
pub fn algo(spk: &[u8]) -> u8 { match wit_prog(spk) { None => 0, Some((0, 20 | 32)) => 0, Some((1, 32)) => 1, _ => 2 } }
pub fn std_type(t: Option<PsbtSighashType>) -> Option<EcdsaSighashType> {
    Some(match t.map(|t| t.to_u32()).unwrap_or(1) { 1 => EcdsaSighashType::All, 2 => EcdsaSighashType::None, 3 => EcdsaSighashType::Single, 0x81 => EcdsaSighashType::AllPlusAnyoneCanPay, 0x82 => EcdsaSighashType::NonePlusAnyoneCanPay, 0x83 => EcdsaSighashType::SinglePlusAnyoneCanPay, _ => return None })
}
fn p2pkh_code(prog: &[u8]) -> ScriptBuf { ScriptBuf::from([&[0x76, 0xa9, 0x14][..], prog, &[0x88, 0xac]].concat()) }
pub fn message(tx: &Transaction, idx: usize, utxo: Option<&TxOut>, redeem: Option<&ScriptBuf>, wit: Option<&ScriptBuf>, ty: Option<PsbtSighashType>) -> Msg {
    let Some(utxo) = utxo else { return Msg::Err };
    let spk = utxo.script_pubkey.as_bytes();
    match algo(spk) { 1 => return Msg::Schnorr, 2 => return Msg::Err, _ => {} }
    let Some(ty) = std_type(ty) else { return Msg::Err };
    let mut c = SighashCache::new(tx);
    let mut legacy = |s: &ScriptBuf| Msg::Ecdsa(SighashCache::new(tx).legacy_signature_hash(idx, s, ty.to_u32()).unwrap().to_byte_array(), ty);
    let mut v0 = |code: &ScriptBuf| Msg::Ecdsa(c.p2wsh_signature_hash(idx, code, utxo.value, ty).unwrap().to_byte_array(), ty);
    let prog = if is_sh(spk) {
        match redeem { None => return Msg::Err, Some(s) => match wit_prog(s.as_bytes()) { Some((0, 20)) | Some((0, 32)) => s.as_bytes(), _ => return legacy(s) } }
    } else if wit_prog(spk).is_some() { spk } else { return legacy(&utxo.script_pubkey) };
    match prog.len() { 22 => v0(&p2pkh_code(&prog[2..])), _ => match wit { None => Msg::Err, Some(w) => v0(w) } }
}
fn utxo2(i: &v2::Input) -> Option<&TxOut> { match (&i.witness_utxo, &i.non_witness_utxo) { (Some(w), _) => Some(w), (_, Some(t)) => t.output.get(i.spent_output_index as usize), _ => None } }
fn utxo0(p: &v0::Psbt, k: usize) -> Option<&TxOut> { let i = &p.inputs[k]; match (&i.witness_utxo, &i.non_witness_utxo) { (Some(w), _) => Some(w), (_, Some(t)) => t.output.get(p.unsigned_tx.input[k].previous_output.vout as usize), _ => None } }
pub fn message2(p: &v2::Psbt, tx: &Transaction, k: usize) -> Msg { let i = &p.inputs[k]; message(tx, k, utxo2(i), i.redeem_script.as_ref(), i.witness_script.as_ref(), i.sighash_type) }
pub fn message0(p: &v0::Psbt, tx: &Transaction, k: usize) -> Msg { let i = &p.inputs[k]; message(tx, k, utxo0(p, k), i.redeem_script.as_ref(), i.witness_script.as_ref(), i.sighash_type) }
macro_rules! disturb { ($i:ident, $r:ident) => {
    if $r.chance(1, 3) { $i.sighash_type = Some(sighash_type($r)); } else if $r.bool() { $i.sighash_type = Some((*$r.pick(&ETYPES)).into()); }
    if $r.chance(1, 12) { $i.redeem_script = if $r.bool() { None } else { Some(script($r)) }; }
    if $r.chance(1, 12) { $i.witness_script = if $r.bool() { None } else { Some(script($r)) }; }
    if $r.chance(1, 12) { if let Some(u) = &mut $i.witness_utxo { u.script_pubkey = script($r); } }
    if $r.chance(1, 15) { $i.witness_utxo = None; }
    if $r.chance(1, 15) { $i.non_witness_utxo = Some(tx($r)); }
    if $r.chance(1, 10) { $i.witness_utxo = Some(txout($r)); }
} }
pub fn c14(r: &mut Rng) -> R {
    let (mut p, _) = wallet2(r, 4);
    for i in &mut p.inputs { if i.min_height.is_some() { i.min_time = None; } disturb!(i, r); if r.chance(1, 12) { i.spent_output_index = r.edge_u32(); } }
    if r.chance(1, 6) { for i in &mut p.inputs { i.min_height = None; i.min_time = None; } let n = r.below(p.outputs.len() + 1); p.outputs.truncate(n); p.global.output_count = n; }
    note(|| show(&p));
    let Some(t) = expected_tx(&p, false) else { return trivial(String::new()) };
    if r.chance(1, 20) { p.global.input_count = r.below(p.inputs.len() + 2); }
    let mut cache = SighashCache::new(&t);
    let mut seen = vec![];
    for k in 0..p.inputs.len() + 2 {
        let want = if k < p.inputs.len() && k < p.global.input_count { message2(&p, &t, k) } else { Msg::Err };
        let got = p.sighash_ecdsa(k, &mut cache);
        let ok = match (&got, &want) { (Ok((m, t)), Msg::Ecdsa(h, w)) => m.as_ref() == h && t == w, (Err(_), Msg::Err | Msg::Schnorr) => true, _ => false };
        ck!(ok, "input {k}: sighash_ecdsa = {got:?}, expected {want:?}: {}", show(&p));
        seen.push(format!("{want:?}"));
    }
    ok(format!("{seen:?} {}", show(&p)))
}
pub fn c15(r: &mut Rng) -> R {
    let (mut p, _) = wallet0(r, 4);
    for (k, i) in p.inputs.iter_mut().enumerate() { disturb!(i, r); if r.chance(1, 12) { p.unsigned_tx.input[k].previous_output.vout = r.edge_u32(); } }
    if r.chance(1, 6) { let n = r.below(p.outputs.len() + 1); p.outputs.truncate(n); p.unsigned_tx.output.truncate(n); }
    note(|| show0(&p));
    let t = p.unsigned_tx.clone();
    let mut cache = SighashCache::new(&t);
    let mut seen = vec![];
    for k in 0..p.inputs.len() + 2 {
        let want = if k < p.inputs.len() { message0(&p, &t, k) } else { Msg::Err };
        let got = p.sighash_ecdsa(k, &mut cache);
        let good = match (&got, &want) { (Ok((m, t)), Msg::Ecdsa(h, w)) => m.as_ref() == h && t == w, (Err(_), Msg::Err | Msg::Schnorr) => true, _ => false };
        ck!(good, "input {k}: sighash_ecdsa = {got:?}, expected {want:?}: {}", show0(&p));
        let u = p.spend_utxo(k).ok(); let wu = if k < p.inputs.len() { utxo0(&p, k) } else { None };
        ck!(u == wu, "input {k}: spend_utxo = {u:?}, expected {wu:?}: {}", show0(&p));
        seen.push(format!("{want:?}"));
    }
    // the signatures v0 signing adds are for those messages
    let mut q = p.clone();
    let keys: BTreeMap<PublicKey, PrivateKey> = q.inputs.iter().flat_map(|i| i.bip32_derivation.keys()).filter_map(|k| secret(k).map(|s| (PublicKey::new(*k), s))).collect();
    let secp = &pool().secp;
    let _ = q.sign(&keys, secp);
    for k in 0..p.inputs.len() {
        for (pk, s) in &q.inputs[k].partial_sigs {
            let Msg::Ecdsa(h, ty) = message0(&p, &t, k) else { return Err(format!("input {k}: signed although there is no message: {}", show0(&p))) };
            ck!(s.sighash_type == ty && secp.verify_ecdsa(&Message::from_digest(h), &s.signature, &pk.inner).is_ok(), "input {k}: signature for the wrong message or type: {}", show0(&p));
        }
    }
    ok(format!("{seen:?} {}", show0(&p)))
}
/// the secret key of a coin's key (the generator derives coins' keys at m/0..19/0..2)
fn secret(pk: &bitcoin::secp256k1::PublicKey) -> Option<PrivateKey> {
    use std::sync::OnceLock;
    static M: OnceLock<HashMap<bitcoin::secp256k1::PublicKey, PrivateKey>> = OnceLock::new();
    M.get_or_init(|| { let p = pool(); let mut m = HashMap::new(); for x in &p.xprivs { for a in 0..20u32 { for b in 0..3u32 { let k = x.derive_priv(&p.secp, &DerivationPath::from(vec![ChildNumber::from(a), ChildNumber::from(b)])).unwrap().to_priv(); m.insert(k.public_key(&p.secp).inner, k); } } } m }).get(pk).copied()
}
pub fn coin_keys(coins: &[Coin]) -> BTreeMap<PublicKey, PrivateKey> { coins.iter().flat_map(|c| c.keys.iter().map(|k| (k.2, k.1))).collect() }

// ---- C16 ----
/// a provider that serves some keys by path and some by public key, and fails for some
pub struct Mixed { pub path: BTreeMap<KeySource, PrivateKey>, pub key: BTreeMap<PublicKey, PrivateKey>, pub fail: bool }
impl v2::GetKey for Mixed {
    type Error = String;
    fn get_key<C: Signing>(&self, q: v2::KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, String> {
        match q { v2::KeyRequest::Bip32(s) => match self.path.get(&s) { Some(k) => Ok(Some(*k)), None if self.fail => Err("no".into()), None => Ok(None) },
            v2::KeyRequest::Pubkey(k) => match self.key.get(&k) { Some(k) => Ok(Some(*k)), None if self.fail => Err("no".into()), None => Ok(None) }, _ => Err("unknown".into()) }
    }
}
pub fn c16(r: &mut Rng) -> R {
    let (mut p, coins) = wallet2(r, 4);
    let wild = r.chance(1, 3);
    for i in &mut p.inputs {
        if i.min_height.is_some() { i.min_time = None; }
        if r.chance(1, 2) { i.sighash_type = Some((*r.pick(&ETYPES)).into()); }
        if wild { disturb!(i, r); if r.chance(1, 12) { i.spent_output_index = r.edge_u32(); } }
        if r.chance(1, 4) { i.bip32_derivations.insert(spk1(r), (bitcoin::bip32::Fingerprint::from([9; 4]), gen::path(r))); }
        if r.chance(1, 4) { i.partial_sigs.insert(*r.pick(&pool().pks), *r.pick(&pool().esigs)); }
        if r.chance(1, 4) { let k = r.pick(&coins).keys[0].2; i.partial_sigs.insert(k, *r.pick(&pool().esigs)); }
    }
    p.global.tx_modifiable_flags = if r.chance(1, 4) { r.u8() } else { r.below(8) as u8 };
    note(|| show(&p));
    let Some(t) = expected_tx(&p, false) else { return trivial(String::new()) };
    // what the provider serves
    let mut m = Mixed { path: BTreeMap::new(), key: BTreeMap::new(), fail: r.bool() };
    let few = r.below(4);
    for c in &coins { for (s, k, pk) in &c.keys { if few == 0 && r.bool() { continue } if r.bool() { m.path.insert(s.clone(), *k); } if r.bool() || few == 3 { m.key.insert(*pk, *k); } } }
    let provider = r.below(4);
    let xk = *r.pick(&pool().xprivs);
    let secp = &pool().secp;
    let serve = |pk: &bitcoin::secp256k1::PublicKey, s: &KeySource| -> Option<PrivateKey> {
        match provider { 0 | 1 => m.path.get(s).or_else(|| m.key.get(&PublicKey::new(*pk))).copied(), 2 => m.key.get(&PublicKey::new(*pk)).copied(),
            _ => if xk.fingerprint(secp) == s.0 { Some(xk.derive_priv(secp, &s.1).unwrap().to_priv()) } else { None } }
    };
    let mut want = p.clone(); let mut used: BTreeMap<usize, Vec<PublicKey>> = BTreeMap::new(); let mut errs = BTreeSet::new();
    for k in 0..p.inputs.len() {
        let msg = message2(&p, &t, k);
        let Some(u) = utxo2(&p.inputs[k]) else { continue };
        if algo(u.script_pubkey.as_bytes()) != 0 { continue }
        let served: Vec<_> = p.inputs[k].bip32_derivations.iter().filter_map(|(pk, s)| serve(pk, s)).collect();
        match msg {
            Msg::Ecdsa(h, ty) => {
                let mut v = vec![];
                for sk in served { let pk = sk.public_key(secp); want.inputs[k].partial_sigs.insert(pk, ecdsa::Signature { signature: secp.sign_ecdsa(&Message::from_digest(h), &sk.inner), sighash_type: ty }); v.push(pk); }
                if !v.is_empty() {
                    let f = &mut want.global.tx_modifiable_flags; let b = ty as u32;
                    if b & 0x80 == 0 { *f &= !1 } if b & 0x1f != 2 { *f &= !2 } if b & 0x1f == 3 { *f |= 4 }
                }
                used.insert(k, v);
            }
            _ => if served.is_empty() { used.insert(k, vec![]); } else { errs.insert(k); }
        }
    }
    let s = v2::Signer::new(p.clone()).map_err(|e| e.to_string())?;
    let (uk, ek, res) = match match provider { 0 | 1 => s.sign(&m, secp), 2 => s.sign(&m.key, secp), _ => s.sign(&xk, secp) } { Ok((q, u)) => (u, BTreeMap::new(), Some(q)), Err((u, e)) => (u, e, None) };
    let d = |e: String| format!("{e}: flags {:#x}, provider {provider}: {}", p.global.tx_modifiable_flags, show(&p));
    let nonempty = |m: &BTreeMap<usize, Vec<PublicKey>>| m.iter().filter(|x| !x.1.is_empty()).map(|(k, v)| (*k, v.clone())).collect::<BTreeMap<_, _>>();
    ck!(nonempty(&uk) == nonempty(&used), "{}", d(format!("keys used {uk:?}, expected {used:?}")));
    ck!(ek.keys().copied().collect::<BTreeSet<_>>() == errs, "{}", d(format!("errors {ek:?}, expected for inputs {errs:?}")));
    ck!(res.is_some() == errs.is_empty(), "{}", d("result does not match the errors".into()));
    if let Some(q) = res {
        for k in 0..q.inputs.len().min(want.inputs.len()) { ck!(q.inputs[k] == want.inputs[k], "{}", d(format!("input {k} after signing is {:?}, expected {:?}", q.inputs[k], want.inputs[k]))); }
        ck!(q.global.tx_modifiable_flags == want.global.tx_modifiable_flags, "{}", d(format!("flags after signing {:#x}, expected {:#x}", q.global.tx_modifiable_flags, want.global.tx_modifiable_flags)));
        ck!(q == want, "{}", d(format!("after signing {}, expected {}", show(&q), show(&want))));
    }
    // the single call for one type
    let mut s = v2::Signer::new(p.clone()).unwrap(); let ty = *r.pick(&ETYPES); s.ecdsa_clear_tx_modifiable(ty);
    let mut w = p.clone(); { let f = &mut w.global.tx_modifiable_flags; let b = ty as u32; if b & 0x80 == 0 { *f &= !1 } if b & 0x1f != 2 { *f &= !2 } if b & 0x1f == 3 { *f |= 4 } }
    let q = s.psbt(); ck!(q == w, "{}", d(format!("flags after a {ty} signature {:#x}, expected {:#x}", q.global.tx_modifiable_flags, w.global.tx_modifiable_flags)));
    if used.values().all(|v| v.is_empty()) && errs.is_empty() { return trivial(String::new()) }
    ok(format!("{used:?} {errs:?} {}", show(&p)))
}

// ---- C17 ----
macro_rules! both { ($k:expr, $q0:expr, $q2:expr, $s:expr) => { {
    let a = v0::bitcoin::GetKey::get_key($k, $q0, $s).map_err(|e| format!("{e:?}")); let b = v2::GetKey::get_key($k, $q2, $s).map_err(|e| format!("{e:?}"));
    ck!(a == b, "version 0 gives {a:?}, version 2 {b:?}"); b
} } }
pub fn c17_xpriv(r: &mut Rng) -> R {
    let p = pool(); let s = &p.secp;
    let mut xs: Vec<Xpriv> = (0..r.range(1, 4)).map(|_| { let x = *r.pick(&p.xprivs); if r.bool() { x } else { x.derive_priv(s, &gen::path(r)).unwrap() } }).collect();
    if r.bool() { xs.push(xs[0].derive_priv(s, &p.paths[3]).unwrap()); }
    let path = gen::path(r);
    let f = match r.below(4) { 0 => gen::fp(r), 1 => r.pick(&xs).parent_fingerprint, _ => r.pick(&xs).fingerprint(s) };
    note(|| format!("keys {xs:?} request {f} {path}"));
    let q0 = || v0::bitcoin::KeyRequest::Bip32((f, path.clone())); let q2 = || v2::KeyRequest::Bip32((f, path.clone()));
    let k0 = || v0::bitcoin::KeyRequest::Pubkey(p.pks[0]); let k2 = || v2::KeyRequest::Pubkey(p.pks[0]);
    let d = format!("request {f}/{path} of {:?}", xs.iter().map(|x| x.fingerprint(s)).collect::<Vec<_>>());
    for x in &xs {
        let g = both!(x, q0(), q2(), s); let w = if x.fingerprint(s) == f { x.derive_priv(s, &path).map(|k| Some(PrivateKey { compressed: true, network: x.network, inner: k.private_key })).map_err(|_| ()) } else { Ok(None) };
        ck!(g.clone().map_err(|_| ()) == w, "Xpriv {}: {g:?}, expected {w:?}: {d}", x.fingerprint(s));
        let g = both!(x, k0(), k2(), s); ck!(g.is_err() && g.as_ref().unwrap_err().contains("NotSupported"), "Xpriv for a public key: {g:?}");
    }
    // `Xpriv` is neither `Ord` nor `Hash`, so only empty sets of it can be made
    let (b, h) = (BTreeSet::<Xpriv>::new(), HashSet::<Xpriv>::new());
    let g = both!(&b, q0(), q2(), s); ck!(g == Ok(None), "empty BTreeSet: {g:?}"); let g = both!(&h, q0(), q2(), s); ck!(g == Ok(None), "empty HashSet: {g:?}");
    let g = both!(&b, k0(), k2(), s); ck!(g.is_err(), "BTreeSet for a public key: {g:?}"); let g = both!(&h, k0(), k2(), s); ck!(g.is_err(), "HashSet for a public key: {g:?}");
    ok(d)
}
pub fn c17_map(r: &mut Rng) -> R {
    let p = pool(); let s = &p.secp;
    let mut b: BTreeMap<PublicKey, PrivateKey> = BTreeMap::new();
    for _ in 0..r.below(5) { let i = r.below(8); let mut k = p.pks[i]; let mut sk = PrivateKey::new(p.sks[if r.chance(1, 5) { r.below(8) } else { i }], bitcoin::NetworkKind::Main); if r.chance(1, 3) { k.compressed = false; sk.compressed = false; } b.insert(k, sk); }
    let h: HashMap<PublicKey, PrivateKey> = b.iter().map(|(k, v)| (*k, *v)).collect();
    let q = pk(r);
    note(|| format!("{b:?} request {q}"));
    let want = b.get(&q).copied();
    let (q0, q2) = (v0::bitcoin::KeyRequest::Pubkey(q), v2::KeyRequest::Pubkey(q));
    let d = format!("request {q} (compressed {}) of {:?}", q.compressed, b.keys().collect::<Vec<_>>());
    let g = both!(&b, q0.clone(), q2.clone(), s); ck!(g == Ok(want), "BTreeMap: {g:?}, expected {want:?}: {d}");
    let g = both!(&h, q0, q2, s); ck!(g == Ok(want), "HashMap: {g:?}, expected {want:?}: {d}");
    let ks = key_source(r);
    let (q0, q2) = (v0::bitcoin::KeyRequest::Bip32(ks.clone()), v2::KeyRequest::Bip32(ks));
    let g = both!(&b, q0.clone(), q2.clone(), s); ck!(g.is_err() && g.as_ref().unwrap_err().contains("NotSupported"), "BTreeMap for a path: {g:?}");
    let g = both!(&h, q0, q2, s); ck!(g.is_err() && g.as_ref().unwrap_err().contains("NotSupported"), "HashMap for a path: {g:?}");
    if b.is_empty() { trivial(d) } else { ok(d) }
}
