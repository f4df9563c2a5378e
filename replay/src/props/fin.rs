//! C18, C20, C21: finalizing.
use super::note;
use super::sign::{coin_keys, std_type};
use super::tx::{expected_tx, lock, show, show0};
use crate::gen::{self, *};
use crate::rng::Rng;
use crate::{ck, ok, trivial, R};
use bitcoin::absolute::{Height, LockTime, Time};
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::opcodes::all as op;
use bitcoin::script::Builder;
use bitcoin::sighash::{SighashCache, TapSighashType};
use bitcoin::{ecdsa, relative, Amount, OutPoint, PublicKey, ScriptBuf, Sequence, Transaction, TxOut, Witness, XOnlyPublicKey};
use miniscript::Satisfier;
use psbt_v2::v2::{self, PartialSigsSighashTypeError};

/// signs every input with every key of its coin
fn sign_all(p: v2::Psbt, coins: &[Coin]) -> Result<v2::Psbt, String> {
    let d = show(&p);
    let s = v2::Signer::new(p).map_err(|e| e.to_string())?;
    s.sign(&coin_keys(coins), &pool().secp).map(|x| x.0).map_err(|e| format!("signing a consistent PSBT failed: {:?}: {d}", e.1))
}
fn cleared(i: &v2::Input) -> v2::Input {
    let mut o = v2::Input::new(&OutPoint { txid: i.previous_txid, vout: i.spent_output_index });
    o.witness_utxo = i.witness_utxo.clone(); o.non_witness_utxo = i.non_witness_utxo.clone(); o.sequence = i.sequence; o.min_time = i.min_time; o.min_height = i.min_height;
    o.proprietaries = i.proprietaries.clone(); o.unknowns = i.unknowns.clone();
    o
}
/// extra data that finalizing must clear or keep, but not use
fn clutter(i: &mut v2::Input, r: &mut Rng) {
    let mut x = v2::Input::new(&OutPoint::null()); fill2(&mut x, r, 30);
    i.proprietaries = x.proprietaries; i.unknowns = x.unknowns; i.ripemd160_preimages = x.ripemd160_preimages; i.sha256_preimages = x.sha256_preimages; i.hash160_preimages = x.hash160_preimages; i.hash256_preimages = x.hash256_preimages;
    if r.chance(1, 3) { i.final_script_sig = x.final_script_sig; i.final_script_witness = x.final_script_witness; }
    i.tap_key_sig = x.tap_key_sig; i.tap_script_sigs = x.tap_script_sigs; i.tap_scripts = x.tap_scripts; i.tap_key_origins = x.tap_key_origins; i.tap_internal_key = x.tap_internal_key; i.tap_merkle_root = x.tap_merkle_root;
    #[cfg(feature = "silent-payments")]
    { i.sp_ecdh_shares = x.sp_ecdh_shares; i.sp_dleq_proofs = x.sp_dleq_proofs; }
}
pub fn c18(r: &mut Rng) -> R {
    let (mut p, coins) = wallet2(r, 3);
    for i in &mut p.inputs { if i.min_height.is_some() && r.bool() { i.min_time = None; } i.sighash_type = some_type(r); if r.bool() { clutter(i, r); } }
    for o in &mut p.outputs { if r.chance(1, 3) { fill2o(o, r, 30); } }
    if lock(&p).is_none() { return trivial(String::new()) }
    let p = sign_all(p, &coins)?;
    note(|| show(&p));
    let f = v2::Finalizer::new(p.clone()).map_err(|e| format!("Finalizer::new refused a signed PSBT: {e:?}: {}", show(&p)))?;
    let q = f.finalize(&pool().secp).map_err(|e| format!("finalizing a fully signed PSBT failed: {e:?}: {}", show(&p)))?;
    let d = |e: String| format!("{e}: {}", show(&p));
    ck!(q.global == p.global, "{}", d("the global map changed".into()));
    ck!(q.outputs == p.outputs, "{}", d("the outputs changed".into()));
    ck!(q.inputs.len() == p.inputs.len(), "{}", d("the number of inputs changed".into()));
    for k in 0..p.inputs.len() {
        let mut w = cleared(&p.inputs[k]); let g = &q.inputs[k];
        ck!(g.final_script_sig.is_some() && g.final_script_witness.is_some(), "{}", d(format!("input {k}: final fields {:?} {:?}", g.final_script_sig, g.final_script_witness)));
        w.final_script_sig = g.final_script_sig.clone(); w.final_script_witness = g.final_script_witness.clone();
        ck!(*g == w, "{}", d(format!("input {k} is {g:?}, expected {w:?}")));
        let c = &coins[k]; let sig = g.final_script_sig.as_ref().unwrap(); let wit = g.final_script_witness.as_ref().unwrap();
        ck!(wit.is_empty() != c.segwit(), "{}", d(format!("input {k} ({:?}): witness {wit:?}", c.kind)));
        // the scripts the spending needs are where the output type wants them
        if let Some(s) = &c.witness { ck!(wit.last() == Some(s.as_bytes()), "{}", d(format!("input {k}: witness does not end with the witness script"))); }
        if let Some(s) = &c.redeem { ck!(sig.as_bytes().ends_with(s.as_bytes()), "{}", d(format!("input {k}: scriptSig does not end with the redeem script"))); }
        if c.segwit() && c.redeem.is_none() { ck!(sig.is_empty(), "{}", d(format!("input {k}: native segwit with scriptSig {sig}"))); }
    }
    ck!(q.is_finalized(), "{}", d("not finalized".into()));
    ck!(expected_tx(&q, false) == expected_tx(&p, false), "{}", d("describes another transaction".into()));
    let e = v2::Extractor::new(q.clone()).map_err(|e| d(format!("not extractable: {e:?}")))?;
    let t = e.extract_tx_unchecked_fee_rate().map_err(|e| d(format!("not extractable: {e:?}")))?;
    ck!(Some(&t) == expected_tx(&q, true).as_ref(), "{}", d(format!("extracted {t:?}")));
    q.interpreter_check(&pool().secp).map_err(|e| d(format!("interpreter check: {e:?}")))?;
    ok(show(&p))
}
fn some_type(r: &mut Rng) -> Option<psbt_v2::PsbtSighashType> { if r.bool() { None } else { Some((*r.pick(&ETYPES)).into()) } }
fn has_utxo(i: &v2::Input) -> bool { i.witness_utxo.is_some() || i.non_witness_utxo.as_ref().map_or(false, |t| (i.spent_output_index as usize) < t.output.len()) }
/// which partial signature is refused first, and how
#[derive(Debug, PartialEq)]
enum Bad { Declared(usize), Sig(usize) }
fn bad(p: &v2::Psbt) -> Option<Bad> {
    for (k, i) in p.inputs.iter().enumerate() {
        let Some(t) = std_type(i.sighash_type) else { return Some(Bad::Declared(k)) };
        if i.partial_sigs.values().any(|s| s.sighash_type != t) { return Some(Bad::Sig(k)) }
    }
    None
}
fn check_new(p: &v2::Psbt) -> R {
    note(|| show(p));
    let utxo = p.inputs.iter().all(has_utxo); let l = lock(p).is_some(); let b = bad(p);
    let f = v2::Finalizer::new(p.clone());
    let d = format!("utxos {utxo}, lock time {l}, {b:?}: {}", show(p));
    ck!(f.is_ok() == (utxo && l && b.is_none()), "Finalizer::new = {f:?}: {d}");
    if let (Err(e), true, true) = (&f, utxo, l) {
        // only the sighash types are wrong
        use std::error::Error; let src = e.source().and_then(|s| s.downcast_ref::<PartialSigsSighashTypeError>());
        let Some(src) = src else { return Err(format!("no sighash type error but {e:?}: {d}")) };
        use PartialSigsSighashTypeError::*;
        let good = match (src, b.as_ref().unwrap()) {
            (NonStandardInputSighashType { input_index, .. }, Bad::Declared(k)) => input_index == k,
            (WrongSighashFlag { input_index, required, got, pubkey }, Bad::Sig(k)) => { let i = &p.inputs[*k]; input_index == k && Some(*required) == std_type(i.sighash_type) && required != got && i.partial_sigs.get(pubkey).map(|s| s.sighash_type) == Some(*got) }
            _ => false,
        };
        ck!(good, "reported {src:?}: {d}");
    }
    if p.inputs.is_empty() { trivial(d) } else { ok(d) }
}
pub fn c18_new(r: &mut Rng) -> R {
    let mut p = if r.bool() { psbt2(r) } else { wallet2(r, 3).0 };
    for i in &mut p.inputs {
        if r.chance(7, 8) && i.witness_utxo.is_none() && i.non_witness_utxo.is_none() { i.witness_utxo = Some(txout(r)); }
        if r.chance(1, 4) && i.non_witness_utxo.is_some() { i.spent_output_index = r.below(4) as u32; }
        if r.chance(3, 4) { i.sighash_type = some_type(r); let t = std_type(i.sighash_type).unwrap(); for s in i.partial_sigs.values_mut() { s.sighash_type = t; } }
    }
    check_new(&p)
}
pub fn c18_isf(r: &mut Rng) -> R {
    let mut p = psbt2(r); let d = *r.pick(&[50usize, 90, 100]);
    for i in &mut p.inputs { if r.chance(d, 100) { i.final_script_sig = Some(script(r)); } if r.chance(d, 100) { i.final_script_witness = Some(witness(r)); } }
    note(|| show(&p));
    for i in &p.inputs { ck!(i.is_finalized() == (i.final_script_sig.is_some() && i.final_script_witness.is_some()), "is_finalized = {}: {}", i.is_finalized(), show(&p)); }
    let w = p.inputs.iter().all(|i| i.final_script_sig.is_some() && i.final_script_witness.is_some());
    ck!(p.is_finalized() == w, "Psbt::is_finalized = {}: {}", p.is_finalized(), show(&p));
    if p.inputs.is_empty() { trivial(show(&p)) } else { ok(show(&p)) }
}
pub fn c20(r: &mut Rng) -> R {
    let (mut p, _) = wallet2(r, 4);
    for i in &mut p.inputs {
        if i.min_height.is_some() { i.min_time = None; }
        i.sighash_type = if r.chance(1, 6) { Some(sighash_type(r)) } else { some_type(r) };
        let t = std_type(i.sighash_type).unwrap_or(*r.pick(&ETYPES));
        let (n, rare) = if r.chance(1, 20) { (80, 80) } else { (r.below(4), 6) };
        for _ in 0..n { let mut s = *r.pick(&pool().esigs); if !r.chance(1, rare) { s.sighash_type = t; } i.partial_sigs.insert(pk(r), s); }
    }
    check_new(&p)
}

// ---- C21 ----
fn older_met(seq: u32, n: u32) -> bool { seq & 0x8000_0000 == 0 && seq & 0x0040_0000 == n & 0x0040_0000 && (n & 0xffff) <= (seq & 0xffff) }
fn near(r: &mut Rng, v: u32, lo: u32, hi: u32) -> u32 { let x = match r.below(4) { 0 => v, 1 => v.saturating_sub(1), 2 => v.saturating_add(1), _ => lo + r.below((hi - lo) as usize) as u32 }; x.clamp(lo, hi) }
#[derive(Debug, Clone)]
enum Cond { After(u32), Older(u32), Hash(u8, Vec<u8>), Sig(usize) }
fn preimage(r: &mut Rng) -> Vec<u8> { let n = *r.pick(&[32usize, 32, 32, 32, 31, 33, 0]); vec![r.below(3) as u8; n] }
fn digest(kind: u8, b: &[u8]) -> Vec<u8> { match kind { 0 => ripemd160::Hash::hash(b).to_byte_array().to_vec(), 1 => sha256::Hash::hash(b).to_byte_array().to_vec(), 2 => hash160::Hash::hash(b).to_byte_array().to_vec(), _ => sha256d::Hash::hash(b).to_byte_array().to_vec() } }
/// `<key> CHECKSIGVERIFY cond` as miniscript encodes and_v(v:pk(key), cond)
fn cond_script(key: &PublicKey, c: &Cond, keys: &[PublicKey]) -> ScriptBuf {
    let b = Builder::new().push_key(key).push_opcode(op::OP_CHECKSIGVERIFY);
    match c {
        Cond::After(n) => b.push_int(*n as i64).push_opcode(op::OP_CLTV),
        Cond::Older(n) => b.push_int(*n as i64).push_opcode(op::OP_CSV),
        Cond::Sig(k) => b.push_key(&keys[*k]).push_opcode(op::OP_CHECKSIG),
        Cond::Hash(k, h) => { let b = b.push_opcode(op::OP_SIZE).push_int(32).push_opcode(op::OP_EQUALVERIFY).push_opcode(match k { 0 => op::OP_RIPEMD160, 1 => op::OP_SHA256, 2 => op::OP_HASH160, _ => op::OP_HASH256 }); let pb = bitcoin::script::PushBytesBuf::try_from(digest(*k, h)).unwrap(); b.push_slice(pb).push_opcode(op::OP_EQUAL) }
    }.into_script()
}
pub fn c21_v2(r: &mut Rng) -> R {
    let p = pool();
    let key = p.pks[0]; let sk = bitcoin::PrivateKey::new(p.sks[0], bitcoin::NetworkKind::Main);
    let mut inp = v2::Input::new(&OutPoint { txid: txid(r), vout: r.below(3) as u32 });
    match r.below(4) { 0 => {} 1 => inp.min_height = Some(Height::from_consensus(r.below(1000) as u32 + 1).unwrap()), 2 => inp.min_time = Some(Time::from_consensus(500_000_000 + r.below(1000) as u32).unwrap()), _ => { inp.min_height = Some(height(r)); } }
    inp.sequence = match r.below(6) { 0 => None, 1 => Some(sequence(r)), 2 => Some(Sequence(r.below(300) as u32)), 3 => Some(Sequence(0x40_0000 | r.below(300) as u32)), 4 => Some(Sequence(0x8000_0000 | r.below(300) as u32)), _ => Some(Sequence(r.below(0x80_0000) as u32)) };
    let cond = match r.below(6) {
        0 => Cond::After(if r.chance(3, 4) { near(r, inp.min_height.map_or(500, |h| h.to_consensus_u32()), 1, 499_999_999) } else { near(r, 500_000_100, 500_000_000, 0x7fff_ffff) }),
        1 => Cond::After(if r.chance(3, 4) { near(r, inp.min_time.map_or(500_000_500, |h| h.to_consensus_u32()), 500_000_000, 0x7fff_ffff) } else { near(r, 100, 1, 1000) }),
        2 | 3 => { let s = inp.sequence.map_or(100, |s| s.0) & 0x40_ffff; let mut n = near(r, s & 0xffff, 1, 0xffff) | s & 0x40_0000; if r.chance(1, 6) { n ^= 0x40_0000 } if n & 0xffff == 0 { n |= 1 } Cond::Older(n) }
        4 => Cond::Hash(r.below(4) as u8, preimage(r)),
        _ => Cond::Sig(r.range(1, 3)),
    };
    let s = cond_script(&key, &cond, &p.pks);
    let value = Amount::from_sat(5000); let mut wrong = false;
    inp.witness_utxo = Some(TxOut { value, script_pubkey: ScriptBuf::new_p2wsh(&s.wscript_hash()) });
    inp.witness_script = Some(s.clone());
    let mut met = match &cond {
        Cond::After(n) => if *n < 500_000_000 { inp.min_height.map_or(false, |h| *n <= h.to_consensus_u32()) } else { inp.min_time.map_or(false, |t| *n <= t.to_consensus_u32()) },
        Cond::Older(n) => inp.sequence.map_or(false, |s| older_met(s.0, *n)),
        Cond::Hash(k, h) => {
            // preimages recorded: the right one, or another one, possibly under this hash
            let other = preimage(r);
            let rec = match r.below(5) { 0 => None, 1 => Some((other.clone(), other)), 2 => Some((h.clone(), other)), _ => Some((h.clone(), h.clone())) };
            let kind = if r.chance(1, 6) { r.below(4) as u8 } else { *k };
            if let Some((f, v)) = &rec { match kind { 0 => { inp.ripemd160_preimages.insert(Hash::hash(f), v.clone()); } 1 => { inp.sha256_preimages.insert(Hash::hash(f), v.clone()); } 2 => { inp.hash160_preimages.insert(Hash::hash(f), v.clone()); } _ => { inp.hash256_preimages.insert(Hash::hash(f), v.clone()); } } }
            if matches!(&rec, Some((f, v)) if kind == *k && f == h && v != h && v.len() == 32) { wrong = true }
            kind == *k && matches!(&rec, Some((f, v)) if f == h && v == h && h.len() == 32)
        }
        Cond::Sig(_) => false,
    };
    let mut q = v2::Psbt { global: v2::Global::default(), inputs: vec![inp], outputs: vec![v2::Output::new(txout(r))] };
    q.global.input_count = 1; q.global.output_count = 1;
    let t = expected_tx(&q, false).unwrap();
    let ty = *r.pick(&ETYPES); q.inputs[0].sighash_type = Some(ty.into());
    let m = bitcoin::secp256k1::Message::from_digest(SighashCache::new(&t).p2wsh_signature_hash(0, &s, value, ty).unwrap().to_byte_array());
    let mut add = |i: &mut v2::Input, k: usize| { i.partial_sigs.insert(p.pks[k], ecdsa::Signature { signature: p.secp.sign_ecdsa(&m, &p.sks[k]), sighash_type: ty }); };
    add(&mut q.inputs[0], 0);
    if let Cond::Sig(k) = &cond { for j in 1..4 { if r.bool() { add(&mut q.inputs[0], j); if j == *k { met = true; } } } }
    let _ = sk;
    note(|| show(&q));
    let d = format!("{cond:?} met {met}: {}", show(&q));
    let f = v2::Finalizer::new(q.clone()).map_err(|e| format!("{e:?}: {d}"))?;
    match f.finalize(&p.secp) {
        Ok(_) => ck!(met, "finalized although the condition is not met: {d}"),
        Err(e) => { ck!(!met, "not finalized although the condition is met: {e:?}: {d}"); // a wrong preimage recorded (in memory) under the hash is offered all the same
            ck!(matches!(e, v2::FinalizeError::FinalizeInput { .. }) || wrong, "the satisfier relied on a condition that is not met: {e:?}: {d}"); }
    }
    ok(d)
}
pub fn c21_v0(r: &mut Rng) -> R {
    use psbt_v2::v0::miniscript::PsbtInputSatisfier;
    type X = XOnlyPublicKey; type P = PublicKey;
    let mut p = psbt0(r);
    if p.inputs.is_empty() { return trivial(String::new()) }
    let d = *r.pick(&[30usize, 60, 80]); let mut q = empty0(p.unsigned_tx.clone()); fill0(&mut q, r, d); p.inputs = q.inputs;
    let k = r.below(p.inputs.len());
    if r.bool() { p.unsigned_tx.input[k].sequence = Sequence(match r.below(5) { 0 => 0xffff_ffff, 1 => 0xffff_fffe, 2 => r.below(200) as u32, 3 => 0x40_0000 | r.below(200) as u32, _ => r.below(0x80_0000) as u32 }); }
    if r.bool() { p.unsigned_tx.version.0 = r.below(4) as i32; }
    for h in 0..3u8 { for n in [32usize, 31, 33] { if r.chance(1, 4) { let b = vec![h; n]; let i = &mut p.inputs[k]; match r.below(4) { 0 => { i.ripemd160_preimages.insert(Hash::hash(&b), b); } 1 => { i.sha256_preimages.insert(Hash::hash(&b), b); } 2 => { i.hash160_preimages.insert(Hash::hash(&b), b); } _ => { i.hash256_preimages.insert(Hash::hash(&b), b); } } } } }
    note(|| show0(&p));
    let s = PsbtInputSatisfier::new(&p, k); let i = &p.inputs[k]; let t: &Transaction = &p.unsigned_tx; let seq = t.input[k].sequence.0; let lt = t.lock_time.to_consensus_u32();
    let e = |m: String| format!("{m}: input {k} of {}", show0(&p));
    for _ in 0..8 {
        let n = match r.below(3) { 0 => near(r, lt.max(1), 1, u32::MAX - 1), 1 => near(r, 499_999_999, 1, u32::MAX - 1), _ => r.edge_u32() };
        let want = seq != 0xffff_ffff && (n < 500_000_000) == (lt < 500_000_000) && n <= lt;
        let g = Satisfier::<P>::check_after(&s, LockTime::from_consensus(n));
        ck!(g == want, "{}", e(format!("check_after({n}) = {g}, transaction lock time {lt}, sequence {seq:#x}")));
        ck!(Satisfier::<X>::check_after(&s, LockTime::from_consensus(n)) == want, "{}", e("check_after differs by key type".into()));
        let n = match r.below(3) { 0 => near(r, seq & 0xffff, 0, 0xffff) | seq & 0x40_0000, 1 => near(r, seq & 0xffff, 0, 0xffff), _ => r.below(0x1_0000) as u32 | (r.below(2) as u32) << 22 };
        let rl = relative::LockTime::from_consensus(n).unwrap();
        let want = t.version.0 >= 2 && seq & 0x8000_0000 == 0 && older_met(seq, n);
        let g = Satisfier::<P>::check_older(&s, rl);
        ck!(g == want, "{}", e(format!("check_older({n:#x}) = {g}, version {}, sequence {seq:#x}", t.version)));
    }
    let p32 = |v: Option<&Vec<u8>>| -> Option<[u8; 32]> { v.and_then(|v| <[u8; 32]>::try_from(&v[..]).ok()) };
    for h in 0..3u8 { for n in [32usize, 31, 33, 0, 1, 253] {
        let b = vec![h; n];
        let x: ripemd160::Hash = Hash::hash(&b); ck!(Satisfier::<P>::lookup_ripemd160(&s, &x) == p32(i.ripemd160_preimages.get(&x)), "{}", e(format!("lookup_ripemd160({x})")));
        let x: sha256::Hash = Hash::hash(&b); ck!(Satisfier::<P>::lookup_sha256(&s, &x) == p32(i.sha256_preimages.get(&x)), "{}", e(format!("lookup_sha256({x})")));
        let x: hash160::Hash = Hash::hash(&b); ck!(Satisfier::<P>::lookup_hash160(&s, &x) == p32(i.hash160_preimages.get(&x)), "{}", e(format!("lookup_hash160({x})")));
        let x: sha256d::Hash = Hash::hash(&b); let y = miniscript::hash256::Hash::from_byte_array(x.to_byte_array());
        ck!(Satisfier::<P>::lookup_hash256(&s, &y) == p32(i.hash256_preimages.get(&x)), "{}", e(format!("lookup_hash256({x})")));
    } }
    for k in &pool().pks {
        for c in [true, false] { let k = PublicKey { compressed: c, inner: k.inner }; ck!(Satisfier::<P>::lookup_ecdsa_sig(&s, &k) == i.partial_sigs.get(&k).copied(), "{}", e(format!("lookup_ecdsa_sig({k})")));
            let g = Satisfier::<P>::lookup_raw_pkh_ecdsa_sig(&s, &k.pubkey_hash().to_raw_hash()); let w = i.partial_sigs.get(&k).map(|g| (k, *g)); ck!(g == w, "{}", e(format!("lookup_raw_pkh_ecdsa_sig({k}) = {g:?}, expected {w:?}"))); }
        let g = Satisfier::<P>::lookup_raw_pkh_pk(&s, &PublicKey::new(k.inner).pubkey_hash().to_raw_hash()); ck!(g == i.bip32_derivation.get(&k.inner).map(|_| PublicKey::new(k.inner)), "{}", e(format!("lookup_raw_pkh_pk({k}) = {g:?}")));
        let x = XOnlyPublicKey::from(k.inner);
        for b in 0..3u8 { let l = bitcoin::TapLeafHash::from_byte_array([b; 32]); ck!(Satisfier::<X>::lookup_tap_leaf_script_sig(&s, &x, &l) == i.tap_script_sigs.get(&(x, l)).copied(), "{}", e(format!("lookup_tap_leaf_script_sig({x}, {l})")));
            let h = hash160::Hash::hash(&x.serialize()); let g = Satisfier::<X>::lookup_raw_pkh_tap_leaf_script_sig(&s, &(h, l)); let w = i.tap_script_sigs.get(&(x, l)).map(|g| (x, *g)); ck!(g == w, "{}", e(format!("lookup_raw_pkh_tap_leaf_script_sig = {g:?}, expected {w:?}"))); }
    }
    ck!(Satisfier::<X>::lookup_tap_key_spend_sig(&s) == i.tap_key_sig, "{}", e("lookup_tap_key_spend_sig".into()));
    let _ = (TapSighashType::All, gen::density, Witness::new());
    ok(show0(&p))
}
