//! C01-C06: lock time, roles, transactions, id, fee, fee-rate limit.
use super::note;
use crate::enc::{self, hex, maps2};
use crate::gen::{self, *};
use crate::rng::Rng;
use crate::{ck, ok, trivial, R};
use bitcoin::absolute::{Height, LockTime, Time};
use bitcoin::{Amount, FeeRate, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Witness};
use psbt_v2::{v0, v2};

/// the lock time by BIP-370, from the text
pub fn lock(p: &v2::Psbt) -> Option<LockTime> {
    let req: Vec<_> = p.inputs.iter().filter(|i| i.min_time.is_some() || i.min_height.is_some()).collect();
    if req.is_empty() { return Some(p.global.fallback_lock_time.unwrap_or(LockTime::ZERO)) }
    let h_ok = req.iter().all(|i| i.min_height.is_some());
    let t_ok = req.iter().all(|i| i.min_time.is_some());
    if h_ok { let m = req.iter().map(|i| i.min_height.unwrap().to_consensus_u32()).max().unwrap(); return Some(LockTime::from_consensus(m)) }
    if t_ok { let m = req.iter().map(|i| i.min_time.unwrap().to_consensus_u32()).max().unwrap(); return Some(LockTime::from_consensus(m)) }
    // neither kind satisfies all: an error only if some input admits only times and another only heights
    let t_only = req.iter().any(|i| i.min_height.is_none());
    let h_only = req.iter().any(|i| i.min_time.is_none());
    assert!(t_only && h_only);
    None
}
pub fn expected_tx(p: &v2::Psbt, signed: bool) -> Option<Transaction> {
    Some(Transaction {
        version: p.global.tx_version, lock_time: lock(p)?,
        input: p.inputs.iter().map(|i| TxIn { previous_output: OutPoint { txid: i.previous_txid, vout: i.spent_output_index },
            script_sig: if signed { i.final_script_sig.clone().unwrap() } else { ScriptBuf::new() },
            sequence: i.sequence.unwrap_or(Sequence(0xffff_ffff)),
            witness: if signed { i.final_script_witness.clone().unwrap() } else { Witness::new() } }).collect(),
        output: p.outputs.iter().map(|o| TxOut { value: o.amount, script_pubkey: o.script_pubkey.clone() }).collect(),
    })
}
pub fn show(p: &v2::Psbt) -> String { hex(&enc::join(&maps2(p).iter().map(enc::pairs).collect::<Vec<_>>())) }
pub fn show0(p: &v0::Psbt) -> String { hex(&enc::join(&enc::maps0(p).iter().map(enc::pairs).collect::<Vec<_>>())) }
fn locks(p: &v2::Psbt) -> String { format!("fallback={:?} inputs={:?}", p.global.fallback_lock_time, p.inputs.iter().map(|i| (i.min_time.map(|t| t.to_consensus_u32()), i.min_height.map(|t| t.to_consensus_u32()))).collect::<Vec<_>>()) }
fn check_lock(p: &v2::Psbt) -> R {
    note(|| locks(p));
    let got = p.determine_lock_time().ok(); let want = lock(p);
    ck!(got == want, "determine_lock_time = {got:?}, BIP-370 says {want:?}: {}", locks(p));
    if p.inputs.is_empty() { trivial(String::new()) } else { ok(locks(p)) }
}
pub fn c01_small(r: &mut Rng) -> R {
    // every PSBT with up to 3 inputs over 3 heights and 3 times, each absent or present, and 4 fallbacks
    let mut n = (r.0 ^ 0x9e37_79b9_7f4a_7c15) as u32 as usize; // the case index
    let hs = [None, Some(0u32), Some(1), Some(499_999_999)]; let ts = [None, Some(500_000_000u32), Some(500_000_001), Some(u32::MAX)];
    let fb = [None, Some(0u32), Some(77), Some(500_000_077)][n % 4]; n /= 4;
    let k = [3usize, 2, 1, 0][n % 4]; n /= 4;
    let mut p = v2::Psbt { global: v2::Global::default(), inputs: vec![], outputs: vec![] };
    p.global.fallback_lock_time = fb.map(LockTime::from_consensus);
    for _ in 0..k {
        let mut i = v2::Input::new(&OutPoint::null());
        i.min_height = hs[n % 4].map(|x| Height::from_consensus(x).unwrap()); n /= 4;
        i.min_time = ts[n % 4].map(|x| Time::from_consensus(x).unwrap()); n /= 4;
        p.inputs.push(i);
    }
    p.global.input_count = k;
    check_lock(&p)
}
pub fn c01_random(r: &mut Rng) -> R {
    let d = gen::density(r);
    let db = if r.bool() { 0 } else { d }; let mut p = psbt2_d(r, db);
    let n = r.below(6);
    p.inputs = (0..n).map(|_| v2::Input::new(&outpoint(r))).collect(); p.global.input_count = n;
    let mode = r.below(5);
    for i in &mut p.inputs {
        let (t, h) = match mode { 0 => (r.bool(), r.bool()), 1 => (true, r.bool()), 2 => (r.bool(), true), 3 => (r.bool(), false), _ => (false, r.bool()) };
        if t { i.min_time = Some(time(r)) } if h { i.min_height = Some(height(r)) }
        if r.bool() { i.sequence = Some(sequence(r)) }
    }
    check_lock(&p)
}

// ---- C02 ----
fn diff(a: &v2::Psbt, b: &v2::Psbt, what: &str) -> Result<(), String> { ck!(a == b, "{what}: got {} expected {}", show(a), show(b)); Ok(()) }
fn mk_input(r: &mut Rng) -> v2::Input { let mut i = v2::Input::new(&outpoint(r)); let d = gen::density(r); fill2(&mut i, r, d); i }
fn mk_output(r: &mut Rng) -> v2::Output { let mut o = v2::Output::new(txout(r)); let d = gen::density(r); fill2o(&mut o, r, d); o }
pub fn c02_roles(r: &mut Rng) -> R {
    use v2::{Constructor, InputsOnlyModifiable, Modifiable, OutputsOnlyModifiable};
    let start = psbt2(r);
    note(|| show(&start));
    let f = start.global.tx_modifiable_flags;
    let (im, om) = (f & 1 != 0, f & 2 != 0);
    ck!(Constructor::<Modifiable>::new(start.clone()).is_ok() == (im && om), "Constructor<Modifiable>::new with flags {f:#x}");
    ck!(Constructor::<InputsOnlyModifiable>::new(start.clone()).is_ok() == im, "Constructor<InputsOnly>::new with flags {f:#x}");
    ck!(Constructor::<OutputsOnlyModifiable>::new(start.clone()).is_ok() == om, "Constructor<OutputsOnly>::new with flags {f:#x}");
    match Constructor::<Modifiable>::new(start.clone()) {
        Err(e) => { let want_in = !im; ck!(matches!(e, v2::PsbtNotModifiableError::Inputs(_)) == want_in, "wrong error {e:?} for flags {f:#x}"); }
        Ok(_) => {}
    }
    let steps = r.range(0, 6);
    let ops: Vec<usize> = (0..steps).map(|_| r.below(4)).collect();
    let mut want = start.clone();
    macro_rules! fin { ($c:ident) => { {
        let upd = r.bool();
        if upd { want.global.tx_modifiable_flags &= !3; }
        let w = lock(&want);
        let got = if upd { $c.updater().map(|u| u.psbt()) } else { $c.psbt() };
        match (got, w) { (Ok(p), Some(_)) => { diff(&p, &want, "Constructor")?; ck!(p.global.input_count == p.inputs.len() && p.global.output_count == p.outputs.len(), "counts differ from lengths"); } (Err(_), None) => {}
            (g, w) => return Err(format!("Constructor result {:?}, lock time {w:?}: {}", g.map(|p| show(&p)), show(&want))) }
    } } }
    macro_rules! flags { ($c:ident, $o:expr) => { match $o { 2 => { $c = $c.no_more_inputs(); want.global.tx_modifiable_flags &= !1; } 3 => { $c = $c.no_more_outputs(); want.global.tx_modifiable_flags &= !2; } _ => {} } } }
    macro_rules! inp { ($c:ident) => { { let i = mk_input(r); want.inputs.push(i.clone()); want.global.input_count += 1; $c = $c.input(i); } } }
    macro_rules! outp { ($c:ident) => { { let o = mk_output(r); want.outputs.push(o.clone()); want.global.output_count += 1; $c = $c.output(o); } } }
    match r.below(6) {
        0 => if let Ok(mut c) = Constructor::<Modifiable>::new(start.clone()) { for o in &ops { match o { 0 => inp!(c), 1 => outp!(c), x => flags!(c, *x) } } fin!(c) } else { return trivial(String::new()) },
        1 => if let Ok(mut c) = Constructor::<InputsOnlyModifiable>::new(start.clone()) { for o in &ops { match o { 0 | 1 => inp!(c), x => flags!(c, *x) } } fin!(c) } else { return trivial(String::new()) },
        2 => if let Ok(mut c) = Constructor::<OutputsOnlyModifiable>::new(start.clone()) { for o in &ops { match o { 0 | 1 => outp!(c), x => flags!(c, *x) } } fin!(c) } else { return trivial(String::new()) },
        3 => { let mut c = Constructor::<Modifiable>::default(); want = v2::Creator::new().psbt(); want.global.tx_modifiable_flags |= 3; for o in &ops { match o { 0 => inp!(c), 1 => outp!(c), x => flags!(c, *x) } } fin!(c) }
        4 => { let mut c = Constructor::<InputsOnlyModifiable>::default(); want = v2::Creator::new().psbt(); want.global.tx_modifiable_flags |= 1; for o in &ops { match o { 0 | 1 => inp!(c), x => flags!(c, *x) } } fin!(c) }
        _ => { let mut c = Constructor::<OutputsOnlyModifiable>::default(); want = v2::Creator::new().psbt(); want.global.tx_modifiable_flags |= 2; for o in &ops { match o { 0 | 1 => outp!(c), x => flags!(c, *x) } } fin!(c) }
    }
    ok(format!("flags={f:#x} ops={ops:?} {}", show(&want)))
}
pub fn c02_creator(r: &mut Rng) -> R {
    let base = v2::Creator::new().psbt();
    let m = enc::glob2(&base.global);
    ck!(base.inputs.is_empty() && base.outputs.is_empty() && base.global.input_count == 0 && base.global.output_count == 0, "Creator::new is not empty");
    ck!(base.global.version == psbt_v2::V2 && base.global.tx_version.0 == 2 && base.global.fallback_lock_time.is_none() && base.global.tx_modifiable_flags == 0 && m.len() == 5, "Creator::new is not an empty version 2 PSBT: {}", show(&base));
    ck!(v2::Creator::default().psbt() == base, "Creator::default differs from new");
    let mut want = base.clone(); let mut c = v2::Creator::new(); let mut log = vec![];
    for _ in 0..r.below(7) {
        let o = r.below(5); log.push(o);
        match o {
            0 => { let l = lock_time(r); c = c.fallback_lock_time(l); want.global.fallback_lock_time = Some(l); }
            1 => { c = c.sighash_single(); want.global.tx_modifiable_flags |= 4; }
            2 => { c = c.inputs_modifiable(); want.global.tx_modifiable_flags |= 1; }
            3 => { c = c.outputs_modifiable(); want.global.tx_modifiable_flags |= 2; }
            _ => { let v = tx_version(r); c = c.transaction_version(v); want.global.tx_version = v; }
        }
    }
    diff(&c.clone().psbt(), &want, "Creator")?;
    let k = r.below(4);
    let f = want.global.tx_modifiable_flags;
    let got = match k { 0 => { want.global.tx_modifiable_flags = f | 3; c.constructor_modifiable().psbt() } 1 => { want.global.tx_modifiable_flags = (f | 1) & !2; c.constructor_inputs_only_modifiable().psbt() } 2 => { want.global.tx_modifiable_flags = (f | 2) & !1; c.constructor_outputs_only_modifiable().psbt() } _ => Ok(c.psbt()) };
    match got { Ok(p) => diff(&p, &want, &format!("Creator after {log:?}, constructor {k}"))?, Err(e) => return Err(format!("no lock time for an empty PSBT: {e}")) }
    ok(format!("{log:?} {k} {}", show(&want)))
}
/// all 256 flag bytes through the constructors
pub fn c02_flags(r: &mut Rng) -> R {
    use v2::{Constructor, Modifiable, InputsOnlyModifiable, OutputsOnlyModifiable};
    let f = ((r.0 ^ 0x9e37_79b9_7f4a_7c15) as u32 % 256) as u8;
    let mut p = v2::Creator::new().psbt(); p.global.tx_modifiable_flags = f;
    macro_rules! t { ($t:ty, $need:expr) => { {
        let c = Constructor::<$t>::new(p.clone());
        ck!(c.is_ok() == (f & $need == $need), "Constructor::new for flags {f:#x}");
        if c.is_ok() { let mk = || Constructor::<$t>::new(p.clone()).unwrap();
            for (k, clear) in [(0u8, 1u8), (1, 2), (2, 3)] {
                let q = match k { 0 => mk().no_more_inputs().psbt(), 1 => mk().no_more_outputs().psbt(), _ => mk().updater().map(|u| u.psbt()) }.map_err(|e| e.to_string())?;
                let mut w = p.clone(); w.global.tx_modifiable_flags &= !clear; diff(&q, &w, "clearing flags")?;
            }
        }
    } } }
    t!(Modifiable, 3); t!(InputsOnlyModifiable, 1); t!(OutputsOnlyModifiable, 2);
    ok(format!("{f:#x}"))
}
pub fn c02_updater(r: &mut Rng) -> R {
    let p = psbt2(r);
    note(|| show(&p));
    let u = match v2::Updater::new(p.clone()) { Ok(u) => u, Err(_) => { ck!(lock(&p).is_none(), "Updater::new refused {}", show(&p)); return trivial(String::new()) } };
    ck!(lock(&p).is_some(), "Updater::new accepted a PSBT without lock time {}", show(&p));
    ck!(v2::Updater::try_from(p.clone()).is_ok(), "TryFrom differs from new");
    diff(&u.clone().psbt(), &p, "Updater::psbt")?;
    let i = if r.chance(1, 8) { usize::MAX } else { r.below(p.inputs.len() + 2) }; let s = sequence(r);
    match u.set_sequence(s, i) {
        Ok(u) => { ck!(i < p.inputs.len(), "set_sequence accepted index {i} of {}", p.inputs.len()); let mut w = p.clone(); w.inputs[i].sequence = Some(s); diff(&u.psbt(), &w, "set_sequence")?; }
        Err(_) => ck!(i >= p.inputs.len(), "set_sequence refused index {i} of {}", p.inputs.len()),
    }
    ok(format!("{i} {s} {}", show(&p)))
}

// ---- C03 ----
fn some_psbt(r: &mut Rng) -> v2::Psbt {
    let mut p = if r.bool() { psbt2(r) } else { wallet2(r, 4).0 };
    if r.bool() { let k = r.below(3); for i in &mut p.inputs { match k { 0 => i.min_time = None, 1 => i.min_height = None, _ => { i.min_time = None; i.min_height = None } } } }
    p
}
pub fn c03_signer(r: &mut Rng) -> R {
    let p = some_psbt(r);
    note(|| show(&p));
    let s = v2::Signer::new(p.clone()); let w = expected_tx(&p, false);
    match (s, &w) {
        (Ok(s), Some(w)) => { let t = s.unsigned_tx(); ck!(t == *w, "unsigned_tx = {t:?}, expected {w:?}: {}", show(&p)); ck!(s.psbt() == p, "Signer changed the PSBT {}", show(&p)); }
        (Err(_), None) => {}
        (s, w) => return Err(format!("Signer::new ok={} but lock time {:?}: {}", s.is_ok(), w.as_ref().map(|t| t.lock_time), show(&p))),
    }
    ok(show(&p))
}
pub fn finish(p: &mut v2::Psbt, r: &mut Rng) { for i in &mut p.inputs { i.final_script_sig = Some(script(r)); i.final_script_witness = Some(witness(r)); } }
pub fn c03_extractor(r: &mut Rng) -> R {
    let mut p = some_psbt(r);
    finish(&mut p, r);
    if r.chance(1, 3) && !p.inputs.is_empty() { let k = r.below(p.inputs.len()); match r.below(3) { 0 => p.inputs[k].final_script_sig = None, 1 => p.inputs[k].final_script_witness = None, _ => { p.inputs[k].final_script_sig = None; p.inputs[k].final_script_witness = None } } }
    note(|| show(&p));
    let fin = p.inputs.iter().all(|i| i.final_script_sig.is_some() && i.final_script_witness.is_some());
    ck!(p.is_finalized() == fin, "is_finalized {}", show(&p));
    let e = v2::Extractor::new(p.clone());
    ck!(e.is_ok() == (fin && lock(&p).is_some()), "Extractor::new ok={} finalized={fin}: {}", e.is_ok(), show(&p));
    if let Ok(e) = e {
        let w = expected_tx(&p, true).unwrap();
        match e.extract_tx_unchecked_fee_rate() { Ok(t) => ck!(t == w, "extracted {t:?}, expected {w:?}: {}", show(&p)), Err(x) => return Err(format!("extraction failed: {x:?} {}", show(&p))) }
        for t in [e.extract_tx(), e.extract_tx_fee_rate_limit(), e.extract_tx_with_fee_rate_limit(FeeRate::MAX)] { if let Ok(t) = t { ck!(t == w, "extracted {t:?}, expected {w:?}: {}", show(&p)); } }
    }
    ok(show(&p))
}

// ---- C04 ----
fn id_of(p: &v2::Psbt) -> Option<bitcoin::Txid> { let mut t = expected_tx(p, false)?; for i in &mut t.input { i.sequence = Sequence(0); } let b = enc::legacy_tx(&t); use bitcoin::hashes::{sha256d, Hash}; Some(bitcoin::Txid::from_raw_hash(sha256d::Hash::hash(&b))) }
pub fn c04_id(r: &mut Rng) -> R {
    let p = some_psbt(r);
    note(|| show(&p));
    let Some(w) = id_of(&p) else { return trivial(String::new()) };
    let id = |p: &v2::Psbt| -> Result<(), String> {
        let u = v2::Updater::new(p.clone()).map_err(|e| e.to_string())?; let s = v2::Signer::new(p.clone()).map_err(|e| e.to_string())?;
        ck!(u.id() == w, "Updater::id {} expected {w}: {}", u.id(), show(p)); ck!(s.id() == Ok(w), "Signer::id {:?} expected {w}: {}", s.id(), show(p));
        if let Ok(e) = v2::Extractor::new(p.clone()) { ck!(e.id() == w, "Extractor::id {} expected {w}: {}", e.id(), show(p)); }
        Ok(())
    };
    id(&p)?;
    let mut q = p.clone();
    let d = *r.pick(&[10usize, 40, 80]); vary2(&mut q, r, d);
    for (a, b) in q.inputs.iter_mut().zip(&p.inputs) { a.min_time = b.min_time; a.min_height = b.min_height; }
    q.global.fallback_lock_time = p.global.fallback_lock_time;
    if r.bool() { finish(&mut q, r); }
    id(&q)?;
    if !p.inputs.is_empty() { let k = r.below(p.inputs.len()); let u = v2::Updater::new(p.clone()).unwrap().set_sequence(sequence(r), k).unwrap(); ck!(u.id() == w, "id changed by set_sequence: {}", show(&p)); }
    ok(show(&p))
}
pub fn c04_finalizer(r: &mut Rng) -> R {
    let (mut p, _) = wallet2(r, 3);
    for i in &mut p.inputs { if i.min_time.is_some() { i.min_height = None } }
    note(|| show(&p));
    let Some(w) = id_of(&p) else { return trivial(String::new()) };
    let f = v2::Finalizer::new(p.clone()).map_err(|e| format!("{e:?}"))?;
    ck!(f.id() == w, "Finalizer::id {} expected {w}: {}", f.id(), show(&p));
    finish(&mut p, r);
    let e = v2::Extractor::new(p.clone()).map_err(|e| format!("{e:?}"))?;
    ck!(e.id() == w, "Extractor::id {} expected {w}: {}", e.id(), show(&p));
    ok(show(&p))
}

// ---- C05 ----
fn edge_amounts(r: &mut Rng, outs: &mut [Amount]) { let m = r.below(4); for o in outs { *o = Amount::from_sat(match m { 0 => r.edge_u64(), 1 => u64::MAX / 2 + r.below(2) as u64, 2 => r.below(5) as u64, _ => r.below(1 << 40) as u64 }); } }
#[derive(Debug, PartialEq)]
enum Fee { Ok(u64), Missing, Oob, InOverflow, OutOverflow, Negative }
fn fee_of(ins: &[Result<u64, Fee>], outs: &[u64]) -> Vec<Fee> {
    // a UTXO problem or an overflow of the input sum, whichever is met first; then the outputs
    let mut s: u128 = 0;
    for i in ins { match i { Err(Fee::Missing) => return vec![Fee::Missing], Err(_) => return vec![Fee::Oob], Ok(v) => { s += *v as u128; if s > u64::MAX as u128 {
        let mut v = vec![Fee::InOverflow]; for j in ins { if let Err(e) = j { v.push(if *e == Fee::Missing { Fee::Missing } else { Fee::Oob }) } } return v } } } }
    let o: u128 = outs.iter().map(|v| *v as u128).sum();
    if o > u64::MAX as u128 { return vec![Fee::OutOverflow] }
    if o > s { return vec![Fee::Negative] }
    vec![Fee::Ok((s - o) as u64)]
}
fn utxo_state(w: &Option<TxOut>, n: &Option<Transaction>, vout: u32) -> Result<u64, Fee> {
    match (w, n) { (Some(w), _) => Ok(w.value.to_sat()), (None, Some(t)) => t.output.get(vout as usize).map(|o| o.value.to_sat()).ok_or(Fee::Oob), _ => Err(Fee::Missing) }
}
macro_rules! set_utxo { ($i:ident, $vout:expr, $val:expr, $r:ident) => { {
    let kb = if $r.chance(1, 10) { 5 } else { 3 }; let k = $r.below(kb);
    $i.witness_utxo = None; $i.non_witness_utxo = None;
    if k != 1 && k != 3 { $i.witness_utxo = Some(TxOut { value: $val, script_pubkey: script($r) }); }
    if k == 1 || k == 2 || k == 4 {
        let mut t = tx($r); let n = if k == 4 { ($vout as usize).min(3) } else { ($vout as usize).min(5) + 1 + $r.below(2) };
        t.output.truncate(n); while t.output.len() < n { t.output.push(txout($r)); }
        if k == 1 { if let Some(o) = t.output.get_mut($vout as usize) { o.value = $val; } }
        $i.non_witness_utxo = Some(t);
        if k == 4 { $i.witness_utxo = None; }
    }
} } }
pub fn c05_v2(r: &mut Rng) -> R {
    let n = r.below(4); let m = r.below(4);
    let mut p = psbt2_d(r, 0);
    let mut ia = vec![Amount::ZERO; n]; let mut oa = vec![Amount::ZERO; m];
    edge_amounts(r, &mut ia); edge_amounts(r, &mut oa);
    p.inputs = ia.iter().map(|a| { let mut i = v2::Input::new(&OutPoint { txid: txid(r), vout: r.below(4) as u32 }); if r.chance(1, 30) { i.spent_output_index = u32::MAX - r.below(2) as u32; } let v = i.spent_output_index; set_utxo!(i, v, *a, r); i }).collect();
    p.outputs = oa.iter().map(|a| v2::Output::new(TxOut { value: *a, script_pubkey: script(r) })).collect();
    if r.bool() { p.global.input_count = n; p.global.output_count = m; }
    note(|| show(&p));
    let ins: Vec<_> = p.inputs.iter().map(|i| utxo_state(&i.witness_utxo, &i.non_witness_utxo, i.spent_output_index)).collect();
    let outs: Vec<_> = oa.iter().map(|a| a.to_sat()).collect();
    let want = fee_of(&ins, &outs);
    use psbt_v2::{FeeError as E, FundingUtxoError as U};
    let raw = p.fee();
    let got = match &raw { Ok(a) => Fee::Ok(a.to_sat()), Err(E::FundingUtxo(U::MissingUtxo)) => Fee::Missing, Err(E::FundingUtxo(_)) => Fee::Oob, Err(E::InputOverflow) => Fee::InOverflow, Err(E::OutputOverflow) => Fee::OutOverflow, Err(E::Negative) => Fee::Negative, Err(_) => return Err("unknown error".into()) };
    // which of several errors is reported is not prescribed, that one is reported is
    ck!(want.contains(&got) || (!matches!(got, Fee::Ok(_)) && !matches!(want[0], Fee::Ok(_)) && several(&ins, &outs)), "fee = {raw:?}, expected {want:?}: {}", show(&p));
    let us: Vec<_> = p.iter_funding_utxos().collect();
    ck!(us.len() == p.inputs.len(), "iter_funding_utxos yields {} for {} inputs", us.len(), p.inputs.len());
    for (k, (u, w)) in us.iter().zip(&ins).enumerate() { ck!(u.as_ref().map(|o| o.value.to_sat()).ok() == w.as_ref().ok().copied(), "funding utxo {k} = {u:?}, expected {w:?}: {}", show(&p)); ck!(p.inputs[k].funding_utxo() == *u, "funding_utxo differs from iter_funding_utxos"); }
    ok(format!("{want:?} {}", show(&p)))
}
fn several(ins: &[Result<u64, Fee>], outs: &[u64]) -> bool {
    let bad = ins.iter().filter(|i| i.is_err()).count(); let s: u128 = ins.iter().filter_map(|i| i.as_ref().ok()).map(|v| *v as u128).sum(); let o: u128 = outs.iter().map(|v| *v as u128).sum();
    bad + (s > u64::MAX as u128) as usize + (o > u64::MAX as u128) as usize > 1
}
pub fn c05_v0(r: &mut Rng) -> R {
    let n = r.below(4); let m = r.below(4);
    let mut ia = vec![Amount::ZERO; n]; let mut oa = vec![Amount::ZERO; m];
    edge_amounts(r, &mut ia); edge_amounts(r, &mut oa);
    let t = Transaction { version: tx_version(r), lock_time: lock_time(r),
        input: ia.iter().map(|_| TxIn { previous_output: OutPoint { txid: txid(r), vout: if r.chance(1, 30) { u32::MAX } else { r.below(4) as u32 } }, ..Default::default() }).collect(),
        output: oa.iter().map(|a| TxOut { value: *a, script_pubkey: script(r) }).collect() };
    let mut p = empty0(t);
    for (k, i) in p.inputs.iter_mut().enumerate() { let v = p.unsigned_tx.input[k].previous_output.vout; let a = ia[k]; set_utxo!(i, v, a, r); }
    note(|| show0(&p));
    let ins: Vec<_> = p.inputs.iter().enumerate().map(|(k, i)| utxo_state(&i.witness_utxo, &i.non_witness_utxo, p.unsigned_tx.input[k].previous_output.vout)).collect();
    let outs: Vec<_> = oa.iter().map(|a| a.to_sat()).collect();
    let want = fee_of(&ins, &outs);
    let raw = p.fee();
    use v0::bitcoin::Error as E;
    let good = match (&raw, &want[0]) { (Ok(a), Fee::Ok(b)) => a.to_sat() == *b, (Ok(_), _) | (_, Fee::Ok(_)) => false,
        (Err(e), _) => several(&ins, &outs) || want.iter().any(|w| match w { Fee::Missing => matches!(e, E::MissingUtxo), Fee::Oob => matches!(e, E::PsbtUtxoOutOfbounds), Fee::InOverflow | Fee::OutOverflow => matches!(e, E::FeeOverflow), Fee::Negative => matches!(e, E::NegativeFee), _ => false }) };
    ck!(good, "fee = {raw:?}, expected {want:?}: {}", show0(&p));
    ok(format!("{want:?} {}", show0(&p)))
}

// ---- C06 ----
fn limits(r: &mut Rng, rate: u64) -> (FeeRate, bool) {
    match r.below(6) { 0 => (FeeRate::from_sat_per_kwu(rate), false), 1 => (FeeRate::from_sat_per_kwu(rate.saturating_sub(1)), false), 2 => (FeeRate::from_sat_per_kwu(rate.saturating_add(1)), false), 3 => (FeeRate::from_sat_per_kwu(r.edge_u64()), false), 4 => (FeeRate::from_sat_per_kwu(rate.wrapping_add(1000)), false), _ => (FeeRate::from_sat_per_kwu(25_000 * 250), true) }
}
/// input and output amounts with a fee near what the limit would allow
fn fee_amounts(r: &mut Rng, n: usize, m: usize, wu: u64) -> (Vec<u64>, Vec<u64>) {
    let fee = match r.below(5) { 0 => r.edge_u64(), 1 => wu * 6250 + r.below(9) as u64 - 4, 2 => wu * 6250 / 1000 * r.below(2000) as u64, 3 => 0, _ => r.below(1 << 24) as u64 };
    let outs: Vec<u64> = (0..m).map(|_| if r.chance(1, 20) { r.edge_u64() } else { r.below(1 << 32) as u64 }).collect();
    let mut tot = outs.iter().fold(fee, |a, b| a.saturating_add(*b));
    if r.chance(1, 8) { tot = tot.saturating_sub(r.below(1 << 33) as u64); }
    let mut ins = vec![0u64; n];
    if n > 0 { for k in 1..n { let x = if tot > 0 { r.next() % (tot / 2 + 1) } else { 0 }; ins[k] = x; tot -= x; } ins[0] = tot; }
    (ins, outs)
}
pub fn c06_v2(r: &mut Rng) -> R {
    let n = r.range(1, 3); let m = r.range(0, 3);
    let mut p = psbt2_d(r, 0);
    p.inputs = (0..n).map(|_| v2::Input::new(&OutPoint { txid: txid(r), vout: r.below(3) as u32 })).collect();
    p.outputs = (0..m).map(|_| v2::Output::new(txout(r))).collect();
    p.global.input_count = n; p.global.output_count = m;
    finish(&mut p, r);
    let wu = expected_tx(&p, true).unwrap().weight().to_wu();
    let (ia, oa) = fee_amounts(r, n, m, wu);
    for (i, a) in p.inputs.iter_mut().zip(&ia) { let v = i.spent_output_index; let a = Amount::from_sat(*a); set_utxo!(i, v, a, r); }
    for (o, a) in p.outputs.iter_mut().zip(&oa) { o.amount = Amount::from_sat(*a); }
    note(|| show(&p));
    let tx = expected_tx(&p, true).unwrap();
    let ins: Vec<_> = p.inputs.iter().map(|i| utxo_state(&i.witness_utxo, &i.non_witness_utxo, i.spent_output_index)).collect();
    let fee = fee_of(&ins, &oa);
    let e = v2::Extractor::new(p.clone()).map_err(|e| format!("{e:?}"))?;
    ck!(v2::Extractor::DEFAULT_MAX_FEE_RATE.to_sat_per_kwu() == 6_250_000, "default fee rate limit");
    let rate = match fee[0] { Fee::Ok(f) => f.saturating_mul(1000) / tx.weight().to_wu(), _ => 0 };
    let (lim, default) = limits(r, rate);
    let got = if default { if r.bool() { e.extract_tx() } else { e.extract_tx_fee_rate_limit() } } else { e.extract_tx_with_fee_rate_limit(lim) };
    use v2::ExtractTxFeeRateError as X;
    let good = match (&fee[0], &got) {
        (Fee::Ok(f), Ok(t)) => *t == tx && (exact(*f, tx.weight().to_wu()) <= lim.to_sat_per_kwu() as u128 || f.checked_mul(1000).is_none() && rate <= lim.to_sat_per_kwu()),
        (Fee::Ok(_), Err(X::FeeTooHigh { fee, max })) => rate > lim.to_sat_per_kwu() && fee.to_sat_per_kwu() == rate && *max == lim,
        (Fee::Ok(_), _) => false,
        (_, Err(X::Fee(x))) => p.fee().as_ref() == Err(x),
        _ => false,
    };
    ck!(good, "limit {lim} sat/kwu: got {got:?}, fee {fee:?}, weight {}, rate {rate}: {}", tx.weight(), show(&p));
    match e.extract_tx_unchecked_fee_rate() { Ok(t) => ck!(t == tx, "unchecked extraction {t:?}: {}", show(&p)), Err(x) => return Err(format!("unchecked extraction failed {x:?}: {}", show(&p))) }
    ok(format!("{lim} {fee:?} {}", show(&p)))
}
fn exact(fee: u64, wu: u64) -> u128 { fee as u128 * 1000 / wu as u128 }
pub fn c06_v0(r: &mut Rng) -> R {
    let n = r.range(1, 3); let m = r.range(0, 3);
    let t = Transaction { version: tx_version(r), lock_time: lock_time(r),
        input: (0..n).map(|_| TxIn { previous_output: OutPoint { txid: txid(r), vout: r.below(3) as u32 }, sequence: sequence(r), ..Default::default() }).collect(),
        output: (0..m).map(|_| txout(r)).collect() };
    let mut p = empty0(t);
    for i in &mut p.inputs { if r.chance(9, 10) { i.final_script_sig = Some(script(r)); } if r.chance(9, 10) { i.final_script_witness = Some(witness(r)); } }
    let want = |p: &v0::Psbt| { let mut t = p.unsigned_tx.clone(); for (a, i) in t.input.iter_mut().zip(&p.inputs) { a.script_sig = i.final_script_sig.clone().unwrap_or_default(); a.witness = i.final_script_witness.clone().unwrap_or_default(); } t };
    let wu = want(&p).weight().to_wu();
    let (ia, oa) = fee_amounts(r, n, m, wu);
    for k in 0..n { let v = p.unsigned_tx.input[k].previous_output.vout; let a = Amount::from_sat(ia[k]); let i = &mut p.inputs[k]; set_utxo!(i, v, a, r); }
    for (o, a) in p.unsigned_tx.output.iter_mut().zip(&oa) { o.value = Amount::from_sat(*a); }
    note(|| show0(&p));
    let tx = want(&p);
    let ins: Vec<_> = p.inputs.iter().enumerate().map(|(k, i)| utxo_state(&i.witness_utxo, &i.non_witness_utxo, p.unsigned_tx.input[k].previous_output.vout)).collect();
    let fee = fee_of(&ins, &oa);
    let rate = match fee[0] { Fee::Ok(f) => f.saturating_mul(1000) / tx.weight().to_wu(), _ => 0 };
    let (lim, default) = limits(r, rate);
    ck!(v0::Psbt::DEFAULT_MAX_FEE_RATE.to_sat_per_kwu() == 6_250_000, "default fee rate limit");
    let got = if default { if r.bool() { p.clone().extract_tx() } else { p.clone().extract_tx_fee_rate_limit() } } else { p.clone().extract_tx_with_fee_rate_limit(lim) };
    use v0::bitcoin::ExtractTxError as X;
    let sev = several(&ins, &oa);
    let good = match (&fee[0], &got) {
        (Fee::Ok(_), Ok(t)) => *t == tx && rate <= lim.to_sat_per_kwu(),
        (Fee::Ok(_), Err(X::AbsurdFeeRate { fee_rate, tx: t })) => rate > lim.to_sat_per_kwu() && fee_rate.to_sat_per_kwu() == rate && *t == tx,
        (Fee::Ok(_), _) => false,
        (_, Ok(_)) => false,
        (Fee::Negative, Err(X::SendingTooMuch { psbt })) => *psbt == p,
        (Fee::Missing | Fee::Oob, Err(X::MissingInputValue { tx: t })) => *t == tx,
        (Fee::InOverflow | Fee::OutOverflow, Err(X::AbsurdFeeRate { fee_rate, tx: t })) => *fee_rate == FeeRate::MAX && *t == tx,
        (_, Err(X::MissingInputValue { tx: t } | X::AbsurdFeeRate { tx: t, .. })) => sev && *t == tx,
        _ => false,
    };
    ck!(good, "limit {lim} sat/kwu: got {got:?}, fee {fee:?}, weight {}, rate {rate}: {}", tx.weight(), show0(&p));
    let u = p.clone().extract_tx_unchecked_fee_rate();
    ck!(u == tx, "unchecked extraction {u:?}: {}", show0(&p));
    ok(format!("{lim} {fee:?} {}", show0(&p)))
}
