//! Generators of PSBTs and their parts. Values come from small pools, so that keys collide and values repeat.
use crate::rng::Rng;
use bitcoin::absolute::{Height, LockTime, Time};
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource, Xpriv, Xpub};
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::key::{PrivateKey, PublicKey};
use bitcoin::opcodes::all as op;
use bitcoin::script::Builder;
use bitcoin::secp256k1::{self, All, Message, Secp256k1, SecretKey};
use bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use bitcoin::taproot::{ControlBlock, LeafVersion, TapTree, TaprootBuilder};
use bitcoin::{ecdsa, taproot, transaction, Amount, NetworkKind, OutPoint, ScriptBuf, Sequence, TapLeafHash, Transaction, TxIn, TxOut, Txid, Witness, XOnlyPublicKey};
use psbt_v2::{v0, v2, PsbtSighashType};
use std::sync::OnceLock;

pub struct Pool {
    pub secp: Secp256k1<All>,
    pub sks: Vec<SecretKey>,
    pub pks: Vec<PublicKey>,
    /// further keys, nobody signs with
    pub more: Vec<PublicKey>,
    pub xprivs: Vec<Xpriv>,
    pub xpubs: Vec<Xpub>,
    pub esigs: Vec<ecdsa::Signature>,
    pub tsigs: Vec<taproot::Signature>,
    pub trees: Vec<TapTree>,
    pub cbs: Vec<(ControlBlock, ScriptBuf, LeafVersion)>,
    pub paths: Vec<DerivationPath>,
}
pub const ETYPES: [EcdsaSighashType; 6] = [EcdsaSighashType::All, EcdsaSighashType::None, EcdsaSighashType::Single, EcdsaSighashType::AllPlusAnyoneCanPay, EcdsaSighashType::NonePlusAnyoneCanPay, EcdsaSighashType::SinglePlusAnyoneCanPay];
pub const TTYPES: [TapSighashType; 7] = [TapSighashType::Default, TapSighashType::All, TapSighashType::None, TapSighashType::Single, TapSighashType::AllPlusAnyoneCanPay, TapSighashType::NonePlusAnyoneCanPay, TapSighashType::SinglePlusAnyoneCanPay];

pub fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let secp = Secp256k1::new();
        let sks: Vec<SecretKey> = (0..8u8).map(|i| SecretKey::from_slice(&sha256::Hash::hash(&[i, 7]).to_byte_array()).unwrap()).collect();
        let pks: Vec<PublicKey> = sks.iter().map(|s| PublicKey::new(s.public_key(&secp))).collect();
        let more: Vec<PublicKey> = (0..64u8).map(|i| PublicKey::new(SecretKey::from_slice(&sha256::Hash::hash(&[i, 8]).to_byte_array()).unwrap().public_key(&secp))).collect();
        let xprivs: Vec<Xpriv> = (0..3u8).map(|i| Xpriv::new_master(if i == 2 { NetworkKind::Test } else { NetworkKind::Main }, &[i; 32]).unwrap()).collect();
        let path = |v: &[u32]| DerivationPath::from(v.iter().map(|n| ChildNumber::from(*n)).collect::<Vec<_>>());
        let paths = vec![path(&[]), path(&[1]), path(&[2]), path(&[0x8000_0000]), path(&[0x8000_0001, 1]), path(&[2, 1]), path(&[0, 2, 1]), path(&[0x8000_0054, 0, 2, 1]), path(&[1, 2]), path(&[5, 0x8000_0001, 1])];
        let mut xpubs: Vec<Xpub> = xprivs.iter().map(|x| Xpub::from_priv(&secp, x)).collect();
        for x in &xprivs { xpubs.push(Xpub::from_priv(&secp, &x.derive_priv(&secp, &paths[4]).unwrap())); }
        let m = |i: u8| Message::from_digest([i + 1; 32]);
        let mut esigs = vec![];
        for (i, t) in ETYPES.iter().enumerate() { for k in 0..2 { esigs.push(ecdsa::Signature { signature: secp.sign_ecdsa(&m(i as u8), &sks[k]), sighash_type: *t }); } }
        let mut tsigs = vec![];
        for (i, t) in TTYPES.iter().enumerate() { let kp = secp256k1::Keypair::from_secret_key(&secp, &sks[i]); tsigs.push(taproot::Signature { signature: secp.sign_schnorr_no_aux_rand(&m(i as u8), &kp), sighash_type: *t }); }
        let s = |i: u8| Builder::new().push_slice([i; 3]).push_opcode(op::OP_CHECKSIG).into_script();
        let lv = |b: u8| LeafVersion::from_consensus(b).unwrap();
        let mut trees = vec![]; let mut cbs = vec![];
        for shape in [&[0u8][..], &[1, 1], &[1, 2, 2], &[2, 2, 2, 2], &[3, 3, 2, 1], &[1, 2, 3, 3]] {
            let mut b = TaprootBuilder::new();
            for (i, d) in shape.iter().enumerate() {
                let sc = if i == 1 { ScriptBuf::from(vec![0x51; 300]) } else { s(i as u8) };
                b = b.add_leaf_with_ver(*d, sc, if i == 2 { lv(0xc2) } else { LeafVersion::TapScript }).unwrap();
            }
            let info = b.clone().finalize(&secp, XOnlyPublicKey::from(pks[0].inner)).unwrap();
            for (l, _) in info.script_map() { if let Some(c) = info.control_block(l) { cbs.push((c, l.0.clone(), l.1)); } }
            trees.push(TapTree::try_from(b).unwrap());
        }
        cbs.sort_by(|a, b| a.0.cmp(&b.0)); cbs.dedup_by(|a, b| a.0 == b.0);
        Pool { secp, sks, pks, more, xprivs, xpubs, esigs, tsigs, trees, cbs, paths }
    })
}
pub fn txid(r: &mut Rng) -> Txid { match r.below(8) { 0 => Txid::all_zeros(), 1 => Txid::from_byte_array([0xff; 32]), 2..=4 => Txid::from_byte_array([r.below(4) as u8; 32]), _ => { let b = r.bytes(32); Txid::from_slice(&b).unwrap() } } }
pub fn outpoint(r: &mut Rng) -> OutPoint { OutPoint { txid: txid(r), vout: if r.bool() { r.below(4) as u32 } else { r.edge_u32() } } }
pub fn pk(r: &mut Rng) -> PublicKey { let from = if r.chance(1, 4) { &pool().more } else { &pool().pks }; let mut k = *r.pick(from); if r.chance(1, 8) { k.compressed = false; } k }
pub fn spk1(r: &mut Rng) -> secp256k1::PublicKey { let from = if r.chance(1, 4) { &pool().more } else { &pool().pks }; r.pick(from).inner }
pub fn xonly(r: &mut Rng) -> XOnlyPublicKey { XOnlyPublicKey::from(spk1(r)) }
pub fn path(r: &mut Rng) -> DerivationPath { r.pick(&pool().paths).clone() }
pub fn fp(r: &mut Rng) -> Fingerprint { match r.below(4) { 0 => Fingerprint::from([0; 4]), 1 => pool().xprivs[r.below(3)].fingerprint(&pool().secp), _ => Fingerprint::from([r.below(3) as u8; 4]) } }
pub fn key_source(r: &mut Rng) -> KeySource { (fp(r), path(r)) }
pub fn multisig(r: &mut Rng) -> ScriptBuf {
    let p = pool(); let n = r.range(1, 3); let m = r.range(1, n);
    let mut b = Builder::new().push_int(m as i64);
    for i in 0..n { b = b.push_key(&p.pks[(i + r.below(3)) % 8]); }
    b.push_int(n as i64).push_opcode(op::OP_CHECKMULTISIG).into_script()
}
/// a script of one of many shapes, recognisable or not
pub fn script(r: &mut Rng) -> ScriptBuf {
    match r.below(16) {
        0 => ScriptBuf::new(),
        1 | 2 => ScriptBuf::new_p2pkh(&pk(r).pubkey_hash()),
        3 | 4 => { let i = r.below(8); ScriptBuf::new_p2wpkh(&pool().pks[i].wpubkey_hash().unwrap()) }
        5 => ScriptBuf::new_p2sh(&multisig(r).script_hash()),
        6 => ScriptBuf::new_p2wsh(&multisig(r).wscript_hash()),
        7 => multisig(r),
        8 => ScriptBuf::from([&[0x51u8, 0x20][..], &xonly(r).serialize()].concat()),
        9 => ScriptBuf::new_p2pk(&pk(r)),
        10 => { let n = r.range(2, 40); let v = r.below(17) as u8; ScriptBuf::from([&[if v == 0 { 0 } else { 0x50 + v }, n as u8][..], &r.bytes(n)].concat()) }
        11 => ScriptBuf::new_op_return([r.u8(); 5]),
        12 => { let n = *r.pick(&[0usize, 1, 75, 76, 252, 253, 254, 520, 600]); ScriptBuf::from(r.bytes(n)) }
        _ => { let n = r.below(30); ScriptBuf::from(r.bytes(n)) }
    }
}
pub fn witness(r: &mut Rng) -> Witness { let n = r.below(4); let v: Vec<Vec<u8>> = (0..n).map(|_| { let n = *r.pick(&[0usize, 1, 33, 72, 252, 253]); r.bytes(n) }).collect(); Witness::from_slice(&v) }
pub fn amount(r: &mut Rng) -> Amount { Amount::from_sat(match r.below(3) { 0 => r.edge_u64(), 1 => r.below(100_000_000) as u64, _ => r.below(10) as u64 }) }
pub fn txout(r: &mut Rng) -> TxOut { TxOut { value: amount(r), script_pubkey: script(r) } }
pub fn sequence(r: &mut Rng) -> Sequence { Sequence(match r.below(6) { 0 => 0xffff_ffff, 1 => 0xffff_fffe, 2 => 0, 3 => 0x0040_0000 | r.below(1000) as u32, 4 => r.below(1000) as u32, _ => r.u32() }) }
pub fn height(r: &mut Rng) -> Height { Height::from_consensus(match r.below(5) { 0 => 0, 1 => 499_999_999, 2 => 499_999_998, _ => r.below(6) as u32 * 100_000 }).unwrap() }
pub fn time(r: &mut Rng) -> Time { Time::from_consensus(match r.below(5) { 0 => 500_000_000, 1 => u32::MAX, 2 => 500_000_001, _ => 500_000_000 + r.below(6) as u32 * 1000 }).unwrap() }
pub fn lock_time(r: &mut Rng) -> LockTime { LockTime::from_consensus(match r.below(4) { 0 => 0, 1 => r.edge_u32(), 2 => 500_000_000 + r.below(5) as u32, _ => r.below(800_000) as u32 }) }
pub fn tx_version(r: &mut Rng) -> transaction::Version { transaction::Version(match r.below(5) { 0 => 1, 1 | 2 => 2, 3 => 3, _ => r.u32() as i32 }) }
pub fn tx(r: &mut Rng) -> Transaction {
    let ni = r.range(0, 3); let no = r.range(0, 4);
    Transaction { version: tx_version(r), lock_time: lock_time(r),
        input: (0..ni).map(|_| TxIn { previous_output: outpoint(r), script_sig: if r.bool() { script(r) } else { ScriptBuf::new() }, sequence: sequence(r), witness: if r.bool() { witness(r) } else { Witness::new() } }).collect(),
        output: (0..no).map(|_| txout(r)).collect() }
}
pub fn sighash_type(r: &mut Rng) -> PsbtSighashType {
    match r.below(4) { 0 | 1 => (*r.pick(&ETYPES)).into(), 2 => (*r.pick(&TTYPES)).into(), _ => PsbtSighashType::from_u32(match r.below(4) { 0 => r.u32(), 1 => r.below(260) as u32, 2 => 0x100 | r.below(256) as u32, _ => (r.below(256) as u32) << 24 | 1 }) }
}
pub fn leafhash(r: &mut Rng) -> TapLeafHash { TapLeafHash::from_byte_array([few(r); 32]) }
fn vlen(r: &mut Rng) -> usize { *r.pick(&[0usize, 1, 2, 20, 252, 253, 254, 300]) }

macro_rules! some { ($r:ident, $d:expr, $e:expr) => { if $r.chance($d, 100) { Some($e) } else { None } } }
macro_rules! map { ($r:ident, $d:expr, $m:expr, $k:expr, $v:expr) => { while $r.chance($d, 100) { let k = $k; let v = $v; $m.insert(k, v); } } }

/// fills the fields both versions share, each with a chance of d percent
#[macro_export]
macro_rules! fill_input { ($i:ident, $r:ident, $d:ident, $bip:ident, $prop:ident, $unk:ident, $raw:ident, $skip:expr) => {
    $i.non_witness_utxo = some!($r, $d, tx($r));
    $i.witness_utxo = some!($r, $d, txout($r));
    map!($r, $d, $i.partial_sigs, pk($r), *$r.pick(&pool().esigs));
    $i.sighash_type = some!($r, $d, sighash_type($r));
    $i.redeem_script = some!($r, $d, script($r));
    $i.witness_script = some!($r, $d, script($r));
    map!($r, $d, $i.$bip, spk1($r), key_source($r));
    $i.final_script_sig = some!($r, $d, script($r));
    $i.final_script_witness = some!($r, $d, witness($r));
    map!($r, $d, $i.ripemd160_preimages, ripemd160::Hash::all_zeros(), vec![]); $i.ripemd160_preimages.clear();
    while $r.chance($d, 100) { let n = *$r.pick(&[0usize, 1, 32, 33, 253]); let b = vec![few($r); n]; $i.ripemd160_preimages.insert(Hash::hash(&b), b); }
    while $r.chance($d, 100) { let n = *$r.pick(&[0usize, 1, 32, 33, 253]); let b = vec![few($r); n]; $i.sha256_preimages.insert(sha256::Hash::hash(&b), b); }
    while $r.chance($d, 100) { let n = *$r.pick(&[0usize, 1, 32, 33, 253]); let b = vec![few($r); n]; $i.hash160_preimages.insert(hash160::Hash::hash(&b), b); }
    while $r.chance($d, 100) { let n = *$r.pick(&[0usize, 1, 32, 33, 253]); let b = vec![few($r); n]; $i.hash256_preimages.insert(sha256d::Hash::hash(&b), b); }
    $i.tap_key_sig = some!($r, $d, *$r.pick(&pool().tsigs));
    map!($r, $d, $i.tap_script_sigs, (xonly($r), leafhash($r)), *$r.pick(&pool().tsigs));
    while $r.chance($d, 100) { let c = $r.pick(&pool().cbs).clone(); let s = if $r.chance(1, 4) { script($r) } else { c.1 }; $i.tap_scripts.insert(c.0, (s, c.2)); }
    while $r.chance($d, 100) { let n = $r.below(3); let l = (0..n).map(|_| leafhash($r)).collect(); $i.tap_key_origins.insert(xonly($r), (l, key_source($r))); }
    $i.tap_internal_key = some!($r, $d, xonly($r));
    $i.tap_merkle_root = some!($r, $d, bitcoin::TapNodeHash::from_byte_array([$r.below(3) as u8; 32]));
    fill_raw!($i, $r, $d, $prop, $unk, $raw, $skip);
} }
#[macro_export]
macro_rules! fill_output { ($i:ident, $r:ident, $d:ident, $bip:ident, $prop:ident, $unk:ident, $raw:ident, $skip:expr) => {
    $i.redeem_script = some!($r, $d, script($r));
    $i.witness_script = some!($r, $d, script($r));
    map!($r, $d, $i.$bip, spk1($r), key_source($r));
    $i.tap_internal_key = some!($r, $d, xonly($r));
    $i.tap_tree = some!($r, $d, $r.pick(&pool().trees).clone());
    while $r.chance($d, 100) { let n = $r.below(3); let l = (0..n).map(|_| leafhash($r)).collect(); $i.tap_key_origins.insert(xonly($r), (l, key_source($r))); }
    fill_raw!($i, $r, $d, $prop, $unk, $raw, $skip);
} }
#[macro_export]
macro_rules! fill_raw { ($i:ident, $r:ident, $d:ident, $prop:ident, $unk:ident, $raw:ident, $skip:expr) => {
    while $r.chance($d, 100) {
        let n = *$r.pick(&[0usize, 1, 5, 252, 253, 1024]); let m = *$r.pick(&[0usize, 1, 5, 253]);
        let k = $raw::ProprietaryKey { prefix: vec![$r.below(3) as u8; m], subtype: $r.below(4) as u8, key: vec![$r.below(2) as u8; n] };
        let n = vlen($r); let v = $r.bytes(n); $i.$prop.insert(k, v);
    }
    while $r.chance($d, 100) {
        let t = loop { let t = if $r.chance(1, 3) { $r.u8() } else { *$r.pick(&[0x09u8, 0x19, 0x1f, 0x20, 0x5b, 0xaa, 0xfa, 0xfd, 0xfe, 0xff]) }; if !$skip(t) { break t } };
        let n = *$r.pick(&[0usize, 0, 1, 2, 251, 252, 253, 254]);
        let n2 = vlen($r); let v = $r.bytes(n2);
        $i.$unk.insert($raw::Key { type_value: t, key: vec![$r.below(2) as u8; n] }, v);
    }
} }
use psbt_v2::raw as raw2;
use psbt_v2::v0::bitcoin::raw as raw0;
// Types with a meaning, which an unknown pair therefore cannot have (taken without regard to the enabled features).
pub fn known_g2(t: u8) -> bool { t <= 0x08 || t == 0xfb || t == 0xfc }
pub fn known_i2(t: u8) -> bool { (t <= 0x18 && t != 0x09) || t == 0x1d || t == 0x1e || t == 0xfc }
pub fn known_o2(t: u8) -> bool { t <= 0x07 || t == 0x09 || t == 0x0a || t == 0xfc }
// For version 0 also the types only version 2 allows.
pub fn known_g0(t: u8) -> bool { t <= 0x06 || t == 0xfb || t == 0xfc }
pub fn known_i0(t: u8) -> bool { t <= 0x18 && t != 0x09 || t == 0xfc }
pub fn known_o0(t: u8) -> bool { t <= 0x07 || t == 0xfc }

/// density of optional fields in percent, sparse ones most often
pub fn density(r: &mut Rng) -> usize { if r.chance(1, 40) { 96 } else { *r.pick(&[0usize, 5, 5, 15, 15, 40, 60]) } }
/// mostly one of three
pub fn few(r: &mut Rng) -> u8 { if r.chance(1, 5) { r.u8() } else { r.below(3) as u8 } }
pub fn fill2(i: &mut v2::Input, r: &mut Rng, d: usize) {
    i.sequence = some!(r, d, sequence(r)); i.min_time = some!(r, d, time(r)); i.min_height = some!(r, d, height(r));
    fill_input!(i, r, d, bip32_derivations, proprietaries, unknowns, raw2, known_i2);
    #[cfg(feature = "silent-payments")]
    if r.chance(d, 100) { sp(&mut i.sp_ecdh_shares, &mut i.sp_dleq_proofs, r); }
}
pub fn fill2o(i: &mut v2::Output, r: &mut Rng, d: usize) {
    fill_output!(i, r, d, bip32_derivations, proprietaries, unknowns, raw2, known_o2);
    #[cfg(feature = "silent-payments")]
    if r.chance(d, 100) { i.sp_v0_info = Some(r.bytes(66)); if r.bool() { i.sp_v0_label = Some(r.edge_u32()); } }
}
#[cfg(feature = "silent-payments")]
pub fn sp(e: &mut std::collections::BTreeMap<bitcoin::CompressedPublicKey, bitcoin::CompressedPublicKey>, p: &mut std::collections::BTreeMap<bitcoin::CompressedPublicKey, v2::DleqProof>, r: &mut Rng) {
    let c = |k: secp256k1::PublicKey| bitcoin::CompressedPublicKey(k);
    for _ in 0..r.range(1, 3) { e.insert(c(spk1(r)), c(spk1(r))); }
    for _ in 0..r.range(1, 3) { let (x, y) = (few(r), few(r)); let mut b = [x; 64]; for z in &mut b[32..] { *z = y } p.insert(c(spk1(r)), v2::DleqProof::from(b)); }
}
pub fn global2(r: &mut Rng, d: usize) -> v2::Global {
    let mut g = v2::Global::default();
    g.tx_version = tx_version(r);
    g.fallback_lock_time = some!(r, d.max(20), lock_time(r));
    g.tx_modifiable_flags = if r.chance(1, 4) { r.u8() } else { r.below(8) as u8 };
    map!(r, d, g.xpubs, *r.pick(&pool().xpubs), key_source(r));
    let gg = &mut g;
    fill_raw!(gg, r, d, proprietaries, unknowns, raw2, known_g2);
    #[cfg(feature = "silent-payments")]
    if r.chance(d, 100) { sp(&mut g.sp_ecdh_shares, &mut g.sp_dleq_proofs, r); }
    g
}
/// an arbitrary version 2 PSBT with matching counts and encodable fields
pub fn psbt2(r: &mut Rng) -> v2::Psbt { let d = density(r); psbt2_d(r, d) }
pub fn psbt2_d(r: &mut Rng, d: usize) -> v2::Psbt {
    let big = r.chance(1, 200);
    let ni = if big { 254 } else { r.range(0, 3) }; let no = if big { 253 } else { r.range(0, 3) };
    let d = if big { 0 } else { d };
    let mut g = global2(r, d); g.input_count = ni; g.output_count = no;
    let inputs = (0..ni).map(|_| { let mut i = v2::Input::new(&outpoint(r)); fill2(&mut i, r, d); i }).collect();
    let outputs = (0..no).map(|_| { let mut o = v2::Output::new(txout(r)); fill2o(&mut o, r, d); o }).collect();
    v2::Psbt { global: g, inputs, outputs }
}
/// fills what two PSBTs for one transaction may differ in
pub fn vary2(p: &mut v2::Psbt, r: &mut Rng, d: usize) {
    let g = global2(r, d);
    p.global.fallback_lock_time = g.fallback_lock_time; p.global.tx_modifiable_flags = g.tx_modifiable_flags;
    p.global.xpubs = g.xpubs; p.global.proprietaries = g.proprietaries; p.global.unknowns = g.unknowns;
    #[cfg(feature = "silent-payments")]
    { p.global.sp_ecdh_shares = g.sp_ecdh_shares; p.global.sp_dleq_proofs = g.sp_dleq_proofs; }
    for i in &mut p.inputs { let o = OutPoint { txid: i.previous_txid, vout: i.spent_output_index }; *i = v2::Input::new(&o); fill2(i, r, d); }
    for i in &mut p.outputs { let o = TxOut { value: i.amount, script_pubkey: i.script_pubkey.clone() }; *i = v2::Output::new(o); fill2o(i, r, d); }
}
pub fn unsigned_tx(r: &mut Rng) -> Transaction { let mut t = tx(r); for i in &mut t.input { i.script_sig = ScriptBuf::new(); i.witness = Witness::new(); } t }
pub fn fill0(p: &mut v0::Psbt, r: &mut Rng, d: usize) {
    map!(r, d, p.xpub, *r.pick(&pool().xpubs), key_source(r));
    fill_raw!(p, r, d, proprietary, unknown, raw0, known_g0);
    for i in &mut p.inputs { fill_input!(i, r, d, bip32_derivation, proprietary, unknown, raw0, known_i0); }
    for i in &mut p.outputs { fill_output!(i, r, d, bip32_derivation, proprietary, unknown, raw0, known_o0); }
}
pub fn empty0(t: Transaction) -> v0::Psbt {
    v0::Psbt { inputs: vec![Default::default(); t.input.len()], outputs: vec![Default::default(); t.output.len()], unsigned_tx: t, version: 0, xpub: Default::default(), proprietary: Default::default(), unknown: Default::default() }
}
pub fn psbt0(r: &mut Rng) -> v0::Psbt { let d = density(r); let mut p = empty0(unsigned_tx(r)); fill0(&mut p, r, d); p }

// ---- wallets: inputs whose UTXO, scripts and keys fit together ----
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { P2pkh, P2pk, P2wpkh, ShWpkh, ShMulti, WshMulti, ShWshMulti, BareMulti }
pub const KINDS: [Kind; 8] = [Kind::P2pkh, Kind::P2pk, Kind::P2wpkh, Kind::ShWpkh, Kind::ShMulti, Kind::WshMulti, Kind::ShWshMulti, Kind::BareMulti];
#[derive(Clone, Debug)]
pub struct Coin { pub kind: Kind, pub out: TxOut, pub redeem: Option<ScriptBuf>, pub witness: Option<ScriptBuf>, pub keys: Vec<(KeySource, PrivateKey, PublicKey)>, pub need: usize, pub prev: Transaction, pub vout: u32 }
pub fn coin(r: &mut Rng) -> Coin {
    let p = pool();
    let kind = *r.pick(&KINDS);
    let n = match kind { Kind::P2pkh | Kind::P2pk | Kind::P2wpkh | Kind::ShWpkh => 1, _ => r.range(1, 3) };
    let xi = r.below(3);
    let keys: Vec<(KeySource, PrivateKey, PublicKey)> = (0..n).map(|j| {
        let x = &p.xprivs[(xi + j) % 3]; let path = DerivationPath::from(vec![ChildNumber::from(r.below(20) as u32), ChildNumber::from(j as u32)]);
        let d = x.derive_priv(&p.secp, &path).unwrap(); let sk = d.to_priv();
        ((x.fingerprint(&p.secp), path), sk, sk.public_key(&p.secp))
    }).collect();
    let need = r.range(1, n);
    let multi = || { let mut b = Builder::new().push_int(need as i64); for k in &keys { b = b.push_key(&k.2); } b.push_int(n as i64).push_opcode(op::OP_CHECKMULTISIG).into_script() };
    let pk = keys[0].2;
    let wpkh = ScriptBuf::new_p2wpkh(&pk.wpubkey_hash().unwrap());
    let (spk, redeem, wit) = match kind {
        Kind::P2pkh => (ScriptBuf::new_p2pkh(&pk.pubkey_hash()), None, None),
        Kind::P2pk => (ScriptBuf::new_p2pk(&pk), None, None),
        Kind::P2wpkh => (wpkh, None, None),
        Kind::ShWpkh => (ScriptBuf::new_p2sh(&wpkh.script_hash()), Some(wpkh), None),
        Kind::ShMulti => { let m = multi(); (ScriptBuf::new_p2sh(&m.script_hash()), Some(m), None) }
        Kind::WshMulti => { let m = multi(); (ScriptBuf::new_p2wsh(&m.wscript_hash()), None, Some(m)) }
        Kind::ShWshMulti => { let m = multi(); let w = ScriptBuf::new_p2wsh(&m.wscript_hash()); (ScriptBuf::new_p2sh(&w.script_hash()), Some(w), Some(m)) }
        Kind::BareMulti => (multi(), None, None),
    };
    let out = TxOut { value: Amount::from_sat(1000 + r.below(100_000_000) as u64), script_pubkey: spk };
    let mut prev = tx(r);
    if prev.input.is_empty() { prev.input.push(TxIn { previous_output: outpoint(r), ..Default::default() }); }
    while prev.output.len() < 2 { prev.output.push(txout(r)); }
    let vout = r.below(prev.output.len()) as u32;
    prev.output[vout as usize] = out.clone();
    Coin { kind, out, redeem, witness: wit, keys, need, prev, vout }
}
impl Coin { pub fn segwit(&self) -> bool { !matches!(self.kind, Kind::P2pkh | Kind::P2pk | Kind::ShMulti | Kind::BareMulti) } }
/// puts a coin's data in an input; segwit coins get either or both kinds of UTXO
macro_rules! fund { ($i:ident, $c:ident, $r:ident, $bip:ident) => {
    if !$c.segwit() || $r.chance(1, 3) { $i.non_witness_utxo = Some($c.prev.clone()); }
    if $c.segwit() && ($i.non_witness_utxo.is_none() || $r.bool()) { $i.witness_utxo = Some($c.out.clone()); }
    $i.redeem_script = $c.redeem.clone(); $i.witness_script = $c.witness.clone();
    for (s, _, k) in &$c.keys { $i.$bip.insert(k.inner, s.clone()); }
} }
pub fn coin_input2(r: &mut Rng, c: &Coin) -> v2::Input {
    let mut i = v2::Input::new(&OutPoint { txid: c.prev.compute_txid(), vout: c.vout });
    fund!(i, c, r, bip32_derivations);
    i
}
pub fn coin_input0(r: &mut Rng, c: &Coin) -> v0::Input { let mut i = v0::Input::default(); fund!(i, c, r, bip32_derivation); i }
pub fn wallet2(r: &mut Rng, nmax: usize) -> (v2::Psbt, Vec<Coin>) {
    let n = if r.chance(1, 40) { 8 * nmax } else { r.range(1, nmax) }; let no = r.range(1, 3);
    let coins: Vec<Coin> = (0..n).map(|_| coin(r)).collect();
    let mut g = global2(r, 5); g.input_count = n; g.output_count = no;
    let kind = r.below(4);
    let inputs: Vec<v2::Input> = coins.iter().map(|c| {
        let mut i = coin_input2(r, c);
        i.sequence = some!(r, 50, sequence(r));
        if kind == 1 && r.bool() { i.min_time = Some(time(r)); } else if kind == 2 && r.bool() { i.min_height = Some(height(r)); } else if kind == 3 && r.bool() { i.min_time = Some(time(r)); i.min_height = Some(height(r)); }
        i
    }).collect();
    let total: u64 = coins.iter().map(|c| c.out.value.to_sat()).sum();
    let outputs = (0..no).map(|_| v2::Output::new(TxOut { value: Amount::from_sat(total / (no as u64 + 1)), script_pubkey: script(r) })).collect();
    (v2::Psbt { global: g, inputs, outputs }, coins)
}
pub fn wallet0(r: &mut Rng, nmax: usize) -> (v0::Psbt, Vec<Coin>) {
    let n = if r.chance(1, 40) { 8 * nmax } else { r.range(1, nmax) }; let no = r.range(1, 3);
    let coins: Vec<Coin> = (0..n).map(|_| coin(r)).collect();
    let total: u64 = coins.iter().map(|c| c.out.value.to_sat()).sum();
    let t = Transaction { version: tx_version(r), lock_time: lock_time(r),
        input: coins.iter().map(|c| TxIn { previous_output: OutPoint { txid: c.prev.compute_txid(), vout: c.vout }, script_sig: ScriptBuf::new(), sequence: sequence(r), witness: Witness::new() }).collect(),
        output: (0..no).map(|_| TxOut { value: Amount::from_sat(total / (no as u64 + 1)), script_pubkey: script(r) }).collect() };
    let mut p = empty0(t);
    for (i, c) in p.inputs.iter_mut().zip(&coins) { *i = coin_input0(r, c); }
    (p, coins)
}
