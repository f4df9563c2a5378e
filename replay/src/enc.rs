//! An encoder and splitter of PSBTs written from BIP-174/370/371/375, independent of the crate under test.
use bitcoin::consensus::serialize;
use bitcoin::hashes::Hash;
use psbt_v2::{v0, v2};
use std::collections::BTreeMap;

pub type PMap = BTreeMap<(u8, Vec<u8>), Vec<u8>>;
pub type Pairs = Vec<(u8, Vec<u8>, Vec<u8>)>;

pub fn compact(n: u64) -> Vec<u8> {
    if n < 0xfd { vec![n as u8] } else if n <= 0xffff { let mut v = vec![0xfd]; v.extend((n as u16).to_le_bytes()); v }
    else if n <= 0xffff_ffff { let mut v = vec![0xfe]; v.extend((n as u32).to_le_bytes()); v } else { let mut v = vec![0xff]; v.extend(n.to_le_bytes()); v }
}
pub fn read_compact(b: &mut &[u8]) -> Option<u64> {
    let (f, r) = b.split_first()?;
    let n = match f { 0xfd => 2, 0xfe => 4, 0xff => 8, x => { *b = r; return Some(*x as u64) } };
    if r.len() < n { return None }
    let mut v = [0u8; 8]; v[..n].copy_from_slice(&r[..n]); *b = &r[n..];
    let x = u64::from_le_bytes(v);
    let min = match n { 2 => 0xfd, 4 => 0x1_0000, _ => 0x1_0000_0000 };
    if x < min { return None }
    Some(x)
}
pub fn ks(s: &bitcoin::bip32::KeySource) -> Vec<u8> {
    let mut v = s.0.to_bytes().to_vec();
    for c in s.1.into_iter() { v.extend(u32::from(*c).to_le_bytes()); }
    v
}
fn leafs(l: &[bitcoin::TapLeafHash]) -> Vec<u8> { let mut v = compact(l.len() as u64); for h in l { v.extend(h.to_byte_array()); } v }
fn tree(t: &bitcoin::taproot::TapTree) -> Vec<u8> {
    let mut v = vec![];
    for l in t.script_leaves() { v.push(l.merkle_branch().len() as u8); v.push(l.version().to_consensus()); v.extend(compact(l.script().len() as u64)); v.extend(l.script().as_bytes()); }
    v
}
fn esig(s: &bitcoin::ecdsa::Signature) -> Vec<u8> { let mut v = s.signature.serialize_der().to_vec(); v.push(s.sighash_type as u8); v }
fn tsig(s: &bitcoin::taproot::Signature) -> Vec<u8> {
    let mut v = s.signature.as_ref().to_vec();
    if s.sighash_type != bitcoin::TapSighashType::Default { v.push(s.sighash_type as u8); }
    v
}
fn witness(w: &bitcoin::Witness) -> Vec<u8> { let mut v = compact(w.len() as u64); for e in w.iter() { v.extend(compact(e.len() as u64)); v.extend(e); } v }
fn txout(o: &bitcoin::TxOut) -> Vec<u8> { let mut v = o.value.to_sat().to_le_bytes().to_vec(); v.extend(compact(o.script_pubkey.len() as u64)); v.extend(o.script_pubkey.as_bytes()); v }
fn prop(prefix: &[u8], sub: u8, key: &[u8]) -> Vec<u8> { let mut v = compact(prefix.len() as u64); v.extend(prefix); v.push(sub); v.extend(key); v }
/// transaction without witness data
pub fn legacy_tx(t: &bitcoin::Transaction) -> Vec<u8> {
    let mut v = t.version.0.to_le_bytes().to_vec();
    v.extend(compact(t.input.len() as u64));
    for i in &t.input { v.extend(i.previous_output.txid.to_byte_array()); v.extend(i.previous_output.vout.to_le_bytes()); v.extend(compact(i.script_sig.len() as u64)); v.extend(i.script_sig.as_bytes()); v.extend(i.sequence.0.to_le_bytes()); }
    v.extend(compact(t.output.len() as u64));
    for o in &t.output { v.extend(txout(o)); }
    v.extend(t.lock_time.to_consensus_u32().to_le_bytes());
    v
}

macro_rules! enc_input { ($m:ident, $i:ident, $bip:ident, $prop:ident, $unk:ident) => {
    let mut p = |t: u8, k: Vec<u8>, v: Vec<u8>| { $m.insert((t, k), v); };
    if let Some(x) = &$i.non_witness_utxo { p(0x00, vec![], serialize(x)); }
    if let Some(x) = &$i.witness_utxo { p(0x01, vec![], txout(x)); }
    for (k, x) in &$i.partial_sigs { p(0x02, k.to_bytes(), esig(x)); }
    if let Some(x) = &$i.sighash_type { p(0x03, vec![], x.to_u32().to_le_bytes().to_vec()); }
    if let Some(x) = &$i.redeem_script { p(0x04, vec![], x.to_bytes()); }
    if let Some(x) = &$i.witness_script { p(0x05, vec![], x.to_bytes()); }
    for (k, x) in &$i.$bip { p(0x06, k.serialize().to_vec(), ks(x)); }
    if let Some(x) = &$i.final_script_sig { p(0x07, vec![], x.to_bytes()); }
    if let Some(x) = &$i.final_script_witness { p(0x08, vec![], witness(x)); }
    for (k, x) in &$i.ripemd160_preimages { p(0x0a, k.to_byte_array().to_vec(), x.clone()); }
    for (k, x) in &$i.sha256_preimages { p(0x0b, k.to_byte_array().to_vec(), x.clone()); }
    for (k, x) in &$i.hash160_preimages { p(0x0c, k.to_byte_array().to_vec(), x.clone()); }
    for (k, x) in &$i.hash256_preimages { p(0x0d, k.to_byte_array().to_vec(), x.clone()); }
    if let Some(x) = &$i.tap_key_sig { p(0x13, vec![], tsig(x)); }
    for ((k, l), x) in &$i.tap_script_sigs { let mut kk = k.serialize().to_vec(); kk.extend(l.to_byte_array()); p(0x14, kk, tsig(x)); }
    for (k, (s, l)) in &$i.tap_scripts { let mut v = s.to_bytes(); v.push(l.to_consensus()); p(0x15, k.serialize(), v); }
    for (k, (l, s)) in &$i.tap_key_origins { let mut v = leafs(l); v.extend(ks(s)); p(0x16, k.serialize().to_vec(), v); }
    if let Some(x) = &$i.tap_internal_key { p(0x17, vec![], x.serialize().to_vec()); }
    if let Some(x) = &$i.tap_merkle_root { p(0x18, vec![], x.to_byte_array().to_vec()); }
    for (k, x) in &$i.$prop { p(0xfc, prop(&k.prefix, k.subtype, &k.key), x.clone()); }
    for (k, x) in &$i.$unk { p(k.type_value, k.key.clone(), x.clone()); }
} }
macro_rules! enc_output { ($m:ident, $i:ident, $bip:ident, $prop:ident, $unk:ident) => {
    let mut p = |t: u8, k: Vec<u8>, v: Vec<u8>| { $m.insert((t, k), v); };
    if let Some(x) = &$i.redeem_script { p(0x00, vec![], x.to_bytes()); }
    if let Some(x) = &$i.witness_script { p(0x01, vec![], x.to_bytes()); }
    for (k, x) in &$i.$bip { p(0x02, k.serialize().to_vec(), ks(x)); }
    if let Some(x) = &$i.tap_internal_key { p(0x05, vec![], x.serialize().to_vec()); }
    if let Some(x) = &$i.tap_tree { p(0x06, vec![], tree(x)); }
    for (k, (l, s)) in &$i.tap_key_origins { let mut v = leafs(l); v.extend(ks(s)); p(0x07, k.serialize().to_vec(), v); }
    for (k, x) in &$i.$prop { p(0xfc, prop(&k.prefix, k.subtype, &k.key), x.clone()); }
    for (k, x) in &$i.$unk { p(k.type_value, k.key.clone(), x.clone()); }
} }
pub fn in2(i: &v2::Input) -> PMap {
    let mut m = PMap::new();
    m.insert((0x0e, vec![]), i.previous_txid.to_byte_array().to_vec());
    m.insert((0x0f, vec![]), i.spent_output_index.to_le_bytes().to_vec());
    if let Some(x) = i.sequence { m.insert((0x10, vec![]), x.0.to_le_bytes().to_vec()); }
    if let Some(x) = i.min_time { m.insert((0x11, vec![]), x.to_consensus_u32().to_le_bytes().to_vec()); }
    if let Some(x) = i.min_height { m.insert((0x12, vec![]), x.to_consensus_u32().to_le_bytes().to_vec()); }
    enc_input!(m, i, bip32_derivations, proprietaries, unknowns);
    #[cfg(feature = "silent-payments")]
    {
        for (k, x) in &i.sp_ecdh_shares { m.insert((0x1d, k.to_bytes().to_vec()), x.to_bytes().to_vec()); }
        for (k, x) in &i.sp_dleq_proofs { m.insert((0x1e, k.to_bytes().to_vec()), x.as_bytes().to_vec()); }
    }
    m
}
pub fn out2(i: &v2::Output) -> PMap {
    let mut m = PMap::new();
    m.insert((0x03, vec![]), i.amount.to_sat().to_le_bytes().to_vec());
    m.insert((0x04, vec![]), i.script_pubkey.to_bytes());
    enc_output!(m, i, bip32_derivations, proprietaries, unknowns);
    #[cfg(feature = "silent-payments")]
    {
        if let Some(x) = &i.sp_v0_info { m.insert((0x09, vec![]), x.clone()); }
        if let Some(x) = &i.sp_v0_label { m.insert((0x0a, vec![]), x.to_le_bytes().to_vec()); }
    }
    m
}
pub fn glob2(g: &v2::Global) -> PMap {
    let mut m = PMap::new();
    m.insert((0xfb, vec![]), g.version.to_u32().to_le_bytes().to_vec());
    m.insert((0x02, vec![]), g.tx_version.0.to_le_bytes().to_vec());
    if let Some(x) = g.fallback_lock_time { m.insert((0x03, vec![]), x.to_consensus_u32().to_le_bytes().to_vec()); }
    m.insert((0x04, vec![]), compact(g.input_count as u64));
    m.insert((0x05, vec![]), compact(g.output_count as u64));
    m.insert((0x06, vec![]), vec![g.tx_modifiable_flags]);
    for (k, x) in &g.xpubs { m.insert((0x01, k.encode().to_vec()), ks(x)); }
    #[cfg(feature = "silent-payments")]
    {
        for (k, x) in &g.sp_ecdh_shares { m.insert((0x07, k.to_bytes().to_vec()), x.to_bytes().to_vec()); }
        for (k, x) in &g.sp_dleq_proofs { m.insert((0x08, k.to_bytes().to_vec()), x.as_bytes().to_vec()); }
    }
    for (k, x) in &g.proprietaries { m.insert((0xfc, prop(&k.prefix, k.subtype, &k.key)), x.clone()); }
    for (k, x) in &g.unknowns { m.insert((k.type_value, k.key.clone()), x.clone()); }
    m
}
pub fn in0(i: &v0::Input) -> PMap { let mut m = PMap::new(); enc_input!(m, i, bip32_derivation, proprietary, unknown); m }
pub fn out0(i: &v0::Output) -> PMap { let mut m = PMap::new(); enc_output!(m, i, bip32_derivation, proprietary, unknown); m }
pub fn glob0(p: &v0::Psbt) -> PMap {
    let mut m = PMap::new();
    m.insert((0x00, vec![]), legacy_tx(&p.unsigned_tx));
    if p.version > 0 { m.insert((0xfb, vec![]), p.version.to_le_bytes().to_vec()); }
    for (k, x) in &p.xpub { m.insert((0x01, k.encode().to_vec()), ks(x)); }
    for (k, x) in &p.proprietary { m.insert((0xfc, prop(&k.prefix, k.subtype, &k.key)), x.clone()); }
    for (k, x) in &p.unknown { m.insert((k.type_value, k.key.clone()), x.clone()); }
    m
}
pub fn maps2(p: &v2::Psbt) -> Vec<PMap> { let mut v = vec![glob2(&p.global)]; v.extend(p.inputs.iter().map(in2)); v.extend(p.outputs.iter().map(out2)); v }
pub fn maps0(p: &v0::Psbt) -> Vec<PMap> { let mut v = vec![glob0(p)]; v.extend(p.inputs.iter().map(in0)); v.extend(p.outputs.iter().map(out0)); v }
pub fn pairs(m: &PMap) -> Pairs { m.iter().map(|((t, k), v)| (*t, k.clone(), v.clone())).collect() }

pub fn pair_bytes(t: u8, k: &[u8], v: &[u8]) -> Vec<u8> {
    let mut o = compact(k.len() as u64 + 1); o.push(t); o.extend(k); o.extend(compact(v.len() as u64)); o.extend(v); o
}
pub fn join(maps: &[Pairs]) -> Vec<u8> {
    let mut o = b"psbt\xff".to_vec();
    for m in maps { for (t, k, v) in m { o.extend(pair_bytes(*t, k, v)); } o.push(0); }
    o
}
/// splits serialized bytes into maps of raw pairs, in order
pub fn split(b: &[u8]) -> Option<Vec<Pairs>> {
    let mut d = b.strip_prefix(b"psbt\xff")?;
    let mut maps = vec![];
    while !d.is_empty() {
        let mut m = vec![];
        loop {
            let n = read_compact(&mut d)? as usize;
            if n == 0 { break }
            if d.len() < n { return None }
            let (t, k) = (d[0], d[1..n].to_vec()); d = &d[n..];
            let l = read_compact(&mut d)? as usize;
            if d.len() < l { return None }
            m.push((t, k, d[..l].to_vec())); d = &d[l..];
        }
        maps.push(m);
    }
    Some(maps)
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
