mod codec;
mod combine;
mod fin;
mod misc;
mod robust;
mod sign;
mod tx;
use crate::SubFn;
use std::cell::RefCell;
thread_local! { static LAST: RefCell<String> = Default::default(); }
/// remembers the input a panic would have to be reported with
pub fn note(f: impl FnOnce() -> String) { let s = f(); LAST.with(|l| *l.borrow_mut() = s); }
pub fn last_input() -> String { LAST.with(|l| l.borrow().clone()) }
pub fn subs(p: &str) -> Vec<(&'static str, SubFn)> {
    match p {
        "C01" => vec![("small-domain", tx::c01_small as SubFn), ("random", tx::c01_random)],
        "C02" => vec![("constructor", tx::c02_roles), ("creator", tx::c02_creator), ("flags", tx::c02_flags), ("updater", tx::c02_updater)],
        "C03" => vec![("signer", tx::c03_signer), ("extractor", tx::c03_extractor)],
        "C04" => vec![("id", tx::c04_id), ("finalizer-id", tx::c04_finalizer)],
        "C05" => vec![("fee-v2", tx::c05_v2), ("fee-v0", tx::c05_v0)],
        "C06" => vec![("limit-v2", tx::c06_v2), ("limit-v0", tx::c06_v0)],
        "C07" => vec![("combine", combine::c07), ("xpub", combine::c07_xpub), ("mismatch", combine::c07_mismatch), ("maps", combine::c07_maps)],
        "C08" => vec![("combine", combine::c08), ("xpub", combine::c08_xpub), ("mismatch", combine::c08_mismatch)],
        "C09" => vec![("round-trip", codec::c09)],
        "C10" => vec![("mutated", codec::c10), ("order", codec::c10_order), ("accepted", codec::c10_accepted)],
        "C11" => vec![("round-trip", codec::c11), ("mutated", codec::c11_mutated), ("construct", codec::c11_construct)],
        "C12" => vec![("bytes-v2", robust::bytes2), ("bytes-v0", robust::bytes0), ("ops-v2", robust::ops2), ("ops-v0", robust::ops0)],
        "C13" => vec![("pair-v2", codec::c13_v2), ("pair-v0", codec::c13_v0), ("proprietary", codec::c13_prop)],
        "C14" => vec![("sighash", sign::c14)],
        "C15" => vec![("sighash", sign::c15)],
        "C16" => vec![("sign", sign::c16)],
        "C17" => vec![("xpriv", sign::c17_xpriv), ("map", sign::c17_map)],
        "C18" => vec![("finalize", fin::c18), ("new", fin::c18_new), ("is-finalized", fin::c18_isf)],
        "C19" => vec![("u32", misc::c19), ("types", misc::c19_types), ("serialized", misc::c19_ser)],
        "C20" => vec![("sigs", fin::c20)],
        "C21" => vec![("v2", fin::c21_v2), ("v0", fin::c21_v0)],
        "C22" => vec![("checks", misc::c22)],
        #[cfg(feature = "silent-payments")]
        "C23" => vec![("pairs", codec::c23), ("round-trip", codec::c09), ("combine", combine::c07)],
        "C24" => vec![("v2", codec::c24_v2), ("v0", codec::c24_v0)],
        "C25" => vec![("descriptor", misc::c25)],
        _ => vec![],
    }
}
