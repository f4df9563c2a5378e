@onlyprops C24
@fileprops C24
@mod hash24_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use bitcoin::hashes::{self, hash160, sha256, sha256d, ripemd160};
verus!{
pub open spec fn is_preimage_type(t: u8) -> bool { 0x0a <= t <= 0x0d }
/// an input accepts a preimage pair exactly if its hash matches and is new
pub open spec fn pre_ok(x: crate::v2::Input, p: crate::raw::Pair) -> bool {
    match p.key.type_value { 0x0a => hash_ok(x.ripemd160_preimages@, p.key, p.value@), 0x0b => hash_ok(x.sha256_preimages@, p.key, p.value@), 0x0c => hash_ok(x.hash160_preimages@, p.key, p.value@), 0x0d => hash_ok(x.hash256_preimages@, p.key, p.value@), _ => true }
}
/// ... and records exactly it; other pairs record no preimage
pub open spec fn pre_ins(x: crate::v2::Input, p: crate::raw::Pair, y: crate::v2::Input) -> bool {
    let t = p.key.type_value;
    (if t == 0x0a { hash_set(x.ripemd160_preimages@, p, y.ripemd160_preimages@) } else { y.ripemd160_preimages == x.ripemd160_preimages })
    && (if t == 0x0b { hash_set(x.sha256_preimages@, p, y.sha256_preimages@) } else { y.sha256_preimages == x.sha256_preimages })
    && (if t == 0x0c { hash_set(x.hash160_preimages@, p, y.hash160_preimages@) } else { y.hash160_preimages == x.hash160_preimages })
    && (if t == 0x0d { hash_set(x.hash256_preimages@, p, y.hash256_preimages@) } else { y.hash256_preimages == x.hash256_preimages })
}
pub open spec fn pre0_ok(x: crate::v0::bitcoin::Input, p: crate::v0::bitcoin::raw::Pair) -> bool {
    match p.key.type_value { 0x0a => hash_ok0(x.ripemd160_preimages@, p.key, p.value@), 0x0b => hash_ok0(x.sha256_preimages@, p.key, p.value@), 0x0c => hash_ok0(x.hash160_preimages@, p.key, p.value@), 0x0d => hash_ok0(x.hash256_preimages@, p.key, p.value@), _ => true }
}
pub open spec fn pre0_ins(x: crate::v0::bitcoin::Input, p: crate::v0::bitcoin::raw::Pair, y: crate::v0::bitcoin::Input) -> bool {
    let t = p.key.type_value;
    (if t == 0x0a { hash_set0(x.ripemd160_preimages@, p, y.ripemd160_preimages@) } else { y.ripemd160_preimages == x.ripemd160_preimages })
    && (if t == 0x0b { hash_set0(x.sha256_preimages@, p, y.sha256_preimages@) } else { y.sha256_preimages == x.sha256_preimages })
    && (if t == 0x0c { hash_set0(x.hash160_preimages@, p, y.hash160_preimages@) } else { y.hash160_preimages == x.hash160_preimages })
    && (if t == 0x0d { hash_set0(x.hash256_preimages@, p, y.hash256_preimages@) } else { y.hash256_preimages == x.hash256_preimages })
}
}
@fn src/v2/map/input.rs Input::insert_pair
@replace raw_key.clone() ==> raw_key.vx_clone()
@replace k.key().clone() ==> k.key().vx_clone()
@spec
r => ensures r is Ok ==> pre_ok(*old(self), pair) && pre_ins(*old(self), pair, *final(self)), is_preimage_type(pair.key.type_value) && pre_ok(*old(self), pair) ==> r is Ok
@fn src/v0/bitcoin/map/input.rs Input::insert_pair
@replace raw_key.clone() ==> raw_key.vx_clone()
@replace k.key().clone() ==> k.key().vx_clone()
@spec
r => ensures r is Ok ==> pre0_ok(*old(self), pair) && pre0_ins(*old(self), pair, *final(self)), is_preimage_type(pair.key.type_value) && pre0_ok(*old(self), pair) ==> r is Ok
