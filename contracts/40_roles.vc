@fileprops C02 C16
@mod roles_spec
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
use crate::v2::{Psbt, Global, Input, Output};
verus!{
pub proof fn lem_bits() ensures 1u8 << 0 == 1, 1u8 << 1 == 2, 1u8 << 2 == 4 { assert(1u8 << 0 == 1 && 1u8 << 1 == 2 && 1u8 << 2 == 4) by (bit_vector); }
// the order in which flags are set and cleared does not matter: the lowest first
pub broadcast proof fn lem_f1(f: u8) ensures #[trigger] ((f | 2u8) | 1u8) == (f | 1u8) | 2u8 { assert((f | 2u8) | 1u8 == (f | 1u8) | 2u8) by (bit_vector); }
pub broadcast proof fn lem_f2(f: u8) ensures #[trigger] ((f & !2u8) | 1u8) == (f | 1u8) & !2u8 { assert((f & !2u8) | 1u8 == (f | 1u8) & !2u8) by (bit_vector); }
pub broadcast proof fn lem_f3(f: u8) ensures #[trigger] ((f | 2u8) & !1u8) == (f & !1u8) | 2u8 { assert((f | 2u8) & !1u8 == (f & !1u8) | 2u8) by (bit_vector); }
pub broadcast proof fn lem_f4(f: u8) ensures #[trigger] ((f & !2u8) & !1u8) == (f & !1u8) & !2u8 { assert((f & !2u8) & !1u8 == (f & !1u8) & !2u8) by (bit_vector); }
pub broadcast proof fn lem_f5(f: u8) ensures #[trigger] ((f | 4u8) & !1u8) == (f & !1u8) | 4u8 { assert((f | 4u8) & !1u8 == (f & !1u8) | 4u8) by (bit_vector); }
pub broadcast proof fn lem_f6(f: u8) ensures #[trigger] ((f | 4u8) & !2u8) == (f & !2u8) | 4u8 { assert((f | 4u8) & !2u8 == (f & !2u8) | 4u8) by (bit_vector); }
pub broadcast group flag_lemmas { lem_f1, lem_f2, lem_f3, lem_f4, lem_f5, lem_f6 }
pub open spec fn flags(g: Global, f: u8) -> Global { Global { tx_modifiable_flags: f, ..g } }
pub open spec fn pflags(p: Psbt, f: u8) -> Psbt { Psbt { global: flags(p.global, f), ..p } }
pub open spec fn add_in(p: Psbt, i: Input, r: Psbt) -> bool {
    r.inputs@ == p.inputs@.push(i) && r.outputs == p.outputs && r.global == (Global { input_count: (p.global.input_count + 1) as usize, ..p.global })
}
pub open spec fn add_out(p: Psbt, o: Output, r: Psbt) -> bool {
    r.outputs@ == p.outputs@.push(o) && r.inputs == p.inputs && r.global == (Global { output_count: (p.global.output_count + 1) as usize, ..p.global })
}
pub open spec fn empty_global(g: Global) -> bool {
    g.version.vx() == 2 && g.tx_version.0 == 2 && g.fallback_lock_time is None && g.tx_modifiable_flags == 0 && g.input_count == 0 && g.output_count == 0
    && g.xpubs@ == Map::<bitcoin::bip32::Xpub, bitcoin::bip32::KeySource>::empty() && g.proprietaries@.dom() == Set::<crate::raw::ProprietaryKey>::empty() && g.unknowns@.dom() == Set::<crate::raw::Key>::empty()
}
pub open spec fn empty_psbt(p: Psbt) -> bool { empty_global(p.global) && p.inputs@ == Seq::<Input>::empty() && p.outputs@ == Seq::<Output>::empty() }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExM1(crate::v2::Modifiable);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExM2(crate::v2::InputsOnlyModifiable);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExM3(crate::v2::OutputsOnlyModifiable);
pub open spec fn has(f: u8, b: u8) -> bool { f & b != 0 }
pub assume_specification [bitcoin::transaction::Version::TWO] -> (r: bitcoin::transaction::Version) ensures r.0 == 2;
pub assume_specification [bitcoin::transaction::Version::ONE] -> (r: bitcoin::transaction::Version) ensures r.0 == 1;
}
@const src/v2/map/global.rs INPUTS_MODIFIABLE
@const src/v2/map/global.rs OUTPUTS_MODIFIABLE
@const src/v2/map/global.rs SIGHASH_SINGLE
@fn src/v2/map/global.rs Global::set_inputs_modifiable_flag
@spec
ensures *final(self) == flags(*old(self), old(self).tx_modifiable_flags | 1u8)
@entry
lem_bits();
@fn src/v2/map/global.rs Global::clear_inputs_modifiable_flag
@spec
ensures *final(self) == flags(*old(self), old(self).tx_modifiable_flags & !1u8)
@entry
lem_bits();
@fn src/v2/map/global.rs Global::is_inputs_modifiable
@spec
r => ensures r == has(self.tx_modifiable_flags, 1)
@entry
lem_bits();
@fn src/v2/map/global.rs Global::set_outputs_modifiable_flag
@spec
ensures *final(self) == flags(*old(self), old(self).tx_modifiable_flags | 2u8)
@entry
lem_bits();
@fn src/v2/map/global.rs Global::clear_outputs_modifiable_flag
@spec
ensures *final(self) == flags(*old(self), old(self).tx_modifiable_flags & !2u8)
@entry
lem_bits();
@fn src/v2/map/global.rs Global::is_outputs_modifiable
@spec
r => ensures r == has(self.tx_modifiable_flags, 2)
@entry
lem_bits();
@fn src/v2/map/global.rs Global::set_sighash_single_flag
@spec
ensures *final(self) == flags(*old(self), old(self).tx_modifiable_flags | 4u8)
@entry
lem_bits();
@fn src/v2/map/global.rs Global::clear_sighash_single_flag
@spec
ensures *final(self) == flags(*old(self), old(self).tx_modifiable_flags & !4u8)
@entry
lem_bits();
@fn src/v2/map/global.rs Global::has_sighash_single
@spec
r => ensures r == has(self.tx_modifiable_flags, 4)
@entry
lem_bits();
@fn src/v2/map/global.rs Global::new
@spec
r => ensures empty_global(r)
@fn src/v2/map/global.rs Default for Global::default
@spec
r => ensures empty_global(r)
@type src/v2/mod.rs Creator
@type src/v2/mod.rs Constructor
@type src/v2/mod.rs Updater
@type src/v2/mod.rs Signer
@type src/v2/error.rs PsbtNotModifiableError
@type src/v2/error.rs InputsNotModifiableError
@type src/v2/error.rs OutputsNotModifiableError
@type src/v2/error.rs IndexOutOfBoundsError
@append src/v2/mod.rs
impl Creator { pub closed spec fn vx(&self) -> Psbt { self.0 } }
impl<T> Constructor<T> { pub closed spec fn vx(&self) -> Psbt { self.0 } }
impl Updater { pub closed spec fn vx(&self) -> Psbt { self.0 } }
impl Signer { pub closed spec fn vx(&self) -> Psbt { self.0 } }
@fn src/v2/mod.rs Creator::new
@spec
r => ensures empty_psbt(r.vx())
@fn src/v2/mod.rs Creator::fallback_lock_time
@spec
r => ensures r.vx() == (Psbt { global: Global { fallback_lock_time: Some(fallback), ..self.vx().global }, ..self.vx() })
@fn src/v2/mod.rs Creator::transaction_version
@spec
r => ensures r.vx() == (Psbt { global: Global { tx_version: version, ..self.vx().global }, ..self.vx() })
@fn src/v2/mod.rs Creator::inputs_modifiable
@spec
r => ensures r.vx() == pflags(self.vx(), self.vx().global.tx_modifiable_flags | 1u8)
@fn src/v2/mod.rs Creator::outputs_modifiable
@spec
r => ensures r.vx() == pflags(self.vx(), self.vx().global.tx_modifiable_flags | 2u8)
@fn src/v2/mod.rs Creator::sighash_single
@spec
r => ensures r.vx() == pflags(self.vx(), self.vx().global.tx_modifiable_flags | 4u8)
@fn src/v2/mod.rs Creator::constructor_modifiable
@spec
r => ensures r.vx() == pflags(self.vx(), (self.vx().global.tx_modifiable_flags | 1u8) | 2u8)
@entry
broadcast use flag_lemmas;
@fn src/v2/mod.rs Creator::constructor_inputs_only_modifiable
@spec
r => ensures r.vx() == pflags(self.vx(), (self.vx().global.tx_modifiable_flags | 1u8) & !2u8)
@entry
broadcast use flag_lemmas;
@fn src/v2/mod.rs Creator::constructor_outputs_only_modifiable
@spec
r => ensures r.vx() == pflags(self.vx(), (self.vx().global.tx_modifiable_flags & !1u8) | 2u8)
@entry
broadcast use flag_lemmas;
@fn src/v2/mod.rs Creator::psbt
@spec
r => ensures r == self.vx()
@fn src/v2/mod.rs Default for Creator::default
@spec
r => ensures empty_psbt(r.vx())
@fn src/v2/mod.rs Constructor<T>::no_more_inputs
@spec
r => ensures r.vx() == pflags(self.vx(), self.vx().global.tx_modifiable_flags & !1u8)
@fn src/v2/mod.rs Constructor<T>::no_more_outputs
@spec
r => ensures r.vx() == pflags(self.vx(), self.vx().global.tx_modifiable_flags & !2u8)
@fn src/v2/mod.rs Constructor<T>::psbt
@spec
r => ensures r is Err <==> lock_undetermined(self.vx().inputs@), r is Ok ==> r->Ok_0 == self.vx()
@fn src/v2/mod.rs Constructor<T>::updater
@replace .map(Updater) ==> .map(#[verus_spec(r: Updater => ensures r == Updater(x))] |x| Updater(x))
@spec
r => ensures r is Err <==> lock_undetermined(self.vx().inputs@), r is Ok ==> r->Ok_0.vx() == pflags(self.vx(), (self.vx().global.tx_modifiable_flags & !1u8) & !2u8)
@entry
broadcast use flag_lemmas;
@fn src/v2/mod.rs Constructor<Modifiable>::new
@spec
r => ensures r is Ok <==> ({ let f = psbt.global.tx_modifiable_flags; has(f, 1) && has(f, 2) }), r is Ok ==> r->Ok_0.vx() == psbt
@fn src/v2/mod.rs Constructor<Modifiable>::input
@spec
r => requires self.vx().global.input_count < usize::MAX ensures add_in(self.vx(), input, r.vx())
@fn src/v2/mod.rs Constructor<Modifiable>::output
@spec
r => requires self.vx().global.output_count < usize::MAX ensures add_out(self.vx(), output, r.vx())
@fn src/v2/mod.rs Constructor<InputsOnlyModifiable>::new
@spec
r => ensures r is Ok <==> ({ let f = psbt.global.tx_modifiable_flags; has(f, 1) }), r is Ok ==> r->Ok_0.vx() == psbt
@fn src/v2/mod.rs Constructor<InputsOnlyModifiable>::input
@spec
r => requires self.vx().global.input_count < usize::MAX ensures add_in(self.vx(), input, r.vx())
@fn src/v2/mod.rs Constructor<OutputsOnlyModifiable>::new
@spec
r => ensures r is Ok <==> ({ let f = psbt.global.tx_modifiable_flags; has(f, 2) }), r is Ok ==> r->Ok_0.vx() == psbt
@fn src/v2/mod.rs Constructor<OutputsOnlyModifiable>::output
@spec
r => requires self.vx().global.output_count < usize::MAX ensures add_out(self.vx(), output, r.vx())
@fn src/v2/mod.rs Updater::new
@spec
r => ensures r is Err <==> lock_undetermined(psbt.inputs@), r is Ok ==> r->Ok_0.vx() == psbt
@fn src/v2/mod.rs Updater::psbt
@spec
r => ensures r == self.vx()
@fn src/v2/mod.rs Updater::id
@props C04
@spec
r => requires !lock_undetermined(self.vx().inputs@) ensures is_id(self.vx(), r)
@fn src/v2/mod.rs Signer::id
@props C04
@spec
r => ensures r is Err <==> lock_undetermined(self.vx().inputs@), r is Ok ==> is_id(self.vx(), r->Ok_0)
@fn src/v2/mod.rs Signer::unsigned_tx
@props C03 C16
@spec
r => requires !lock_undetermined(self.vx().inputs@) ensures is_utx(self.vx(), r)
@fn src/v2/mod.rs Signer::new
@props C03 C16
@spec
r => ensures r is Err <==> lock_undetermined(psbt.inputs@), r is Ok ==> r->Ok_0.vx() == psbt
@fn src/v2/mod.rs Signer::psbt
@props C16
@spec
r => ensures r == self.vx()
@fn src/v2/mod.rs Psbt::check_input_index
@spec
r => ensures r is Ok <==> index < self.inputs@.len() && index < self.global.input_count
@fn src/v2/mod.rs Psbt::checked_input
@spec
r => ensures r is Ok <==> index < self.inputs@.len() && index < self.global.input_count, r is Ok ==> *r->Ok_0 == self.inputs@[index as int]
@fn src/v2/mod.rs Psbt::checked_input_mut
@spec
r => ensures r is Ok <==> index < old(self).inputs@.len() && index < old(self).global.input_count,
  r is Err ==> *final(self) == *old(self),
  r is Ok ==> *r->Ok_0 == old(self).inputs@[index as int] && final(self).inputs@ == old(self).inputs@.update(index as int, *final(r->Ok_0)) && final(self).global == old(self).global && final(self).outputs == old(self).outputs
@fn src/v2/mod.rs Updater::set_sequence
@spec
r => ensures r is Ok <==> input_index < self.vx().inputs@.len() && input_index < self.vx().global.input_count,
  r is Ok ==> ({ let q = r->Ok_0.vx(); let p = self.vx(); q.global == p.global && q.outputs == p.outputs && q.inputs@ == p.inputs@.update(input_index as int, Input { sequence: Some(n), ..p.inputs@[input_index as int] }) })
