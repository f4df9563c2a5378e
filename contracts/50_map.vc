@fileprops *
@mod map_spec
@broadcast ax_oe ax_ve ax_into_len eq_axioms lem_mm ::vstd::std_specs::iter::zip_postcondition
use vstd::prelude::*;
use crate::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::PartialEqSpec;
use std::collections::btree_map;
use std::alloc::Allocator;
verus!{
// ---- equality of foreign types is equality of their values ----
macro_rules! eqs { ($($n:ident $o:ident $t:ty),* $(,)?) => { verus!{ $( pub broadcast axiom fn $n(a: &$t, b: &$t) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (*a == *b);
  pub broadcast axiom fn $o() ensures #[trigger] <$t as PartialEqSpec<$t>>::obeys_eq_spec(); )* } } }
eqs!{ ax_eq_txid ax_oq_txid bitcoin::Txid, ax_eq_amount ax_oq_amount bitcoin::Amount, ax_eq_script ax_oq_script bitcoin::ScriptBuf, ax_eq_version ax_oq_version crate::version::Version, ax_eq_txversion ax_oq_txversion bitcoin::transaction::Version, ax_eq_tx ax_oq_tx bitcoin::Transaction, ax_eq_fp ax_oq_fp bitcoin::bip32::Fingerprint, ax_eq_dp ax_oq_dp bitcoin::bip32::DerivationPath }
pub broadcast group eq_axioms { ax_eq_txid, ax_oq_txid, ax_eq_amount, ax_oq_amount, ax_eq_script, ax_oq_script, ax_eq_version, ax_oq_version, ax_eq_txversion, ax_oq_txversion, ax_eq_tx, ax_oq_tx, ax_eq_fp, ax_oq_fp, ax_eq_dp, ax_oq_dp }
// ---- BTreeMap: entry API, owned and borrowed iteration, extend ----
#[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
#[verifier::external_type_specification]
pub struct ExEntry<'a, K: 'a, V: 'a, A: Allocator + Clone>(btree_map::Entry<'a, K, V, A>);
#[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExVEntry<'a, K, V, A: Allocator + Clone>(btree_map::VacantEntry<'a, K, V, A>);
#[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExOEntry<'a, K, V, A: Allocator + Clone>(btree_map::OccupiedEntry<'a, K, V, A>);
#[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExMapIntoIter<K, V, A: Allocator + Clone>(btree_map::IntoIter<K, V, A>);
pub uninterp spec fn ve_key<'a, K, V, A: Allocator + Clone>(e: btree_map::VacantEntry<'a, K, V, A>) -> K;
pub uninterp spec fn ve_init<'a, K, V, A: Allocator + Clone>(e: btree_map::VacantEntry<'a, K, V, A>) -> Map<K, V>;
#[verifier::prophetic]
pub uninterp spec fn ve_fin<'a, K, V, A: Allocator + Clone>(e: btree_map::VacantEntry<'a, K, V, A>) -> Map<K, V>;
pub uninterp spec fn oe_key<'a, K, V, A: Allocator + Clone>(e: btree_map::OccupiedEntry<'a, K, V, A>) -> K;
pub uninterp spec fn oe_init<'a, K, V, A: Allocator + Clone>(e: btree_map::OccupiedEntry<'a, K, V, A>) -> Map<K, V>;
#[verifier::prophetic]
pub uninterp spec fn oe_fin<'a, K, V, A: Allocator + Clone>(e: btree_map::OccupiedEntry<'a, K, V, A>) -> Map<K, V>;
pub broadcast axiom fn ax_oe<'a, K, V, A: Allocator + Clone>(e: btree_map::OccupiedEntry<'a, K, V, A>)
    ensures #[trigger] has_resolved(e) ==> oe_fin(e) == oe_init(e);
pub broadcast axiom fn ax_ve<'a, K, V, A: Allocator + Clone>(e: btree_map::VacantEntry<'a, K, V, A>)
    ensures #[trigger] has_resolved(e) ==> ve_fin(e) == ve_init(e);
pub assume_specification<K: Ord, V, A: Allocator + Clone> [BTreeMap::<K, V, A>::entry] (m: &mut BTreeMap<K, V, A>, k: K) -> (r: btree_map::Entry<'_, K, V, A>)
    ensures match r {
        btree_map::Entry::Vacant(e) => !old(m)@.contains_key(k) && ve_key(e) == k && ve_init(e) == old(m)@ && ve_fin(e) == final(m)@,
        btree_map::Entry::Occupied(e) => old(m)@.contains_key(k) && oe_key(e) == k && oe_init(e) == old(m)@ && oe_fin(e) == final(m)@ };
pub assume_specification<'a, K: Ord, V, A: Allocator + Clone> [btree_map::VacantEntry::<'a, K, V, A>::insert] (e: btree_map::VacantEntry<'a, K, V, A>, v: V) -> (r: &'a mut V)
    ensures *r == v, ve_fin(e) == ve_init(e).insert(ve_key(e), *final(r));
pub assume_specification<'a, K: Ord, V, A: Allocator + Clone> [btree_map::OccupiedEntry::<'a, K, V, A>::insert] (e: &mut btree_map::OccupiedEntry<'a, K, V, A>, v: V) -> (r: V)
    ensures oe_fin(*final(e)) == oe_fin(*old(e)), oe_key(*final(e)) == oe_key(*old(e)), oe_init(*final(e)) == oe_init(*old(e)).insert(oe_key(*old(e)), v), r == oe_init(*old(e))[oe_key(*old(e))];
pub assume_specification<'a, 'b, K: Ord, V, A: Allocator + Clone> [btree_map::OccupiedEntry::<'a, K, V, A>::get] (e: &'b btree_map::OccupiedEntry<'a, K, V, A>) -> (r: &'b V)
    ensures *r == oe_init(*e)[oe_key(*e)];
pub assume_specification<'a, 'b, K: Ord, V, A: Allocator + Clone> [btree_map::OccupiedEntry::<'a, K, V, A>::key] (e: &'b btree_map::OccupiedEntry<'a, K, V, A>) -> (r: &'b K)
    ensures *r == oe_key(*e);
pub uninterp spec fn bt_into_iter<K, V, A: Allocator + Clone>(m: BTreeMap<K, V, A>) -> btree_map::IntoIter<K, V, A>;
pub broadcast axiom fn ax_into_len<K, V, A: Allocator + Clone>(m: BTreeMap<K, V, A>)
    ensures ({ let r = #[trigger] bt_into_iter(m); r.obeys_prophetic_iter_laws() && r.decrease() is Some && r.remaining().len() <= m@.len()
        && (r.will_return_none() ==> forall|k: K| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r.remaining().len() && (#[trigger] r.remaining()[i]).0 == k)
        && (forall|i: int| #![trigger r.remaining()[i]] 0 <= i < r.remaining().len() ==> m@.contains_key(r.remaining()[i].0) && m@[r.remaining()[i].0] == r.remaining()[i].1)
        && (forall|i: int, j: int| #![trigger r.remaining()[i], r.remaining()[j]] 0 <= i < j < r.remaining().len() ==> r.remaining()[i].0 != r.remaining()[j].0) });
pub assume_specification<K, V, A: Allocator + Clone> [<BTreeMap<K, V, A> as IntoIterator>::into_iter] (m: BTreeMap<K, V, A>) -> (r: btree_map::IntoIter<K, V, A>)
    ensures r == bt_into_iter(m);
// `m.extend(other)` for two maps: `other`'s value wins.
pub trait VxExtend<K, V> { spec fn vx_map(&self) -> Map<K, V>;
    fn vx_extend(&mut self, other: BTreeMap<K, V>) ensures final(self).vx_map() == old(self).vx_map().union_prefer_right(other@); }
impl<K: Ord, V> VxExtend<K, V> for BTreeMap<K, V> {
    open spec fn vx_map(&self) -> Map<K, V> { self@ }
    #[verifier::external_body] fn vx_extend(&mut self, other: BTreeMap<K, V>) { self.extend(other) }
}
// ---- merging: nothing is lost, every value comes from the same field (and key) of one of the two ----
pub open spec fn om<T>(a: Option<T>, b: Option<T>, r: Option<T>) -> bool { (r is None <==> a is None && b is None) && (r == a || r == b) }
#[verifier::opaque]
pub open spec fn mm<K, V>(a: Map<K, V>, b: Map<K, V>, r: Map<K, V>) -> bool {
    (forall|k: K| #[trigger] r.contains_key(k) <==> a.contains_key(k) || b.contains_key(k))
    && forall|k: K| #[trigger] r.contains_key(k) ==> (a.contains_key(k) && r[k] == a[k]) || (b.contains_key(k) && r[k] == b[k])
}
pub broadcast proof fn lem_mm<K, V>(a: Map<K, V>, b: Map<K, V>) ensures #![trigger a.union_prefer_right(b)] mm(a, b, a.union_prefer_right(b)), mm(b, a, a.union_prefer_right(b)) { reveal(mm); }
/// how far a loop over `i0` has come when its iterator is `it`
#[verifier::prophetic]
pub open spec fn done_of<I: Iterator>(it: I, i0: I) -> int { i0.remaining().len() - it.remaining().len() }
#[verifier::prophetic]
pub open spec fn rest_of<I: Iterator>(it: I, i0: I) -> bool { it.remaining().len() <= i0.remaining().len() && it.remaining() =~= i0.remaining().skip(done_of(it, i0)) && it.will_return_none() == i0.will_return_none() }
// ---- extended public keys: BIP-174's rule for conflicting key sources ----
pub type KS = (bitcoin::bip32::Fingerprint, bitcoin::bip32::DerivationPath);
pub uninterp spec fn dp_seq(d: bitcoin::bip32::DerivationPath) -> Seq<bitcoin::bip32::ChildNumber>;
pub assume_specification [bitcoin::bip32::DerivationPath::len] (d: &bitcoin::bip32::DerivationPath) -> (r: usize) ensures r == dp_seq(*d).len(), r <= usize::MAX / 8;
// `a[..] == b[n..]` for derivation paths
pub trait VxPathEq { spec fn vx_path(&self) -> Seq<bitcoin::bip32::ChildNumber>;
    fn vx_eq_from(&self, other: &bitcoin::bip32::DerivationPath, n: usize) -> (r: bool) requires n <= dp_seq(*other).len() ensures r == (self.vx_path() == dp_seq(*other).subrange(n as int, dp_seq(*other).len() as int)); }
impl VxPathEq for bitcoin::bip32::DerivationPath {
    open spec fn vx_path(&self) -> Seq<bitcoin::bip32::ChildNumber> { dp_seq(*self) }
    #[verifier::external_body] fn vx_eq_from(&self, other: &bitcoin::bip32::DerivationPath, n: usize) -> (r: bool) { self[..] == other[n..] }
}
// `Clone` of a key source
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl VxClone for KS { #[verifier::external_body] fn vx_clone(&self) -> (r: KS) { self.clone() } }
/// `s` is a proper suffix of `l`
pub open spec fn shorter(s: KS, l: KS) -> bool { dp_seq(s.1).len() < dp_seq(l.1).len() && dp_seq(s.1) == dp_seq(l.1).subrange(dp_seq(l.1).len() - dp_seq(s.1).len(), dp_seq(l.1).len() as int) }
pub open spec fn ks_ok(a: KS, b: KS) -> bool { a == b || shorter(a, b) || shorter(b, a) }
pub open spec fn ks_merge(a: KS, b: KS, r: KS) -> bool { if shorter(a, b) { r == b } else { r == a } }
pub open spec fn xp_ok(a: Map<bitcoin::bip32::Xpub, KS>, b: Map<bitcoin::bip32::Xpub, KS>) -> bool { forall|k: bitcoin::bip32::Xpub| #![trigger a.contains_key(k)] #![trigger b.contains_key(k)] a.contains_key(k) && b.contains_key(k) ==> ks_ok(a[k], b[k]) }
pub open spec fn xp_one(a: Map<bitcoin::bip32::Xpub, KS>, b: Map<bitcoin::bip32::Xpub, KS>, r: Map<bitcoin::bip32::Xpub, KS>, k: bitcoin::bip32::Xpub) -> bool {
    (r.contains_key(k) <==> a.contains_key(k) || b.contains_key(k))
    && (a.contains_key(k) && !b.contains_key(k) ==> r[k] == a[k]) && (!a.contains_key(k) && b.contains_key(k) ==> r[k] == b[k])
    && (a.contains_key(k) && b.contains_key(k) ==> ks_ok(a[k], b[k]) && ks_merge(a[k], b[k], r[k]))
}
pub open spec fn xp_merge(a: Map<bitcoin::bip32::Xpub, KS>, b: Map<bitcoin::bip32::Xpub, KS>, r: Map<bitcoin::bip32::Xpub, KS>) -> bool { forall|k: bitcoin::bip32::Xpub| #![trigger r.contains_key(k)] xp_one(a, b, r, k) }
pub open spec fn min2(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
}
