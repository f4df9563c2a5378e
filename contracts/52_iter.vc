@onlyprops C09 C10 C12 C16 C18 C20 C23
@mod iter_spec
@broadcast lem_in_rem lem_in_rem0 lem_no_keys
use vstd::prelude::*;
use crate::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::btree_map;
use std::alloc::Allocator;
verus!{
// ---- the entries of a map that an iterator over it has still to visit ----
pub open spec fn in_rem<K, V>(s: Seq<(&K, &V)>, k: K) -> bool { exists|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == k }
pub broadcast proof fn lem_in_rem<K, V>(s: Seq<(&K, &V)>, k: K) requires s.len() > 0 ensures in_rem(s, k) <==> #[trigger] in_rem(s.drop_first(), k) || *s[0].0 == k {
    if in_rem(s, k) && *s[0].0 != k { let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == k; assert(s.drop_first()[j - 1] == s[j]); }
    if in_rem(s.drop_first(), k) { let j = choose|j: int| 0 <= j < s.drop_first().len() && *(#[trigger] s.drop_first()[j]).0 == k; assert(s.drop_first()[j] == s[j + 1]); }
}
pub open spec fn of_map<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(*s[i].0) && m[*s[i].0] == *s[i].1 }
pub broadcast proof fn lem_in_rem0<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) requires s.len() > 0, s.no_duplicates(), #[trigger] of_map(s, m) ensures !#[trigger] in_rem(s.drop_first(), *s[0].0), s.drop_first().no_duplicates() {
    if in_rem(s.drop_first(), *s[0].0) { let j = choose|j: int| 0 <= j < s.drop_first().len() && *(#[trigger] s.drop_first()[j]).0 == *s[0].0; assert(s.drop_first()[j] == s[j + 1]); assert(s[j + 1] == s[0]); }
}
pub broadcast proof fn lem_no_keys<K, V>(m: Map<K, V>) ensures (#[trigger] m.is_empty()) == (forall|k: K| !m.contains_key(k)) {
    if forall|k: K| !m.contains_key(k) { assert(m.dom() =~= Set::<K>::empty()); } else { let j = choose|j: K| m.contains_key(j); assert(m.dom().contains(j)); }
}
/// iteration over a borrowed map visits every entry once
pub assume_specification<'a, K, V, A: Allocator + Clone> [<&'a BTreeMap<K, V, A> as IntoIterator>::into_iter] (m: &'a BTreeMap<K, V, A>) -> (r: btree_map::Iter<'a, K, V>)
    ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().no_duplicates(), of_map(r.remaining(), m@),
      forall|k: K| #![trigger m@.contains_key(k)] m@.contains_key(k) ==> in_rem(r.remaining(), k);
}
