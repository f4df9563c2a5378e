@mod std_spec
@broadcast ax_question
use vstd::prelude::*;
use crate::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
// `?` converts errors with `From::from`.
pub broadcast axiom fn ax_question<S, T: From<S>>(s: S, t: T)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from(s, t) ==> (<T as vstd::std_specs::convert::FromSpec<S>>::obeys_from_spec() ==> t == <T as vstd::std_specs::convert::FromSpec<S>>::from_spec(s));
pub assume_specification<T: Ord> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (match vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) { core::cmp::Ordering::Greater => a, _ => b });
// `v.iter_mut().for_each(f)`: f runs once on every element, in place.
pub trait VxForEachMut<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_for_each_mut<F: FnMut(&mut T)>(&mut self, f: F)
        requires forall|x: &mut T| f.requires((x,)),
        ensures final(self).vx_seq().len() == old(self).vx_seq().len(),
            forall|i: int| #![trigger final(self).vx_seq()[i]] 0 <= i < old(self).vx_seq().len() ==>
                exists|m: &mut T| #![trigger f.ensures((m,), ())] *m == old(self).vx_seq()[i] && *final(m) == final(self).vx_seq()[i] && f.ensures((m,), ());
}
impl<T> VxForEachMut<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_for_each_mut<F: FnMut(&mut T)>(&mut self, f: F) { self.iter_mut().for_each(f) }
}
}
