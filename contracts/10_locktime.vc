@fileprops C01 C02 C03 C04 C06 C16 C18
@mod locktime_spec
use vstd::prelude::*;
use crate::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use bitcoin::absolute::{Height, Time, LockTime};
use crate::v2::{Input, Psbt};
verus!{
// ---- lock time values ----
pub uninterp spec fn height_u32(h: Height) -> u32;   // Height::to_consensus_u32
pub uninterp spec fn time_u32(t: Time) -> u32;       // Time::to_consensus_u32
pub uninterp spec fn mk_height(n: u32) -> Height;
pub uninterp spec fn mk_time(n: u32) -> Time;
pub broadcast axiom fn ax_height(h: Height) ensures mk_height(#[trigger] height_u32(h)) == h, height_u32(h) < 500_000_000;
pub broadcast axiom fn ax_time(t: Time) ensures mk_time(#[trigger] time_u32(t)) == t, time_u32(t) >= 500_000_000;
pub uninterp spec fn lock_zero() -> LockTime;
pub axiom fn ax_lock_zero() ensures lock_zero() matches LockTime::Blocks(h) && height_u32(h) == 0;
pub broadcast group locktime_axioms { ax_height, ax_time }

pub assume_specification [LockTime::ZERO] -> (r: LockTime) ensures r == lock_zero();
pub assume_specification [<LockTime as From<Height>>::from](h: Height) -> (r: LockTime) ensures r == LockTime::Blocks(h);
pub assume_specification [<LockTime as From<Time>>::from](t: Time) -> (r: LockTime) ensures r == LockTime::Seconds(t);

// `Ord` of the values `max` is called on.
pub trait VxOrd: Sized { spec fn vord(&self) -> int; }
impl VxOrd for Height { open spec fn vord(&self) -> int { height_u32(*self) as int } }
impl VxOrd for Time { open spec fn vord(&self) -> int { time_u32(*self) as int } }
pub open spec fn ole<T: VxOrd>(a: Option<T>, b: Option<T>) -> bool { a is None || (b is Some && a->0.vord() <= b->0.vord()) }
pub trait VxMax<T: VxOrd>: Iterator<Item = Option<T>> + Sized {
    fn vx_max(self) -> (r: Option<Option<T>>)
        requires self.obeys_prophetic_iter_laws(),
        ensures r is None <==> self.remaining().len() == 0, self.will_return_none(), maxed(self.remaining()),
            r is Some ==> (exists|i: int| 0 <= i < self.remaining().len() && #[trigger] self.remaining()[i] == r->0)
                && forall|i: int| 0 <= i < self.remaining().len() ==> ole(#[trigger] self.remaining()[i], r->0);
}
impl<T: VxOrd + Ord, I: Iterator<Item = Option<T>> + Sized> VxMax<T> for I {
    #[verifier::external_body] fn vx_max(self) -> (r: Option<Option<T>>) { self.max() }
}

pub open spec fn maxed<T>(q: Seq<Option<T>>) -> bool { true }
pub open spec fn touched<T>(x: T) -> bool { true }
pub broadcast proof fn lem_touch_max<T>(q: Seq<Option<T>>, s: Seq<Input>, i: int) ensures #![trigger maxed(q), s[i]] touched(q[i]) { }

// ---- BIP-370 "Determining Lock Time", written from the BIP ----
pub open spec fn wants(i: Input) -> bool { i.min_time is Some || i.min_height is Some }
pub open spec fn only_time(i: Input) -> bool { i.min_time is Some && i.min_height is None }
pub open spec fn only_height(i: Input) -> bool { i.min_height is Some && i.min_time is None }
pub open spec fn some_input(s: Seq<Input>, f: spec_fn(Input) -> bool) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] f(s[i]) }
pub open spec fn lock_undetermined(s: Seq<Input>) -> bool {
    (exists|i: int| 0 <= i < s.len() && only_time(#[trigger] s[i])) && (exists|j: int| 0 <= j < s.len() && only_height(#[trigger] s[j]))
}
pub open spec fn max_height(s: Seq<Input>, h: Height) -> bool {
    (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).min_height == Some(h))
    && forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).min_height is Some ==> height_u32(s[i].min_height->0) <= height_u32(h)
}
pub open spec fn max_time(s: Seq<Input>, t: Time) -> bool {
    (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).min_time == Some(t))
    && forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).min_time is Some ==> time_u32(s[i].min_time->0) <= time_u32(t)
}
pub open spec fn lock_is(p: Psbt, l: LockTime) -> bool {
    let s = p.inputs@;
    if forall|i: int| 0 <= i < s.len() ==> !wants(#[trigger] s[i]) {
        l == match p.global.fallback_lock_time { Some(f) => f, None => lock_zero() }
    } else if forall|i: int| 0 <= i < s.len() && wants(#[trigger] s[i]) ==> s[i].min_height is Some {
        l matches LockTime::Blocks(h) && max_height(s, h)
    } else {
        l matches LockTime::Seconds(t) && max_time(s, t)
    }
}
// The prescribed lock time exists exactly when determination may not fail, and is unique.
pub proof fn lem_lock_unique(p: Psbt, a: LockTime, b: LockTime)
    requires lock_is(p, a), lock_is(p, b) ensures a == b
{
    broadcast use locktime_axioms;
}
}
@type src/v2/error.rs DetermineLockTimeError
@fn src/v2/map/input.rs Input::has_lock_time
@spec
r => ensures r == wants(*self)
@fn src/v2/map/input.rs Input::is_satisfied_with_height_based_lock_time
@spec
r => ensures r == !only_time(*self)
@fn src/v2/map/input.rs Input::requires_time_based_lock_time
@spec
r => ensures r == only_time(*self)
@fn src/v2/map/input.rs Input::requires_height_based_lock_time
@spec
r => ensures r == only_height(*self)
@fn src/v2/mod.rs Psbt::determine_lock_time
@replace .max() ==> .vx_max()
@spec
r => ensures r is Err <==> lock_undetermined(self.inputs@), r is Ok ==> lock_is(*self, r->Ok_0)
@closure 1
b: bool => ensures b == only_time(*input)
@closure 2
b: bool => ensures b == only_height(*input)
@closure 3
b: bool => ensures b == wants(*input)
@closure 4
b: bool => ensures b == !only_time(*input)
@closure 5
b: (Option<absolute::Height>) => ensures b == input.min_height
@closure 6
b: (Option<absolute::Time>) => ensures b == input.min_time
@entry
broadcast use core_lemmas; broadcast use lem_touch_max;
