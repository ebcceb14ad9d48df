//! One enum over the fifteen kinds of value, with every binary operation of
//! the crate dispatched over all 15 x 15 combinations of static types.
use rangetools::{
    BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange, LowerBoundedSet,
    Rangetools, UnboundedRange, UnboundedSet, UpperBound, UpperBoundedRange, UpperBoundedSet,
};
use std::hash::{Hash, Hasher};
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

#[derive(Clone, Debug)]
pub enum V<T> {
    R(Range<T>),
    RI(RangeInclusive<T>),
    RF(RangeFrom<T>),
    RT(RangeTo<T>),
    RTI(RangeToInclusive<T>),
    RFull(RangeFull),
    BR(BoundedRange<T>),
    LR(LowerBoundedRange<T>),
    UR(UpperBoundedRange<T>),
    UB(UnboundedRange),
    EM(EmptyRange<T>),
    BS(BoundedSet<T>),
    LS(LowerBoundedSet<T>),
    US(UpperBoundedSet<T>),
    XS(UnboundedSet<T>),
}

pub const KIND_NAMES: [&str; 15] = [
    "Range",
    "RangeInclusive",
    "RangeFrom",
    "RangeTo",
    "RangeToInclusive",
    "RangeFull",
    "BoundedRange",
    "LowerBoundedRange",
    "UpperBoundedRange",
    "UnboundedRange",
    "EmptyRange",
    "BoundedSet",
    "LowerBoundedSet",
    "UpperBoundedSet",
    "UnboundedSet",
];

pub trait IntoV<T> {
    fn v(self) -> V<T>;
}
macro_rules! into_v {
    ($($var:ident : $ty:ty),* $(,)?) => { $(
        impl<T> IntoV<T> for $ty { fn v(self) -> V<T> { V::$var(self) } }
    )* };
}
into_v! {
    R: Range<T>, RI: RangeInclusive<T>, RF: RangeFrom<T>, RT: RangeTo<T>, RTI: RangeToInclusive<T>,
    RFull: RangeFull, BR: BoundedRange<T>, LR: LowerBoundedRange<T>, UR: UpperBoundedRange<T>,
    UB: UnboundedRange, EM: EmptyRange<T>, BS: BoundedSet<T>, LS: LowerBoundedSet<T>,
    US: UpperBoundedSet<T>, XS: UnboundedSet<T>,
}

/// `each!(v, x => expr)`: run `expr` with `x` bound to the concrete value.
#[macro_export]
macro_rules! each {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            $crate::val::V::R($x) => $e,
            $crate::val::V::RI($x) => $e,
            $crate::val::V::RF($x) => $e,
            $crate::val::V::RT($x) => $e,
            $crate::val::V::RTI($x) => $e,
            $crate::val::V::RFull($x) => $e,
            $crate::val::V::BR($x) => $e,
            $crate::val::V::LR($x) => $e,
            $crate::val::V::UR($x) => $e,
            $crate::val::V::UB($x) => $e,
            $crate::val::V::EM($x) => $e,
            $crate::val::V::BS($x) => $e,
            $crate::val::V::LS($x) => $e,
            $crate::val::V::US($x) => $e,
            $crate::val::V::XS($x) => $e,
        }
    };
}

// Nothing but Copy + Ord: the compiler itself sees to it that every operation is
// available for every such element and every pair of kinds (C15).
impl<T: Copy + Ord> V<T> {
    pub fn kind(&self) -> usize {
        match self {
            V::R(_) => 0,
            V::RI(_) => 1,
            V::RF(_) => 2,
            V::RT(_) => 3,
            V::RTI(_) => 4,
            V::RFull(_) => 5,
            V::BR(_) => 6,
            V::LR(_) => 7,
            V::UR(_) => 8,
            V::UB(_) => 9,
            V::EM(_) => 10,
            V::BS(_) => 11,
            V::LS(_) => 12,
            V::US(_) => 13,
            V::XS(_) => 14,
        }
    }

    pub fn contains(&self, t: T) -> bool {
        match self {
            V::R(x) => x.contains(&t),
            V::RI(x) => x.contains(&t),
            V::RF(x) => x.contains(&t),
            V::RT(x) => x.contains(&t),
            V::RTI(x) => x.contains(&t),
            V::RFull(_) => true,
            V::BR(x) => x.contains(t),
            V::LR(x) => x.contains(t),
            V::UR(x) => x.contains(t),
            V::UB(x) => x.contains(t),
            V::EM(x) => x.contains(t),
            V::BS(x) => x.contains(t),
            V::LS(x) => x.contains(t),
            V::US(x) => x.contains(t),
            V::XS(x) => {
                let c = x.contains(t);
                // the Piecewise payload is public and answers for itself
                if let UnboundedSet::Piecewise(p) = x {
                    assert_eq!(p.contains(t), c, "PiecewiseUnboundedSet::contains disagrees");
                }
                c
            }
        }
    }

    pub fn is_empty(&self) -> bool {
        each!(self, x => Rangetools::is_empty(x))
    }
    pub fn union(self, o: Self) -> Self {
        each!(self, a => each!(o, b => IntoV::v(Rangetools::union(a, b))))
    }
    pub fn intersection(self, o: Self) -> Self {
        each!(self, a => each!(o, b => IntoV::v(Rangetools::intersection(a, b))))
    }
    pub fn disjoint(self, o: Self) -> bool {
        each!(self, a => each!(o, b => Rangetools::disjoint(a, b)))
    }
    pub fn intersects(self, o: Self) -> bool {
        each!(self, a => each!(o, b => Rangetools::intersects(a, b)))
    }
    pub fn to_inner(self) -> Self {
        each!(self, a => IntoV::v(Rangetools::to_inner(a)))
    }
    pub fn to_set(self) -> Self {
        each!(self, a => IntoV::v(Rangetools::to_set(a)))
    }
    pub fn complement(self) -> Self {
        match self {
            V::R(x) => V::XS(Rangetools::complement(x)),
            V::RI(x) => V::XS(Rangetools::complement(x)),
            V::RF(x) => V::UR(Rangetools::complement(x)),
            V::RT(x) => V::LR(Rangetools::complement(x)),
            V::RTI(x) => V::LR(Rangetools::complement(x)),
            V::RFull(x) => V::EM(Rangetools::complement(x)),
            V::BR(x) => V::XS(Rangetools::complement(x)),
            V::LR(x) => V::UR(Rangetools::complement(x)),
            V::UR(x) => V::LR(Rangetools::complement(x)),
            V::UB(x) => V::EM(Rangetools::complement(x)),
            V::EM(x) => V::UB(Rangetools::complement(x)),
            V::BS(x) => V::XS(Rangetools::complement(x)),
            V::LS(x) => V::US(Rangetools::complement(x)),
            V::US(x) => V::LS(Rangetools::complement(x)),
            V::XS(x) => V::BS(Rangetools::complement(x)),
        }
    }

    /// `==` of the concrete type; None when the kinds differ.
    pub fn same(&self, o: &Self) -> Option<bool> {
        Some(match (self, o) {
            (V::R(a), V::R(b)) => a == b,
            (V::RI(a), V::RI(b)) => a == b,
            (V::RF(a), V::RF(b)) => a == b,
            (V::RT(a), V::RT(b)) => a == b,
            (V::RTI(a), V::RTI(b)) => a == b,
            (V::RFull(a), V::RFull(b)) => a == b,
            (V::BR(a), V::BR(b)) => a == b,
            (V::LR(a), V::LR(b)) => a == b,
            (V::UR(a), V::UR(b)) => a == b,
            (V::UB(a), V::UB(b)) => a == b,
            (V::EM(a), V::EM(b)) => a == b,
            (V::BS(a), V::BS(b)) => a == b,
            (V::LS(a), V::LS(b)) => a == b,
            (V::US(a), V::US(b)) => a == b,
            (V::XS(a), V::XS(b)) => a == b,
            _ => return None,
        })
    }
}
impl<T: Copy + Ord + Hash> V<T> {
    /// Overwrite in place, reusing the old value where it has the same type.
    pub fn assign(&mut self, o: &Self) {
        match (&mut *self, o) {
            (V::BR(a), V::BR(b)) => a.clone_from(b),
            (V::BS(a), V::BS(b)) => a.clone_from(b),
            (V::LS(a), V::LS(b)) => a.clone_from(b),
            (V::US(a), V::US(b)) => a.clone_from(b),
            (V::XS(a), V::XS(b)) => a.clone_from(b),
            (a, b) => *a = b.clone(),
        }
    }
    pub fn hash_of(&self) -> u64 {
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        each!(self, x => x.hash(&mut h));
        h.finish()
    }
}

/// Points of an ordered type standing for the specification's points, with
/// sample elements for every gap that T inhabits.
#[derive(Clone, Debug)]
pub struct Emb<T> {
    pub name: String,
    pub pts: Vec<T>,
    pub gaps: Vec<Vec<T>>,
}

pub trait Elem: Copy + Ord + Hash + std::fmt::Debug + 'static {
    const NAME: &'static str;
    /// A `RangeInclusive` iterated to exhaustion at `e`, where std can do that.
    fn exhausted(_e: Self) -> Option<RangeInclusive<Self>> {
        None
    }
    /// The first values in iteration order, where T has Step and the value is bounded below.
    fn listing(_v: &V<Self>, _cap: usize) -> Option<Vec<Self>> {
        None
    }
    /// Iterate a value whose members, in order, are `want` (its first members
    /// if it has no upper bound) and judge one property of the iteration.
    fn iterate(_v: &V<Self>, _prop: &str, _want: &[Self]) -> Option<Result<(), String>> {
        None
    }
    /// Iterate from both ends: forward list, backward list, alternating list,
    /// size and last.  Unbounded iterators are cut off after `k` values; the
    /// others may go one past it.
    #[allow(clippy::type_complexity)]
    fn ends(_v: &V<Self>, _k: usize, _bounded: bool) -> Option<(Vec<Self>, Vec<Self>, Vec<Self>, Option<usize>, Option<Self>)> {
        None
    }
    /// Iterate a bounded value to its end in every way there is.
    fn exhaust(_v: &V<Self>) {}
    /// Every element of T, in order, where there are few.
    fn universe() -> Vec<Self> {
        vec![]
    }
    /// Serialise and deserialise, where T supports it.
    fn reload(_v: &V<Self>, _format: usize) -> Option<Result<V<Self>, String>> {
        None
    }
}

impl<T: Elem> Emb<T> {
    pub fn lo(&self, p: i64) -> LowerBound<T> {
        if p % 2 == 1 {
            LowerBound::included(self.pts[((p - 1) / 2) as usize])
        } else {
            LowerBound::excluded(self.pts[(p / 2 - 1) as usize])
        }
    }
    pub fn hi(&self, p: i64) -> UpperBound<T> {
        if p % 2 == 1 {
            UpperBound::included(self.pts[((p - 1) / 2) as usize])
        } else {
            UpperBound::excluded(self.pts[(p / 2) as usize])
        }
    }
    pub fn piece(&self, lo: i64, hi: i64) -> BoundedRange<T> {
        BoundedRange::new(self.lo(lo), self.hi(hi))
    }
    /// Elements of T at a position.
    pub fn probes(&self, p: usize) -> &[T] {
        if p % 2 == 1 {
            std::slice::from_ref(&self.pts[p / 2])
        } else {
            &self.gaps[p / 2]
        }
    }
    /// Build the value with this encoding through the public API; `order`
    /// chooses the order in which the pieces of a set are united.
    pub fn build(&self, e: &[i64], order: u64) -> Option<V<T>> {
        let pt = |i: usize| self.pts[e[i] as usize];
        let pieces = |from: usize| {
            let mut ps: Vec<(i64, i64)> = e[from..].chunks(2).map(|c| (c[0], c[1])).collect();
            permute(&mut ps, order);
            ps
        };
        Some(match e[0] {
            0 => V::R(pt(1)..pt(2)),
            1 if e[3] == 0 => V::RI(pt(1)..=pt(2)),
            1 => V::RI(T::exhausted(pt(2))?),
            2 => V::RF(pt(1)..),
            3 => V::RT(..pt(1)),
            4 => V::RTI(..=pt(1)),
            5 => V::RFull(..),
            6 => V::BR(self.piece(e[1], e[2])),
            7 => V::LR(LowerBoundedRange::new(self.lo(e[1]))),
            8 => V::UR(UpperBoundedRange::new(self.hi(e[1]))),
            9 => V::UB(UnboundedRange::new()),
            10 => V::EM(EmptyRange::new()),
            11 => {
                let mut s = BoundedSet::empty();
                for (l, h) in pieces(1) {
                    s = Rangetools::union(s, self.piece(l, h));
                }
                V::BS(s)
            }
            12 => {
                let mut s = LowerBoundedSet::from(LowerBoundedRange::new(self.lo(e[1])));
                for (l, h) in pieces(2) {
                    s = Rangetools::union(s, self.piece(l, h));
                }
                V::LS(s)
            }
            13 => {
                let mut s = UpperBoundedSet::from(UpperBoundedRange::new(self.hi(e[1])));
                for (l, h) in pieces(2) {
                    s = Rangetools::union(s, self.piece(l, h));
                }
                V::US(s)
            }
            14 if e.len() == 1 => V::XS(UnboundedSet::Full),
            14 => {
                let mut s = UnboundedSet::new(
                    UpperBoundedRange::new(self.hi(e[1])),
                    LowerBoundedRange::new(self.lo(e[2])),
                );
                for (l, h) in pieces(3) {
                    s = Rangetools::union(s, self.piece(l, h));
                }
                V::XS(s)
            }
            _ => unreachable!(),
        })
    }
    /// Positions (as a bit mask) on which `contains` differs from `den`.
    pub fn mask_diff(&self, v: &V<T>, den: u64) -> u64 {
        let mut bad = 0;
        for p in 0..=2 * self.pts.len() {
            let want = den >> p & 1 == 1;
            for t in self.probes(p) {
                if v.contains(*t) != want {
                    bad |= 1 << p;
                }
            }
        }
        bad
    }
}

pub fn permute<A>(v: &mut [A], mut order: u64) {
    for i in (1..v.len()).rev() {
        let j = (order % (i as u64 + 1)) as usize;
        order /= i as u64 + 1;
        v.swap(i, j);
    }
}
