//! C15: which types the compiler lets a client iterate, from either end and
//! with a known size, against the specification's table of bounded kinds.
use crate::elem::Dense;
use crate::report::*;
use rangetools::*;
use serde_json::json;

/// A user's element type: Copy + Ord + Step and nothing else.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Day(u16);
impl Step for Day {
    fn steps_between(a: &Self, b: &Self) -> Option<usize> { b.0.checked_sub(a.0).map(usize::from) }
    fn forward_checked(a: Self, n: usize) -> Option<Self> { Some(Day(a.0.checked_add(u16::try_from(n).ok()?)?)) }
    fn backward_checked(a: Self, n: usize) -> Option<Self> { Some(Day(a.0.checked_sub(u16::try_from(n).ok()?)?)) }
}

macro_rules! has {
    ($t:ty : $($b:tt)+) => {{
        struct Probe<X>(std::marker::PhantomData<X>);
        #[allow(dead_code)]
        trait Otherwise { const HAS: bool = false; }
        impl<X> Otherwise for Probe<X> {}
        #[allow(dead_code)]
        impl<X: $($b)+> Probe<X> { const HAS: bool = true; }
        <Probe<$t>>::HAS
    }};
}
macro_rules! facts {
    ($t:ty) => {
        [
            has!($t: IntoIterator),
            has!($t: IntoIterator<IntoIter: DoubleEndedIterator>),
            has!($t: IntoIterator<IntoIter: ExactSizeIterator>),
        ]
    };
}
/// Without asking the element for more than Copy + Ord + Step, the iterators
/// are what std's adaptors expect; exhausted ones stay so.
#[allow(dead_code)]
fn as_std_expects<T: Copy + Ord + Step>(r: BoundedRange<T>, s: BoundedSet<T>, l: LowerBoundedRange<T>, t: LowerBoundedSet<T>) {
    use std::iter::FusedIterator;
    fn both<T>(_: impl DoubleEndedIterator<Item = T> + ExactSizeIterator + FusedIterator + Clone) {}
    fn one<T>(_: impl Iterator<Item = T> + FusedIterator + Clone) {}
    both::<T>(r.into_iter());
    both::<T>(s.into_iter());
    one::<T>(l.into_iter());
    one::<T>(t.into_iter());
}
macro_rules! table {
    ($t:ty) => {
        [
            (6, facts!(BoundedRange<$t>)),
            (7, facts!(LowerBoundedRange<$t>)),
            (8, facts!(UpperBoundedRange<$t>)),
            (9, facts!(UnboundedRange)),
            (10, facts!(EmptyRange<$t>)),
            (11, facts!(BoundedSet<$t>)),
            (12, facts!(LowerBoundedSet<$t>)),
            (13, facts!(UpperBoundedSet<$t>)),
            (14, facts!(UnboundedSet<$t>)),
        ]
    };
}

pub fn main(rows: &str) {
    let text = std::fs::read_to_string(rows).expect("rows");
    let mut seen = 0;
    for line in text.lines() {
        let Some(body) = line.strip_prefix("<<\"K\", ").and_then(|l| l.strip_suffix(">>")) else { continue };
        let f: Vec<i64> = body.split(", ").map(|x| x.parse().unwrap()).collect();
        let (kind, below, above) = (f[0], f[1] == 1, f[2] == 1);
        let want = [below, below && above, below && above];
        for (name, table) in [
            ("i32", table!(i32).to_vec()), ("u8", table!(u8).to_vec()), ("u128", table!(u128).to_vec()),
            ("char", table!(char).to_vec()), ("Day", table!(Day).to_vec()),
        ] {
            let Some((_, got)) = table.iter().find(|x| x.0 == kind) else { continue };
            seen += 1;
            case();
            eval(3);
            if *got != want {
                violation(json!({"what": "iterable / double-ended / exact-size differ from the specification",
                    "type": crate::val::KIND_NAMES[kind as usize], "element": name, "got": got, "want": want}));
            }
        }
        // an element that cannot be stepped never makes its ranges iterable
        if let Some((_, got)) = table!(Dense).iter().find(|x| x.0 == kind) {
            case();
            eval(1);
            if got[0] && kind != 10 {
                violation(json!({"what": "iterable without Step", "type": crate::val::KIND_NAMES[kind as usize]}));
            }
        }
    }
    assert!(seen >= 45, "kind table missing");
}
