//! Element types with Step, and embeddings of consecutive points into them.
use crate::val::Elem;
use rangetools::Step;

/// `rank` is the number of values of the type below this one: an order
/// isomorphism written without the crate's arithmetic.
pub trait StepElem: Elem + Step + Send + Sync {
    const RANK_BITS: u32;
    fn rank(self) -> u128;
    fn of_rank(r: u128) -> Self;
    fn max_rank() -> u128;
}

macro_rules! ints {
    ($($u:ty, $i:ty);*) => { $(
        impl StepElem for $u {
            const RANK_BITS: u32 = <$u>::BITS;
            fn rank(self) -> u128 { self as u128 }
            fn of_rank(r: u128) -> Self { r as $u }
            fn max_rank() -> u128 { <$u>::MAX as u128 }
        }
        impl StepElem for $i {
            const RANK_BITS: u32 = <$u>::BITS;
            fn rank(self) -> u128 { ((self as $u) ^ (1 << (<$u>::BITS - 1))) as u128 }
            fn of_rank(r: u128) -> Self { ((r as $u) ^ (1 << (<$u>::BITS - 1))) as $i }
            fn max_rank() -> u128 { <$u>::MAX as u128 }
        }
    )* };
}
ints!(u8, i8; u16, i16; u32, i32; u64, i64; usize, isize; u128, i128);

impl StepElem for char {
    const RANK_BITS: u32 = 21;
    fn rank(self) -> u128 {
        let c = self as u32;
        (if c >= 0xE000 { c - 0x800 } else { c }) as u128
    }
    fn of_rank(r: u128) -> Self {
        let r = r as u32;
        char::from_u32(if r >= 0xD800 { r + 0x800 } else { r }).unwrap()
    }
    fn max_rank() -> u128 {
        0x10FFFF - 0x800
    }
}

/// A client's own type: few values, stepped by position in the declaration.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub enum Day { Mon, Tue, Wed, Thu, Fri, Sat, #[default] Sun }
const DAYS: [Day; 7] = [Day::Mon, Day::Tue, Day::Wed, Day::Thu, Day::Fri, Day::Sat, Day::Sun];
impl Elem for Day {
    const NAME: &'static str = "Day(enum)";
}
impl Step for Day {
    fn steps_between(a: &Self, b: &Self) -> Option<usize> {
        (*b as usize).checked_sub(*a as usize)
    }
    fn forward_checked(a: Self, n: usize) -> Option<Self> {
        DAYS.get((a as usize).checked_add(n)?).copied()
    }
    fn backward_checked(a: Self, n: usize) -> Option<Self> {
        DAYS.get((a as usize).checked_sub(n)?).copied()
    }
}
impl StepElem for Day {
    const RANK_BITS: u32 = 3;
    fn rank(self) -> u128 { self as u128 }
    fn of_rank(r: u128) -> Self { DAYS[r as usize] }
    fn max_rank() -> u128 { 6 }
}

/// A client's own type whose successor is two up and whose Ord runs against
/// its payload.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Down(pub i32);
impl PartialOrd for Down {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
}
impl Ord for Down {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering { o.0.cmp(&self.0) }
}
impl Elem for Down {
    const NAME: &'static str = "Down(step -2)";
}
impl Step for Down {
    fn steps_between(a: &Self, b: &Self) -> Option<usize> {
        usize::try_from((a.0 as i64 - b.0 as i64) / 2).ok().filter(|_| a <= b)
    }
    fn forward_checked(a: Self, n: usize) -> Option<Self> {
        let v = a.0 as i128 - 2 * n as i128;
        (v >= -1000).then_some(Down(v as i32))
    }
    fn backward_checked(a: Self, n: usize) -> Option<Self> {
        let v = a.0 as i128 + 2 * n as i128;
        (v <= 1000).then_some(Down(v as i32))
    }
}
impl StepElem for Down {
    const RANK_BITS: u32 = 10;
    fn rank(self) -> u128 { ((1000 - self.0) / 2) as u128 }
    fn of_rank(r: u128) -> Self { Down(1000 - 2 * r as i32) }
    fn max_rank() -> u128 { 1000 }
}

/// A client's own type with as many values as u64, and Step's provided
/// methods.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Tick(pub u64);
impl Elem for Tick {
    const NAME: &'static str = "Tick(u64)";
}
impl Step for Tick {
    fn steps_between(a: &Self, b: &Self) -> Option<usize> { b.0.checked_sub(a.0).map(|n| n as usize) }
    fn forward_checked(a: Self, n: usize) -> Option<Self> { a.0.checked_add(n as u64).map(Tick) }
    fn backward_checked(a: Self, n: usize) -> Option<Self> { a.0.checked_sub(n as u64).map(Tick) }
}
impl StepElem for Tick {
    const RANK_BITS: u32 = 64;
    fn rank(self) -> u128 { self.0 as u128 }
    fn of_rank(r: u128) -> Self { Tick(r as u64) }
    fn max_rank() -> u128 { u64::MAX as u128 }
}

/// First ranks under which `width` consecutive values are placed.
/// `top` is the largest rank the last of them may take.
pub fn bases<T: StepElem>(width: u128, top: u128, thorough: bool) -> Vec<u128> {
    let mut b = vec![0, top - (width - 1)];
    if T::max_rank() > 64 {
        let mid = T::max_rank() / 2; // sign change of signed types
        b.push(mid + 1 - width / 2);
        b.push(1);
        if T::NAME == "char" {
            b.push(0xD800 - width / 2);
        }
        if T::RANK_BITS > 64 {
            b.push((1u128 << 64) - width / 2);
        }
        if thorough {
            b.push(top - width);
            for k in [7u32, 8, 15, 16, 31, 32, 63, 64, 127] {
                if k < T::RANK_BITS {
                    b.push((1u128 << k) - width / 2);
                    b.push((1u128 << k) - 1);
                }
            }
            if T::NAME == "char" {
                for d in 0..=width {
                    b.push(0xD800 - d);
                }
            }
        }
    }
    b.sort();
    b.dedup();
    b.retain(|x| x.checked_add(width - 1).is_some_and(|e| e <= top));
    b
}
