//! code -> spec: recordings of Step arithmetic and of iterators over wide
//! ranges, as ranks in 24-bit limbs, for StepTrace.tla and BigIterTrace.tla.
use crate::report::*;
use crate::steps::*;
use crate::val::*;
use rangetools::{BoundedRange, BoundedSet, LowerBound, LowerBoundedRange, LowerBoundedSet, Rangetools, UpperBound};
use serde_json::{json, Value};
use std::io::Write;

pub fn limbs(mut r: u128) -> Value {
    let mut v = vec![];
    for _ in 0..6 {
        v.push((r & 0xFF_FFFF) as u32);
        r >>= 24;
    }
    json!(v)
}

/// A rank somewhere interesting.
pub fn rank<T: StepElem>(rng: &mut Rng) -> u128 {
    let max = T::max_rank();
    let near = |rng: &mut Rng, p: u128| {
        let d = rng.below(4) as u128;
        if rng.chance(1, 2) { p.saturating_sub(d) } else { p.saturating_add(d).min(max) }
    };
    match rng.below(10) {
        0 => near(rng, 0),
        1 => near(rng, max),
        2 => near(rng, max / 2),
        3 | 4 => {
            let k = rng.below(T::RANK_BITS as usize);
            near(rng, (1u128 << k).min(max))
        }
        5 if T::NAME == "char" => near(rng, 0xD800),
        6 if T::RANK_BITS > 64 => near(rng, u64::MAX as u128),
        _ => {
            let r = (rng.next() as u128) << 64 | rng.next() as u128;
            let r = r >> rng.below(T::RANK_BITS as usize);
            if max == u128::MAX { r } else { r % (max + 1) }
        }
    }
}
fn count(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => rng.below(4),
        1 => usize::MAX - rng.below(3),
        2 | 3 => (1usize << rng.below(64)).wrapping_sub(rng.below(2)),
        4 => [0xD7FF, 0xD800, 0x7FF, 0x800, 0x801, 0x10FFFF, 0x10F7FF, 0x10F800][rng.below(8)] + rng.below(3),
        _ => (rng.next() >> rng.below(64)) as usize,
    }
}

fn value_of<T: StepElem>(t: T) -> Result<Value, ()> {
    // a char outside the scalar values is not a value at all
    let r = t.rank();
    if r <= T::max_rank() && T::of_rank(r) == t { Ok(limbs(r)) } else { Err(()) }
}
fn opt<T: StepElem>(t: Option<T>) -> Result<Value, ()> {
    t.map_or(Ok(json!([])), value_of)
}

fn step_chunk<T: StepElem>(seed: u64, k: u64, len: usize) -> Value {
    let mut rng = Rng::new(seed, 0x57E9 + k);
    let mut ev = vec![];
    for _ in 0..len {
        let a = rank::<T>(&mut rng);
        let op = ["fwd", "bwd", "steps", "fwd", "bwd", "steps", "forward", "backward"][rng.below(8)];
        case();
        eval(1);
        let (n, r): (u128, Result<Result<Value, ()>, String>) = if op == "steps" {
            let b = if rng.chance(1, 6) { a } else { rank::<T>(&mut rng) };
            (b, guarded(|| Ok(T::steps_between(&T::of_rank(a), &T::of_rank(b)).map_or(json!([]), |s| limbs(s as u128)))))
        } else {
            let n = match rng.below(6) {
                // land on another interesting value
                4 | 5 => {
                    let b = rank::<T>(&mut rng);
                    usize::try_from(a.abs_diff(b)).unwrap_or(usize::MAX)
                }
                // land near an end of the type
                0 => usize::try_from(if op.starts_with('f') { T::max_rank() - a } else { a }).unwrap_or(usize::MAX),
                1 => usize::try_from(if op.starts_with('f') { T::max_rank() - a } else { a }).unwrap_or(usize::MAX)
                    .wrapping_add(1),
                _ => count(&mut rng),
            };
            let x = T::of_rank(a);
            (n as u128, guarded(|| match op {
                "fwd" => opt(T::forward_checked(x, n)),
                "bwd" => opt(T::backward_checked(x, n)),
                "forward" => value_of(T::forward(x, n)),
                _ => value_of(T::backward(x, n)),
            }))
        };
        let (ok, res) = match r {
            Ok(Ok(v)) => (1, v),
            Ok(Err(())) => (2, json!([])),
            Err(_) => (0, json!([])),
        };
        ev.push(json!({"op": op, "a": limbs(a), "n": limbs(n), "ok": ok, "res": res}));
    }
    json!({"ty": T::NAME, "max": limbs(T::max_rank()), "smax": 0, "ev": ev})
}

/// Every start and every argument of a small type.
fn step_rows<T: StepElem>() -> Value {
    let max = T::max_rank();
    let mut ev = vec![];
    for a in 0..=max {
        for op in ["fwd_row", "bwd_row", "steps_row"] {
            case();
            let last = if op == "steps_row" { max } else { max + 3 };
            let r = guarded(|| {
                (0..=last)
                    .map(|n| {
                        eval(1);
                        let x = T::of_rank(a);
                        match op {
                            "fwd_row" => T::forward_checked(x, n as usize).map_or(-1, |t| t.rank() as i64),
                            "bwd_row" => T::backward_checked(x, n as usize).map_or(-1, |t| t.rank() as i64),
                            _ => T::steps_between(&x, &T::of_rank(n)).map_or(-1, |s| s as i64),
                        }
                    })
                    .collect::<Vec<i64>>()
            });
            ev.push(json!({"op": op, "a": a as i64, "ok": r.is_ok() as u8, "res": r.unwrap_or_default()}));
        }
    }
    json!({"ty": T::NAME, "max": limbs(max), "smax": max as i64, "ev": ev})
}

/// Ranks where an implementation may change its mind: the ends, the sign
/// change, the surrogate gap, the widths of smaller types.
fn edges<T: StepElem>(thorough: bool) -> Vec<u128> {
    let max = T::max_rank();
    let mut at = vec![0, max, max / 2, max / 2 + 1];
    let powers: &[u32] = if thorough { &[7, 8, 15, 16, 31, 32, 63, 64, 127] } else { &[8, 16, 32, 64] };
    at.extend(powers.iter().filter(|k| **k < T::RANK_BITS).map(|k| 1u128 << k));
    if T::NAME == "char" {
        at = vec![0, 0x80, 0x800, 0xD800, 0xE000, 0x10000 - 0x800, max];
    }
    let d = if thorough || T::NAME == "char" { 3 } else { 1 };
    let mut out: Vec<u128> =
        at.iter().flat_map(|p| (0..=2 * d).map(move |i| p.saturating_add(i).saturating_sub(d))).filter(|r| *r <= max).collect();
    out.sort();
    out.dedup();
    out
}

/// From every edge to every edge, and one short of and one past it.
fn step_edges<T: StepElem>(thorough: bool) -> Vec<Value> {
    let at = edges::<T>(thorough);
    let record = |r: Result<Result<Value, ()>, String>| match r {
        Ok(Ok(v)) => (1, v),
        Ok(Err(())) => (2, json!([])),
        Err(_) => (0, json!([])),
    };
    at.iter()
        .map(|a| {
            let mut ev = vec![];
            let x = T::of_rank(*a);
            for b in &at {
                let mut push = |op: &str, n: u128, r| {
                    case();
                    eval(1);
                    let (ok, res) = record(r);
                    ev.push(json!({"op": op, "a": limbs(*a), "n": limbs(n), "ok": ok, "res": res}));
                };
                push("steps", *b, guarded(|| Ok(T::steps_between(&x, &T::of_rank(*b)).map_or(json!([]), |s| limbs(s as u128)))));
                let Ok(n) = usize::try_from(a.abs_diff(*b)) else { continue };
                if a <= b {
                    push("fwd", n as u128, guarded(|| opt(T::forward_checked(x, n))));
                    push("forward", n as u128, guarded(|| value_of(T::forward(x, n))));
                }
                if b <= a {
                    push("bwd", n as u128, guarded(|| opt(T::backward_checked(x, n))));
                    push("backward", n as u128, guarded(|| value_of(T::backward(x, n))));
                }
                let Some(past) = n.checked_add(1) else { continue };
                if *b == T::max_rank() {
                    push("fwd", past as u128, guarded(|| opt(T::forward_checked(x, past))));
                }
                if *b == 0 {
                    push("bwd", past as u128, guarded(|| opt(T::backward_checked(x, past))));
                }
            }
            json!({"ty": T::NAME, "max": limbs(T::max_rank()), "smax": 0, "ev": ev})
        })
        .collect()
}

/// Every value of the type moved by d, a page at a time.
fn pages<T: StepElem>(by: &[i64]) -> Vec<Value> {
    const PAGE: u128 = 4096;
    let max = T::max_rank();
    let rank_of = |c: Option<T>| match c.map(value_of) {
        None => -1,
        Some(Ok(_)) => c.unwrap().rank() as i64,
        Some(Err(())) => -2,
    };
    (0..=max / PAGE)
        .map(|p| {
            let mut ev = vec![];
            for &d in by {
                case();
                let (a, z) = (p * PAGE, (p * PAGE + PAGE - 1).min(max));
                let n = d.unsigned_abs() as usize;
                let r = guarded(|| {
                    (a..=z)
                        .map(|r| {
                            eval(1);
                            let c = T::of_rank(r);
                            rank_of(if d >= 0 { T::forward_checked(c, n) } else { T::backward_checked(c, n) })
                        })
                        .collect::<Vec<i64>>()
                });
                ev.push(json!({"op": "page", "a": a as i64, "z": z as i64, "d": d, "ok": r.is_ok() as u8, "res": r.unwrap_or_default()}));
            }
            json!({"ty": T::NAME, "max": limbs(max), "smax": max as i64, "ev": ev})
        })
        .collect()
}

fn write(path: &str, chunks: Vec<Value>) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for v in chunks {
        writeln!(f, "{v}").unwrap();
    }
}

pub fn steps(path: &str, chunks: usize, len: usize, seed: u64, thorough: bool) {
    let out = std::sync::Mutex::new(vec![]);
    macro_rules! each_type {
        ($($t:ty),*) => { { let mut idx = 0usize; $( {
                out.lock().unwrap().push(vec![Value::Null; chunks]);
                parallel(chunks, |k| {
                    working_on(k as u64);
                    let v = step_chunk::<$t>(seed, (idx * 100_000 + k) as u64, len);
                    done();
                    out.lock().unwrap()[idx][k] = v;
                });
                idx += 1;
            } )* let _ = idx; } };
    }
    each_type!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, char, Day, Down, Tick);
    let mut all: Vec<Value> = out.into_inner().unwrap().into_iter().flatten().collect();
    all.push(step_rows::<u8>());
    all.push(step_rows::<i8>());
    macro_rules! each_edge {
        ($($t:ty),*) => { $( all.extend(step_edges::<$t>(thorough)); )* };
    }
    each_edge!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, char, Day, Down, Tick);
    let far = [1, -1, 2, -2, 127, 128, -128, 255, -256, 32767, -32768, 65535, -65535];
    all.extend(pages::<u16>(&far));
    all.extend(pages::<i16>(&far));
    all.extend(pages::<char>(if thorough { &[1, -1, 2, -2, 0x7FF, -0x7FF, 0x800, -0x800, 0x801, -0x801] } else { &[1, -1] }));
    write(path, all);
}

// ------------------------------------------------------------------ iterators
#[derive(Clone, Copy, Debug)]
struct Piece {
    li: bool,
    lo: u128,
    hi_i: bool,
    hi: u128,
}
impl Piece {
    fn json(&self) -> Value {
        json!([self.li as u8, limbs(self.lo), self.hi_i as u8, limbs(self.hi)])
    }
    fn low<T: StepElem>(&self) -> LowerBound<T> {
        let t = T::of_rank(self.lo);
        if self.li { LowerBound::included(t) } else { LowerBound::excluded(t) }
    }
    fn range<T: StepElem>(&self) -> BoundedRange<T> {
        let t = T::of_rank(self.hi);
        BoundedRange::new(self.low(), if self.hi_i { UpperBound::included(t) } else { UpperBound::excluded(t) })
    }
}
fn admits(p: &Piece, r: u128) -> bool {
    (if p.li { r >= p.lo } else { r > p.lo }) && (if p.hi_i { r <= p.hi } else { r < p.hi })
}

/// Ascending pieces that keep apart on the ordered line.
fn pieces<T: StepElem>(rng: &mut Rng) -> Vec<Piece> {
    let n = 1 + if rng.chance(1, 3) { rng.below(3) } else { rng.below(14) };
    let mut cuts: Vec<u128> = (0..2 * n).map(|_| rank::<T>(rng)).collect();
    if rng.chance(1, 2) {
        // a cluster of neighbouring values
        let b = rank::<T>(rng);
        for c in cuts.iter_mut() {
            if rng.chance(2, 3) {
                *c = b.saturating_add(rng.below(12) as u128).min(T::max_rank());
            }
        }
    }
    cuts.sort();
    let mut out: Vec<Piece> = vec![];
    for c in cuts.chunks(2) {
        let (lo, hi) = (c[0], c[1]);
        let mut p = Piece { li: rng.chance(2, 3), lo, hi_i: rng.chance(1, 2), hi };
        if lo == hi {
            p.li = true;
            p.hi_i = true;
        }
        if let Some(q) = out.last() {
            if q.hi == p.lo && q.hi_i && p.li {
                if p.lo == p.hi {
                    continue;
                }
                p.li = false;
            }
            // an excluded start below an excluded end with nothing on the line between
            if q.hi == p.lo && q.lo == q.hi && p.lo == p.hi {
                continue;
            }
        }
        out.push(p);
    }
    out
}

/// A few pieces that each hold no more than usize::MAX values and together
/// about that many, or all values of the type.
fn brimful<T: StepElem>(rng: &mut Rng) -> Vec<Piece> {
    let max = T::max_rank();
    let wide = max > u64::MAX as u128;
    let cap = if wide { (1u128 << 64) + rng.below(6) as u128 - 3 } else { max + 1 - rng.below(3) as u128 };
    let n = 2 + rng.below(4);
    let mut cuts: Vec<u128> = (1..n)
        .map(|_| match rng.below(4) {
            0 => 1 + rng.below(3) as u128,
            1 => cap - 1 - rng.below(3) as u128,
            2 => cap / 2 + rng.below(3) as u128 - 1,
            _ => rank::<T>(rng) % cap,
        })
        .chain([0, cap])
        .collect();
    cuts.sort();
    cuts.dedup();
    let slack = if wide { 3 * n as u128 } else { max + 1 - cap };
    let mut lo = if wide { rank::<T>(rng).min(max - cap - slack) } else { 0 };
    let mut left = slack;
    let mut out: Vec<Piece> = vec![];
    for c in cuts.windows(2) {
        let gap = (rng.below(4) as u128).min(left);
        left -= gap;
        lo += gap;
        let hi = lo + (c[1] - c[0] - 1);
        let below = out.last().is_none_or(|q| q.hi_i) && lo > 0 && rng.chance(1, 3);
        let above = hi < max && rng.chance(1, 3);
        out.push(Piece { li: !below, lo: lo - below as u128, hi_i: !above, hi: hi + above as u128 });
        lo = hi.saturating_add(1);
    }
    out
}

#[derive(Clone)]
enum It<T> {
    R(rangetools::BoundedRangeIter<T>),
    S(rangetools::BoundedSetIter<T>),
    LR(rangetools::LowerBoundedRangeIter<T>),
    LS(rangetools::LowerBoundedSetIter<T>),
}
macro_rules! on {
    ($it:expr, $x:ident => $e:expr, lower => $f:expr) => {
        match $it { It::R($x) => $e, It::S($x) => $e, It::LR($x) => $f, It::LS($x) => $f }
    };
}

/// How many values the pieces hold.
fn span(ps: &[Piece]) -> u128 {
    ps.iter().fold(0u128, |n, p| {
        let (Some(a), Some(b)) = (p.lo.checked_add(!p.li as u128), p.hi.checked_sub(!p.hi_i as u128)) else { return n };
        n.saturating_add(b.checked_sub(a).map_or(0, |d| d.saturating_add(1)))
    })
}

fn iter_chunk<T: StepElem>(seed: u64, k: u64, len: usize, lower: bool) -> Option<Value> {
    let mut rng = Rng::new(seed, 0xB161 + k);
    let max = T::max_rank();
    let full = rng.chance(1, 4);
    let mut ps = if full { brimful::<T>(&mut rng) } else { pieces::<T>(&mut rng) };
    let single = !full && rng.chance(1, 3);
    if single {
        ps.truncate(1);
        if rng.chance(1, 6) && !lower {
            let p = &mut ps[0]; // inverted
            std::mem::swap(&mut p.lo, &mut p.hi);
        }
    }
    let mut budget: u128 = u128::MAX;
    if lower {
        let tail = ps.last_mut().unwrap();
        tail.hi = max;
        tail.hi_i = true;
        if rng.chance(1, 6) {
            // the tail starts past the largest value: nothing of it is ever due
            tail.lo = max;
            tail.li = false;
        }
        // values still to come: stepping past the largest value is up to Step
        budget = span(&ps);
    }
    // the last piece of a lower-bounded set must stay apart from the tail
    let order = rng.next();
    let built = guarded(|| {
        let mut list = ps.clone();
        if lower {
            let tail = list.pop().unwrap();
            let r = LowerBoundedRange::new(tail.low::<T>());
            if single {
                return (It::LR(r.into_iter()), true);
            }
            let mut s = LowerBoundedSet::from(r);
            permute(&mut list, order);
            for p in &list {
                s = Rangetools::union(s, p.range::<T>());
            }
            let fine = [0, max].iter().copied().chain(ps.iter().flat_map(|p| [p.lo, p.hi, p.lo.saturating_sub(1), p.hi.saturating_add(1).min(max)]))
                .all(|r| s.contains(T::of_rank(r)) == ps.iter().any(|p| admits(p, r)));
            (It::LS(s.into_iter()), fine)
        } else if single {
            (It::R(list[0].range::<T>().into_iter()), true)
        } else {
            let mut s = BoundedSet::empty();
            permute(&mut list, order);
            for p in &list {
                s = Rangetools::union(s, p.range::<T>());
            }
            let fine = ps.iter().flat_map(|p| [p.lo, p.hi, p.lo.saturating_sub(1), p.hi.saturating_add(1).min(max)])
                .all(|r| s.contains(T::of_rank(r)) == ps.iter().any(|p| admits(p, r)));
            (It::S(s.into_iter()), fine)
        }
    });
    let mut ev = vec![json!({"op": "make", "lower": lower as u8, "ok": built.is_ok() as u8,
        "pieces": ps.iter().map(Piece::json).collect::<Vec<_>>()})];
    if let Ok((mut it, true)) = built {
        for step in 0..len {
            working_on(k * 1000 + step as u64);
            let op = ["next", "next", "next_back", "next_back", "nth", "nth", "nth_back", "nth_back",
                "size", "size", "len", "count", "last", "min", "max"][rng.below(15)];
            let op = if full && step == 0 { "size" } else { op };
            let op = if lower && matches!(op, "next_back" | "nth_back" | "len" | "count" | "last" | "max") { "nth" } else { op };
            let p = ps[rng.below(ps.len())];
            let some = rng.below(ps.len() + 1);
            let mut n = match rng.below(7) {
                // up to, onto or past the end of a piece, from either end
                6 => usize::try_from(if rng.chance(1, 2) { span(&ps[..some]) } else { span(&ps[some..]) })
                    .unwrap_or(usize::MAX).saturating_sub(rng.below(3)),
                0 => rng.below(3),
                1 => rng.below(8),
                2 => usize::try_from(p.hi.saturating_sub(p.lo)).unwrap_or(usize::MAX).saturating_sub(rng.below(3)),
                3 => usize::try_from(p.hi.saturating_sub(p.lo) / (1 + rng.below(5) as u128)).unwrap_or(usize::MAX),
                4 => usize::try_from(p.hi.saturating_sub(p.lo)).unwrap_or(usize::MAX).saturating_add(1),
                _ => if rng.chance(1, 3) { count(&mut rng) } else { rng.below(20) },
            };
            if lower {
                if budget == 0 {
                    break;
                }
                if op == "next" || op == "nth" {
                    if op == "next" { n = 0; }
                    if rng.chance(1, 12) {
                        n = usize::try_from(budget - 1).unwrap_or(n); // the last one
                    }
                    while n as u128 >= budget { n /= 16; }
                    budget -= n as u128 + 1;
                }
            }
            case();
            eval(1);
            let fits = guarded(|| on!(&it, i => i.size_hint().1.is_some(), lower => i.size_hint().1.is_some()));
            if matches!(op, "len" | "count") && fits != Ok(true) {
                continue;
            }
            if op == "size" {
                let r = guarded(|| on!(&it, i => i.size_hint(), lower => i.size_hint()));
                ev.push(match r {
                    Ok((lo, hi)) => json!({"op": op, "ok": 1, "lo": limbs(lo as u128), "hi": hi.map_or(json!([]), |h| limbs(h as u128))}),
                    Err(p) => json!({"op": op, "ok": 0, "lo": limbs(0), "hi": json!([]), "panic": p}),
                });
                continue;
            }
            let r: Result<Result<Value, ()>, String> = guarded(|| match op {
                "next" => opt(on!(&mut it, i => i.next(), lower => i.next())),
                "nth" => opt(on!(&mut it, i => i.nth(n), lower => i.nth(n))),
                "next_back" => opt(on!(&mut it, i => i.next_back(), lower => unreachable!("{i:?}"))),
                "nth_back" => opt(on!(&mut it, i => i.nth_back(n), lower => unreachable!("{i:?}"))),
                "len" => Ok(on!(&it, i => limbs(i.len() as u128), lower => unreachable!("{i:?}"))),
                "count" => Ok(on!(it.clone(), i => limbs(i.count() as u128), lower => unreachable!("{i:?}"))),
                "last" => opt(on!(it.clone(), i => i.last(), lower => unreachable!("{i:?}"))),
                "max" => opt(on!(it.clone(), i => i.max(), lower => unreachable!("{i:?}"))),
                "min" => opt(on!(it.clone(), i => i.min(), lower => i.min())),
                _ => unreachable!(),
            });
            let (ok, res) = match r {
                Ok(Ok(v)) => (1, v),
                Ok(Err(())) => (2, json!([])),
                Err(_) => (0, json!([])),
            };
            ev.push(json!({"op": op, "n": limbs(n as u128), "ok": ok, "res": res}));
            if ok != 1 {
                break;
            }
        }
    } else if built.is_ok() {
        return None; // not built as asked: C02's affair
    }
    done();
    Some(json!({"ty": T::NAME, "max": limbs(max), "ev": ev}))
}

pub fn iters(path: &str, chunks: usize, len: usize, seed: u64, lower: bool) {
    let out = std::sync::Mutex::new(vec![]);
    macro_rules! each_type {
        ($($t:ty),*) => { { let mut idx = 0usize; $( {
            out.lock().unwrap().push(vec![None; chunks]);
            parallel(chunks, |k| {
                let v = iter_chunk::<$t>(seed, (idx * 100_000 + k) as u64, len, lower);
                out.lock().unwrap()[idx][k] = v;
            });
            idx += 1;
        } )* let _ = idx; } };
    }
    each_type!(u8, i8, u16, i32, u64, i64, usize, isize, u128, i128, char, Down, Tick);
    write(path, out.into_inner().unwrap().into_iter().flatten().flatten().collect());
}
