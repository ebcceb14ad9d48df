//! Element types and order embeddings of the specification's points.
use crate::report::Rng;
#[cfg(feature = "wire")]
use crate::report::guarded;
use crate::val::{Elem, Emb, V};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::ops::RangeInclusive;

macro_rules! std_elem {
    ($($t:ty),*) => { $(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            fn exhausted(e: Self) -> Option<RangeInclusive<Self>> {
                let mut r = e..=e;
                r.next();
                Some(r)
            }
            fn listing(v: &V<Self>, cap: usize) -> Option<Vec<Self>> {
                Some(match v {
                    V::BR(x) => x.into_iter().take(cap).collect(),
                    V::BS(x) => x.clone().into_iter().take(cap).collect(),
                    V::LR(x) => x.into_iter().take(cap).collect(),
                    V::LS(x) => x.clone().into_iter().take(cap).collect(),
                    V::EM(x) => x.into_iter().take(cap).collect(),
                    _ => return None,
                })
            }
            fn iterate(v: &V<Self>, prop: &str, want: &[Self]) -> Option<Result<(), String>> {
                Some(match v {
                    V::BR(x) => walk_bounded(x.into_iter(), prop, want),
                    V::BS(x) => walk_bounded(x.clone().into_iter(), prop, want),
                    V::LR(x) => walk_lower(x.into_iter(), prop, want),
                    V::LS(x) => walk_lower(x.clone().into_iter(), prop, want),
                    V::EM(x) => walk_bounded(x.into_iter(), prop, want),
                    _ => return None,
                })
            }
            fn ends(v: &V<Self>, k: usize, bounded: bool)
                -> Option<(Vec<Self>, Vec<Self>, Vec<Self>, Option<usize>, Option<Self>)> {
                Some(match v {
                    V::BR(x) => both_ends(x.into_iter(), k),
                    V::BS(x) => both_ends(x.clone().into_iter(), k),
                    V::LR(x) if !bounded => (x.into_iter().take(k).collect(), vec![], vec![], x.into_iter().size_hint().1, None),
                    V::LS(x) if !bounded => (x.clone().into_iter().take(k).collect(), vec![], vec![],
                        x.clone().into_iter().size_hint().1, None),
                    _ => return None,
                })
            }
            fn exhaust(v: &V<Self>) {
                match v {
                    V::BR(x) => use_up(x.into_iter()),
                    V::BS(x) => use_up(x.clone().into_iter()),
                    _ => {}
                }
            }
            fn universe() -> Vec<Self> {
                if std::mem::size_of::<$t>() == 1 { (<$t>::MIN..=<$t>::MAX).collect() } else { vec![] }
            }
            fn reload(v: &V<Self>, format: usize) -> Option<Result<V<Self>, String>> {
                if cfg!(not(feature = "wire")) {
                    return None;
                }
                // serde_json's Value holds no integers beyond 64 bits
                let wide = std::mem::size_of::<$t>() > 8;
                Some(wire_reload(v, if wide && format == 2 { 0 } else { format }))
            }
        }
    )* };
}
std_elem!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, char);
impl Elem for &'static str {
    const NAME: &'static str = "&str";
}

/// A densely ordered, unbounded type that is only Copy + Ord: no Step, no Default.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub struct Dense(pub i64);
impl Elem for Dense {
    const NAME: &'static str = "Dense";
    fn reload(v: &V<Self>, format: usize) -> Option<Result<V<Self>, String>> {
        cfg!(feature = "wire").then(|| wire_reload(v, format))
    }
}
/// Order reversed with respect to the payload.
impl Elem for std::cmp::Reverse<i16> {
    const NAME: &'static str = "Reverse<i16>";
}

/// Every way of coming to the end of an iterator.
fn use_up<T: Copy + Ord>(it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone) {
    it.clone().for_each(drop);
    it.clone().rev().for_each(drop);
    let mut i = it.clone();
    while i.next_back().is_some() {}
    let mut i = it.clone();
    while i.next().is_some() && i.next_back().is_some() {}
    for n in [it.len() / 2, it.len(), usize::MAX] {
        it.clone().nth(n);
        it.clone().nth_back(n);
    }
    it.clone().count();
    it.clone().last();
    it.clone().min();
    it.clone().max();
}

/// Embed into a sorted pool of elements: `idx` are the points, every other
/// pool member probes the gap it falls in.
pub fn from_pool<T: Elem>(name: &str, pool: &[T], idx: &[usize]) -> Emb<T> {
    let mut sorted: Vec<T> = pool.to_vec();
    sorted.sort();
    sorted.dedup();
    assert_eq!(sorted.len(), pool.len(), "pool of {name} not strictly sorted");
    let pts: Vec<T> = idx.iter().map(|i| sorted[*i]).collect();
    let mut gaps = vec![vec![]; pts.len() + 1];
    for (i, t) in sorted.iter().enumerate() {
        if !idx.contains(&i) {
            let g = idx.iter().filter(|j| **j < i).count();
            gaps[g].push(*t);
        }
    }
    // at most three probes per gap: both ends and one inside
    for g in gaps.iter_mut() {
        if g.len() > 3 {
            *g = vec![g[0], g[g.len() / 2], g[g.len() - 1]];
        }
    }
    Emb { name: format!("{}:{}", T::NAME, name), pts, gaps }
}

fn choose(n: usize, len: usize, rng: &mut Rng) -> Vec<usize> {
    let mut all: Vec<usize> = (0..len).collect();
    for i in (1..len).rev() {
        let j = rng.below(i + 1);
        all.swap(i, j);
    }
    let mut v = all[..n].to_vec();
    v.sort();
    v
}

pub fn u8_embs(n: usize, rng: &mut Rng, random: usize) -> Vec<Emb<u8>> {
    let pool: Vec<u8> = (0..=255).collect();
    let mut v = vec![
        from_pool("tight-at-min", &pool, &(0..n).collect::<Vec<_>>()),
        from_pool("tight-at-max", &pool, &(256 - n..256).collect::<Vec<_>>()),
        from_pool(
            "spread",
            &pool,
            &(0..n).map(|i| if n == 1 { 7 } else { i * 255 / (n - 1) }).collect::<Vec<_>>(),
        ),
    ];
    for k in 0..random {
        v.push(from_pool(&format!("random{k}"), &pool, &choose(n, 256, rng)));
    }
    v
}
pub fn char_embs(n: usize) -> Vec<Emb<char>> {
    let pool: Vec<char> = (0xD7C0..=0xD7FF)
        .chain(0xE000..0xE040)
        .filter_map(char::from_u32)
        .collect();
    let mid = 64 - n / 2;
    vec![
        from_pool("surrogate-gap", &pool, &(mid..mid + n).collect::<Vec<_>>()),
        from_pool(
            "whole-range",
            &(0..=0x10FFFF).step_by(0x10FFFF / (4 * n)).filter_map(char::from_u32).collect::<Vec<_>>(),
            &(0..n).map(|i| 3 * i).collect::<Vec<_>>(),
        ),
    ]
}
pub fn i64_embs(n: usize, rng: &mut Rng, random: usize) -> Vec<Emb<i64>> {
    let mut v = vec![];
    for k in 0..random {
        let mut pool: Vec<i64> = (0..4 * n).map(|_| rng.next() as i64 >> rng.below(50)).collect();
        pool.extend([i64::MIN, i64::MAX, 0, -1, 1]);
        pool.sort();
        pool.dedup();
        let idx = choose(n, pool.len(), rng);
        v.push(from_pool(&format!("random{k}"), &pool, &idx));
    }
    v
}
/// Neighbouring values, for listings; with and without room around them in T.
pub fn tight_embs(n: usize) -> (Vec<Emb<i64>>, Vec<Emb<u16>>) {
    let pool: Vec<i64> = (-3..n as i64 + 3).collect();
    let top: Vec<u16> = (u16::MAX - n as u16 - 2..=u16::MAX).collect();
    (vec![from_pool("tight", &pool, &(3..n + 3).collect::<Vec<_>>())],
     vec![from_pool("tight-at-max", &top, &(3..n + 3).collect::<Vec<_>>())])
}
pub fn i128_embs(n: usize) -> Vec<Emb<i128>> {
    let step = u128::MAX / (2 * n as u128 - 1);
    let mut pool: Vec<i128> = (0..2 * n as u128 - 1)
        .map(|i| i128::MIN.wrapping_add((i * step) as i128))
        .collect();
    pool.push(i128::MAX);
    let mut idx: Vec<usize> = (0..n).map(|i| 2 * i).collect();
    *idx.last_mut().unwrap() = pool.len() - 1;
    vec![from_pool("extremes", &pool, &idx)]
}
pub fn dense_embs(n: usize) -> Vec<Emb<Dense>> {
    let pool: Vec<Dense> = (0..=2 * n as i64).map(|p| Dense(p * 10 - 15)).collect();
    vec![from_pool("all-gaps", &pool, &(0..n).map(|i| 2 * i + 1).collect::<Vec<_>>())]
}
pub fn reverse_embs(n: usize) -> Vec<Emb<std::cmp::Reverse<i16>>> {
    let pool: Vec<std::cmp::Reverse<i16>> =
        (0..=2 * n as i16).rev().map(|p| std::cmp::Reverse(p - n as i16)).collect();
    vec![from_pool("all-gaps", &pool, &(0..n).map(|i| 2 * i + 1).collect::<Vec<_>>())]
}
pub fn str_embs(n: usize) -> Vec<Emb<&'static str>> {
    let mut pool: Vec<&'static str> = vec![""];
    for c in b'a'..=b'z' {
        pool.push(Box::leak((c as char).to_string().into_boxed_str()));
        pool.push(Box::leak(format!("{}m", c as char).into_boxed_str()));
    }
    pool.truncate((2 * n + 1).min(pool.len()));
    let n_idx: Vec<usize> = (0..n).map(|i| 2 * i).collect();
    vec![from_pool("prefix-tree", &pool, &n_idx)]
}

pub const FORMATS: [&str; 4] = ["json text", "bincode", "json value", "ron"];
/// Serialise and deserialise in one of the formats.
#[allow(dead_code)]
pub fn wire<A: Serialize + DeserializeOwned>(a: &A, format: usize) -> Result<A, String> {
    match format {
        0 => {
            let text = serde_json::to_string(a).map_err(|e| format!("serialize: {e}"))?;
            serde_json::from_str(&text).map_err(|e| format!("deserialize {text}: {e}"))
        }
        1 => {
            let bytes = bincode::serialize(a).map_err(|e| format!("serialize: {e}"))?;
            bincode::deserialize(&bytes).map_err(|e| format!("deserialize {bytes:?}: {e}"))
        }
        2 => {
            let value = serde_json::to_value(a).map_err(|e| format!("serialize: {e}"))?;
            serde_json::from_value(value.clone()).map_err(|e| format!("deserialize {value}: {e}"))
        }
        _ => {
            let text = ron::to_string(a).map_err(|e| format!("serialize: {e}"))?;
            ron::from_str(&text).map_err(|e| format!("deserialize {text}: {e}"))
        }
    }
}
/// The crate built without its serde feature: nothing to reload.
#[cfg(not(feature = "wire"))]
pub fn wire_reload<T: Elem>(_: &V<T>, _: usize) -> Result<V<T>, String> {
    unreachable!()
}
/// Through the wire and back, keeping the static type.
#[cfg(feature = "wire")]
pub fn wire_reload<T: Elem + Serialize + DeserializeOwned>(v: &V<T>, format: usize) -> Result<V<T>, String> {
    let f = format;
    guarded(|| {
        Ok(match v {
            V::BR(x) => V::BR(wire(x, f)?),
            V::LR(x) => V::LR(wire(x, f)?),
            V::UR(x) => V::UR(wire(x, f)?),
            V::UB(x) => V::UB(wire(x, f)?),
            V::EM(x) => V::EM(wire(x, f)?),
            V::BS(x) => V::BS(wire(x, f)?),
            V::LS(x) => V::LS(wire(x, f)?),
            V::US(x) => V::US(wire(x, f)?),
            V::XS(x) => {
                // the Piecewise payload is a public type of its own
                if let rangetools::UnboundedSet::Piecewise(p) = x {
                    if wire(p, f)? != *p {
                        return Err("PiecewiseUnboundedSet comes back different".into());
                    }
                }
                V::XS(wire(x, f)?)
            }
            other => other.clone(), // std ranges are not the crate's to serialise
        })
    })
    .and_then(|r| r)
}

fn agree<R: PartialEq + std::fmt::Debug>(what: &str, got: R, want: R) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, specification says {want:?}")) }
}

/// One property of a bounded iterator against the ascending list of its values.
fn walk_bounded<T, I>(it: I, prop: &str, want: &[T]) -> Result<(), String>
where
    T: Elem,
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone,
{
    let (k, cap) = (want.len(), want.len() + 2);
    let list = want.to_vec();
    match prop {
        "C06" => {
            agree("forward", it.clone().take(cap).collect::<Vec<_>>(), list)?;
            let mut i = it;
            for _ in 0..k {
                i.next();
            }
            agree("after the end", (i.next(), i.next()), (None, None))
        }
        "C07" => {
            let rev: Vec<T> = list.iter().rev().copied().collect();
            agree("backward", it.clone().rev().take(cap).collect::<Vec<_>>(), rev.clone())?;
            for phase in 0..2 {
                let mut i = it.clone();
                let (mut a, mut b) = (vec![], vec![]);
                for j in 0..2 * cap {
                    if (j + phase) % 2 == 0 { a.extend(i.next()) } else { b.extend(i.next_back()) }
                }
                b.reverse();
                a.extend(b);
                agree("alternating ends", a, list.clone())?;
            }
            for s in 0..k + 1 {
                let mut i = it.clone();
                agree("nth", (i.nth(s), i.next_back()), (list.get(s).copied(), if s + 1 < k { list.last().copied() } else { None }))?;
                let mut i = it.clone();
                agree("nth_back", (i.nth_back(s), i.next()), (rev.get(s).copied(), if s + 1 < k { list.first().copied() } else { None }))?;
            }
            Ok(())
        }
        "C08" => {
            for s in 0..=k {
                let mut i = it.clone();
                for _ in 0..s {
                    i.next();
                }
                agree("size_hint", i.size_hint(), (k - s, Some(k - s)))?;
                let mut i = it.clone();
                for _ in 0..s {
                    i.next_back();
                }
                agree("len", i.len(), k - s)?;
            }
            agree("count", it.clone().count(), k)?;
            agree("last", it.clone().last(), list.last().copied())?;
            agree("min", it.clone().min(), list.first().copied())?;
            agree("max", it.max(), list.last().copied())
        }
        _ => Ok(()),
    }
}

/// The first values of an iterator without end.
fn walk_lower<T, I>(it: I, prop: &str, want: &[T]) -> Result<(), String>
where
    T: Elem,
    I: Iterator<Item = T> + Clone,
{
    match prop {
        "C08" => agree("size_hint().1", it.size_hint().1, None),
        "C09" => {
            agree("first values", it.clone().take(want.len()).collect::<Vec<_>>(), want.to_vec())?;
            for s in 0..want.len() {
                let mut i = it.clone();
                agree("nth", i.nth(s), Some(want[s]))?;
                if s + 1 < want.len() {
                    agree("next after nth", i.next(), Some(want[s + 1]))?;
                }
            }
            if want.is_empty() { Ok(()) } else { agree("min", it.min(), Some(want[0])) }
        }
        _ => Ok(()),
    }
}

#[allow(clippy::type_complexity)]
fn both_ends<T: Elem, I>(it: I, k: usize) -> (Vec<T>, Vec<T>, Vec<T>, Option<usize>, Option<T>)
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone,
{
    let cap = k + 2;
    let mut i = it.clone();
    let (mut a, mut b) = (vec![], vec![]);
    for j in 0..2 * cap {
        match j % 3 {
            0 => a.extend(i.next()),
            1 => b.extend(i.next_back()),
            _ => {
                // skip one from the front and put it back by hand
                let before = i.clone().next();
                let second = i.nth(1);
                match second {
                    Some(t) => { a.extend(before); a.push(t) }
                    None => a.extend(before),
                }
            }
        }
    }
    b.reverse();
    a.extend(b);
    (it.clone().take(cap).collect(), it.clone().rev().take(cap).collect(), a, it.size_hint().1, it.last())
}
