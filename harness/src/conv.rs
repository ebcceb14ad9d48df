//! spec -> code for the conversions (Conv.tla): every conversion of the
//! specification's graph, and every chain of them, on the real ranges.
use crate::report::*;
use crate::steps::*;
use crate::val::*;
use rangetools::*;
use serde_json::json;
use std::collections::HashMap;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

struct Row {
    kind: usize,
    f: [i64; 4], // ai, a, bi, b
    target: usize,
    panics: bool,
    mem: u64,
}

struct Graph {
    m: i64,
    below: i64,
    above: i64,
    rows: Vec<Row>,
    /// (target, members) -> must panic
    verdict: HashMap<(usize, usize, u64), bool>,
}

fn kind_of(s: &str) -> usize {
    KIND_NAMES.iter().position(|k| *k == s.trim_matches('"')).expect("kind name")
}

fn load(path: &str, m: i64, below: i64, above: i64) -> Graph {
    let text = std::fs::read_to_string(path).expect("conversion rows");
    let mut lines: Vec<&str> = text.lines().filter(|l| l.starts_with("<<\"K\"")).collect();
    lines.sort();
    lines.dedup();
    let mut g = Graph { m, below, above, rows: vec![], verdict: HashMap::new() };
    for l in lines {
        let x: Vec<&str> = l.trim_start_matches("<<").trim_end_matches(">>").split(", ").collect();
        let n = |i: usize| x[i].parse::<i64>().unwrap();
        let r = Row {
            kind: kind_of(x[1]),
            f: [n(2), n(3), n(4), n(5)],
            target: kind_of(x[6]),
            panics: n(7) == 1,
            mem: n(8) as u64,
        };
        let old = g.verdict.insert((r.kind, r.target, r.mem), r.panics);
        assert!(old.is_none() || old == Some(r.panics), "whether a conversion panics depends on the members alone");
        g.rows.push(r);
    }
    assert!(!g.rows.is_empty(), "no conversion rows");
    g
}

/// The conversion from this static type to that one, if the crate offers it.
fn convert<T: StepElem + Default>(v: V<T>, target: usize) -> Option<V<T>> {
    Some(match (v, target) {
        (V::BR(x), 0) => V::R(Range::from(x)),
        (V::BR(x), 1) => V::RI(RangeInclusive::from(x)),
        (V::LR(x), 2) => V::RF(RangeFrom::from(x)),
        (V::UR(x), 3) => V::RT(RangeTo::from(x)),
        (V::UR(x), 4) => V::RTI(RangeToInclusive::from(x)),
        (V::UB(x), 5) => V::RFull(RangeFull::from(x)),
        (V::EM(x), 0) => V::R(Range::from(x)),
        (V::EM(x), 1) => V::RI(RangeInclusive::from(x)),
        (V::R(x), 6) => V::BR(BoundedRange::from(x)),
        (V::RI(x), 6) => V::BR(BoundedRange::from(x)),
        (V::RF(x), 7) => V::LR(LowerBoundedRange::from(x)),
        (V::RT(x), 8) => V::UR(UpperBoundedRange::from(x)),
        (V::RTI(x), 8) => V::UR(UpperBoundedRange::from(x)),
        (V::RFull(x), 9) => V::UB(UnboundedRange::from(x)),
        _ => return None,
    })
}

/// Spent inclusive ranges ending at `e`, left behind by std in different ways.
trait Spend: Sized {
    fn spent(e: Self, down: &[Self]) -> Vec<RangeInclusive<Self>>;
}
macro_rules! spend {
    ($($t:ty),*) => { $( impl Spend for $t {
        fn spent(e: Self, down: &[Self]) -> Vec<RangeInclusive<Self>> {
            let mut out = vec![];
            for s in down.iter().copied().chain([e]) {
                let mut a = s..=e;
                while a.next().is_some() {}
                let mut b = s..=e;
                while b.next_back().is_some() {}
                let mut c = s..=e;
                c.nth(1000);
                let mut d = s..=e;
                d.nth_back(1000);
                let mut f = s..=e;
                f.by_ref().for_each(drop);
                let mut g = s..=e;
                g.by_ref().rev().for_each(drop);
                out.extend([a, b, c, d, f, g]);
            }
            out
        }
    } )* };
}
spend!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, char);
impl Spend for Day {
    fn spent(_: Self, _: &[Self]) -> Vec<RangeInclusive<Self>> { vec![] }
}
impl Spend for Down {
    fn spent(_: Self, _: &[Self]) -> Vec<RangeInclusive<Self>> { vec![] }
}

fn sources<T: StepElem + Spend>(g: &Graph, r: &Row, at: &dyn Fn(i64) -> T) -> Vec<V<T>> {
    let [ai, a, bi, b] = r.f;
    let lo = |a| if ai == 1 { LowerBound::included(at(a)) } else { LowerBound::excluded(at(a)) };
    let hi = |b| if bi == 1 { UpperBound::included(at(b)) } else { UpperBound::excluded(at(b)) };
    match r.kind {
        0 => vec![V::R(at(a)..at(b))],
        1 if bi == 1 => vec![V::RI(at(a)..=at(b))],
        1 => {
            let down: Vec<T> = (-g.below..b).map(at).collect();
            T::spent(at(b), &down).into_iter().map(V::RI).collect()
        }
        2 => vec![V::RF(at(a)..)],
        3 => vec![V::RT(..at(b))],
        4 => vec![V::RTI(..=at(b))],
        5 => vec![V::RFull(..)],
        6 => vec![V::BR(BoundedRange::new(lo(a), hi(b)))],
        7 => vec![V::LR(LowerBoundedRange::new(lo(a)))],
        8 => vec![V::UR(UpperBoundedRange::new(hi(b)))],
        9 => vec![V::UB(UnboundedRange::new())],
        10 => vec![V::EM(EmptyRange::new())],
        k => panic!("kind {k}"),
    }
}

fn run<T: StepElem + Default + Spend>(g: &Graph, base: u128, chain: usize) {
    let at = |v: i64| T::of_rank(base.wrapping_add_signed(v as i128));
    let window: Vec<T> = (-g.below..=g.m + g.above).map(at).collect();
    // values far outside the window behave like the window's edge on that side, if T has any
    let mut outside: Vec<(T, usize)> = vec![];
    let lowest = base - g.below as u128;
    let highest = base + (g.m + g.above) as u128;
    if lowest > 0 {
        outside.push((T::of_rank(0), 0));
        outside.push((T::of_rank(lowest / 2), 0));
    }
    if highest < T::max_rank() {
        outside.push((T::of_rank(T::max_rank()), window.len() - 1));
        outside.push((T::of_rank(highest + (T::max_rank() - highest).div_ceil(2)), window.len() - 1));
    }
    let members = |v: &V<T>, mem: u64| -> Result<(), String> {
        guarded(|| {
            let mut bad = vec![];
            for (i, t) in window.iter().enumerate() {
                if v.contains(*t) != (mem >> i & 1 == 1) {
                    bad.push(*t);
                }
            }
            for (t, i) in &outside {
                if v.contains(*t) != (mem >> i & 1 == 1) {
                    bad.push(*t);
                }
            }
            bad
        })
        .and_then(|b| if b.is_empty() { Ok(()) } else { Err(format!("membership differs at {b:?}")) })
    };
    for (k, r) in g.rows.iter().enumerate() {
        working_on(k as u64);
        for src in sources(g, r, &at) {
            case();
            let bad = |what: &str, path: &[V<T>], target: usize, detail: String| {
                violation(json!({
                    "what": what, "type": T::NAME, "profile": if cfg!(debug_assertions) { "dev" } else { "release" },
                    "source": format!("{src:?}"), "via": format!("{path:?}"), "target": KIND_NAMES[target],
                    "detail": detail,
                }))
            };
            eval(1);
            if let Err(e) = members(&src, r.mem) {
                // std range literals: the window itself would be wrong
                if r.kind < 6 {
                    panic!("window misrepresents {src:?}: {e}");
                }
                continue; // constructors are C17's
            }
            // depth-first over chains of conversions; the first one is this row's
            let mut todo: Vec<(Vec<V<T>>, usize)> = vec![(vec![src.clone()], r.target)];
            while let Some((path, target)) = todo.pop() {
                let cur = path.last().unwrap().clone();
                let want = match g.verdict.get(&(cur.kind(), target, r.mem)) {
                    Some(w) => *w,
                    None => continue, // a conversion of another kind of range
                };
                eval(1);
                match guarded(|| convert(cur.clone(), target)) {
                    Err(_) if want => {}
                    Err(p) => bad("conversion panicked though the target can express the range", &path, target, p),
                    Ok(None) => panic!("no conversion {} -> {target}", cur.kind()),
                    Ok(Some(v)) if want => bad(
                        "the target cannot express the range, yet the conversion returned one", &path, target,
                        format!("{v:?}"),
                    ),
                    Ok(Some(v)) => match members(&v, r.mem) {
                        Err(e) => bad("converted range has other members", &path, target, format!("{v:?}: {e}")),
                        Ok(()) => {
                            // an exhausted or empty std range also says so itself
                            if path.len() < chain {
                                let mut p = path.clone();
                                p.push(v);
                                todo.extend((0..10).map(|t| (p.clone(), t)));
                            }
                        }
                    },
                }
            }
        }
    }
    done();
    sample(|| {
        let r = &g.rows[g.rows.len() / 3];
        let s = sources(g, r, &at).pop().map(|s| format!("{s:?}")).unwrap_or_default();
        json!({"type": T::NAME, "base_rank": base.to_string(), "source": s, "target": KIND_NAMES[r.target],
               "panics": r.panics})
    });
}

pub fn main(path: &str, m: i64, below: i64, above: i64, thorough: bool) {
    let g = load(path, m, below, above);
    let chain = if thorough { 5 } else { 4 };
    macro_rules! types {
        ($($t:ty),*) => { $( {
            let width = (m + below + above + 1) as u128;
            let mut starts: Vec<u128> = match (below, above) {
                (0, _) => vec![0],
                (_, 0) => vec![<$t>::max_rank() - (width - 1)],
                _ => bases::<$t>(width, <$t>::max_rank(), true),
            };
            if thorough && below > 0 && above > 0 && <$t>::max_rank() < 300 {
                starts = (0..=<$t>::max_rank() - (width - 1)).collect();
            }
            if width - 1 <= <$t>::max_rank() && !(below == 0 && above == 0) {
                for s in starts {
                    run::<$t>(&g, s + below as u128, chain);
                }
            }
        } )* };
    }
    types!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, char, Down);
    // a type that is exactly the window
    if below == 0 && above == 0 && m == 6 {
        run::<Day>(&g, 0, chain);
    }
    if below == 0 && above == 0 && m == 1 {
        // a type with two values
        run::<Bit>(&g, 0, chain);
    }
    plain();
}

/// Two values only.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub enum Bit { #[default] Off, On }
impl Elem for Bit {
    const NAME: &'static str = "Bit(enum)";
}
impl Step for Bit {
    fn steps_between(a: &Self, b: &Self) -> Option<usize> {
        (*b as usize).checked_sub(*a as usize)
    }
    fn forward_checked(a: Self, n: usize) -> Option<Self> {
        [Bit::Off, Bit::On].get((a as usize).checked_add(n)?).copied()
    }
    fn backward_checked(a: Self, n: usize) -> Option<Self> {
        [Bit::Off, Bit::On].get((a as usize).checked_sub(n)?).copied()
    }
}
impl StepElem for Bit {
    const RANK_BITS: u32 = 1;
    fn rank(self) -> u128 { self as u128 }
    fn of_rank(r: u128) -> Self { [Bit::Off, Bit::On][r as usize] }
    fn max_rank() -> u128 { 1 }
}
impl Spend for Bit {
    fn spent(_: Self, _: &[Self]) -> Vec<RangeInclusive<Self>> { vec![] }
}

/// Conversions of element types that are neither Copy nor discrete.
fn plain() {
    let s = |x: &str| x.to_string();
    let check = |what: &str, got: bool| {
        eval(1);
        if !got {
            violation(json!({"what": what, "type": "String / f64"}));
        }
    };
    let b = BoundedRange::from(s("b")..s("d"));
    check("String a..b start", b.start == LowerBound::included(s("b")));
    check("String a..b end", b.end == UpperBound::excluded(s("d")));
    let b = BoundedRange::from(s("b")..=s("d"));
    check("String a..=b start", b.start == LowerBound::included(s("b")));
    check("String a..=b end", b.end == UpperBound::included(s("d")));
    check("String a..", LowerBoundedRange::from(s("b")..).start == LowerBound::included(s("b")));
    check("String ..b", UpperBoundedRange::from(..s("b")).end == UpperBound::excluded(s("b")));
    check("String ..=b", UpperBoundedRange::from(..=s("b")).end == UpperBound::included(s("b")));
    check("f64 a..b", BoundedRange::from(0.5..1.5).end == UpperBound::excluded(1.5));
    let e: Range<String> = EmptyRange::new().into();
    check("empty Range<String>", e.is_empty());
    let e: Range<f64> = EmptyRange::new().into();
    check("empty Range<f64>", e.is_empty());
}

// ---------------------------------------------------------------- recordings

/// A range as its kind and bounds; what a spent inclusive range says about itself comes first.
fn written<T: StepElem>(v: &V<T>) -> serde_json::Value {
    use crate::big::limbs;
    let z = || limbs(0);
    let l = |b: &LowerBound<T>| match b.to_bound() {
        Bound::Included(t) => (1, limbs(t.rank())),
        Bound::Excluded(t) => (0, limbs(t.rank())),
    };
    let u = |b: &UpperBound<T>| match b.to_bound() {
        Bound::Included(t) => (1, limbs(t.rank())),
        Bound::Excluded(t) => (0, limbs(t.rank())),
    };
    let k = KIND_NAMES[v.kind()];
    match v {
        V::R(r) => json!([k, 1, limbs(r.start.rank()), 0, limbs(r.end.rank())]),
        V::RI(r) if r.is_empty() && r.start() <= r.end() => {
            json!([k, 1, limbs(r.end().rank()), 0, limbs(r.end().rank())])
        }
        V::RI(r) => json!([k, 1, limbs(r.start().rank()), 1, limbs(r.end().rank())]),
        V::RF(r) => json!([k, 1, limbs(r.start.rank()), 0, z()]),
        V::RT(r) => json!([k, 0, z(), 0, limbs(r.end.rank())]),
        V::RTI(r) => json!([k, 0, z(), 1, limbs(r.end.rank())]),
        V::BR(r) => {
            let ((i, a), (j, b)) = (l(&r.start), u(&r.end));
            json!([k, i, a, j, b])
        }
        V::LR(r) => {
            let (i, a) = l(&r.start);
            json!([k, i, a, 0, z()])
        }
        V::UR(r) => {
            let (j, b) = u(&r.end);
            json!([k, 0, z(), j, b])
        }
        _ => json!([k, 0, z(), 0, z()]),
    }
}

fn source<T: StepElem + Spend>(rng: &mut Rng) -> V<T> {
    let a = crate::big::rank::<T>(rng);
    let b = match rng.below(4) {
        0 => a.saturating_add(rng.below(3) as u128).min(T::max_rank()),
        1 => a.saturating_sub(rng.below(3) as u128),
        _ => crate::big::rank::<T>(rng),
    };
    let (a, b) = if rng.chance(1, 4) { (a, b) } else { (a.min(b), a.max(b)) };
    let (a, b) = (T::of_rank(a), T::of_rank(b));
    let lo = if rng.chance(1, 2) { LowerBound::included(a) } else { LowerBound::excluded(a) };
    let hi = if rng.chance(1, 2) { UpperBound::included(b) } else { UpperBound::excluded(b) };
    match rng.below(16) {
        0 | 1 => V::R(a..b),
        2 | 3 => V::RI(a..=b),
        4 => {
            let mut s = T::spent(b, &[]);
            match s.len() {
                0 => V::RI(a..=b),
                n => V::RI(s.swap_remove(rng.below(n))),
            }
        }
        5 => V::RF(a..),
        6 => V::RT(..b),
        7 => V::RTI(..=b),
        8 | 9 | 10 | 11 => V::BR(BoundedRange::new(lo, hi)),
        12 => V::LR(LowerBoundedRange::new(lo)),
        13 => V::UR(UpperBoundedRange::new(hi)),
        14 => [V::UB(UnboundedRange::new()), V::RFull(..)][rng.below(2)].clone(),
        _ => V::EM(EmptyRange::new()),
    }
}

const OFFERED: [&[usize]; 11] = [&[6], &[6], &[7], &[8], &[8], &[9], &[0, 1], &[2], &[3, 4], &[5], &[0, 1]];

fn chunk<T: StepElem + Default + Spend>(seed: u64, k: u64, len: usize) -> serde_json::Value {
    let mut rng = Rng::new(seed, 0xC0 + k);
    let mut ev = vec![];
    let mut cur: Option<V<T>> = None;
    let mut steps = 0;
    while ev.len() < len {
        let v = match cur.take() {
            Some(v) if steps < 6 => v,
            _ => {
                let v = source::<T>(&mut rng);
                // constructors and literals belong to C17; this is what they were given
                ev.push(json!({"op": "new", "r": written(&v)}));
                steps = 0;
                v
            }
        };
        steps += 1;
        case();
        eval(1);
        let targets = OFFERED[v.kind()];
        let t = targets[rng.below(targets.len())];
        match guarded(|| convert(v.clone(), t).expect("offered")) {
            Ok(w) => {
                ev.push(json!({"op": "conv", "t": KIND_NAMES[t], "ok": 1, "r": written(&w)}));
                cur = Some(w);
            }
            Err(_) => ev.push(json!({"op": "conv", "t": KIND_NAMES[t], "ok": 0, "r": []})),
        }
    }
    sample(|| json!({"type": T::NAME, "events": &ev[..6]}));
    json!({"ty": T::NAME, "max": crate::big::limbs(T::max_rank()), "ev": ev})
}

/// code -> spec: chains of conversions with endpoints anywhere, for ConvTrace.tla.
pub fn record(path: &str, chunks: usize, len: usize, seed: u64) {
    use std::io::Write;
    let mut out = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    macro_rules! types {
        ($($t:ty),*) => {
            for k in 0..chunks as u64 {
                $( writeln!(out, "{}", chunk::<$t>(seed, k, len)).unwrap(); )*
            }
        };
    }
    types!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, char, Down);
}
