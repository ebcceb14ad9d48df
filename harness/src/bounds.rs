//! spec -> code for bounds (Bounds.tla): every comparison and rewriting of
//! bounds on the real types, over total and partial orders.
use crate::report::*;
use rangetools::*;
use serde_json::json;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Row {
    op: u8,
    side: u8,
    inc: bool,
    e: usize,
    inc2: bool,
    e2: usize,
    res: i8,
}

fn load(path: &str) -> Vec<Row> {
    let text = std::fs::read_to_string(path).expect("bound rows");
    let mut rows: Vec<Row> = text
        .lines()
        .filter(|l| l.starts_with("<<\"B\""))
        .map(|l| {
            let x: Vec<i64> = l
                .trim_start_matches("<<")
                .trim_end_matches(">>")
                .split(", ")
                .skip(1)
                .map(|x| x.parse().unwrap())
                .collect();
            Row {
                op: x[0] as u8, side: x[1] as u8, inc: x[2] == 1, e: x[3] as usize, inc2: x[4] == 1,
                e2: x[5] as usize, res: x[6] as i8,
            }
        })
        .collect();
    rows.sort();
    rows.dedup();
    assert!(!rows.is_empty(), "no bound rows");
    rows
}

fn bad(what: &str, t: &str, r: &Row, detail: String) {
    violation(json!({"what": what, "element": t, "row": format!("{r:?}"), "detail": detail}));
}
fn is<A: PartialEq + Debug>(what: &str, t: &str, r: &Row, got: Result<A, String>, want: A) {
    eval(1);
    if got != Ok(want) {
        bad(what, t, r, format!("got {got:?}"));
    }
}
fn ordering(res: i8) -> Option<Ordering> {
    match res {
        -1 => Some(Ordering::Less),
        0 => Some(Ordering::Equal),
        1 => Some(Ordering::Greater),
        _ => None,
    }
}
fn lower<T>(inc: bool, t: T) -> LowerBound<T> {
    if inc { LowerBound::included(t) } else { LowerBound::excluded(t) }
}
fn upper<T>(inc: bool, t: T) -> UpperBound<T> {
    if inc { UpperBound::included(t) } else { UpperBound::excluded(t) }
}
fn plain<T>(inc: bool, t: T) -> Bound<T> {
    if inc { Bound::Included(t) } else { Bound::Excluded(t) }
}
/// (included?, value) of a plain bound
fn parts<T>(b: Bound<T>) -> (bool, T) {
    match b {
        Bound::Included(t) => (true, t),
        Bound::Excluded(t) => (false, t),
    }
}

fn compare<B: PartialOrd + Debug>(t: &str, r: &Row, p: B, q: B) {
    let want = ordering(r.res);
    is("partial_cmp", t, r, guarded(|| p.partial_cmp(&q)), want);
    is("<", t, r, guarded(|| p < q), want == Some(Ordering::Less));
    is(">", t, r, guarded(|| p > q), want == Some(Ordering::Greater));
    is("<=", t, r, guarded(|| p <= q), matches!(want, Some(Ordering::Less | Ordering::Equal)));
    is(">=", t, r, guarded(|| p >= q), matches!(want, Some(Ordering::Greater | Ordering::Equal)));
    is("==", t, r, guarded(|| p == q), want == Some(Ordering::Equal));
    is("!=", t, r, guarded(|| p != q), want != Some(Ordering::Equal));
}
fn total<B: Ord + Hash + Copy + Debug>(t: &str, r: &Row, p: B, q: B) {
    let want = ordering(r.res).expect("total order");
    is("cmp", t, r, guarded(|| p.cmp(&q)), want);
    let (lo, hi) = if want == Ordering::Greater { (q, p) } else { (p, q) };
    is("min", t, r, guarded(|| p.min(q)), lo);
    is("max", t, r, guarded(|| p.max(q)), hi);
    is("std::cmp::min", t, r, guarded(|| std::cmp::min(p, q)), lo);
    is("std::cmp::max", t, r, guarded(|| std::cmp::max(p, q)), hi);
    is("Reverse", t, r, guarded(|| std::cmp::Reverse(p).cmp(&std::cmp::Reverse(q))), want.reverse());
    let h = |b: &B| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        b.hash(&mut s);
        s.finish()
    };
    if want == Ordering::Equal {
        is("equal bounds hash differently", t, r, guarded(|| h(&p) == h(&q)), true);
    }
    is("BTreeSet", t, r, guarded(|| BTreeSet::from([p, q]).into_iter().collect::<Vec<_>>()),
        if want == Ordering::Equal { vec![p] } else { vec![lo, hi] });
    is("sort", t, r, guarded(|| { let mut v = vec![p, q]; v.sort(); v }), vec![lo, hi]);
}

/// Facts for elements with any order.  Elements are told apart by their
/// Debug text (NaN and the two zeros included).
fn partial<T: Copy + PartialOrd + Debug>(rows: &[Row], t: &str, el: &[T]) {
    let txt = |b: Bound<T>| format!("{:?}", parts(b));
    for (k, r) in rows.iter().enumerate() {
        working_on(k as u64);
        case();
        let (a, b) = (el[r.e], el[r.e2]);
        let want = format!("{:?}", (r.inc2, b));
        match (r.op, r.side) {
            (0, 0) => compare(t, r, lower(r.inc, a), lower(r.inc2, b)),
            (0, _) => compare(t, r, upper(r.inc, a), upper(r.inc2, b)),
            (1, s) => {
                is("Bound::flipped", t, r, guarded(|| txt(plain(r.inc, a).flipped())), want.clone());
                // the constructors, conversion to the plain bound and back
                let through = if s == 0 {
                    guarded(|| txt(LowerBound::from(lower(r.inc, a).to_bound().flipped()).to_bound()))
                } else {
                    guarded(|| txt(UpperBound::from(upper(r.inc, a).to_bound().flipped()).to_bound()))
                };
                is("flipped through the plain bound", t, r, through, want);
            }
            (2, s) => {
                let seen = std::cell::RefCell::new(vec![]);
                let f = |x: T| {
                    seen.borrow_mut().push(format!("{x:?}"));
                    b
                };
                is("Bound::map", t, r, guarded(|| txt(plain(r.inc, a).map(f))), want.clone());
                let got = if s == 0 {
                    guarded(|| txt(lower(r.inc, a).map(f).to_bound()))
                } else {
                    guarded(|| txt(upper(r.inc, a).map(f).to_bound()))
                };
                is("map", t, r, got, want);
                is("map calls its function once on the value", t, r, Ok(seen.borrow().clone()),
                    vec![format!("{a:?}"); 2]);
                // to another type
                let other = if s == 0 {
                    guarded(|| format!("{:?}", parts(lower(r.inc, a).map(|x| (7u8, x)).to_bound())))
                } else {
                    guarded(|| format!("{:?}", parts(upper(r.inc, a).map(|x| (7u8, x)).to_bound())))
                };
                is("map to another type", t, r, other, format!("{:?}", (r.inc2, (7u8, a))));
            }
            (3, s) => {
                let got = if s == 0 {
                    guarded(|| txt(UpperBound::from(lower(r.inc, a).to_bound()).to_bound()))
                } else {
                    guarded(|| txt(LowerBound::from(upper(r.inc, a).to_bound()).to_bound()))
                };
                is("through the plain bound to the other side", t, r, got, want);
            }
            _ => {} // through the wire: C14
        }
    }
    done();
}

/// Facts for totally ordered elements.  `between` are elements of the gaps.
fn ordered<T: Copy + Ord + Hash + Debug>(rows: &[Row], t: &str, el: &[T], between: &[T]) {
    partial(rows, t, el);
    let probes: Vec<T> = el.iter().chain(between).copied().collect();
    for r in rows.iter().filter(|r| r.op == 0) {
        case();
        let (a, b) = (el[r.e], el[r.e2]);
        let want = ordering(r.res).expect("total order");
        // what the bounds admit, as seen through the ranges they delimit
        let admitted = if r.side == 0 {
            total(t, r, lower(r.inc, a), lower(r.inc2, b));
            let (p, q) = (LowerBoundedRange::new(lower(r.inc, a)), LowerBoundedRange::new(lower(r.inc2, b)));
            guarded(|| probes.iter().map(|x| (p.contains(*x), q.contains(*x))).collect::<Vec<_>>())
        } else {
            total(t, r, upper(r.inc, a), upper(r.inc2, b));
            let (p, q) = (UpperBoundedRange::new(upper(r.inc, a)), UpperBoundedRange::new(upper(r.inc2, b)));
            guarded(|| probes.iter().map(|x| (p.contains(*x), q.contains(*x))).collect::<Vec<_>>())
        };
        eval(1);
        let Ok(ad) = admitted else {
            bad("contains panicked", t, r, String::new());
            continue;
        };
        let (more_p, more_q) = (ad.iter().any(|x| x.0 && !x.1), ad.iter().any(|x| !x.0 && x.1));
        // the bound that admits more is the lesser lower, the greater upper bound
        let p_admits_more = (want == Ordering::Less) == (r.side == 0) && want != Ordering::Equal;
        let q_admits_more = (want == Ordering::Greater) == (r.side == 0) && want != Ordering::Equal;
        if (more_p && !p_admits_more) || (more_q && !q_admits_more) {
            bad("the order of bounds is not the order of what they admit", t, r, format!("{ad:?}"));
        }
    }
    // a whole population sorts the way its members compare
    let mut rng = Rng::new(7, 13);
    for side in 0..2u8 {
        let cmp = |p: &(bool, usize), q: &(bool, usize)| {
            rows.iter()
                .find(|r| r.op == 0 && r.side == side && (r.inc, r.e) == *p && (r.inc2, r.e2) == *q)
                .and_then(|r| ordering(r.res))
                .unwrap()
        };
        let mut all: Vec<(bool, usize)> = (0..el.len()).flat_map(|e| [(true, e), (false, e)]).collect();
        for i in (1..all.len()).rev() {
            all.swap(i, rng.below(i + 1));
        }
        let mut want = all.clone();
        want.sort_by(cmp);
        let dummy = rows[0];
        if side == 0 {
            let mut v: Vec<_> = all.iter().map(|(i, e)| lower(*i, el[*e])).collect();
            is("sort of all lower bounds", t, &dummy, guarded(|| { v.sort(); v.clone() }),
                want.iter().map(|(i, e)| lower(*i, el[*e])).collect());
            is("clamp", t, &dummy, guarded(|| v[0].clamp(v[1], v[2])), v[1]);
        } else {
            let mut v: Vec<_> = all.iter().map(|(i, e)| upper(*i, el[*e])).collect();
            is("sort of all upper bounds", t, &dummy, guarded(|| { v.sort(); v.clone() }),
                want.iter().map(|(i, e)| upper(*i, el[*e])).collect());
            is("clamp", t, &dummy, guarded(|| v[0].clamp(v[1], v[2])), v[1]);
        }
    }
}

/// The product order on pairs: partial, without NaN-like elements.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Pair(usize, usize);
impl PartialOrd for Pair {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        match (self.0.cmp(&o.0), self.1.cmp(&o.1)) {
            (x, y) if x == y => Some(x),
            (Ordering::Equal, y) => Some(y),
            (x, Ordering::Equal) => Some(x),
            _ => None,
        }
    }
}

pub fn main(path: &str, order: &str, n: usize) {
    let rows = load(path);
    match order {
        "chain" => {
            let spread = |lo: i128, hi: i128, i: usize| lo + (hi - lo) * i as i128 / (n as i128 - 1);
            macro_rules! ints {
                ($($t:ty),*) => { $( {
                    let (lo, hi) = (<$t>::MIN as i128, if <$t>::BITS == 128 { i64::MAX as i128 } else { <$t>::MAX as i128 });
                    let lo = if <$t>::BITS == 128 { lo.max(i64::MIN as i128) } else { lo };
                    let el: Vec<$t> = (0..n).map(|i| spread(lo, hi, i) as $t).collect();
                    let between: Vec<$t> = el.windows(2).map(|w| w[0] + 1).collect();
                    ordered(&rows, stringify!($t), &el, &between);
                    let el: Vec<$t> = (0..n).map(|i| <$t>::MAX - (n - 1 - i) as $t).collect();
                    ordered(&rows, concat!(stringify!($t), " at MAX"), &el, &[]);
                } )* };
            }
            ints!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128);
            let el: Vec<char> = (0..n).map(|i| char::from_u32(spread(0, 0x10FFFF, i) as u32).unwrap()).collect();
            ordered(&rows, "char", &el, &['\u{1}', '\u{E000}']);
            let words: Vec<&'static str> = (0..n).map(|i| &*Box::leak("a".repeat(i).into_boxed_str())).collect();
            let between: Vec<&'static str> = words.iter().map(|w| &*Box::leak(format!("{w}\0").into_boxed_str())).collect();
            ordered(&rows, "&str", &words, &between);
            let el: Vec<std::cmp::Reverse<i16>> = (0..n).map(|i| std::cmp::Reverse(10 * (n - i) as i16)).collect();
            let between: Vec<_> = el.iter().map(|x| std::cmp::Reverse(x.0 - 3)).collect();
            ordered(&rows, "Reverse<i16>", &el, &between);
            let el: Vec<(u8, i8)> = (0..n).map(|i| ((i / 2) as u8, (i % 2) as i8)).collect();
            ordered(&rows, "(u8,i8)", &el, &[(0, -5), (1, 100)]);
            let el: Vec<Option<bool>> = vec![None, Some(false), Some(true)];
            let few: Vec<Row> = rows.iter().copied().filter(|r| r.e < 3 && r.e2 < 3).collect();
            ordered(&few, "Option<bool>", &el, &[]);
            // not Copy
            let owned: Vec<String> = words.iter().map(|w| w.to_string()).collect();
            for r in rows.iter().filter(|r| r.op == 0) {
                let (a, b) = (owned[r.e].clone(), owned[r.e2].clone());
                if r.side == 0 {
                    compare("String", r, lower(r.inc, a), lower(r.inc2, b));
                } else {
                    compare("String", r, upper(r.inc, a), upper(r.inc2, b));
                }
            }
        }
        "float" => {
            let mut el = vec![-0.0f64, 0.0, 1.0, 2.5, f64::INFINITY, f64::NAN];
            assert_eq!(el.len(), n);
            partial(&rows, "f64", &el);
            el[4] = f64::MIN_POSITIVE * 0.0 + 3.5;
            el[5] = -f64::NAN;
            partial(&rows, "f64 (negative NaN)", &el);
            let el: Vec<f32> = vec![-0.0, 0.0, f32::MIN_POSITIVE, 2.5, f32::MAX, f32::NAN];
            partial(&rows, "f32", &el);
        }
        "pairs" => {
            let el: Vec<Pair> = (0..n).map(|i| Pair(i / 2, i % 2)).collect();
            partial(&rows, "product order", &el);
        }
        o => panic!("unknown order {o}"),
    }
    let r = rows[rows.len() / 2];
    sample(|| json!({"order": order, "row": format!("{r:?}")}));
}

#[cfg(not(feature = "wire"))]
pub fn reload(_: &str, _: usize) {
    panic!("built without serde");
}
/// C14: bounds through the wire and back.
#[cfg(feature = "wire")]
pub fn reload(path: &str, n: usize) {
    use crate::elem::{wire, FORMATS};
    use serde::{de::DeserializeOwned, Serialize};
    let rows = load(path);
    fn go<T: Clone + PartialEq + PartialOrd + Debug + Serialize + DeserializeOwned>(rows: &[Row], t: &str, el: &[T], nan: bool) {
        for r in rows.iter().filter(|r| r.op == 4) {
            let x = el[r.e].clone();
            if nan && r.e == el.len() - 1 {
                continue; // NaN equals nothing, before and after
            }
            for f in 0..FORMATS.len() {
                case();
                let txt = format!("through {}", FORMATS[f]);
                is(&txt, t, r, guarded(|| wire(&plain(r.inc, x.clone()), f)).and_then(|r| r), plain(r.inc2, x.clone()));
                if r.side == 0 {
                    is(&txt, t, r, guarded(|| wire(&lower(r.inc, x.clone()), f)).and_then(|r| r), lower(r.inc2, x.clone()));
                } else {
                    is(&txt, t, r, guarded(|| wire(&upper(r.inc, x.clone()), f)).and_then(|r| r), upper(r.inc2, x.clone()));
                }
                // ranges delimited by it, also over elements that are not Copy
                let range = BoundedRange { start: lower(r.inc, x.clone()), end: upper(!r.inc, el[(r.e + 1) % el.len()].clone()) };
                if !nan {
                    is(&txt, t, r, guarded(|| wire(&range, f)).and_then(|r| r), range.clone());
                }
                let lr = LowerBoundedRange { start: lower(r.inc, x.clone()) };
                is(&txt, t, r, guarded(|| wire(&lr, f)).and_then(|r| r), lr.clone());
                let ur = UpperBoundedRange { end: upper(r.inc, x.clone()) };
                is(&txt, t, r, guarded(|| wire(&ur, f)).and_then(|r| r), ur.clone());
                // inside a client's own structures
                let nested = vec![Some((range.clone(), lr.clone())), None];
                if !nan {
                    is(&txt, t, r, guarded(|| wire(&nested, f)).and_then(|r| r), nested.clone());
                }
            }
        }
    }
    go(&rows, "i32", &(0..n as i32).map(|i| i * 1000 - 3000).collect::<Vec<_>>(), false);
    go(&rows, "u64", &(0..n as u64).map(|i| u64::MAX - i).collect::<Vec<_>>(), false);
    go(&rows, "char", &"aß\u{D7FF}\u{E000}𝄞\u{10FFFF}abcdef".chars().take(n).collect::<Vec<_>>(), false);
    go(&rows, "String", &(0..n).map(|i| format!("\"{i}\n")).collect::<Vec<_>>(), false);
    go(&rows, "(u8, bool)", &(0..n).map(|i| (i as u8, i % 2 == 0)).collect::<Vec<_>>(), false);
    go(&rows, "Vec<u8>", &(0..n).map(|i| vec![i as u8; i]).collect::<Vec<_>>(), false);
    let mut fl: Vec<f64> = (0..n).map(|i| i as f64 / 4.0 - 0.5).collect();
    fl[n - 1] = f64::NAN;
    go(&rows, "f64", &fl, true);
}
