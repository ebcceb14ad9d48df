//! Scale.tla at n in the thousands: the specification's results are affine in
//! n and in the index of the piece; the form is fitted to some of TLC's
//! instances, checked on the others, and evaluated at large n.
use crate::elem::*;
use crate::report::*;
use crate::val::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
struct Aff(i64, i64, i64); // c + j*x + n*y
impl Aff {
    fn at(&self, j: i64, n: i64) -> i64 {
        self.0 + self.1 * j + self.2 * n
    }
    /// Exact affine fit, verified on every sample.
    fn fit(s: &[(i64, i64, i64)]) -> Aff {
        let (j0, n0, v0) = s[0];
        let pair = s.iter().find_map(|t| s.iter().find(|u| u.1 == t.1 && u.0 != t.0).map(|u| (t, u)));
        let a = pair.map(|(t, u)| (u.2 - t.2) / (u.0 - t.0)).unwrap_or(0);
        let other = s.iter().find(|t| t.1 != n0);
        let b = other.map(|t| (t.2 - v0 - a * (t.0 - j0)) / (t.1 - n0)).unwrap_or(0);
        let f = Aff(v0 - a * j0 - b * n0, a, b);
        for (j, n, v) in s {
            assert_eq!(f.at(*j, *n), *v, "not affine: {s:?}");
        }
        f
    }
}

/// A value as a function of n: kind, header positions, number of pieces,
/// first two / last two / middle pieces.
#[derive(Clone, Debug)]
struct Form {
    kind: i64,
    head: Vec<Aff>,
    count: Aff,
    first: Vec<[Aff; 2]>,
    last: Vec<[Aff; 2]>,
    mid: Vec<[Aff; 2]>, // by index modulo the number of pieces per n
}
const EDGE: usize = 2;

fn split(enc: &[i64]) -> (usize, Vec<(i64, i64)>) {
    let head = match enc[0] {
        11 => 1,
        12 | 13 => 2,
        14 => if enc.len() == 1 { 1 } else { 3 },
        _ => enc.len(),
    };
    (head, enc[head..].chunks(2).map(|c| (c[0], c[1])).collect())
}

impl Form {
    fn fit(samples: &BTreeMap<i64, Vec<i64>>) -> Form {
        let parts: Vec<(i64, usize, Vec<(i64, i64)>, &Vec<i64>)> = samples
            .iter()
            .map(|(n, e)| {
                let (h, p) = split(e);
                (*n, h, p, e)
            })
            .collect();
        let (_, h, _, e) = &parts[0];
        assert!(parts.iter().all(|p| p.1 == *h && p.3[0] == e[0]), "kind varies with n: {samples:?}");
        let head = (1..*h).map(|i| Aff::fit(&parts.iter().map(|p| (0, p.0, p.3[i])).collect::<Vec<_>>())).collect();
        let count = Aff::fit(&parts.iter().map(|p| (0, p.0, p.2.len() as i64)).collect::<Vec<_>>());
        let fewest = parts.iter().map(|p| p.2.len()).min().unwrap();
        let edge = if count.2 == 0 { fewest } else { EDGE };
        let get = |p: &(i64, i64), k: usize| if k == 0 { p.0 } else { p.1 };
        let fit2 = |pick: &dyn Fn(&Vec<(i64, i64)>) -> Vec<(i64, (i64, i64))>| {
            [0, 1].map(|k| {
                let s: Vec<(i64, i64, i64)> =
                    parts.iter().flat_map(|p| pick(&p.2).into_iter().map(|(j, q)| (j, p.0, get(&q, k))).collect::<Vec<_>>()).collect();
                Aff::fit(&s)
            })
        };
        let first = (0..edge).map(|i| fit2(&|p| vec![(0, p[i])])).collect();
        let last = if count.2 == 0 { vec![] } else { (0..EDGE).map(|i| fit2(&|p| vec![(0, p[p.len() - EDGE + i])])).collect() };
        let period = count.2 as usize;
        let mid = (0..period)
            .map(|r| fit2(&|p| (EDGE..p.len() - EDGE).filter(|j| j % period == r).map(|j| ((j / period) as i64, p[j])).collect()))
            .collect();
        Form { kind: e[0], head, count, first, last, mid }
    }
    fn at(&self, n: i64) -> Vec<i64> {
        let mut e = vec![self.kind];
        e.extend(self.head.iter().map(|a| a.at(0, n)));
        let c = self.count.at(0, n);
        for j in 0..c {
            let (k, from_end) = (j as usize, (c - 1 - j) as usize);
            // edge pieces are fitted with j = 0
            if self.mid.is_empty() || k < EDGE {
                e.extend(self.first[k].iter().map(|a| a.at(0, n)));
            } else if from_end < EDGE {
                e.extend(self.last[EDGE - 1 - from_end].iter().map(|a| a.at(0, n)));
            } else {
                let period = self.mid.len();
                e.extend(self.mid[k % period].iter().map(|a| a.at((k / period) as i64, n)));
            }
        }
        e
    }
}

pub struct Book {
    fam: HashMap<i64, Form>,
    rows: Vec<(u8, i64, i64, bool, Form)>, // op, receiver, operand, empty, result
}

fn statements(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for l in text.lines() {
        if cur.is_empty() && !l.starts_with("<<") {
            continue;
        }
        cur.push_str(l.trim());
        cur.push(' ');
        if l.ends_with(">>") && cur.matches('"').count() % 2 == 0 {
            out.push(std::mem::take(&mut cur));
        }
    }
    out.sort();
    out.dedup();
    out
}

pub fn load(path: &str) -> Book {
    let text = std::fs::read_to_string(path).expect("scale rows");
    let mut fam: HashMap<i64, BTreeMap<i64, Vec<i64>>> = HashMap::new();
    let mut res: BTreeMap<(u8, i64, i64), BTreeMap<i64, Vec<i64>>> = BTreeMap::new();
    let mut empty: HashMap<(u8, i64, i64), Vec<bool>> = HashMap::new();
    for s in statements(&text) {
        let q: Vec<&str> = s.split('"').collect();
        let nums = |t: &str| -> Vec<i64> {
            t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
        };
        let (f, enc) = (nums(q[2]), nums(q[3]));
        if q[1] == "F" {
            fam.entry(f[0]).or_default().insert(f[1], enc);
        } else {
            let k = (f[0] as u8, f[1], f[2]);
            res.entry(k).or_default().insert(f[3], enc);
            empty.entry(k).or_default().push(f[4] == 1);
        }
    }
    let rows = res
        .iter()
        .map(|(k, m)| {
            let e = &empty[k];
            assert!(e.iter().all(|x| *x == e[0]));
            (k.0, k.1, k.2, e[0], Form::fit(m))
        })
        .collect::<Vec<_>>();
    let fam: HashMap<i64, Form> = fam.iter().map(|(k, m)| (*k, Form::fit(m))).collect();
    // the fitted forms reproduce every instance TLC produced
    for (k, m) in &res {
        let f = &rows.iter().find(|r| (r.0, r.1, r.2) == *k).unwrap().4;
        for (n, e) in m {
            assert_eq!(f.at(*n), *e, "fit of {k:?} at n = {n}");
        }
    }
    assert!(rows.len() > 500 && fam.len() >= 30, "scale rows missing");
    Book { fam, rows }
}

/// An embedding of unlimited size: point v of the specification is `at(v)`,
/// `gap(v)` lies strictly between points v-1 and v if the type has such values.
pub trait Line: Elem + Send + Sync {
    fn at(v: i64) -> Self;
    fn gap(v: i64) -> Option<Self>;
}
impl Line for i32 {
    fn at(v: i64) -> Self { v as i32 - 1000 }
    fn gap(_: i64) -> Option<Self> { None }
}
impl Line for Dense {
    fn at(v: i64) -> Self { Dense(v * 10) }
    fn gap(v: i64) -> Option<Self> { Some(Dense(v * 10 - 5)) }
}

fn inside(e: &[i64], p: i64) -> bool {
    let (h, ps) = split(e);
    let pieces = || {
        // pieces are sorted
        let i = ps.partition_point(|q| q.1 < p);
        i < ps.len() && ps[i].0 <= p
    };
    match e[0] {
        0 => p > 2 * e[1] && p <= 2 * e[2],
        1 => p > 2 * e[1] && p <= 2 * e[2] + 1,
        2 => p > 2 * e[1],
        3 => p <= 2 * e[1],
        4 => p <= 2 * e[1] + 1,
        5 | 9 => true,
        6 => p >= e[1] && p <= e[2],
        7 => p >= e[1],
        8 => p <= e[1],
        10 => false,
        11 => pieces(),
        12 => p >= e[1] || pieces(),
        13 => p <= e[1] || pieces(),
        14 => h == 1 || p <= e[1] || p >= e[2] || pieces(),
        _ => unreachable!(),
    }
}

/// Values of T = i32 (every point) inside an encoded bounded value.
fn points(e: &[i64], top: i64) -> Vec<i32> {
    (0..top).filter(|v| inside(e, 2 * v + 1)).map(i32::at).collect()
}

struct Ctx<'a, T> {
    prop: &'a str,
    n: i64,
    emb: &'a Emb<T>,
    top: i64,
}
impl<T: Line> Ctx<'_, T> {
    fn bad(&self, what: &str, label: &str, detail: String) {
        let mut detail = detail;
        detail.truncate(600);
        violation(json!({"what": what, "property": self.prop, "element": T::NAME, "n": self.n, "call": label, "detail": detail}));
    }
    fn members(&self, what: &str, label: &str, v: &V<T>, e: &[i64], rng: &mut Rng) {
        eval(1);
        let (_, ps) = split(e);
        let mut probe: Vec<i64> = (0..60).map(|_| rng.below(2 * self.top as usize) as i64).collect();
        probe.extend([0, 1, 2, 3, 2 * self.top - 1, 2 * self.top]);
        for k in 0..20 {
            if !ps.is_empty() {
                let q = ps[if k < 2 { k.min(ps.len() - 1) } else if k < 4 { ps.len() - 1 - (k - 2).min(ps.len() - 1) } else { rng.below(ps.len()) }];
                probe.extend([q.0 - 1, q.0, q.1, q.1 + 1]);
            }
        }
        let r = guarded(|| {
            probe
                .iter()
                .filter(|p| {
                    let t = if **p % 2 == 1 { Some(T::at(**p / 2)) } else { T::gap(**p / 2) };
                    t.is_some_and(|t| v.contains(t) != inside(e, **p))
                })
                .copied()
                .collect::<Vec<_>>()
        });
        match r {
            Ok(b) if b.is_empty() => {}
            Ok(b) => self.bad(what, label, format!("membership wrong at positions {b:?}")),
            Err(p) => self.bad("contains panicked", label, p),
        }
    }
}

fn run<T: Line>(book: &'static Book, prop: &'static str, n: i64, stack: usize, seed: u64, some: usize, only: &'static str) {
    let top = 4 * n + 16;
    let emb: &'static Emb<T> = Box::leak(Box::new(Emb {
        name: format!("{} line", T::NAME),
        pts: (0..top).map(T::at).collect(),
        gaps: vec![],
    }));
    // operands, built once; building is itself under the watchdog
    let ids: Vec<i64> = { let mut v: Vec<i64> = book.fam.keys().copied().filter(|k| *k < 100).collect(); v.sort(); v };
    let built: std::sync::Mutex<HashMap<i64, V<T>>> = Default::default();
    let total = prop == "C16";
    describe_with(move |k| format!("{} n={n} job {k}", T::NAME));
    let on_stack = |f: &(dyn Fn() + Sync)| {
        std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(stack).spawn_scoped(s, || { f(); done(); }).unwrap().join().ok();
        });
    };
    parallel(ids.len(), |i| on_stack(&|| {
        working_on(10_000 + ids[i] as u64);
        let e = book.fam[&ids[i]].at(n);
        match guarded(|| emb.build(&e, 0)) {
            Ok(Some(v)) => { built.lock().unwrap().insert(ids[i], v); }
            Ok(None) => {}
            Err(p) => if total { violation(json!({"what": "panicked while building", "element": T::NAME, "n": n, "family": ids[i], "detail": p})) },
        }
    }));
    let built = built.into_inner().unwrap();
    let c = Ctx { prop, n, emb, top };
    let good: HashMap<i64, bool> = built
        .iter()
        .map(|(k, v)| {
            let e = book.fam[k].at(n);
            let mut rng = Rng::new(seed, *k as u64);
            let ok = guarded(|| (0..200).all(|_| { let x = rng.below(top as usize) as i64; v.contains(T::at(x)) == inside(&e, 2 * x + 1) }));
            (*k, ok == Ok(true))
        })
        .collect();
    let rows: Vec<&(u8, i64, i64, bool, Form)> = book
        .rows
        .iter()
        .enumerate()
        .filter(|(_, r)| match only {
            "complement" => r.0 == 2,
            "rest" => r.0 != 2,
            "folds" => r.0 == 9,
            // one range against many pieces
            "cover" => r.0 == 0 && (13..=22).contains(&r.1) != (13..=22).contains(&r.2),
            _ => true,
        })
        .filter(|(i, r)| (i + seed as usize) % some == 0 || r.0 == 9 || r.0 == 2)
        .map(|x| x.1)
        .collect();
    let names = |op: u8| ["union", "intersection", "complement", "", "to_set"].get(op as usize).copied().unwrap_or("fold");
    parallel(rows.len(), |i| on_stack(&|| {
        let (op, f, g, empty, form) = rows[i];
        let label = format!("family {f} {} family {g}", names(*op));
        working_on(i as u64);
        if violations() > 50 {
            return;
        }
        let mut rng = Rng::new(seed, i as u64);
        let want = form.at(n);
        if *op == 9 {
            folds(&c, book, *g, &want, &label, &mut rng);
            return;
        }
        let Some(a) = built.get(f) else { return };
        let b = built.get(g);
        if *op < 2 && b.is_none() {
            return;
        }
        if !good[f] || b.is_some() && !good[g] {
            return; // reported where building is decided
        }
        let call = || guarded(|| match op {
            0 => a.clone().union(b.unwrap().clone()),
            1 => a.clone().intersection(b.unwrap().clone()),
            2 => a.clone().complement(),
            _ => a.clone().to_set(),
        });
        match (prop, op) {
            ("C01", 1) | ("C02", 0) | ("C03", 2) | ("C17", 4) => {
                case();
                match call() {
                    Ok(v) => {
                        c.members("wrong members", &label, &v, &want, &mut rng);
                        if *op == 2 {
                            match guarded(|| v.complement()) {
                                Ok(w) => c.members("double complement", &label, &w, &book.fam[f].at(n), &mut rng),
                                Err(p) => c.bad("panicked", &label, p),
                            }
                        }
                    }
                    Err(p) => c.bad("panicked", &label, p),
                }
            }
            ("C04", 1) => {
                case();
                let b = b.unwrap();
                let is = |what: &str, got: Result<bool, String>, want: bool| {
                    eval(1);
                    if got != Ok(want) { c.bad(what, &label, format!("got {got:?}, specification says {want}")); }
                };
                is("disjoint", guarded(|| a.clone().disjoint(b.clone())), *empty);
                is("intersects", guarded(|| a.clone().intersects(b.clone())), !*empty);
                is("is_empty of the intersection", call().and_then(|v| guarded(|| v.is_empty())), *empty);
            }
            ("C05", 0 | 1) => {
                case();
                let (Ok(v), Ok(Some(w))) = (call(), guarded(|| emb.build(&want, 1))) else { return };
                if v.kind() < 11 && *empty {
                    return;
                }
                eval(2);
                if v.same(&w) == Some(false) {
                    c.bad("result does not equal the same set built another way", &label, String::new());
                } else if v.kind() >= 6 && v.hash_of() != w.hash_of() {
                    c.bad("equal values hash differently", &label, String::new());
                }
            }
            ("C16", _) => {
                case();
                eval(4);
                let r = call().and_then(|v| guarded(|| {
                    let e = v.is_empty();
                    let q = v.same(&v.clone());
                    let m = v.contains(T::at(n));
                    let cap = if i % 8 == 0 { 2 * top as usize } else { 20 };
                    let l = T::listing(&v, cap).map(|l| l.len());
                    if i % 8 == 0 || [*f, *g].contains(&23) {
                        T::exhaust(&v);
                    }
                    (e, q, m, l)
                }));
                if let Err(p) = r { c.bad("did not return a result", &label, p); }
                if *op < 2 {
                    if let Err(p) = guarded(|| a.clone().disjoint(b.unwrap().clone())) { c.bad("disjoint panicked", &label, p); }
                }
            }
            _ => {}
        }
    }));
    sample(|| {
        let r = rows[rows.len() / 2];
        json!({"n": n, "element": T::NAME, "stack_bytes": stack,
            "call": format!("family {} {} family {}", r.1, names(r.0), r.2), "pieces_of_result": r.4.count.at(0, n)})
    });
}

/// Pieces united one by one onto a starting value, in several orders.
fn folds<T: Line>(c: &Ctx<T>, book: &Book, g: i64, want: &[i64], label: &str, rng: &mut Rng) {
    if !matches!(c.prop, "C02" | "C05" | "C16") {
        return;
    }
    let (k, raw) = (g / 10, g % 10);
    let start = book.fam[&(100 + k)].at(c.n);
    let pieces = split(&book.fam[&(200 + raw)].at(c.n)).1;
    let m = pieces.len();
    let mut orders: Vec<(&str, Vec<usize>)> = vec![
        ("ascending", (0..m).collect()),
        ("descending", (0..m).rev().collect()),
        ("evens then odds", (0..m).step_by(2).chain((1..m).step_by(2)).collect()),
        ("odds then evens backwards", (1..m).step_by(2).chain((0..m).step_by(2).collect::<Vec<_>>().into_iter().rev()).collect()),
        ("inside out", { let mut v: Vec<usize> = (0..m).collect(); v.sort_by_key(|i| (*i as i64 - m as i64 / 2).abs()); v }),
        ("outside in", { let mut v: Vec<usize> = (0..m).collect(); v.sort_by_key(|i| -(*i as i64 - m as i64 / 2).abs()); v }),
    ];
    let mut sh: Vec<usize> = (0..m).collect();
    for i in (1..m).rev() { sh.swap(i, rng.below(i + 1)); }
    orders.push(("shuffled", sh));
    let mut firstv: Option<V<T>> = None;
    for (name, ord) in orders {
        case();
        let lab = format!("{label}, {name}");
        let r = guarded(|| {
            let mut v = c.emb.build(&start, 0).unwrap();
            for j in &ord {
                v = v.union(V::BR(c.emb.piece(pieces[*j].0, pieces[*j].1)));
            }
            v
        });
        match r {
            Err(p) => if c.prop != "C05" { c.bad("panicked", &lab, p) },
            Ok(v) => {
                match c.prop {
                    "C02" => c.members("wrong members", &lab, &v, want, rng),
                    "C16" => {
                        eval(1);
                        if let Err(p) = guarded(|| {
                            T::exhaust(&v);
                            (v.is_empty(), v.contains(T::at(3)), T::listing(&v, 2 * c.top as usize))
                        }) {
                            c.bad("did not return a result", &lab, p);
                        }
                    }
                    _ => {
                        eval(1);
                        if let Some(w) = &firstv {
                            if v.same(w) == Some(false) { c.bad("the order of the unions shows in ==", &lab, String::new()); }
                            else if v.hash_of() != w.hash_of() { c.bad("the order of the unions shows in the hash", &lab, String::new()); }
                        }
                    }
                }
                firstv.get_or_insert(v);
            }
        }
    }
}

/// C06-C08: iterating sets with many pieces.
fn iterate(book: &Book, prop: &str, n: i64) {
    let top = 4 * n + 16;
    let emb = Emb { name: "i32 line".into(), pts: (0..top).map(i32::at).collect(), gaps: vec![] };
    for f in (1..=6).chain([13, 14, 23]) {
        working_on(f as u64);
        let e = book.fam[&f].at(n);
        let Ok(Some(v)) = guarded(|| emb.build(&e, 3)) else { continue };
        let want = points(&e, top);
        if guarded(|| (0..top).step_by(7).all(|x| v.contains(i32::at(x)) == inside(&e, 2 * x + 1))) != Ok(true) {
            continue; // building is decided elsewhere
        }
        macro_rules! walk { ($it:expr) => {{
            let it = $it;
            let is = |what: &str, ok: Result<bool, String>| {
                case();
                eval(1);
                if ok != Ok(true) {
                    violation(json!({"what": what, "property": prop, "family": f, "n": n, "detail": format!("{ok:?}")}));
                }
            };
            let cap = want.len() + 5;
            match prop {
                "C06" => is("forward list", guarded(|| it.clone().take(cap).eq(want.iter().copied()))),
                "C07" => {
                    is("backward list", guarded(|| it.clone().rev().take(cap).eq(want.iter().rev().copied())));
                    // a random walk from both ends against the list
                    let mut rng = Rng::new(f as u64, n as u64);
                    is("walk from both ends", guarded(|| {
                        let mut model = want.clone().into_iter();
                        let mut real = it.clone();
                        for _ in 0..want.len() {
                            let k = if rng.chance(1, 30) { rng.below(want.len() + 3) / 10 } else { rng.below(9) };
                            let ok = match rng.below(4) {
                                0 => model.next() == real.next(),
                                1 => model.next_back() == real.next_back(),
                                2 => model.nth(k) == real.nth(k),
                                _ => model.nth_back(k) == real.nth_back(k),
                            };
                            if !ok { return false; }
                        }
                        true
                    }));
                }
                _ => {
                    is("len", guarded(|| it.len() == want.len()));
                    is("size_hint", guarded(|| it.size_hint() == (want.len(), Some(want.len()))));
                    is("count", guarded(|| it.clone().count() == want.len()));
                    is("last", guarded(|| it.clone().last() == want.last().copied()));
                    is("min", guarded(|| it.clone().min() == want.first().copied()));
                    is("max", guarded(|| it.clone().max() == want.last().copied()));
                }
            }
        }} }
        match v {
            V::BS(s) => walk!(s.into_iter()),
            V::BR(r) => walk!(r.into_iter()),
            _ => {}
        }
    }
    done();
}

/// C09: lower-bounded sets with many pieces.
fn iterate_lower(book: &Book, n: i64) {
    let top = 4 * n + 16;
    let emb = Emb { name: "i32 line".into(), pts: (0..top).map(i32::at).collect(), gaps: vec![] };
    for f in [7, 8, 18, 24] {
        working_on(f as u64);
        let e = book.fam[&f].at(n);
        let Ok(Some(v)) = guarded(|| emb.build(&e, 3)) else { continue };
        let want: Vec<i32> = points(&e, top + 50);
        if guarded(|| (0..top).step_by(7).all(|x| v.contains(i32::at(x)) == inside(&e, 2 * x + 1))) != Ok(true) {
            continue;
        }
        macro_rules! walk { ($it:expr) => {{
            let it = $it;
            let is = |what: &str, ok: Result<bool, String>| {
                case();
                eval(1);
                if ok != Ok(true) {
                    violation(json!({"what": what, "property": "C09", "family": f, "n": n, "detail": format!("{ok:?}")}));
                }
            };
            is("forward list", guarded(|| it.clone().take(want.len()).eq(want.iter().copied())));
            is("min", guarded(|| it.clone().min() == Some(want[0])));
            for k in [0, 1, 2, want.len() / 3, want.len() / 2, want.len() - 51, want.len() - 50, want.len() - 1] {
                is("nth", guarded(|| it.clone().nth(k) == Some(want[k])));
                is("nth then next", guarded(|| { let mut i = it.clone(); i.nth(k); want.get(k + 1).is_none_or(|w| i.next() == Some(*w)) }));
            }
        }} }
        match v {
            V::LS(s) => walk!(s.into_iter()),
            V::LR(s) => walk!(s.into_iter()),
            _ => {}
        }
    }
    done();
}

/// C16: the same call again and again, on values that reach a fixed point.
fn endure<T: Line>(book: &'static Book, n: i64, stack: usize, times: usize) {
    let top = 4 * n + 16;
    let emb = Emb { name: "line".into(), pts: (0..top).map(T::at).collect(), gaps: vec![] };
    let jobs: Vec<(i64, i64, u8)> = (1..=24).flat_map(|f| (1..=24).flat_map(move |g| [(f, g, 0), (f, g, 1), (f, g, 2)])).collect();
    describe_with(move |k| format!("{} repeated job {k}", T::NAME));
    parallel(jobs.len(), |i| std::thread::scope(|s| {
        let (f, g, op) = jobs[i];
        let (book, emb) = (&book, &emb);
        std::thread::Builder::new().stack_size(stack).spawn_scoped(s, move || {
            working_on(i as u64);
            case();
            eval(times as u64);
            let r = guarded(|| {
                let mut v = emb.build(&book.fam[&f].at(n), 0).unwrap();
                let w = emb.build(&book.fam[&g].at(n), 0).unwrap();
                for k in 0..times {
                    v = match op {
                        0 => v.union(w.clone()),
                        1 => v.intersection(w.clone()),
                        _ if k % 2 == 0 => v.union(w.clone()).complement(),
                        _ => v.intersection(w.clone()).complement(),
                    };
                }
                v.is_empty()
            });
            if let Err(p) = r {
                violation(json!({"what": "panicked when repeated", "element": T::NAME, "families": [f, g], "op": op, "detail": p}));
            }
            done();
        }).unwrap().join().ok();
    }));
}

pub fn main(path: &str, prop: &str, n: i64, stack: usize, seed: u64, some: usize, only: &str) {
    let book: &'static Book = Box::leak(Box::new(load(path)));
    let prop: &'static str = Box::leak(prop.to_string().into_boxed_str());
 let only: &'static str = Box::leak(only.to_string().into_boxed_str());
    match prop {
        "C16" if only == "endure" => {
            endure::<i32>(book, n, stack, some);
            endure::<Dense>(book, n, stack, some);
        }
        "C06" | "C07" | "C08" => iterate(book, prop, n),
        "C09" => iterate_lower(book, n),
        _ => {
            run::<i32>(book, prop, n, stack, seed, some, only);
            run::<Dense>(book, prop, n, stack, seed, some, only);
        }
    }
}
