//! spec -> code: replay every transition of the specification's state graph
//! on the real types, under order embeddings into several element types.
use crate::elem::*;
use crate::report::*;
use crate::val::*;
use serde_json::json;

pub struct Table {
    pub n: usize,
    pub enc: Vec<Vec<i64>>, // index 0 unused
    pub den: Vec<u64>,
    pub empty: Vec<bool>,
    pub rows: Vec<(u8, u32, u32, u32, bool)>,
}

pub fn load(path: &str, n: usize) -> Table {
    let text = std::fs::read_to_string(path).expect("transition file");
    let mut t = Table { n, enc: vec![vec![]], den: vec![0], empty: vec![false], rows: vec![] };
    for line in text.lines() {
        let Some(body) = line.strip_prefix("<<").and_then(|l| l.strip_suffix(">>")) else { continue };
        if let Some(rest) = body.strip_prefix("\"V\", ") {
            let (head, enc) = rest.split_once(", \"").expect("table row");
            let head: Vec<i64> = head.split(", ").map(|x| x.parse().unwrap()).collect();
            let enc = enc.trim_end_matches('"').trim_start_matches("<<").trim_end_matches(">>");
            let enc: Vec<i64> = enc.split(", ").filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            assert_eq!(head[0] as usize, t.enc.len());
            t.enc.push(enc);
            t.den.push(head[1] as u64);
            t.empty.push(head[2] == 1);
        } else {
            let f: Vec<u32> = body.split(", ").filter_map(|x| x.parse().ok()).collect();
            if f.len() == 5 {
                t.rows.push((f[0] as u8, f[1], f[2], f[3], f[4] == 1));
            }
        }
    }
    t.rows.sort();
    t.rows.dedup();
    assert!(t.enc.len() > 1, "empty transition file");
    t
}

const OPS: [&str; 6] = ["union", "intersection", "complement", "to_inner", "to_set", "reload"];

pub fn show(enc: &[i64]) -> String {
    format!("{}{:?}", KIND_NAMES[enc[0] as usize], &enc[1..])
}

struct Run<'a, T> {
    t: &'a Table,
    e: &'a Emb<T>,
    prop: &'a str,
    canon: Vec<Option<V<T>>>,
    /// Positions the built value was seen to contain, where T inhabits them
    /// (elsewhere the specification's answer is kept).
    seen: Vec<u64>,
    /// The members of every value in order (the iteration properties only).
    lists: Vec<Vec<T>>,
}

impl<'a, T: Elem> Run<'a, T> {
    fn bad(&self, what: &str, a: usize, op: &str, b: Option<usize>, detail: String) {
        let name = |i: usize| json!({"spec": show(&self.t.enc[i]), "real": format!("{:?}", self.canon[i])});
        violation(json!({
            "what": what, "property": self.prop, "embedding": self.e.name,
            "points": format!("{:?}", self.e.pts),
            "receiver": name(a), "call": op, "operand": b.map(name), "detail": detail,
        }));
    }

    /// Expect `v` to contain exactly the positions `den`.
    fn members(&self, what: &str, v: &Result<V<T>, String>, den: u64, a: usize, op: &str, b: Option<usize>) {
        eval(1);
        match v {
            Err(p) => self.bad("panicked", a, op, b, p.clone()),
            Ok(v) => match guarded(|| self.e.mask_diff(v, den)) {
                Err(p) => self.bad("contains panicked", a, op, b, p),
                Ok(0) => {}
                Ok(d) => self.bad(
                    what, a, op, b,
                    format!("result {v:?}: membership wrong at positions {:?}",
                        (0..64).filter(|p| d >> p & 1 == 1).collect::<Vec<_>>()),
                ),
            },
        }
    }
    fn is(&self, what: &str, got: Result<bool, String>, want: bool, a: usize, op: &str, b: Option<usize>) {
        eval(1);
        match got {
            Ok(g) if g == want => {}
            Ok(g) => self.bad(what, a, op, b, format!("got {g}, specification says {want}")),
            Err(p) => self.bad("panicked", a, op, b, p),
        }
    }

    fn apply(&self, op: u8, a: usize, b: usize) -> Option<Result<V<T>, String>> {
        let (x, y) = (self.canon[a].clone()?, self.canon[b].clone()?);
        Some(guarded(|| match op {
            0 => x.union(y),
            1 => x.intersection(y),
            2 => x.complement(),
            3 => x.to_inner(),
            _ => x.to_set(),
        }))
    }

    /// The built operand is the specification's value (a defect in building
    /// operands is reported by C02 and C17 and not charged to the others).
    fn good(&self, i: usize) -> bool {
        self.seen[i] == self.t.den[i]
    }

    fn row(&self, (op, a, b, r, flag): (u8, u32, u32, u32, bool)) {
        let (a, b, r) = (a as usize, b as usize, r as usize);
        let name = OPS[op as usize];
        let ob = (op < 2).then_some(b);
        let full: u64 = (1 << (2 * self.t.n + 1)) - 1;
        match self.prop {
            "C01" | "C02" | "C17" => {
                let Some(v) = self.apply(op, a, b) else { return };
                let want = if self.good(a) && self.good(b) {
                    self.t.den[r]
                } else {
                    match op {
                        0 => self.seen[a] | self.seen[b],
                        1 => self.seen[a] & self.seen[b],
                        2 => full & !self.seen[a],
                        _ => self.seen[a],
                    }
                };
                self.members("wrong members", &v, want, a, name, ob);
            }
            "C03" => {
                if op == 2 {
                    if !self.good(a) {
                        return;
                    }
                    let Some(v) = self.apply(2, a, a) else { return };
                    self.members("complement: wrong members", &v, self.t.den[r], a, name, ob);
                    let Ok(c) = v else { return };
                    let x = self.canon[a].clone().unwrap();
                    let cc = guarded(|| c.clone().complement());
                    self.members("double complement differs from the original", &cc, self.t.den[a], a, name, ob);
                    let (x1, c1) = (x.clone(), c.clone());
                    self.is("value intersects its complement", guarded(|| x1.disjoint(c1)), true, a, name, ob);
                    let (x1, c1) = (x.clone(), c.clone());
                    let u = guarded(|| c1.union(x1));
                    self.members("value and complement do not cover everything", &u, full, a, name, ob);
                } else if op == 0 && self.good(a) && self.good(b) {
                    // De Morgan on every pair
                    let Some(u) = self.apply(0, a, b) else { return };
                    let Ok(u) = u else { return };
                    if guarded(|| self.e.mask_diff(&u, self.t.den[r])) != Ok(0) {
                        return; // a defect of union, not of complement
                    }
                    let nu = guarded(|| u.complement());
                    self.members("complement of a union", &nu, full & !self.t.den[r], a, name, ob);
                    let (x, y) = (self.canon[a].clone().unwrap(), self.canon[b].clone().unwrap());
                    let m = guarded(|| x.complement().intersection(y.complement()));
                    self.members("intersection of complements", &m, full & !self.t.den[r], a, name, ob);
                }
            }
            "C04" => {
                if op != 1 {
                    return;
                }
                let (Some(x), Some(y)) = (self.canon[a].clone(), self.canon[b].clone()) else { return };
                if !self.good(a) || !self.good(b) {
                    return;
                }
                let (x1, y1) = (x.clone(), y.clone());
                self.is("disjoint", guarded(|| x1.disjoint(y1)), flag, a, "disjoint", ob);
                let (x1, y1) = (x.clone(), y.clone());
                self.is("intersects", guarded(|| x1.intersects(y1)), !flag, a, "intersects", ob);
                self.is("intersection(..).is_empty", guarded(|| x.intersection(y).is_empty()), flag, a, name, ob);
            }
            "C05" => {
                let Some(Ok(v)) = self.apply(op, a, b) else { return };
                let Some(c) = &self.canon[r] else { return };
                if !self.good(a) || !self.good(b) || !self.good(r) {
                    return;
                }
                // an empty range may be written with any bounds that exclude everything
                if v.kind() < 11 && self.t.empty[r] {
                    return;
                }
                if let Some(eq) = v.same(c) {
                    self.is("result does not equal the same set built another way", Ok(eq), true, a, name, ob);
                    if !matches!(v, V::R(_) | V::RI(_)) {
                        self.is("equal values hash differently", Ok(v.hash_of() == c.hash_of()), true, a, name, ob);
                    }
                }
                if op == 0 {
                    let (x, y) = (self.canon[a].clone().unwrap(), self.canon[b].clone().unwrap());
                    let w = guarded(|| y.union(x));
                    if let Ok(w) = w {
                        if let Some(eq) = w.to_set().same(&v.clone().to_set()) {
                            self.is("union is not commutative", Ok(eq), true, a, name, ob);
                        }
                    }
                }
            }
            "C15" => {
                let Some(Ok(v)) = self.apply(op, a, b) else { return };
                self.is("result type", Ok(v.kind() as i64 == self.t.enc[r][0]), true, a, name, ob);
            }
            "C14" => {
                let (Some(x), Some(y)) = (&self.canon[a], &self.canon[b]) else { return };
                for (f, format) in FORMATS.iter().enumerate() {
                    let Some(x2) = T::reload(x, f) else { return };
                    if op == 5 {
                        let label = format!("reload through {format}");
                        self.members("members differ after reloading", &x2, self.seen[a], a, &label, None);
                        let Ok(x2) = x2 else { continue };
                        self.is("reloaded value is not equal", Ok(x2.same(x) == Some(true)), true, a, &label, None);
                        self.is("reloaded value hashes differently",
                            Ok(matches!(x, V::R(_) | V::RI(_)) || x2.hash_of() == x.hash_of()), true, a, &label, None);
                        let (e1, e2) = (guarded(|| x.is_empty()), guarded(|| x2.is_empty()));
                        let (l1, l2) = (guarded(|| T::listing(x, 40)), guarded(|| T::listing(&x2, 40)));
                        self.is("reloaded value iterates differently", Ok(l1.ok() == l2.ok()), true, a, &label, None);
                        self.is("reloaded value differs in is_empty", Ok(e1.ok() == e2.ok()), true, a, &label, None);
                        continue;
                    }
                    // later operations: the reloaded operands behave like the originals
                    let Some(y2) = T::reload(y, (f + 1) % FORMATS.len()) else { return };
                    let (Ok(x2), Ok(y2)) = (x2, y2) else { continue };
                    let Some(Ok(before)) = self.apply(op, a, b) else { continue };
                    let after = guarded(|| match op {
                        0 => x2.clone().union(y2.clone()),
                        1 => x2.clone().intersection(y2.clone()),
                        2 => x2.clone().complement(),
                        3 => x2.clone().to_inner(),
                        _ => x2.clone().to_set(),
                    });
                    self.is("an operation on reloaded values gives another result",
                        after.map(|v| v.same(&before) == Some(true)), true, a, name, ob);
                }
            }
            "C16" => {
                let Some(v) = self.apply(op, a, b) else { return };
                let whole = v.and_then(|v| guarded(|| {
                    let (e, s) = (v.is_empty(), v.same(&v.clone()));
                    let l = matches!(v, V::BR(_) | V::BS(_)).then(|| T::listing(&v, 40));
                    (e, s, l.is_some())
                }));
                self.is("did not return a result", whole.map(|_| true), true, a, name, ob);
                if op == 1 {
                    let (x, y) = (self.canon[a].clone().unwrap(), self.canon[b].clone().unwrap());
                    self.is("disjoint did not return", guarded(|| { x.disjoint(y); true }), true, a, name, ob);
                }
            }
            // iterating what an operation returned
            "C06" | "C07" | "C08" | "C09" => {
                if !self.good(a) || !self.good(b) || (self.prop == "C09") == matches!(self.t.enc[r][0], 6 | 11) {
                    return;
                }
                let Some(Ok(v)) = self.apply(op, a, b) else { return };
                if guarded(|| self.e.mask_diff(&v, self.t.den[r])) != Ok(0) {
                    return; // a defect of the operation, not of the iterator
                }
                match guarded(|| T::iterate(&v, self.prop, &self.lists[r])) {
                    Ok(None) => return,
                    Ok(Some(w)) => self.is("iterating the result", w.map(|_| true), true, a, name, ob),
                    Err(p) => self.is("iterating the result", Err(p), true, a, name, ob),
                }
            }
            p => panic!("unknown property {p}"),
        }
        case();
    }

    /// Facts about single values and pairs of values.
    fn values(&self) {
        for i in 1..self.t.enc.len() {
            let Some(v) = &self.canon[i] else { continue };
            if matches!(self.prop, "C02" | "C17") {
                let built = Ok(v.clone());
                self.members("value as constructed has wrong members", &built, self.t.den[i], i, "contains", None);
            }
            if !self.good(i) && self.prop != "C17" {
                continue;
            }
            match self.prop {
                "C04" => self.is("is_empty", guarded(|| v.is_empty()), self.t.empty[i], i, "is_empty", None),
                "C05" => {
                    for order in 1..8u64 {
                        let Ok(Some(w)) = guarded(|| self.e.build(&self.t.enc[i], order * 2654435761)) else { continue };
                        if let Some(eq) = w.same(v) {
                            self.is("same ranges united in another order differ", Ok(eq), true, i, "==", None);
                            self.is("same ranges united in another order hash differently",
                                Ok(w.hash_of() == v.hash_of()), true, i, "hash", None);
                        }
                    }
                    let once = v.clone().to_set();
                    if let Ok(twice) = guarded(|| v.clone().union(v.clone()).to_set()) {
                        if let Some(eq) = once.same(&twice) {
                            self.is("union with itself differs", Ok(eq), true, i, "union", Some(i));
                        }
                    }
                    for j in 1..self.t.enc.len() {
                        if self.t.enc[i][0] != self.t.enc[j][0] || self.t.den[i] == self.t.den[j] {
                            continue;
                        }
                        // different members: must not be equal (as long as T can tell)
                        let differ = (0..=2 * self.t.n).any(|p| {
                            (self.t.den[i] ^ self.t.den[j]) >> p & 1 == 1 && !self.e.probes(p).is_empty()
                        });
                        if let (true, Some(w)) = (differ, &self.canon[j]) {
                            if let Some(eq) = v.same(w) {
                                self.is("values with different members compare equal", Ok(eq), false, i, "==", Some(j));
                            }
                        }
                    }
                }
                "C17" => constructors(self, i, v),
                _ => {}
            }
        }
    }
}

/// The ways of writing the same value down.
fn constructors<T: Elem>(r: &Run<T>, i: usize, v: &V<T>) {
    use rangetools::*;
    let (e, enc, den) = (r.e, &r.t.enc[i], r.t.den[i]);
    let check = |what: &str, w: Result<V<T>, String>| r.members(what, &w, den, i, what, None);
    match v.clone() {
        V::R(x) => check("BoundedRange::from(Range)", guarded(|| V::BR(x.into()))),
        V::RI(x) => check("BoundedRange::from(RangeInclusive)", guarded(|| V::BR(x.into()))),
        V::RF(x) => check("LowerBoundedRange::from(RangeFrom)", guarded(|| V::LR(x.into()))),
        V::RT(x) => check("UpperBoundedRange::from(RangeTo)", guarded(|| V::UR(x.into()))),
        V::RTI(x) => check("UpperBoundedRange::from(RangeToInclusive)", guarded(|| V::UR(x.into()))),
        V::RFull(x) => check("UnboundedRange::from(RangeFull)", guarded(|| V::UB(x.into()))),
        V::UB(x) => {
            check("RangeFull::from(UnboundedRange)", guarded(|| V::RFull(x.into())));
            check("UnboundedSet::from(UnboundedRange)", guarded(|| V::XS(x.into())));
        }
        V::BR(x) => {
            check("BoundedSet::from(BoundedRange)", guarded(|| V::BS(x.into())));
            check("BoundedRange literal", guarded(|| V::BR(BoundedRange { start: e.lo(enc[1]), end: e.hi(enc[2]) })));
            // rebuilt from its own public parts
            check("BoundedRange from parts", guarded(|| {
                V::BR(BoundedRange::new(LowerBound::from(x.start.to_bound()), UpperBound::from(x.end.to_bound())))
            }));
        }
        V::LR(x) => {
            check("LowerBoundedSet::from(LowerBoundedRange)", guarded(|| V::LS(x.into())));
            check("LowerBoundedRange literal", guarded(|| V::LR(LowerBoundedRange { start: e.lo(enc[1]) })));
        }
        V::UR(x) => {
            check("UpperBoundedSet::from(UpperBoundedRange)", guarded(|| V::US(x.into())));
            check("UpperBoundedRange literal", guarded(|| V::UR(UpperBoundedRange { end: e.hi(enc[1]) })));
            // UnboundedSet::new with every tail
            for lo in 1..=2 * r.t.n as i64 {
                let w = guarded(|| V::XS(UnboundedSet::new(x, LowerBoundedRange::new(e.lo(lo)))));
                let want = den | (((1u64 << (2 * r.t.n + 1)) - 1) & !((1 << lo) - 1));
                r.members(&format!("UnboundedSet::new with tail {lo}"), &w, want, i, "UnboundedSet::new", None);
            }
        }
        V::EM(_) => {
            check("EmptyRange::default", guarded(|| V::EM(EmptyRange::new())));
            check("BoundedSet::empty", guarded(|| V::BS(BoundedSet::empty())));
        }
        _ => {}
    }
}

fn run_emb<T: Elem>(t: &'static Table, e: Emb<T>, prop: &str, order: u64)
where
    T: Send + Sync,
{
    let e: &'static Emb<T> = Box::leak(Box::new(e));
    describe_with(move |k| {
        let row = &t.rows[k as usize];
        format!("{} {:?} {} {} {}", e.name, e.pts, show(&t.enc[row.1 as usize]),
            OPS[row.0 as usize], show(&t.enc[row.2 as usize]))
    });
    let mut canon = vec![None];
    for enc in &t.enc[1..] {
        match guarded(|| e.build(enc, order)) {
            Ok(v) => canon.push(v),
            Err(p) => {
                if matches!(prop, "C02" | "C16" | "C17") {
                    violation(json!({"what": "panicked while building a value", "property": prop,
                        "embedding": e.name, "value": show(enc), "detail": p}));
                }
                canon.push(None);
            }
        }
    }
    let seen = canon
        .iter()
        .enumerate()
        .map(|(i, v)| match v {
            Some(v) => t.den[i] ^ guarded(|| e.mask_diff(v, t.den[i])).unwrap_or(u64::MAX),
            None => t.den[i],
        })
        .collect();
    let lists = if matches!(prop, "C06" | "C07" | "C08" | "C09") { listings(t, e) } else { vec![] };
    let run = Run { t, e, prop, canon, seen, lists };
    run.values();
    const CHUNK: usize = 4096;
    let run = &run;
    parallel(t.rows.len().div_ceil(CHUNK), move |c| {
        for k in c * CHUNK..((c + 1) * CHUNK).min(t.rows.len()) {
            if violations() > 200 {
                return;
            }
            let row = &t.rows[k];
            working_on(k as u64);
            run.row(*row);
        }
        done();
    });
    if let Some(row) = t.rows.get(t.rows.len() * 2 / 3) {
        sample(|| json!({
            "embedding": e.name, "points": format!("{:?}", e.pts),
            "receiver": show(&t.enc[row.1 as usize]), "call": OPS[row.0 as usize],
            "operand": show(&t.enc[row.2 as usize]), "result": show(&t.enc[row.3 as usize]),
            "real_result": format!("{:?}", run.apply(row.0, row.1 as usize, row.2 as usize)),
        }));
    }
}

/// What iterating each value must yield: the elements of T at its positions.
/// Lower-bounded values are cut off after twelve elements.
fn listings<T: Elem>(t: &Table, e: &Emb<T>) -> Vec<Vec<T>> {
    let mut all = T::universe();
    if all.is_empty() {
        // the points are consecutive in T; what the embedding knows of the gaps outside them is not
        all = e.pts.clone();
    }
    let at: Vec<(T, usize)> = all
        .iter()
        .map(|x| {
            let below = e.pts.iter().filter(|p| *p < x).count();
            (*x, 2 * below + e.pts.contains(x) as usize)
        })
        .collect();
    (0..t.enc.len())
        .map(|i| {
            let has = at.iter().filter(|(_, p)| t.den[i] >> p & 1 == 1).map(|x| x.0);
            match t.enc[i].first() {
                Some(6 | 11) => has.collect(),
                Some(7 | 12) => has.take(12).collect(),
                _ => vec![],
            }
        })
        .collect()
}

/// Iterate the result of every transition, on embeddings that leave no
/// unknown element between the points.
pub fn iterate(file: &str, prop: &str, n: usize, seed: u64) {
    let t: &'static Table = Box::leak(Box::new(load(file, n)));
    assert!(!t.rows.is_empty(), "no transitions");
    let mut rng = Rng::new(seed, 0x17E8A7E);
    for e in u8_embs(n, &mut rng, 0).into_iter().take(2) { run_emb(t, e, prop, seed); }
    for e in char_embs(n).into_iter().take(1) { run_emb(t, e, prop, seed + 7); }
}

pub fn main(file: &str, prop: &str, n: usize, seed: u64, thorough: bool) {
    let t: &'static Table = Box::leak(Box::new(load(file, n)));
    assert!(!t.rows.is_empty(), "no transitions");
    let mut rng = Rng::new(seed, 0xA16EB4A);
    let random = if thorough { 4 } else { 1 };
    let mut k = 0u64;
    let mut order = || { k += 1; seed.wrapping_mul(31).wrapping_add(k * 7919) };
    for e in u8_embs(n, &mut rng, random) { run_emb(t, e, prop, order()); }
    for e in dense_embs(n) { run_emb(t, e, prop, order()); }
    for e in i64_embs(n, &mut rng, random) { run_emb(t, e, prop, order()); }
    for e in char_embs(n).into_iter().take(if thorough { 9 } else { 1 }) { run_emb(t, e, prop, order()); }
    for e in str_embs(n) { run_emb(t, e, prop, order()); }
    if thorough {
        for e in i128_embs(n) { run_emb(t, e, prop, order()); }
        for e in reverse_embs(n) { run_emb(t, e, prop, order()); }
    }
}

/// C05, three operands: the laws of Laws.tla on the real values.  All triples
/// when there are few enough, otherwise `samples` random ones per embedding.
pub fn laws(file: &str, n: usize, seed: u64, samples: usize) {
    let t: &'static Table = Box::leak(Box::new(load(file, n)));
    let mut rng = Rng::new(seed, 0x1A35);
    fn go<T: Elem + Send + Sync>(t: &'static Table, e: Emb<T>, seed: u64, samples: usize) {
        let vals: Vec<V<T>> = t.enc[1..].iter().filter_map(|x| guarded(|| e.build(x, seed)).ok().flatten()).collect();
        let k = vals.len();
        let all = k * k * k <= samples;
        let total = if all { k * k * k } else { samples };
        const CHUNK: usize = 2000;
        let law = |what: &str, l: Result<V<T>, String>, r: Result<V<T>, String>, abc: [&V<T>; 3]| {
            eval(1);
            let (Ok(l), Ok(r)) = (l, r) else { return }; // panics are decided elsewhere
            let (Ok(l), Ok(r)) = (guarded(|| l.to_set()), guarded(|| r.to_set())) else { return };
            if l.same(&r) != Some(true) || l.hash_of() != r.hash_of() {
                violation(json!({"what": what, "property": "C05", "embedding": e.name,
                    "operands": format!("{abc:?}"), "left": format!("{l:?}"), "right": format!("{r:?}")}));
            }
        };
        parallel(total.div_ceil(CHUNK), |c| {
            let mut rng = Rng::new(seed, c as u64);
            for i in c * CHUNK..((c + 1) * CHUNK).min(total) {
                if violations() > 50 {
                    return;
                }
                let (x, y, z) = if all { (i / k / k, i / k % k, i % k) } else { (rng.below(k), rng.below(k), rng.below(k)) };
                let (a, b, d) = (&vals[x], &vals[y], &vals[z]);
                working_on(i as u64);
                case();
                let cl = |v: &V<T>| v.clone();
                law("union is not associative",
                    guarded(|| cl(a).union(cl(b)).union(cl(d))), guarded(|| cl(a).union(cl(b).union(cl(d)))), [a, b, d]);
                law("intersection is not associative",
                    guarded(|| cl(a).intersection(cl(b)).intersection(cl(d))),
                    guarded(|| cl(a).intersection(cl(b).intersection(cl(d)))), [a, b, d]);
                if !all || z == 0 {
                    law("union is not commutative", guarded(|| cl(a).union(cl(b))), guarded(|| cl(b).union(cl(a))), [a, b, a]);
                    law("intersection is not commutative",
                        guarded(|| cl(a).intersection(cl(b))), guarded(|| cl(b).intersection(cl(a))), [a, b, a]);
                    law("union is not idempotent",
                        guarded(|| cl(a).union(cl(b)).union(cl(b))), guarded(|| cl(a).union(cl(b))), [a, b, b]);
                    law("intersection is not idempotent",
                        guarded(|| cl(a).intersection(cl(b)).intersection(cl(b))),
                        guarded(|| cl(a).intersection(cl(b))), [a, b, b]);
                }
            }
            done();
        });
    }
    for e in dense_embs(n) { go(t, e, seed, samples); }
    for e in u8_embs(n, &mut rng, 1).into_iter().take(2) { go(t, e, seed, samples); }
    for e in i64_embs(n, &mut rng, 1).into_iter().take(1) { go(t, e, seed, samples); }
}
