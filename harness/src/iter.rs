//! spec -> code for the iterators: the product of the real iterator with the
//! specification's automaton, explored until no new pair appears.
use crate::report::*;
use crate::steps::*;
use crate::val::*;
use serde_json::json;
use std::collections::{HashMap, HashSet};

#[derive(Default)]
pub struct Auto {
    pub init: Vec<(u64, Vec<i64>)>,                     // remaining mask, encoded value
    pub step: HashMap<u64, Vec<(u8, usize, i64, u64)>>, // mask -> (op, arg, result, mask')
    pub obs: HashMap<u64, [i64; 4]>,                    // size, last, min, max
}

fn load(path: &str) -> Auto {
    let text = std::fs::read_to_string(path).expect("automaton file");
    let mut a = Auto::default();
    let mut t: HashSet<(u64, u8, usize, i64, u64)> = HashSet::new();
    let mut inits = HashSet::new();
    for line in text.lines() {
        let Some(body) = line.strip_prefix("<<").and_then(|l| l.strip_suffix(">>")) else { continue };
        let nums = |s: &str| -> Vec<i64> { s.split(", ").filter_map(|x| x.parse().ok()).collect() };
        if let Some(r) = body.strip_prefix("\"T\", ") {
            let f = nums(r);
            t.insert((f[0] as u64, f[1] as u8, f[2] as usize, f[3], f[4] as u64));
        } else if let Some(r) = body.strip_prefix("\"O\", ") {
            let f = nums(r);
            let o = [f[1], f[2], f[3], f[4]];
            assert_eq!(*a.obs.entry(f[0] as u64).or_insert(o), o, "observers not a function of what remains");
        } else if let Some(r) = body.strip_prefix("\"I\", ") {
            let (m, enc) = r.split_once(", \"").unwrap();
            let enc = nums(enc.trim_end_matches('"').trim_start_matches("<<").trim_end_matches(">>"));
            inits.insert((m.parse().unwrap(), enc));
        }
    }
    a.init = inits.into_iter().collect();
    a.init.sort();
    let mut t: Vec<_> = t.into_iter().collect();
    t.sort();
    for (m, op, n, res, m2) in t {
        a.step.entry(m).or_default().push((op, n, res, m2));
    }
    assert!(!a.init.is_empty() && !a.step.is_empty(), "empty automaton");
    a
}

const OPS: [&str; 4] = ["next", "next_back", "nth", "nth_back"];
const HUGE: usize = 1000;

struct Ctx<'a, T> {
    auto: &'a Auto,
    emb: &'a Emb<T>,
    prop: &'a str,
    profile: &'a str,
    hugest: Vec<usize>,
}

impl<'a, T: StepElem> Ctx<'a, T> {
    fn bad(&self, enc: &[i64], path: &[(u8, usize)], what: &str, detail: String) {
        let calls: Vec<String> = path
            .iter()
            .map(|(o, n)| if *o < 2 { OPS[*o as usize].into() } else { format!("{}({n})", OPS[*o as usize]) })
            .collect();
        violation(json!({
            "what": what, "property": self.prop, "profile": self.profile, "embedding": self.emb.name,
            "points": format!("{:?}", self.emb.pts), "value": crate::algebra::show(enc),
            "real": format!("{:?}", self.emb.build(enc, 0)), "calls": calls, "detail": detail,
        }));
    }
    fn val(&self, r: i64) -> Option<T> {
        (r >= 0).then(|| self.emb.pts[r as usize])
    }
    fn list(&self, mask: u64) -> Vec<T> {
        (0..self.emb.pts.len()).filter(|i| mask >> i & 1 == 1).map(|i| self.emb.pts[i]).collect()
    }
    fn args(&self, n: usize) -> Vec<usize> {
        if n == HUGE { self.hugest.clone() } else { vec![n] }
    }
    fn expect<R: PartialEq + std::fmt::Debug>(
        &self, enc: &[i64], path: &[(u8, usize)], what: &str, got: Result<R, String>, want: R,
    ) -> bool {
        eval(1);
        match got {
            Ok(g) if g == want => true,
            Ok(g) => {
                self.bad(enc, path, what, format!("got {g:?}, specification says {want:?}"));
                false
            }
            Err(p) => {
                self.bad(enc, path, what, format!("panicked: {p}"));
                false
            }
        }
    }
}

/// A path to a state, shared between its successors.
struct Link {
    up: Option<std::rc::Rc<Link>>,
    call: (u8, usize),
}
fn unwind(p: &Option<std::rc::Rc<Link>>) -> Vec<(u8, usize)> {
    let mut v = vec![];
    let mut p = p.clone();
    while let Some(l) = p {
        v.push(l.call);
        p = l.up.clone();
    }
    v.reverse();
    v
}

fn apply<T, I: DoubleEndedIterator<Item = T>>(it: &mut I, op: u8, n: usize) -> Option<T> {
    match op {
        0 => it.next(),
        1 => it.next_back(),
        2 => it.nth(n),
        _ => it.nth_back(n),
    }
}

/// Push, refusing to go on for ever.
fn capped<T>(mut v: Vec<T>, t: T, cap: usize) -> Vec<T> {
    v.push(t);
    assert!(v.len() <= cap, "does not end");
    v
}

/// Everything expected of a bounded iterator in one state.
fn observe<T, I>(c: &Ctx<T>, enc: &[i64], path: &[(u8, usize)], it: &I, mask: u64)
where
    T: StepElem,
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone + std::fmt::Debug,
{
    let list = c.list(mask);
    let k = list.len();
    let x = |what: &str, got: Result<Vec<T>, String>, want: Vec<T>| c.expect(enc, path, what, got, want);
    // every consumer is cut off just past the expected end: an iterator that
    // fails to stop must not hang the check
    let cap = k + 2;
    match c.prop {
        "C06" => {
            x("collect", guarded(|| it.clone().take(cap).collect()), list.clone());
            x("fold", guarded(|| {
                let mut v = vec![];
                let mut i = it.clone();
                i.try_fold((), |_, t| { v.push(t); if v.len() > cap { None } else { Some(()) } });
                v
            }), list.clone());
            x("for loop", guarded(|| {
                let mut v = vec![];
                for t in it.clone() { v.push(t); if v.len() > cap { break; } }
                v
            }), list.clone());
            c.expect(enc, path, "fused", guarded(|| {
                let mut i = it.clone();
                for _ in 0..k { i.next(); }
                (0..4).all(|_| i.next().is_none())
            }), true);
            x("step_by(2)", guarded(|| it.clone().step_by(2).take(cap).collect()), list.iter().copied().step_by(2).collect());
            // the provided methods of Iterator may be overridden too
            x("fold", guarded(|| it.clone().fold(vec![], |v, t| capped(v, t, cap))), list.clone());
            x("for_each", guarded(|| {
                let mut v = vec![];
                it.clone().for_each(|t| { v.push(t); assert!(v.len() <= cap, "does not end"); });
                v
            }), list.clone());
            if k > 0 {
                x("reduce", guarded(|| it.clone().map(|t| vec![t]).reduce(|mut a, b| { a.extend(b); a }).unwrap()), list.clone());
            }
            x("chain", guarded(|| it.clone().chain(it.clone()).take(2 * cap).collect()), [&list[..], &list[..]].concat());
            c.expect(enc, path, "eq", guarded(|| it.clone().eq(list.iter().copied())), true);
            c.expect(enc, path, "cmp", guarded(|| it.clone().cmp(list.iter().copied())), std::cmp::Ordering::Equal);
            c.expect(enc, path, "is_sorted", guarded(|| it.clone().is_sorted()), true);
            for (j, t) in list.iter().enumerate() {
                c.expect(enc, path, "position", guarded(|| it.clone().position(|u| u == *t)), Some(j));
                c.expect(enc, path, "find", guarded(|| it.clone().find(|u| u == t)), Some(*t));
            }
            c.expect(enc, path, "any", guarded(|| it.clone().any(|t| !list.contains(&t))), false);
            c.expect(enc, path, "all", guarded(|| it.clone().all(|t| list.contains(&t))), true);
            x("partition", guarded(|| it.clone().take(cap).partition::<Vec<T>, _>(|_| true).0), list.clone());
            x("peekable", guarded(|| {
                let mut i = it.clone().peekable();
                let mut v = vec![];
                while v.len() < cap {
                    let p = i.peek().copied();
                    let t = i.next();
                    assert!(p == t, "peek and next differ");
                    match t { Some(t) => v.push(t), None => break }
                }
                v
            }), list.clone());
        }
        "C07" => {
            let mut rev = list.clone();
            rev.reverse();
            x("rev", guarded(|| it.clone().rev().take(cap).collect()), rev.clone());
            // what is left from the front, however it is consumed
            x("rest", guarded(|| it.clone().take(cap).collect()), list.clone());
            x("rest by fold", guarded(|| it.clone().fold(vec![], |v, t| capped(v, t, cap))), list.clone());
            x("rest by try_fold", guarded(|| {
                let mut v = vec![];
                it.clone().try_for_each(|t| { v.push(t); if v.len() > cap { None } else { Some(()) } });
                v
            }), list.clone());
            x("rfold", guarded(|| {
                let mut v = vec![];
                let mut i = it.clone();
                i.try_rfold((), |_, t| { v.push(t); if v.len() > cap { None } else { Some(()) } });
                v
            }), rev.clone());
            x("rev.step_by(2)", guarded(|| it.clone().rev().step_by(2).take(cap).collect()), rev.iter().copied().step_by(2).collect());
            x("rev().fold", guarded(|| it.clone().rev().fold(vec![], |v, t| capped(v, t, cap))), rev.clone());
            x("rfold", guarded(|| it.clone().rfold(vec![], |v, t| capped(v, t, cap))), rev.clone());
            for (j, t) in list.iter().enumerate() {
                c.expect(enc, path, "rfind", guarded(|| it.clone().rfind(|u| u == t)), Some(*t));
                c.expect(enc, path, "rposition", guarded(|| it.clone().rposition(|u| u == *t)), Some(j));
            }
            for s in 0..=k {
                x("skip", guarded(|| it.clone().skip(s).take(cap).collect()), list[s..].to_vec());
            }
            // meeting in the middle
            x("alternating ends", guarded(|| {
                let mut i = it.clone();
                let (mut a, mut b) = (vec![], vec![]);
                for _ in 0..cap {
                    if let Some(t) = i.next() { a.push(t); }
                    if let Some(t) = i.next_back() { b.push(t); }
                }
                b.reverse();
                a.extend(b);
                a
            }), list.clone());
        }
        "C08" => {
            let Some(o) = c.auto.obs.get(&mask) else { panic!("no observers for {mask}") };
            let n = o[0] as usize;
            c.expect(enc, path, "size_hint", guarded(|| it.size_hint()), (n, Some(n)));
            c.expect(enc, path, "len", guarded(|| it.len()), n);
            c.expect(enc, path, "count", guarded(|| it.clone().count()), n);
            c.expect(enc, path, "last", guarded(|| it.clone().last()), c.val(o[1]));
            c.expect(enc, path, "min", guarded(|| it.clone().min()), c.val(o[2]));
            c.expect(enc, path, "max", guarded(|| it.clone().max()), c.val(o[3]));
            c.expect(enc, path, "rev().last", guarded(|| it.clone().rev().last()), c.val(o[2]));
            for t in list.iter() {
                c.expect(enc, path, "max_by_key", guarded(|| it.clone().max_by_key(|u| (u == t, *u))), Some(*t));
                c.expect(enc, path, "min_by_key", guarded(|| it.clone().min_by_key(|u| (u != t, *u))), Some(*t));
            }
            c.expect(enc, path, "rev().size_hint", guarded(|| it.clone().rev().size_hint()), (n, Some(n)));
        }
        _ => {}
    }
}

fn product<T, I>(c: &Ctx<T>, inits: &[(u64, &Vec<i64>, I)], id: u64)
where
    T: StepElem,
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone + std::fmt::Debug,
{
    let mut seen: HashSet<(String, u64)> = HashSet::new();
    for (k, (mask0, enc, it0)) in inits.iter().enumerate() {
        // the last component counts the calls since exhaustion: an exhausted
        // iterator may go on changing internally for ever
        let mut stack: Vec<(I, u64, Option<std::rc::Rc<Link>>, u32)> = vec![(it0.clone(), *mask0, None, 0)];
        while let Some((it, mask, path, dead)) = stack.pop() {
            if violations() > 50 {
                return;
            }
            let Ok(key) = guarded(|| format!("{it:?}")) else { continue };
            if !seen.insert((key, mask)) {
                continue;
            }
            working_on(id + k as u64);
            case();
            observe(c, enc, &unwind(&path), &it, mask);
            for (op, n, res, mask2) in &c.auto.step[&mask] {
                for n in c.args(*n) {
                    let call = (*op, n);
                    let mut next = it.clone();
                    let full = || { let mut p = unwind(&path); p.push(call); p };
                    let r = guarded(|| apply(&mut next, *op, n));
                    let ok = match c.prop {
                        "C06" if *op == 0 => c.expect(enc, &full(), "result of next", r, c.val(*res)),
                        "C07" => {
                            let ok = c.expect(enc, &full(), "result of the last call", r, c.val(*res));
                            // the clone moved, the original did not
                            let rest = c.list(mask);
                            let cap = rest.len() + 2;
                            if n < 3 {
                                c.expect(enc, &unwind(&path), "rest after its clone was advanced",
                                    guarded(|| it.clone().take(cap).collect::<Vec<_>>()), rest);
                            }
                            ok
                        }
                        _ => r == Ok(c.val(*res)),
                    };
                    if ok && (*mask2 != 0 || dead < 2) {
                        let dead = if *mask2 == 0 { dead + 1 } else { 0 };
                        stack.push((next, *mask2, Some(std::rc::Rc::new(Link { up: path.clone(), call })), dead));
                    }
                }
            }
        }
    }
    // long random walks, not relying on Debug to tell states apart
    let mut rng = Rng::new(id, 0x17E6);
    for (mask0, enc, it0) in inits.iter().step_by(7) {
        let (mut it, mut mask) = (it0.clone(), *mask0);
        let mut path = vec![];
        for _ in 0..14 {
            let moves = &c.auto.step[&mask];
            let (op, n, res, m2) = moves[rng.below(moves.len())];
            if n > 1 && rng.chance(2, 3) {
                continue;
            }
            let n = *c.args(n).last().unwrap();
            path.push((op, n));
            let r = guarded(|| apply(&mut it, op, n));
            if c.prop == "C07" || (c.prop == "C06" && path.iter().all(|p| p.0 == 0)) {
                if !c.expect(enc, &path, "result of the last call", r, c.val(res)) {
                    break;
                }
            } else if r != Ok(c.val(res)) {
                break;
            }
            mask = m2;
            if c.prop == "C08" {
                observe(c, enc, &path, &it, mask);
            }
        }
        case();
    }
}

fn bounded<T: StepElem>(auto: &'static Auto, prop: &str, profile: &str, n: usize, base: u128, id: u64)
{
    let pts: Vec<T> = (0..n as u128).map(|i| T::of_rank(base + i)).collect();
    let emb = Emb { name: format!("{} from {:?}", T::NAME, pts[0]), gaps: vec![vec![]; n + 1], pts };
    let mut hugest = vec![n + 2, 255, 256, 65536, 1 << 32, (1 << 32) + 1, usize::MAX / 2 + 1, usize::MAX];
    hugest.retain(|h| *h > n);
    let c = Ctx { auto, emb: &emb, prop, profile, hugest };
    let mut ranges = vec![];
    let mut sets = vec![];
    for (k, (mask, enc)) in auto.init.iter().enumerate() {
        working_on(id + k as u64);
        // an operand that cannot be built as specified is C02's or C17's affair
        let Ok(Some(v)) = guarded(|| emb.build(enc, k as u64 * 7919)) else { continue };
        let fine = guarded(|| (0..n).all(|i| v.contains(emb.pts[i]) == (mask >> i & 1 == 1)));
        if fine != Ok(true) {
            continue;
        }
        match v {
            V::BR(r) => match guarded(|| r.into_iter()) {
                Ok(i) => ranges.push((*mask, enc, i)),
                Err(p) => c.bad(enc, &[], "into_iter panicked", p),
            },
            V::BS(s) => match guarded(|| s.into_iter()) {
                Ok(i) => sets.push((*mask, enc, i)),
                Err(p) => c.bad(enc, &[], "into_iter panicked", p),
            },
            _ => unreachable!(),
        }
    }
    product(&c, &ranges, id);
    product(&c, &sets, id);
    sample(|| json!({"embedding": emb.name, "ranges": ranges.len(), "sets": sets.len(),
        "example": format!("{:?}", emb.build(&auto.init[auto.init.len() * 3 / 4].1, 0)),
        "remaining": format!("{:?}", c.list(auto.init[auto.init.len() * 3 / 4].0))}));
    done();
}

// ------------------------------------------------------------ lower bounded
fn lower_product<T, I>(c: &Ctx<T>, inits: &[(u64, &Vec<i64>, I)], id: u64)
where
    T: StepElem,
    I: Iterator<Item = T> + Clone + std::fmt::Debug,
{
    let mut seen: HashSet<(String, u64)> = HashSet::new();
    for (k, (mask0, enc, it0)) in inits.iter().enumerate() {
        let mut stack: Vec<(I, u64, Option<std::rc::Rc<Link>>)> = vec![(it0.clone(), *mask0, None)];
        while let Some((it, mask, path)) = stack.pop() {
            if violations() > 50 {
                return;
            }
            let Ok(key) = guarded(|| format!("{it:?}")) else { continue };
            if !seen.insert((key, mask)) {
                continue;
            }
            working_on(id + k as u64);
            case();
            let list = c.list(mask);
            let n = list.len();
            let p = unwind(&path);
            if c.prop == "C08" {
                c.expect(enc, &p, "size_hint().1", guarded(|| it.size_hint().1), None);
                continue;
            }
            c.expect(enc, &p, "take(n).collect", guarded(|| it.clone().take(n).collect::<Vec<_>>()), list.clone());
            c.expect(enc, &p, "zip", guarded(|| it.clone().zip(0..n).map(|x| x.0).take(n).collect::<Vec<_>>()), list.clone());
            c.expect(enc, &p, "step_by(2)", guarded(|| it.clone().step_by(2).take(n.div_ceil(2)).collect::<Vec<_>>()),
                list.iter().copied().step_by(2).collect());
            for s in 0..n {
                c.expect(enc, &p, "skip.next", guarded(|| it.clone().skip(s).next()), Some(list[s]));
                c.expect(enc, &p, "by_ref().nth twice", guarded(|| {
                    let mut i = it.clone();
                    let a = i.nth(s);
                    (a, if s + 1 < n { i.nth(0) } else { None })
                }), (Some(list[s]), list.get(s + 1).copied()));
            }
            if n > 0 {
                c.expect(enc, &p, "min", guarded(|| it.clone().min()), Some(list[0]));
            }
            for (op, n, res, mask2) in c.auto.step.get(&mask).map(|v| &v[..]).unwrap_or(&[]) {
                let mut next = it.clone();
                let r = guarded(|| if *op == 0 { next.next() } else { next.nth(*n) });
                let mut full = unwind(&path);
                full.push((*op, *n));
                if c.expect(enc, &full, "result of the last call", r, c.val(*res)) {
                    stack.push((next, *mask2, Some(std::rc::Rc::new(Link { up: path.clone(), call: (*op, *n) }))));
                }
            }
        }
    }
}

fn lower<T: StepElem>(auto: &'static Auto, prop: &str, profile: &str, n: usize, horizon: usize, base: u128, id: u64) {
    let pts: Vec<T> = (0..horizon as u128).map(|i| T::of_rank(base + i)).collect();
    let all = Emb { name: format!("{} from {:?}", T::NAME, pts[0]), gaps: vec![vec![]; horizon + 1], pts };
    let c = Ctx { auto, emb: &all, prop, profile, hugest: vec![] };
    let (mut ranges, mut sets) = (vec![], vec![]);
    for (k, (mask, enc)) in auto.init.iter().enumerate() {
        working_on(id + k as u64);
        let Ok(Some(v)) = guarded(|| all.build(enc, k as u64 * 104729)) else { continue };
        let fine = guarded(|| (0..horizon).all(|i| v.contains(all.pts[i]) == (mask >> i & 1 == 1)));
        if fine != Ok(true) {
            continue;
        }
        match v {
            V::LR(r) => match guarded(|| r.into_iter()) {
                Ok(i) => ranges.push((*mask, enc, i)),
                Err(p) => c.bad(enc, &[], "into_iter panicked", p),
            },
            V::LS(s) => match guarded(|| s.into_iter()) {
                Ok(i) => sets.push((*mask, enc, i)),
                Err(p) => c.bad(enc, &[], "into_iter panicked", p),
            },
            _ => unreachable!(),
        }
    }
    let _ = n;
    lower_product(&c, &ranges, id);
    lower_product(&c, &sets, id);
    sample(|| json!({"embedding": all.name, "ranges": ranges.len(), "sets": sets.len(),
        "example": format!("{:?}", all.build(&auto.init[auto.init.len() / 2].1, 0)),
        "first values": format!("{:?}", c.list(auto.init[auto.init.len() / 2].0))}));
    done();
}

type Job = Box<dyn Fn() + Send + Sync>;

pub fn main(file: &str, prop: &str, n: usize, horizon: usize, thorough: bool) {
    let auto: &'static Auto = Box::leak(Box::new(load(file)));
    let profile: &'static str = if cfg!(debug_assertions) { "dev" } else { "release" };
    let prop: &'static str = Box::leak(prop.to_string().into_boxed_str());
    let mut jobs: Vec<Job> = vec![];
    let mut names: Vec<String> = vec![];
    macro_rules! each_type {
        ($($t:ty),*) => { $( {
            let width = if horizon > 0 { horizon } else { n } as u128;
            let top = <$t as StepElem>::max_rank();
            if width - 1 <= top {
                for base in bases::<$t>(width, top, thorough) {
                    let id = (jobs.len() as u64) << 32;
                    names.push(format!("{} rank {base}", <$t as Elem>::NAME));
                    jobs.push(Box::new(move || {
                        if horizon > 0 {
                            lower::<$t>(auto, prop, profile, n, horizon, base, id)
                        } else {
                            bounded::<$t>(auto, prop, profile, n, base, id)
                        }
                    }));
                }
            }
        } )* };
    }
    each_type!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, char, Day, Down);
    let total = jobs.len();
    describe_with(move |k| {
        let (e, v) = ((k >> 32) as usize, (k & 0xFFFF_FFFF) as usize);
        format!("{} {}", names.get(e).cloned().unwrap_or_default(),
            auto.init.get(v).map(|i| crate::algebra::show(&i.1)).unwrap_or_default())
    });
    parallel(total, |j| jobs[j]());
}
