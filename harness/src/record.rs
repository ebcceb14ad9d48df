//! code -> spec: run random histories of set-algebra calls on the real types
//! and record what was observed, for validation by AlgebraTrace.tla.
use crate::elem::*;
use crate::report::*;
use crate::val::*;
use serde_json::{json, Value};
use std::io::Write;

const REGS: usize = 8;

fn random_pieces(rng: &mut Rng, first: i64, last: i64, density: usize) -> Vec<i64> {
    let mut out = vec![];
    let mut p = first;
    while p <= last {
        if rng.chance(density, 10) {
            let max = (last - p + 1).min(1 + rng.below(4) as i64);
            let h = p + rng.below(max as usize) as i64;
            out.extend([p, h]);
            p = h + 1;
            if rng.chance(1, 2) {
                p += 1 + rng.below(2) as i64;
            }
        } else {
            p += 1 + rng.below(3) as i64;
        }
    }
    out
}

/// A random value in the specification's encoding over n points.
pub fn random_enc(rng: &mut Rng, n: usize) -> Vec<i64> {
    let n = n as i64;
    let top = 2 * n - 1;
    let pt = |rng: &mut Rng| rng.below(n as usize) as i64;
    let lo = |rng: &mut Rng| 1 + rng.below(2 * n as usize) as i64;
    let hi = |rng: &mut Rng| rng.below(2 * n as usize) as i64;
    let near = |rng: &mut Rng, a: i64| (a + rng.below(4) as i64).min(n - 1);
    match rng.below(24) {
        0 => { let s = pt(rng); vec![0, s, near(rng, s)] }
        1 => { let s = pt(rng); vec![1, s, near(rng, s), 0] }
        2 => vec![0, pt(rng), pt(rng)],
        3 => vec![1, pt(rng), pt(rng), 0],
        4 => vec![2, pt(rng)],
        5 => vec![3, pt(rng)],
        6 => vec![4, pt(rng)],
        7 => if rng.chance(1, 4) { vec![5] } else { vec![6, lo(rng), hi(rng)] },
        8 => { let s = lo(rng); vec![6, s, (s + rng.below(4) as i64).min(top)] }
        9 => vec![6, lo(rng), hi(rng)],
        10 => vec![7, lo(rng)],
        11 => vec![8, hi(rng)],
        12 => vec![if rng.chance(1, 2) { 9 } else { 10 }],
        13..=15 => {
            let d = 2 + rng.below(9);
            let mut v = vec![11];
            v.extend(random_pieces(rng, 1, top, d));
            v
        }
        16..=18 => {
            let l = if rng.chance(2, 3) { (n + rng.below(n as usize + 1) as i64).max(1) } else { lo(rng) };
            let d = 2 + rng.below(9);
            let mut v = vec![12, l];
            v.extend(random_pieces(rng, 1, (l - 1).min(top), d));
            v
        }
        19..=20 => {
            let h = if rng.chance(2, 3) { rng.below(n as usize) as i64 } else { hi(rng) };
            let d = 2 + rng.below(9);
            let mut v = vec![13, h];
            v.extend(random_pieces(rng, (h + 1).max(1), top, d));
            v
        }
        _ => {
            if rng.chance(1, 12) {
                return vec![14];
            }
            let h = rng.below(n as usize) as i64;
            let l = (h + 1 + rng.below((2 * n - h) as usize) as i64).min(2 * n);
            let d = 2 + rng.below(9);
            let mut v = vec![14, h, l];
            v.extend(random_pieces(rng, (h + 1).max(1), (l - 1).min(top), d));
            v
        }
    }
}

/// What iterating the value yields, as points (-1: not a point, -2: never
/// ended), on embeddings that put the points next to each other in T.
fn listed<T: Elem>(e: &Emb<T>, v: &V<T>, members: usize) -> Value {
    let none = json!({"on": 0});
    if !e.name.contains("tight") && !e.name.contains("surrogate") {
        return none;
    }
    let at = |t: T| e.pts.binary_search(&t).map_or(-1, |i| i as i64);
    let bounded = matches!(v, V::BR(_) | V::BS(_));
    let r = guarded(|| T::ends(v, members, bounded));
    match r {
        Ok(None) => none,
        Err(p) => json!({"on": 2, "panic": p}),
        Ok(Some((fwd, back, both, size, last))) => json!({
            "on": 1,
            "fwd": fwd.into_iter().map(at).collect::<Vec<_>>(),
            "back": back.into_iter().map(at).collect::<Vec<_>>(),
            "both": both.into_iter().map(at).collect::<Vec<_>>(),
            "size": size.map_or(-1, |s| s.min(1 << 20) as i64),
            "last": last.map_or(-1, at),
        }),
    }
}

fn history<T: Elem>(e: &Emb<T>, rng: &mut Rng, len: usize, focus: &str, id: u64) -> Value {
    let n = e.pts.len();
    let probed: Vec<usize> = (0..=2 * n).filter(|p| !e.probes(*p).is_empty()).collect();
    let mut regs: Vec<V<T>> = (0..REGS).map(|_| V::EM(rangetools::EmptyRange::new())).collect();
    let mut ev: Vec<Value> = vec![];
    for step in 0..len {
        working_on(id * 1000 + step as u64);
        let (dst, a, b) = (rng.below(REGS), rng.below(REGS), rng.below(REGS));
        let op = if step < 5 {
            "make"
        } else if rng.chance(1, 3) && !focus.is_empty() {
            focus
        } else {
            ["make", "make", "make", "union", "union", "union", "intersection", "intersection",
             "intersection", "complement", "to_set", "to_inner", "reload", "disjoint", "intersects"][rng.below(15)]
        };
        if op == "disjoint" || op == "intersects" {
            let (x, y) = (regs[a].clone(), regs[b].clone());
            let r = guarded(|| if op == "disjoint" { x.disjoint(y) } else { x.intersects(y) });
            case();
            eval(1);
            ev.push(json!({"op": op, "a": a + 1, "b": b + 1, "ok": r.is_ok() as u8, "res": *r.as_ref().unwrap_or(&false) as u8}));
            if r.is_err() {
                break;
            }
            continue;
        }
        let mut enc = vec![];
        let (x, y) = (regs[a].clone(), regs[b].clone());
        let operands = (op == "union" || op == "intersection").then(|| (x.clone(), y.clone()));
        let order = rng.next();
        let r = match op {
            "make" => {
                enc = random_enc(rng, n);
                guarded(|| e.build(&enc, order).unwrap())
            }
            "union" => guarded(|| x.union(y)),
            "intersection" => guarded(|| x.intersection(y)),
            "complement" => guarded(|| x.complement()),
            "to_set" => guarded(|| x.to_set()),
            "to_inner" => guarded(|| x.to_inner()),
            "reload" => match T::reload(&x, rng.below(FORMATS.len())) {
                None => continue,
                Some(r) => r,
            },
            _ => unreachable!(),
        };
        case();
        eval(1);
        let mut rec = json!({"op": op, "dst": dst + 1});
        if op == "make" {
            rec["enc"] = json!(enc);
        } else {
            rec["a"] = json!(a + 1);
            if op == "union" || op == "intersection" {
                rec["b"] = json!(b + 1);
            }
        }
        let seen = r.and_then(|v| {
            guarded(|| {
                let has: Vec<usize> = probed
                    .iter()
                    .copied()
                    .filter(|p| {
                        let c: Vec<bool> = e.probes(*p).iter().map(|t| v.contains(*t)).collect();
                        assert!(c.iter().all(|x| *x == c[0]), "contains differs inside one gap");
                        c[0]
                    })
                    .collect();
                let (mut eq, mut ne, mut hd) = (vec![], vec![], vec![]);
                for (j, w) in regs.iter().enumerate() {
                    match v.same(w) {
                        Some(true) => {
                            eq.push(j + 1);
                            if v.hash_of() != w.hash_of() {
                                hd.push(j + 1);
                            }
                        }
                        Some(false) => ne.push(j + 1),
                        None => {}
                    }
                }
                // the same operands the other way round, and one of them once more
                let law = operands.as_ref().map_or(true, |(x, y)| {
                    let (x, y, z) = (x.clone(), y.clone(), v.clone());
                    let (there, back, again) = if op == "union" {
                        (v.clone().to_set(), y.clone().union(x).to_set(), z.union(y).to_set())
                    } else {
                        (v.clone().to_set(), y.clone().intersection(x).to_set(), z.intersection(y).to_set())
                    };
                    [back, again].iter().all(|w| there.same(w) == Some(true) && there.hash_of() == w.hash_of())
                });
                let empty = v.is_empty();
                // iterating a bounded result returns (its values are decided elsewhere)
                let it = guarded(|| matches!(v, V::BR(_) | V::BS(_)).then(|| T::listing(&v, 40)));
                let points = has.iter().filter(|p| *p % 2 == 1).count();
                let list = listed(e, &v, points);
                (v, has, eq, ne, hd, empty, it.is_ok(), list, law)
            })
        });
        match seen {
            Ok((v, has, eq, ne, hd, empty, it, list, law)) => {
                rec["law"] = json!(law as u8);
                rec["list"] = list;
                rec["it"] = json!(it as u8);
                rec["ok"] = json!(1);
                rec["kind"] = json!(v.kind());
                rec["has"] = json!(has);
                rec["empty"] = json!(empty as u8);
                rec["eq"] = json!(eq);
                rec["ne"] = json!(ne);
                rec["hd"] = json!(hd);
                // the register goes on with the value itself or with a copy made in place
                let mut kept = std::mem::replace(&mut regs[dst], V::EM(rangetools::EmptyRange::new()));
                let copied = step % 2 == 0 && guarded(|| kept.assign(&v)).is_ok();
                if copied && kept.same(&v) == Some(false) {
                    rec["law"] = json!(0);
                }
                ev.push(rec);
                regs[dst] = if copied { kept } else { v };
            }
            Err(p) => {
                rec["ok"] = json!(0);
                rec["list"] = json!({"on": 0});
                rec["panic"] = json!(p);
                rec["has"] = json!([]);
                rec["kind"] = json!(0);
                rec["law"] = json!(1);
                rec["it"] = json!(0);
                rec["empty"] = json!(0);
                for k in ["eq", "ne", "hd"] {
                    rec[k] = json!([]);
                }
                ev.push(rec);
                break;
            }
        }
    }
    done();
    json!({"emb": e.name, "pts": format!("{:?}", e.pts), "probed": probed, "ev": ev})
}

pub fn main(path: &str, n: usize, chunks: usize, len: usize, focus: &str, seed: u64, tight: bool) {
    let mut embs_rng = Rng::new(seed, 77);
    let big = n > 120; // beyond what char and u8 have room for around the points
    let (u, d, i, c, s, r, w) = (
        if big { vec![] } else { u8_embs(n, &mut embs_rng, 4) },
        dense_embs(n),
        i64_embs(n, &mut embs_rng, 4),
        if big { vec![] } else { char_embs(n) },
        if n <= 25 { str_embs(n) } else { vec![] },
        reverse_embs(n),
        i128_embs(n),
    );
    let (tight_i, tight_u) = tight_embs(n);
    let out = std::sync::Mutex::new(vec![Value::Null; chunks]);
    parallel(chunks, |k| {
        let mut rng = Rng::new(seed, 0x7EC0 + k as u64);
        let id = k as u64;
        let v = match if big && tight { 8 + k % 2 } else if big { [1, 3, 6, 7][k % 4] } else if tight { [0, 0, 4][k % 3] } else { k % 8 } {
            8 => history(&tight_i[0], &mut rng, len, focus, id),
            9 => history(&tight_u[0], &mut rng, len, focus, id),
            0 if tight => history(&u[rng.below(2)], &mut rng, len, focus, id),
            4 if tight => history(&c[0], &mut rng, len, focus, id),
            0 => history(&u[rng.below(u.len())], &mut rng, len, focus, id),
            1 | 2 => history(&d[0], &mut rng, len, focus, id),
            3 => history(&i[rng.below(i.len())], &mut rng, len, focus, id),
            4 => history(&c[rng.below(c.len())], &mut rng, len, focus, id),
            5 if !s.is_empty() => history(&s[0], &mut rng, len, focus, id),
            6 => history(&r[0], &mut rng, len, focus, id),
            _ => history(&w[0], &mut rng, len, focus, id),
        };
        out.lock().unwrap()[k] = v;
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for v in out.into_inner().unwrap() {
        writeln!(f, "{v}").unwrap();
    }
}
