//! spec -> code for indexing (Index.tla): every read and write of the
//! specification on the real containers, judged by the place and the content
//! that is handed out.
use crate::report::*;
use rangetools::*;
use serde_json::json;
use std::ffi::{CStr, CString, OsString};
use std::ops::{Index, IndexMut};

#[derive(Clone)]
struct Row {
    write: bool,
    len: usize,
    cuts: u64,
    kind: String,
    f: [i64; 4],
    sel: Option<(usize, usize)>,
}

fn load(path: &str) -> Vec<Row> {
    let text = std::fs::read_to_string(path).expect("index rows");
    let mut lines: Vec<&str> = text.lines().filter(|l| l.starts_with("<<\"X\"")).collect();
    lines.sort();
    lines.dedup();
    assert!(!lines.is_empty(), "no index rows");
    lines
        .into_iter()
        .map(|l| {
            let x: Vec<&str> = l.trim_start_matches("<<").trim_end_matches(">>").split(", ").collect();
            let n = |i: usize| x[i].parse::<i64>().unwrap();
            Row {
                write: n(1) == 1,
                len: n(2) as usize,
                cuts: n(3) as u64,
                kind: x[4].trim_matches('"').to_string(),
                f: [n(5), n(6), n(7), n(8)],
                sel: (n(9) >= 0).then(|| (n(9) as usize, n(10) as usize)),
            }
        })
        .collect()
}

#[derive(Clone, Copy, Debug)]
enum Ix {
    B(BoundedRange<usize>),
    L(LowerBoundedRange<usize>),
    U(UpperBoundedRange<usize>),
    F(UnboundedRange),
    E,
}

fn ix(r: &Row, max_len: usize, beyond: usize) -> Ix {
    let m = max_len as i64 + 3;
    let at = |v: i64| {
        if v == m { usize::MAX } else if v == m - 1 { usize::MAX - 1 } else if v == m - 2 { beyond } else { v as usize }
    };
    let lo = || if r.f[0] == 1 { LowerBound::included(at(r.f[1])) } else { LowerBound::excluded(at(r.f[1])) };
    let hi = || if r.f[2] == 1 { UpperBound::included(at(r.f[3])) } else { UpperBound::excluded(at(r.f[3])) };
    match r.kind.as_str() {
        "BoundedRange" => Ix::B(BoundedRange::new(lo(), hi())),
        "LowerBoundedRange" => Ix::L(LowerBoundedRange::new(lo())),
        "UpperBoundedRange" => Ix::U(UpperBoundedRange::new(hi())),
        "UnboundedRange" => Ix::F(UnboundedRange::new()),
        "EmptyRange" => Ix::E,
        k => panic!("{k}"),
    }
}

/// Containers offering all five kinds for reading and four for writing.
fn get<C: ?Sized, O: ?Sized>(c: &C, i: Ix) -> &O
where
    C: Index<BoundedRange<usize>, Output = O>
        + Index<LowerBoundedRange<usize>, Output = O>
        + Index<UpperBoundedRange<usize>, Output = O>
        + Index<UnboundedRange, Output = O>
        + Index<EmptyRange<usize>, Output = O>,
{
    match i {
        Ix::B(r) => &c[r],
        Ix::L(r) => &c[r],
        Ix::U(r) => &c[r],
        Ix::F(r) => &c[r],
        Ix::E => &c[EmptyRange::new()],
    }
}
fn get_mut<C: ?Sized, O: ?Sized>(c: &mut C, i: Ix) -> &mut O
where
    C: IndexMut<BoundedRange<usize>, Output = O>
        + IndexMut<LowerBoundedRange<usize>, Output = O>
        + IndexMut<UpperBoundedRange<usize>, Output = O>
        + IndexMut<UnboundedRange, Output = O>,
{
    match i {
        Ix::B(r) => &mut c[r],
        Ix::L(r) => &mut c[r],
        Ix::U(r) => &mut c[r],
        Ix::F(r) => &mut c[r],
        Ix::E => unreachable!("EmptyRange is not offered for writing"),
    }
}

fn judge(what: &str, r: &Row, i: Ix, got: Result<(usize, usize), String>) {
    eval(1);
    let bad = |d: String| {
        violation(json!({
            "what": "indexing selects something else", "container": what, "write": r.write, "len": r.len,
            "cuts": format!("{:b}", r.cuts), "range": format!("{i:?}"), "specification": format!("{:?}", r.sel),
            "got": d, "profile": if cfg!(debug_assertions) { "dev" } else { "release" },
        }))
    };
    match (got, r.sel) {
        (Err(_), None) => {}
        (Err(p), Some(_)) => bad(format!("panicked: {p}")),
        (Ok(g), None) => bad(format!("{g:?} instead of a panic")),
        // where nothing is selected it does not matter from where
        (Ok((_, 0)), Some((s, e))) if s == e => {}
        (Ok((at, len)), Some((s, e))) => {
            if (at, len) != (s, e - s) {
                bad(format!("elements {at}..{}", at.wrapping_add(len)));
            }
        }
    }
}
fn content(what: &str, r: &Row, i: Ix, same: bool, got: String) {
    eval(1);
    if !same {
        violation(json!({
            "what": "contents wrong after indexing", "container": what, "write": r.write, "len": r.len,
            "cuts": format!("{:b}", r.cuts), "range": format!("{i:?}"), "specification": format!("{:?}", r.sel), "got": got,
        }));
    }
}
fn offset<A>(base: *const A, at: *const A) -> usize {
    (at as usize).wrapping_sub(base as usize) / std::mem::size_of::<A>().max(1)
}

/// Slices and vectors of an element type.
fn slices<A: Clone + PartialEq + std::fmt::Debug>(r: &Row, i: Ix, mk: impl Fn(usize) -> A, mark: A, name: &str) {
    let fresh: Vec<A> = (0..r.len).map(mk).collect();
    let (vname, sname) = (format!("Vec<{name}>"), format!("[{name}]"));
    if !r.write {
        let v = fresh.clone();
        judge(&vname, r, i, guarded(|| {
            let s: &[A] = get(&v, i);
            (offset(v.as_ptr(), s.as_ptr()), s.len())
        }));
        let sl: &[A] = &v;
        judge(&sname, r, i, guarded(|| {
            let s: &[A] = get(sl, i);
            (offset(sl.as_ptr(), s.as_ptr()), s.len())
        }));
        if let (Some((a, b)), Ok(s)) = (r.sel, guarded(|| get::<Vec<A>, [A]>(&v, i).to_vec())) {
            content(&vname, r, i, s == fresh[a..b], format!("{s:?}"));
        }
        return;
    }
    let want = {
        let mut w = fresh.clone();
        if let Some((s, e)) = r.sel {
            w[s..e].fill(mark.clone());
        }
        w
    };
    let mut v = fresh.clone();
    let base = v.as_ptr();
    judge(&vname, r, i, guarded(|| {
        let s: &mut [A] = get_mut(&mut v, i);
        s.fill(mark.clone());
        (offset(base, s.as_ptr()), s.len())
    }));
    content(&vname, r, i, v == want, format!("{v:?}"));
    let mut v = fresh.clone();
    let sl: &mut [A] = &mut v;
    let base = sl.as_ptr();
    judge(&sname, r, i, guarded(|| {
        let s: &mut [A] = get_mut(sl, i);
        s.fill(mark.clone());
        (offset(base, s.as_ptr()), s.len())
    }));
    content(&sname, r, i, v == want, format!("{v:?}"));
}

/// A string whose character boundaries are exactly `cuts`.
fn text(len: usize, cuts: u64, flavour: usize) -> String {
    let sets = [['a', 'é', '€', '𝄞'], ['z', 'ÿ', '\u{FFFD}', '\u{10FFFF}'], ['\u{7f}', '\u{80}', '\u{800}', '\u{10000}']];
    let mut s = String::new();
    let mut at = 0;
    while at < len {
        let next = (at + 1..=len).find(|p| cuts >> p & 1 == 1).unwrap();
        s.push(sets[flavour][next - at - 1]);
        at = next;
    }
    assert_eq!(s.len(), len);
    assert!((0..=len).all(|p| s.is_char_boundary(p) == (cuts >> p & 1 == 1)));
    s
}

fn strings(r: &Row, i: Ix, flavour: usize) {
    let fresh = text(r.len, r.cuts, flavour);
    if !r.write {
        let v = fresh.clone();
        judge("String", r, i, guarded(|| {
            let s: &str = get(&v, i);
            (offset(v.as_ptr(), s.as_ptr()), s.len())
        }));
        let sl: &str = &v;
        judge("str", r, i, guarded(|| {
            let s: &str = get(sl, i);
            (offset(sl.as_ptr(), s.as_ptr()), s.len())
        }));
        if let (Some((a, b)), Ok(s)) = (r.sel, guarded(|| get::<String, str>(&v, i).to_string())) {
            content("String", r, i, s.as_bytes() == &fresh.as_bytes()[a..b], s.clone());
        }
        return;
    }
    let mut want = fresh.clone().into_bytes();
    if let Some((s, e)) = r.sel {
        want[s..e].make_ascii_uppercase();
    }
    let mut v = fresh.clone();
    let base = v.as_ptr();
    judge("String", r, i, guarded(|| {
        let s: &mut str = get_mut(&mut v, i);
        s.make_ascii_uppercase();
        (offset(base, s.as_ptr()), s.len())
    }));
    content("String", r, i, v.as_bytes() == want, v.clone());
    let mut v = fresh;
    let sl: &mut str = &mut v;
    let base = sl.as_ptr();
    judge("str", r, i, guarded(|| {
        let s: &mut str = get_mut(sl, i);
        s.make_ascii_uppercase();
        (offset(base, s.as_ptr()), s.len())
    }));
    content("str", r, i, v.as_bytes() == want, v.clone());
}

fn foreign(r: &Row, i: Ix) {
    let bytes: Vec<u8> = (0..r.len).map(|k| b'a' + k as u8).collect();
    match i {
        Ix::L(x) if !r.write => {
            let c = CString::new(bytes).unwrap();
            let c: &CStr = &c;
            judge("CStr", r, i, guarded(|| {
                let s: &CStr = &c[x];
                (offset(c.as_ptr(), s.as_ptr()), s.to_bytes().len())
            }));
        }
        Ix::F(x) => {
            let c = CString::new(bytes.clone()).unwrap();
            if !r.write {
                judge("CString", r, i, guarded(|| {
                    let s: &CStr = &c[x];
                    (offset(c.as_ptr(), s.as_ptr()), s.to_bytes().len())
                }));
            }
            let mut o = OsString::from(String::from_utf8(bytes.clone()).unwrap());
            let base = o.as_encoded_bytes().as_ptr();
            if r.write {
                judge("OsString", r, i, guarded(|| {
                    let s = &mut o[x];
                    s.make_ascii_uppercase();
                    (offset(base, s.as_encoded_bytes().as_ptr()), s.len())
                }));
                content("OsString", r, i, o.as_encoded_bytes() == bytes.to_ascii_uppercase(), format!("{o:?}"));
            } else {
                judge("OsString", r, i, guarded(|| {
                    let s = &o[x];
                    (offset(base, s.as_encoded_bytes().as_ptr()), s.len())
                }));
            }
        }
        _ => {}
    }
}

/// Arrays index through the slice impls.
fn arrays<const L: usize>(r: &Row, i: Ix) {
    let mut a = [0u8; L];
    if r.write {
        let base = a.as_ptr();
        judge("array", r, i, guarded(|| {
            let s: &mut [u8] = get_mut(&mut a[..], i);
            s.fill(1);
            (offset(base, s.as_ptr()), s.len())
        }));
        let got: Vec<usize> = (0..L).filter(|k| a[*k] == 1).collect();
        let want: Vec<usize> = r.sel.map(|(s, e)| (s..e).collect()).unwrap_or_default();
        content("array", r, i, got == want, format!("{got:?}"));
    }
}

pub fn main(path: &str, max_len: usize, thorough: bool) {
    let rows = load(path);
    let all = |r: &Row| r.cuts == (1 << (r.len + 1)) - 1;
    // just past the end, far out, and where a narrower type would wrap around to a small index
    let beyonds: &[usize] = &[max_len + 1, isize::MAX as usize, usize::MAX - 2, (1 << 8) + 1, (1 << 16) + 1, (1 << 32) + 1,
        (1 << 63) + 1];
    let n = rows.len();
    let rows = &rows;
    parallel(n.div_ceil(256), |c| {
        for k in c * 256..((c + 1) * 256).min(n) {
            let r = &rows[k];
            working_on(k as u64);
            let far = max_len as i64 + 1;
            let uses_far = r.f[1] == far || r.f[3] == far;
            for beyond in &beyonds[..if uses_far { beyonds.len() } else { 1 }] {
                case();
                let i = ix(r, max_len, *beyond);
                for flavour in 0..if thorough { 3 } else { 1 + k % 2 } {
                    strings(r, i, flavour);
                }
                if all(r) {
                    slices(r, i, |k| k as u32, 999, "u32");
                    slices(r, i, |k| format!("s{k}"), "mark".to_string(), "String");
                    slices(r, i, |k| (k as u8, k as u64), (255, 0), "(u8,u64)");
                    foreign(r, i);
                    match r.len {
                        0 => arrays::<0>(r, i),
                        3 => arrays::<3>(r, i),
                        5 => arrays::<5>(r, i),
                        _ => {}
                    }
                }
            }
        }
        done();
    });
    if let Some(r) = rows.get(n / 2) {
        sample(|| json!({"len": r.len, "cuts": format!("{:b}", r.cuts), "range": format!("{:?}", ix(r, max_len, max_len + 1)),
            "write": r.write, "selects": format!("{:?}", r.sel)}));
    }
}

// ---------------------------------------------------------------- recordings

/// Indices as IndexTrace.tla writes them: the far ends keep their order and successors.
fn far(v: usize) -> i64 {
    if v < 1_000_000 {
        v as i64
    } else if v >= usize::MAX - 10 {
        2_000_000 - (usize::MAX - v) as i64
    } else {
        // next to a power of two
        let k = (20..64).find(|k| v.abs_diff(1 << k) <= 10).unwrap();
        1_000_000 + 1000 * k + (v as i128 - (1i128 << k)) as i64
    }
}
fn place(rng: &mut Rng, len: usize, cuts: &[usize]) -> usize {
    let d = rng.below(3);
    match rng.below(16) {
        0 => d,
        1 => usize::MAX - d,
        2 => (1 << (20 + rng.below(44))) - 1 + rng.below(6),
        3 | 4 => (len + 1).saturating_sub(d),
        5 | 6 => ((1usize << rng.below(14)) + 1).saturating_sub(d),
        7 => rng.below(2 * len + 2),
        _ if !cuts.is_empty() => cuts[rng.below(cuts.len())].saturating_sub(rng.below(8) / 7),
        _ => rng.below(len + 1),
    }
}
fn draw(rng: &mut Rng, len: usize, cuts: &[usize], write: bool) -> (Ix, serde_json::Value) {
    let (mut a, mut b) = (place(rng, len, cuts), place(rng, len, cuts));
    if a > b && !rng.chance(1, 8) {
        (a, b) = (b, a);
    }
    // an excluded bound just before the place, where that exists
    let (i, j) = (rng.below(2), rng.below(2));
    if i == 0 && a > 0 && rng.chance(3, 4) {
        a -= 1;
    }
    if j == 1 && b > 0 && rng.chance(3, 4) {
        b -= 1;
    }
    let lo = if i == 1 { LowerBound::included(a) } else { LowerBound::excluded(a) };
    let hi = if j == 1 { UpperBound::included(b) } else { UpperBound::excluded(b) };
    match rng.below(if write { 14 } else { 15 }) {
        0..=6 => (Ix::B(BoundedRange::new(lo, hi)), json!(["BoundedRange", i, far(a), j, far(b)])),
        7..=9 => (Ix::L(LowerBoundedRange::new(lo)), json!(["LowerBoundedRange", i, far(a), 0, 0])),
        10..=12 => (Ix::U(UpperBoundedRange::new(hi)), json!(["UpperBoundedRange", 0, 0, j, far(b)])),
        13 => (Ix::F(UnboundedRange::new()), json!(["UnboundedRange", 0, 0, 0, 0])),
        _ => (Ix::E, json!(["EmptyRange", 0, 0, 0, 0])),
    }
}
fn note(op: &str, r: serde_json::Value, got: Result<(usize, usize), String>, touched: Option<Vec<usize>>) -> serde_json::Value {
    case();
    eval(1);
    let near = |v: usize| v.min(1 << 30);
    let mut e = match got {
        Ok((at, n)) => json!({"op": op, "r": r, "ok": 1, "got": [near(at), near(n)]}),
        Err(_) => json!({"op": op, "r": r, "ok": 0, "got": []}),
    };
    if let Some(t) = touched {
        e["touched"] = json!([t.first().copied().unwrap_or(0), t.last().map_or(0, |x| x + 1), t.len()]);
    }
    e
}
fn changed<A: PartialEq>(a: &[A], b: &[A]) -> Vec<usize> {
    (0..a.len()).filter(|k| a[*k] != b[*k]).collect()
}

fn slice_chunk<A: Clone + PartialEq>(rng: &mut Rng, len: usize, n: usize, vec: bool, mk: impl Fn(usize) -> A, mark: A) -> serde_json::Value {
    let mut ev = vec![];
    let fresh: Vec<A> = (0..len).map(mk).collect();
    let mut v = fresh.clone();
    let base = v.as_ptr();
    for _ in 0..n {
        let write = rng.chance(1, 2);
        let (i, r) = draw(rng, len, &[], write);
        if write {
            let got = guarded(|| {
                let s: &mut [A] = if vec { get_mut(&mut v, i) } else { get_mut(&mut v[..], i) };
                s.fill(mark.clone());
                (offset(base, s.as_ptr()), s.len())
            });
            ev.push(note("write", r, got, Some(changed(&v, &fresh))));
            v.clone_from_slice(&fresh);
        } else {
            let got = guarded(|| {
                let s: &[A] = if vec { get(&v, i) } else { get(&v[..], i) };
                (offset(base, s.as_ptr()), s.len())
            });
            ev.push(note("read", r, got, None));
        }
    }
    json!({"len": len, "cuts": [], "ev": ev})
}
fn string_chunk(rng: &mut Rng, len: usize, n: usize, owned: bool) -> serde_json::Value {
    let mut fresh = String::new();
    let mut cuts = vec![0];
    let wide = rng.chance(2, 3);
    while fresh.len() < len {
        fresh.push(if wide { ['a', 'é', '€', '𝄞', 'b', 'c', 'd'][rng.below(7)] } else { 'x' });
        cuts.push(fresh.len());
    }
    let len = fresh.len();
    let mut v = fresh.clone();
    let base = v.as_ptr();
    let mut ev = vec![];
    for _ in 0..n {
        let (i, r) = draw(rng, len, &cuts, false);
        ev.push(note("read", r, guarded(|| {
            let s: &str = if owned { get(&v, i) } else { get(&v[..], i) };
            (offset(base, s.as_ptr()), s.len())
        }), None));
        if !wide {
            let (i, r) = draw(rng, len, &cuts, true);
            let got = guarded(|| {
                let s: &mut str = if owned { get_mut(&mut v, i) } else { get_mut(&mut v[..], i) };
                s.make_ascii_uppercase();
                (offset(base, s.as_ptr()), s.len())
            });
            ev.push(note("write", r, got, Some(changed(v.as_bytes(), fresh.as_bytes()))));
            v.make_ascii_lowercase();
        }
    }
    json!({"len": len, "cuts": cuts, "ev": ev})
}
fn foreign_chunk(rng: &mut Rng, len: usize, n: usize) -> serde_json::Value {
    let bytes: Vec<u8> = (0..len).map(|k| b'a' + (k % 26) as u8).collect();
    let c = CString::new(bytes.clone()).unwrap();
    let mut o = OsString::from(String::from_utf8(bytes.clone()).unwrap());
    let base = o.as_encoded_bytes().as_ptr();
    let mut ev = vec![];
    while ev.len() < n {
        let (i, r) = draw(rng, len, &[], false);
        match i {
            Ix::L(x) => {
                let c: &CStr = &c;
                ev.push(note("read", r, guarded(|| {
                    let s: &CStr = &c[x];
                    (offset(c.as_ptr(), s.as_ptr()), s.to_bytes().len())
                }), None));
            }
            Ix::F(x) => {
                ev.push(note("read", r.clone(), guarded(|| {
                    let s: &CStr = &c[x];
                    (offset(c.as_ptr(), s.as_ptr()), s.to_bytes().len())
                }), None));
                ev.push(note("read", r.clone(), guarded(|| {
                    let s = &o[x];
                    (offset(base, s.as_encoded_bytes().as_ptr()), s.len())
                }), None));
                let got = guarded(|| {
                    let s = &mut o[x];
                    s.make_ascii_uppercase();
                    (offset(base, s.as_encoded_bytes().as_ptr()), s.len())
                });
                ev.push(note("write", r, got, Some(changed(o.as_encoded_bytes(), &bytes))));
                o.make_ascii_lowercase();
            }
            _ => {}
        }
    }
    json!({"len": len, "cuts": [], "ev": ev})
}

/// code -> spec: reads and writes in large containers, for IndexTrace.tla.
pub fn record(path: &str, chunks: usize, len: usize, seed: u64) {
    use std::io::Write;
    let mut out = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for k in 0..chunks as u64 {
        let mut rng = Rng::new(seed, 0x1D0 + k);
        let size = match rng.below(6) {
            0 => rng.below(12),
            1 => (1 << rng.below(12)) + rng.below(2),
            2 => rng.below(100),
            _ => rng.below(3000),
        };
        let ch = match k % 7 {
            0 => slice_chunk(&mut rng, size, len, true, |k| k as u32, u32::MAX),
            1 => slice_chunk(&mut rng, size, len, false, |k| k as u32, u32::MAX),
            2 => slice_chunk(&mut rng, size, len, true, |k| format!("s{k}"), "mark".to_string()),
            3 => slice_chunk(&mut rng, size, len, false, |k| (k as u8, k as u64), (255, u64::MAX)),
            4 => string_chunk(&mut rng, size, len, true),
            5 => string_chunk(&mut rng, size, len, false),
            _ => foreign_chunk(&mut rng, size, len),
        };
        if k < 3 {
            sample(|| json!({"len": ch["len"], "event": ch["ev"][0]}));
        }
        writeln!(out, "{ch}").unwrap();
    }
}
