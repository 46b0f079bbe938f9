//! Recorder for histories of the ordered map and set.
use crate::util::*;
use geo_crossings::splay::{SplaySet, SplayTree};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::Write;

thread_local! {
    static KEYS: Cell<i64> = Cell::new(0);
    static VALS: Cell<i64> = Cell::new(0);
    /// How many more comparisons are answered before one panics (never if negative).
    static FUSE: Cell<i64> = Cell::new(-1);
}
const FUSED: &str = "comparison refused";
fn arm(n: i64) {
    FUSE.with(|f| f.set(n));
}
/// The user's comparison: blows up once when the fuse has burnt down.
fn compare(a: i64, b: i64, rev: bool) -> Ordering {
    FUSE.with(|f| match f.get() {
        0 => {
            f.set(-1);
            std::panic::panic_any(FUSED.to_string())
        }
        n if n > 0 => f.set(n - 1),
        _ => {}
    });
    if rev { b.cmp(&a) } else { a.cmp(&b) }
}
/// What indexing gave: `None` if it panicked, unless the comparison did.
fn missing<R>(r: std::thread::Result<R>) -> Option<R> {
    r.map_err(|e| {
        if is_fuse(&*e) {
            std::panic::resume_unwind(e)
        }
    })
    .ok()
}
fn is_fuse(e: &(dyn std::any::Any + Send)) -> bool {
    e.downcast_ref::<String>().map_or(false, |s| s == FUSED)
}
/// `None` if the fuse burnt down in `f`.
fn fused<R>(f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) if is_fuse(&*e) => None,
        Err(e) => std::panic::resume_unwind(e),
    }
}
/// A key whose comparison ignores `tag`, so that the identity of the stored key shows.
pub struct Key {
    k: i64,
    tag: i64,
}
pub struct Val(i64);
fn key(k: i64, tag: i64) -> Key {
    KEYS.with(|c| c.set(c.get() + 1));
    Key { k, tag }
}
fn val(v: i64) -> Val {
    VALS.with(|c| c.set(c.get() + 1));
    Val(v)
}
// What is dropped is spoilt, for a reference that outlives it to show.
impl Drop for Key {
    fn drop(&mut self) {
        unsafe { std::ptr::write_volatile(&mut self.k, -7777) };
        KEYS.with(|c| c.set(c.get() - 1));
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        unsafe { std::ptr::write_volatile(&mut self.0, -7777) };
        VALS.with(|c| c.set(c.get() - 1));
    }
}

#[derive(Clone, Debug)]
pub struct Op(pub String, pub Vec<i64>);

/// A history with, for each operation, the number of comparisons after which one panics.
pub type Fused<'a> = (&'a [Op], &'a [i64]);

pub fn random_ops(r: &mut Rng, n: usize, keys: i64, set: bool) -> Vec<Op> {
    let mut v = vec![];
    let mut tag = 0;
    // a phase prefers growing, shrinking or looking
    let mut phase = 0;
    for i in 0..n {
        if i % 8 == 0 {
            phase = r.range(0, 3);
        }
        let k = r.range(0, keys);
        tag += 1;
        let x = r.range(0, 99);
        let (ins, rem) = match phase {
            0 => (70, 75),
            1 => (15, 60),
            2 => (10, 20),
            _ => (30, 50),
        };
        let op = if x < ins {
            match r.range(0, 9) {
                0 => {
                    let mut a = vec![];
                    for _ in 0..r.range(0, 4) {
                        tag += 1;
                        a.extend([r.range(0, keys), tag, 100 + tag]);
                    }
                    Op("extend".into(), a)
                }
                _ => Op("ins".into(), vec![k, tag, 100 + tag]),
            }
        } else if x < rem {
            if r.chance(1, 40) { Op("clear".into(), vec![]) } else { Op("rem".into(), vec![k]) }
        } else {
            let a = vec![k];
            match r.range(0, 13) {
                0 => Op("get".into(), a),
                1 if !set => Op("getmut".into(), vec![k, 100 + tag]),
                2 => Op("find".into(), a),
                3 => Op("contains".into(), a),
                4 | 5 => Op("next".into(), a),
                6 | 7 => Op("prev".into(), a),
                8 => Op("min".into(), vec![]),
                9 => Op("max".into(), vec![]),
                10 => Op("len".into(), vec![]),
                11 if !set => Op(if r.chance(1, 2) { "index" } else { "indexmut" }.into(), vec![k, 100 + tag]),
                12 => Op("refs".into(), (0..r.range(2, 5)).flat_map(|_| [r.range(0, 3), r.range(0, keys)]).collect()),
                _ if r.chance(1, 6) => Op("iter".into(), (0..r.range(0, 6 + keys)).map(|_| r.range(0, 1)).collect()),
                _ => Op("empty".into(), vec![]),
            }
        };
        // the set has no `get`
        v.push(if set && op.0 == "get" { Op("find".into(), op.1) } else { op });
    }
    v
}

fn arr<T: std::fmt::Display>(v: &[T]) -> String {
    let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}
fn opt(v: Option<Vec<i64>>) -> String {
    arr(&v.unwrap_or_default())
}

pub fn run_map((ops, fuses): Fused, rev: bool) -> String {
    let mut out = String::new();
    let base = (KEYS.with(|c| c.get()), VALS.with(|c| c.get()));
    let live = || arr(&[KEYS.with(|c| c.get()) - base.0, VALS.with(|c| c.get()) - base.1]);
    let cmp = move |a: &Key, b: &Key| compare(a.k, b.k, rev);
    let res = guarded(|| {
        let mut m = SplayTree::new(cmp);
        for (i, op) in ops.iter().enumerate() {
            let a = &op.1;
            let fuse = fuses.get(i).copied().unwrap_or(-1);
            arm(fuse);
            let q = |k: i64| key(k, -1);
            let kv = |p: Option<(&Key, &Val)>| opt(p.map(|(k, v)| vec![k.k, k.tag, v.0]));
            let r = fused(|| match op.0.as_str() {
                "ins" => opt(m.insert(key(a[0], a[1]), val(a[2])).map(|v| vec![v.0])),
                "extend" => {
                    m.extend(a.chunks(3).map(|c| (key(c[0], c[1]), val(c[2]))));
                    "[]".into()
                }
                "rem" => opt(m.remove(&q(a[0])).map(|v| vec![v.0])),
                "clear" => {
                    m.clear();
                    "[]".into()
                }
                "get" => opt(m.get(&q(a[0])).map(|v| vec![v.0])),
                "getmut" => opt(m.get_mut(&q(a[0])).map(|v| vec![std::mem::replace(&mut v.0, a[1])])),
                "find" => opt(m.find_key(&q(a[0])).map(|k| vec![k.k, k.tag])),
                "contains" => arr(&[m.contains(&q(a[0])) as i64]),
                "next" => kv(m.next(&q(a[0]))),
                "prev" => kv(m.prev(&q(a[0]))),
                "min" => opt(m.min().map(|k| vec![k.k, k.tag])),
                "max" => opt(m.max().map(|k| vec![k.k, k.tag])),
                "len" => arr(&[m.len() as i64]),
                "empty" => arr(&[m.is_empty() as i64]),
                "index" => {
                    let k = q(a[0]);
                    let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m[&k].0));
                    opt(missing(g).map(|v| vec![v]))
                }
                "indexmut" => {
                    let k = q(a[0]);
                    let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| std::mem::replace(&mut m[&k].0, a[1])));
                    opt(missing(g).map(|v| vec![v]))
                }
                "refs" => {
                    // references handed out by shared lookups, read after all of them
                    enum R<'a> {
                        N,
                        Refused,
                        V(&'a Val),
                        K(&'a Key),
                        P(&'a Key, &'a Val),
                    }
                    let mut rs: Vec<R> = vec![];
                    for c in a.chunks(2) {
                        let k = q(c[1]);
                        let r = fused(|| match c[0] {
                            0 => m.get(&k).map(R::V).unwrap_or(R::N),
                            1 => m.find_key(&k).map(R::K).unwrap_or(R::N),
                            2 => m.next(&k).map(|(k, v)| R::P(k, v)).unwrap_or(R::N),
                            _ => m.prev(&k).map(|(k, v)| R::P(k, v)).unwrap_or(R::N),
                        });
                        rs.push(r.unwrap_or(R::Refused));
                    }
                    let v: Vec<String> = rs
                        .iter()
                        .map(|r| match r {
                            R::N => "[]".into(),
                            R::Refused => "[-9]".into(),
                            R::V(v) => arr(&[v.0]),
                            R::K(k) => arr(&[k.k, k.tag]),
                            R::P(k, v) => arr(&[k.k, k.tag, v.0]),
                        })
                        .collect();
                    format!("[{}]", v.join(","))
                }
                "iter" => {
                    let old = std::mem::replace(&mut m, SplayTree::new(cmp));
                    let mut it = old.into_iter();
                    let mut v = vec![];
                    for d in a {
                        let (h, l) = (it.size_hint(), it.len());
                        let e = if *d == 0 { it.next() } else { it.next_back() };
                        let mut x = vec![h.0 as i64, h.1.map(|n| n as i64).unwrap_or(-1), l as i64];
                        if let Some((k, v)) = &e {
                            x.extend([k.k, k.tag, v.0]);
                        }
                        v.push(arr(&x));
                    }
                    drop(it);
                    format!("[{}]", v.join(","))
                }
                o => panic!("harness: unknown op {o}"),
            });
            arm(-1);
            let (r, pan) = (r.clone().unwrap_or("[]".into()), r.is_none() as u8);
            if !out.is_empty() {
                out.push(',');
            }
            write!(out, "{{\"k\":\"{}\",\"a\":{},\"r\":{r},\"f\":{fuse},\"pan\":{pan},\"live\":{}}}", op.0, arr(a), live()).unwrap();
        }
        drop(m);
        if !out.is_empty() {
            out.push(',');
        }
        write!(out, "{{\"k\":\"drop\",\"a\":[],\"r\":[],\"f\":-1,\"pan\":0,\"live\":{}}}", live()).unwrap();
    });
    finish(res, out, "map", rev)
}
fn finish(res: Result<(), String>, out: String, kind: &str, rev: bool) -> String {
    let head = format!("\"kind\":\"{kind}\",\"rev\":{}", rev as u8);
    match res {
        Ok(()) => format!("{head},\"st\":\"ok\",\"acts\":[{out}]"),
        Err(e) => format!("{head},\"st\":\"panic\",\"msg\":\"{e}\",\"acts\":[{}]", out.trim_end_matches(',')),
    }
}

pub fn run_set((ops, fuses): Fused, rev: bool) -> String {
    let mut out = String::new();
    let base = KEYS.with(|c| c.get());
    let live = || arr(&[KEYS.with(|c| c.get()) - base]);
    let cmp = move |a: &Key, b: &Key| compare(a.k, b.k, rev);
    let res = guarded(|| {
        let mut m = SplaySet::new(cmp);
        for (i, op) in ops.iter().enumerate() {
            let a = &op.1;
            let fuse = fuses.get(i).copied().unwrap_or(-1);
            arm(fuse);
            let q = |k: i64| key(k, -1);
            let kk = |p: Option<&Key>| opt(p.map(|k| vec![k.k, k.tag]));
            let r = fused(|| match op.0.as_str() {
                "ins" => arr(&[m.insert(key(a[0], a[1])) as i64]),
                "extend" => {
                    m.extend(a.chunks(3).map(|c| key(c[0], c[1])));
                    "[]".into()
                }
                "rem" => arr(&[m.remove(&q(a[0])) as i64]),
                "clear" => {
                    m.clear();
                    "[]".into()
                }
                "find" => kk(m.find(&q(a[0]))),
                "contains" => arr(&[m.contains(&q(a[0])) as i64]),
                "next" => kk(m.next(&q(a[0]))),
                "prev" => kk(m.prev(&q(a[0]))),
                "min" => kk(m.min()),
                "max" => kk(m.max()),
                "len" => arr(&[m.len() as i64]),
                "empty" => arr(&[m.is_empty() as i64]),
                "refs" => {
                    let mut rs = vec![];
                    for c in a.chunks(2) {
                        let k = q(c[1]);
                        rs.push(fused(|| match c[0] {
                            0 | 1 => m.find(&k),
                            2 => m.next(&k),
                            _ => m.prev(&k),
                        }));
                    }
                    let v: Vec<String> = rs.iter().map(|k| k.map_or("[-9]".into(), kk)).collect();
                    format!("[{}]", v.join(","))
                }
                "iter" => {
                    let old = std::mem::replace(&mut m, SplaySet::new(cmp));
                    let mut it = old.into_iter();
                    let mut v = vec![];
                    for d in a {
                        let h = it.size_hint();
                        let e = if *d == 0 { it.next() } else { it.next_back() };
                        let mut x = vec![h.0 as i64, h.1.map(|n| n as i64).unwrap_or(-1), h.0 as i64];
                        if let Some(k) = &e {
                            x.extend([k.k, k.tag]);
                        }
                        v.push(arr(&x));
                    }
                    drop(it);
                    format!("[{}]", v.join(","))
                }
                o => panic!("harness: unknown op {o}"),
            });
            arm(-1);
            let (r, pan) = (r.clone().unwrap_or("[]".into()), r.is_none() as u8);
            if !out.is_empty() {
                out.push(',');
            }
            write!(out, "{{\"k\":\"{}\",\"a\":{},\"r\":{r},\"f\":{fuse},\"pan\":{pan},\"live\":{}}}", op.0, arr(a), live()).unwrap();
        }
        drop(m);
        if !out.is_empty() {
            out.push(',');
        }
        write!(out, "{{\"k\":\"drop\",\"a\":[],\"r\":[],\"f\":-1,\"pan\":0,\"live\":{}}}", live()).unwrap();
    });
    finish(res, out, "set", rev)
}

/// Histories with many elements: (shape of the history, number of elements).
pub fn big(kind: &str, shape: &str, n: i64, set: bool) -> String {
    let mut ord: Vec<i64> = (0..n).collect();
    match shape {
        "desc" => ord.reverse(),
        "zigzag" => ord = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        "rand" => Rng::new(7, n as u64).shuffle(&mut ord),
        _ => {}
    }
    KEYS.with(|c| c.set(0));
    let mut first: Vec<i64> = vec![];
    let note = |v: &mut Vec<i64>, x: Option<i64>| v.push(x.unwrap_or(-1));
    if set {
        let mut m = SplaySet::new(|a: &Key, b: &Key| a.k.cmp(&b.k));
        for k in ord {
            m.insert(key(k, 0));
        }
        note(&mut first, Some(m.len() as i64));
        note(&mut first, m.min().map(|k| k.k));
        note(&mut first, m.max().map(|k| k.k));
        match kind {
            "clear" => {
                m.clear();
                note(&mut first, Some(m.len() as i64));
            }
            "iter" | "back" => {
                let mut it = m.into_iter();
                for _ in 0..3 {
                    note(&mut first, if kind == "iter" { it.next() } else { it.next_back() }.map(|k| k.k));
                }
                note(&mut first, Some(it.size_hint().0 as i64));
            }
            "all" => note(&mut first, Some(m.into_iter().map(|k| k.k).zip(0..).filter(|(a, b)| a == b).count() as i64)),
            _ => drop(m),
        }
    } else {
        let mut m = SplayTree::new(|a: &Key, b: &Key| a.k.cmp(&b.k));
        for k in ord {
            m.insert(key(k, 0), val(k));
        }
        note(&mut first, Some(m.len() as i64));
        note(&mut first, m.min().map(|k| k.k));
        note(&mut first, m.max().map(|k| k.k));
        match kind {
            "clear" => {
                m.clear();
                note(&mut first, Some(m.len() as i64));
            }
            "iter" | "back" => {
                let mut it = m.into_iter();
                for _ in 0..3 {
                    note(&mut first, if kind == "iter" { it.next() } else { it.next_back() }.map(|k| k.0.k));
                }
                note(&mut first, Some(it.size_hint().0 as i64));
            }
            "all" => note(&mut first, Some(m.into_iter().map(|k| k.0.k).zip(0..).filter(|(a, b)| a == b).count() as i64)),
            _ => drop(m),
        }
    }
    note(&mut first, Some(KEYS.with(|c| c.get())));
    format!("\"kind\":\"{kind}\",\"shape\":\"{shape}\",\"n\":{n},\"set\":{},\"st\":\"ok\",\"r\":{}", set as u8, arr(&first))
}
