//! Recorder for how often the collections ask the user's comparison.
use crate::util::*;
use geo_crossings::splay::{SplaySet, SplayTree};
use std::cell::Cell;
use std::cmp::Ordering;

thread_local! { static ASKED: Cell<u64> = Cell::new(0); }
/// One more comparison. Nothing here may need this many.
fn tick() {
    ASKED.with(|w| {
        w.set(w.get() + 1);
        if w.get() == 100_000_000 {
            panic!("far too many comparisons");
        }
    })
}
fn asked() -> u64 {
    ASKED.with(|w| w.replace(0))
}

fn order(shape: &str, n: i64, seed: u64) -> Vec<i64> {
    let mut v: Vec<i64> = (0..n).collect();
    match shape {
        "desc" => v.reverse(),
        "zigzag" => v = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        "rand" => Rng::new(seed, 71).shuffle(&mut v),
        _ => {}
    }
    v
}
enum Coll<F: Fn(&i64, &i64) -> Ordering> {
    Map(SplayTree<i64, i64, F>),
    Set(SplaySet<i64, F>),
}
impl<F: Fn(&i64, &i64) -> Ordering> Coll<F> {
    fn ask(&mut self, op: &str, k: i64) -> Option<i64> {
        match self {
            Coll::Map(m) => match op {
                "ins" => m.insert(k, k),
                "rem" => m.remove(&k),
                "get" => m.get(&k).copied(),
                "has" => m.contains(&k).then(|| k),
                "key" => m.find_key(&k).copied(),
                "mut" => m.get_mut(&k).map(|v| *v),
                "next" => m.next(&k).map(|(k, _)| *k),
                _ => m.prev(&k).map(|(k, _)| *k),
            },
            Coll::Set(m) => match op {
                "ins" => (!m.insert(k)).then(|| k),
                "rem" => m.remove(&k).then(|| k),
                "get" | "key" | "mut" => m.find(&k).copied(),
                "has" => m.contains(&k).then(|| k),
                "next" => m.next(&k).copied(),
                _ => m.prev(&k).copied(),
            },
        }
    }
    fn len(&self) -> usize {
        match self {
            Coll::Map(m) => m.len(),
            Coll::Set(m) => m.len(),
        }
    }
}

/// Long histories over maps and sets.  One action is a stretch of calls: what
/// was called, how often, how often the comparison was asked, how many entries
/// the collection held at most.
pub fn collections(set: bool, n: i64, seed: u64) -> Vec<String> {
    const STRETCH: usize = 50;
    let mut rows = vec![];
    for build in ["asc", "desc", "zigzag", "rand"] {
        for (op, walk) in [
            ("get", "asc"), ("get", "desc"), ("get", "zigzag"), ("get", "rand"), ("get", "first"), ("get", "ends"), ("has", "asc"),
            ("key", "desc"), ("mut", "zigzag"), ("next", "asc"), ("next", "desc"), ("next", "zigzag"), ("next", "rand"),
            ("next", "first"), ("next", "ends"), ("next", "twice"), ("prev", "asc"), ("prev", "desc"), ("prev", "zigzag"),
            ("prev", "rand"), ("prev", "last"), ("prev", "ends"), ("prev", "twice"), ("rem", "asc"), ("rem", "desc"),
            ("rem", "zigzag"), ("rem", "rand"), ("ins", "asc"), ("ins", "zigzag"), ("queue", "asc"), ("mixed", "rand"),
        ] {
            // the keys are 0, 2, 4, ..: the odd ones are missing
            let mut m = {
                let cmp = |a: &i64, b: &i64| {
                    tick();
                    a.cmp(b)
                };
                if set { Coll::Set(SplaySet::new(cmp)) } else { Coll::Map(SplayTree::new(cmp)) }
            };
            let mut r = Rng::new(seed, 73 + n as u64);
            let mut calls: Vec<(&str, i64)> = order(build, n, seed).into_iter().map(|k| ("ins", 2 * k)).collect();
            for round in 0..2 {
                match walk {
                    "first" => calls.extend((0..2).flat_map(|j| (0..n).map(move |i| (op, j - i % 2)))),
                    "last" => calls.extend((0..2).flat_map(|j| (0..n).map(move |i| (op, 2 * n - 2 - j + i % 2)))),
                    "ends" => calls.extend((0..n).map(|i| (op, if i % 2 == 0 { round } else { 2 * n - 2 - round }))),
                    // each key asked about several times in a row
                    "twice" => calls.extend(order("rand", n / 20, seed).into_iter().flat_map(|k| (0..20).map(move |_| (op, 40 * k)))),
                    _ if op == "queue" => calls.extend((0..n).flat_map(|k| [("rem", 2 * (k + n * round)), ("ins", 2 * (k + n * (round + 1)))])),
                    _ if op == "mixed" => calls.extend((0..2 * n).map(|_| {
                        (*r.pick(&["ins", "rem", "get", "next", "prev", "has", "next", "prev"]), r.range(-1, 2 * n))
                    })),
                    _ => calls.extend(order(walk, n, seed + 1).into_iter().map(|k| (op, 2 * k + round * (k % 2)))),
                }
            }
            asked();
            let mut acts = vec![];
            let res = guarded(|| {
                for part in calls.chunks(STRETCH) {
                    let mut most = m.len();
                    for (op, k) in part {
                        m.ask(op, *k);
                        most = most.max(m.len());
                    }
                    acts.push(format!("[{},{},{}]", part.len(), most, asked()));
                }
            });
            let st = res.err().unwrap_or_else(|| "ok".into());
            rows.push(format!(
                "\"what\":\"{}\",\"kind\":\"{build}-{op}-{walk}\",\"n\":{n},\"st\":\"{st}\",\"acts\":[{}]",
                if set { "set" } else { "map" },
                acts.join(",")
            ));
        }
    }
    rows
}
