//! Recorder for how much work the sweep does: operations of the user's own
//! scalar type. (A program of its own: should the crate one day ask more of a
//! scalar type than this one has, only this recorder is lost.)
#![allow(dead_code)]
#[path = "../util.rs"]
mod util;
use util::*;
use geo::kernels::{HasKernel, RobustKernel};
use geo::Line;
use geo_crossings::{CrossingsIter, Intersections};
use std::iter::FromIterator;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;

thread_local! {
    static WORK: Cell<u64> = Cell::new(0);
    static MOST: Cell<u64> = Cell::new(u64::MAX);
}
/// One more operation. A family that needs far more than it may is given up.
fn tick() {
    WORK.with(|w| {
        w.set(w.get() + 1);
        if w.get() == MOST.with(|m| m.get()) {
            panic!("far too much work");
        }
    })
}
fn limit(kind: &str, n: usize) {
    let (n, dense) = (n as u64, DENSE.contains(&kind));
    MOST.with(|m| m.set(20_000 * (n + if dense { n * n } else { n })));
    worked();
}
fn worked() -> u64 {
    WORK.with(|w| w.replace(0))
}

/// A scalar that counts what is done with it.
#[derive(Debug, Clone, Copy)]
pub struct W(f64);
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        tick();
        self.0 == o.0
    }
}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
}
macro_rules! ops {
    ($($t:ident $f:ident),*) => {$(
        impl $t for W {
            type Output = W;
            fn $f(self, o: W) -> W {
                tick();
                W(self.0.$f(o.0))
            }
        }
    )*};
}
ops!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl Neg for W {
    type Output = W;
    fn neg(self) -> W {
        W(-self.0)
    }
}
impl Zero for W {
    fn zero() -> W {
        W(0.)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.
    }
}
impl One for W {
    fn one() -> W {
        W(1.)
    }
}
impl Num for W {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<W, Self::FromStrRadixErr> {
        <f64 as Num>::from_str_radix(s, r).map(W)
    }
}
impl ToPrimitive for W {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for W {
    fn from<N: ToPrimitive>(n: N) -> Option<W> {
        n.to_f64().map(W)
    }
}
impl HasKernel for W {
    type Ker = RobustKernel;
}
impl float_next_after::NextAfter<W> for W {
    fn next_after(self, y: W) -> W {
        tick();
        W(self.0.next_after(y.0))
    }
}
macro_rules! float {
    (con $($c:ident)*; is $($i:ident)*; un $($u:ident)*; bin $($b:ident)*) => {
        impl Float for W {
            $(fn $c() -> W { W(<f64 as Float>::$c()) })*
            $(fn $i(self) -> bool { Float::$i(self.0) })*
            $(fn $u(self) -> W { tick(); W(Float::$u(self.0)) })*
            $(fn $b(self, o: W) -> W { tick(); W(Float::$b(self.0, o.0)) })*
            fn classify(self) -> FpCategory { self.0.classify() }
            fn mul_add(self, a: W, b: W) -> W { tick(); W(self.0.mul_add(a.0, b.0)) }
            fn powi(self, n: i32) -> W { W(self.0.powi(n)) }
            fn sin_cos(self) -> (W, W) { let (a, b) = self.0.sin_cos(); (W(a), W(b)) }
            fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
        }
    };
}
float! {
    con nan infinity neg_infinity neg_zero min_value min_positive_value epsilon max_value;
    is is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative;
    un floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt
       sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh;
    bin powf log max min abs_sub hypot atan2
}

/// Families of n segments; the specification knows how many pairs of most meet
/// (k is how many do where it is not a matter of n).
const FAMILIES: [&str; 22] = [
    "stack-up", "stack-down", "staircase", "staircase-down", "zigzag", "nested", "row", "under", "above", "amid", "chain",
    "verticals", "fan-out", "fan-in", "columns", "points", "same-point", "overlaps", "grid", "copies",
    "streets", "avenues",
];
/// those in which every two segments meet, or a fixed part of all pairs does
const DENSE: [&str; 6] = ["avenues", "fan-out", "fan-in", "same-point", "grid", "copies"];

/// Horizontal and vertical segments, no two on the same line, of which some cross.
fn streets(n: usize, most: i64, seed: u64) -> (Vec<S>, u64) {
    let mut r = Rng::new(seed, 79);
    let size = n as i64;
    let (mut xs, mut ys): (Vec<i64>, Vec<i64>) = ((0..size).collect(), (0..size).collect());
    r.shuffle(&mut xs);
    r.shuffle(&mut ys);
    let segs: Vec<S> = (0..n)
        .map(|i| {
            let (x, y, d) = (xs[i], ys[i], r.range(1, most));
            if i % 2 == 0 { ((x, y), (x + d, y)) } else { ((x, y), (x, y + d)) }
        })
        .collect();
    let k = segs.iter().step_by(2).map(|s| {
        segs.iter().skip(1).step_by(2).filter(|t| s.0 .0 <= t.0 .0 && t.0 .0 <= s.1 .0 && t.0 .1 <= s.0 .1 && s.0 .1 <= t.1 .1).count() as u64
    });
    let k = k.sum();
    (segs, k)
}

fn family(kind: &str, n: usize) -> (Vec<Line<W>>, u64) {
    if let Some(most) = match kind {
        "streets" => Some(300),
        "avenues" => Some(n as i64 / 2),
        _ => None,
    } {
        let (segs, k) = streets(n, most, 1);
        let c = |p: P| (W(p.0 as f64), W(p.1 as f64));
        return (segs.into_iter().map(|s| Line::from([c(s.0), c(s.1)])).collect(), k);
    }
    (regular(kind, n), 0)
}
fn regular(kind: &str, n: usize) -> Vec<Line<W>> {
    let h = (n / 2) as f64;
    let nf = n as f64;
    (0..n)
        .map(|i| {
            let f = i as f64;
            let late = (f - h) * 2.0;
            let (a, b, c, d) = match kind {
                "stack-up" => (0., f, nf, f),
                "stack-down" => (0., -f, nf, -f),
                "staircase" => (f, f, f + 2. * nf, f),
                "staircase-down" => (f, -f, f + 2. * nf, -f),
                "zigzag" => {
                    let y = if i % 2 == 0 { f } else { -f };
                    (f, y, f + 2. * nf, y)
                }
                "nested" => (f, f, 4. * nf - f, f),
                "row" => (3. * f, 0., 3. * f + 1., 1.),
                // a stack of long segments, and a row of short ones along it
                "under" | "above" | "amid" if f < h => (0., f, nf, f),
                "under" => (late + 0.25, -1., late + 0.75, -1.5),
                "above" => (late + 0.25, nf, late + 0.75, nf + 0.5),
                "amid" => (late + 0.25, 0.25, late + 0.75, 0.5),
                "chain" => (f, (i % 2) as f64, f + 1., ((i + 1) % 2) as f64),
                "verticals" => (f, 0., f, 1.),
                "fan-out" => (0., 0., nf, f),
                "fan-in" => (-nf, f, 0., 0.),
                "columns" => (0., f, 0., f + 1.),
                "points" => (f, f, f, f),
                "same-point" => (0., 0., 0., 0.),
                // each overlaps the next
                "overlaps" => (f, 0., f + 1.5, 0.),
                "grid" if f < h => (-1., f, h, f),
                "grid" => (f - h, -1., f - h, h),
                "copies" => (0., 0., 1., 1.),
                _ => panic!("unknown family"),
            };
            Line::from([(W(a), W(b)), (W(c), W(d))])
        })
        .collect()
}
fn row(what: &str, kind: &str, n: usize, k: u64, st: String, seen: u64, work: u64) -> String {
    format!("\"what\":\"{what}\",\"kind\":\"{kind}\",\"n\":{n},\"k\":{k},\"st\":\"{st}\",\"seen\":{seen},\"work\":{}", work.min(2_000_000_000))
}
fn sized(kind: &str, n: usize) -> usize {
    if DENSE.contains(&kind) { n / 40 * 2 } else { n }
}

/// The sweep: what is seen are the segments that meet the points.
pub fn sweeps(n: usize) -> Vec<String> {
    FAMILIES
        .iter()
        .map(|kind| {
            let n = sized(kind, n);
            let (segs, k) = family(kind, n);
            limit(kind, n);
            let res = guarded(|| {
                let mut it: CrossingsIter<_> = segs.into_iter().collect();
                let mut points = 0;
                while it.next().is_some() {
                    points += 1;
                }
                points
            });
            let (st, seen) = match res {
                Ok(p) => ("ok".to_string(), p),
                Err(e) => (e, 0),
            };
            row("sweep", kind, n, k, st, seen, worked())
        })
        .collect()
}

/// All intersecting pairs: what is seen are the pairs.
pub fn pairs(n: usize) -> Vec<String> {
    FAMILIES
        .iter()
        .map(|kind| {
            let n = sized(kind, n);
            let (segs, k) = family(kind, n);
            limit(kind, n);
            let res = guarded(|| Intersections::from_iter(segs).count() as u64);
            let (st, seen) = match res {
                Ok(p) => ("ok".to_string(), p),
                Err(e) => (e, 0),
            };
            row("pairs", kind, n, k, st, seen, worked())
        })
        .collect()
}


fn main() {
    silence_panics();
    let mut args = std::env::args().skip(1);
    let (what, n) = (args.next().unwrap(), args.next().unwrap().parse().unwrap());
    for (id, body) in (if what == "sweep" { sweeps(n) } else { pairs(n) }).iter().enumerate() {
        println!("{{\"id\":{},{body}}}", id + 1);
    }
}
