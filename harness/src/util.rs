//! PRNG, coordinate maps and case runner shared by every trace recorder.
use std::panic::{catch_unwind, AssertUnwindSafe};

/// splitmix64: the only source of randomness (seeded from VERIF_SEED).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ stream.wrapping_mul(0xD1B5_4A32_D192_ED03));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in [lo, hi]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.range(0, xs.len() as i64 - 1) as usize]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.range(0, i as i64) as usize;
            xs.swap(i, j);
        }
    }
}

pub type P = (i64, i64);
pub type S = (P, P);

pub fn orient(a: P, b: P, c: P) -> i64 {
    ((b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128).signum() as i64
}
pub fn on_seg(p: P, s: S) -> bool {
    orient(s.0, s.1, p) == 0
        && p.0 >= s.0 .0.min(s.1 .0)
        && p.0 <= s.0 .0.max(s.1 .0)
        && p.1 >= s.0 .1.min(s.1 .1)
        && p.1 <= s.0 .1.max(s.1 .1)
}
/// Proper (interior/interior, non collinear) crossing as (numx, numy, den), den > 0.
pub fn proper(s: S, t: S) -> Option<(i64, i64, i64)> {
    let o1 = orient(s.0, s.1, t.0) * orient(s.0, s.1, t.1);
    let o2 = orient(t.0, t.1, s.0) * orient(t.0, t.1, s.1);
    if o1 >= 0 || o2 >= 0 {
        return None;
    }
    let (dx1, dy1) = (s.1 .0 - s.0 .0, s.1 .1 - s.0 .1);
    let (dx2, dy2) = (t.1 .0 - t.0 .0, t.1 .1 - t.0 .1);
    let mut den = dx1 * dy2 - dy1 * dx2;
    let mut num = (t.0 .0 - s.0 .0) * dy2 - (t.0 .1 - s.0 .1) * dx2;
    if den < 0 {
        den = -den;
        num = -num;
    }
    Some((s.0 .0 * den + num * dx1, s.0 .1 * den + num * dy1, den))
}
/// do the segments cross in the interior of both? (any coordinates below 2^54)
pub fn crosses(s: S, t: S) -> bool {
    orient(s.0, s.1, t.0) * orient(s.0, s.1, t.1) < 0 && orient(t.0, t.1, s.0) * orient(t.0, t.1, s.1) < 0
}
pub fn touches(s: S, t: S) -> bool {
    on_seg(s.0, t) || on_seg(s.1, t) || on_seg(t.0, s) || on_seg(t.1, s)
}

/// A coordinate the recorder could not map back onto the lattice.
pub const OFF: i64 = -30000;

/// Affine map from fine lattice units to the scalar handed to the code under test.
#[derive(Clone, Copy, Debug)]
pub struct Map {
    pub scale: f64,
    pub tx: f64,
    pub ty: f64,
    /// 0 for exact regimes, else the largest lattice distance a computed point may have.
    pub tol: f64,
    /// use -0.0 in place of 0.0
    pub negzero: bool,
    /// move every point by a few units in the last place (a function of the point); 0: do not
    pub jitter: u64,
    /// 0, or the size B of the coarse unit: 1024 c + d stands for c B + d
    pub eps: f64,
    /// repeat some vertices of rings (which: a function of this number and the position); 0: none
    pub rep: u64,
}
/// `k` representable values further
pub fn ulps(v: f64, k: i64) -> f64 {
    if v == 0.0 {
        return f64::from_bits(k.unsigned_abs()) * k.signum() as f64;
    }
    f64::from_bits((v.to_bits() as i64 + if v > 0.0 { k } else { -k }) as u64)
}
impl Map {
    pub const ID: Map = Map { scale: 1.0, tx: 0.0, ty: 0.0, tol: 0.0, negzero: false, jitter: 0, eps: 0.0, rep: 0 };
    /// the vertices of the ring as they are handed over: closed, some of them repeated
    pub fn closed(&self, ring: &[P]) -> Vec<P> {
        let mut v = vec![];
        let mut r = Rng::new(self.rep, ring.len() as u64);
        for p in ring.iter().chain(&ring[..1]) {
            v.push(*p);
            while self.rep != 0 && r.chance(1, 4) {
                v.push(*p);
            }
        }
        v
    }
    /// the image of a point
    pub fn pt(&self, p: P) -> (f64, f64) {
        let (x, y) = (self.fx(p.0), self.fy(p.1));
        if self.jitter == 0 {
            return (x, y);
        }
        let mut r = Rng::new(self.jitter, (p.0 * 1_000_003 + p.1) as u64);
        let w = [0, 1, 1, 2, 3, 8][(self.jitter % 6) as usize];
        let v = [1, 0, 3][(self.jitter / 6 % 3) as usize];
        (ulps(x, r.range(-w, w)), ulps(y, r.range(-v, v)))
    }
    fn z(&self, v: f64) -> f64 {
        if self.negzero && v == 0.0 { -0.0 } else { v }
    }
    fn two_scale(&self, x: i64) -> f64 {
        let c = (x + 512).div_euclid(1024);
        self.z(c as f64 * self.eps + (x - 1024 * c) as f64)
    }
    pub fn fx(&self, x: i64) -> f64 {
        if self.eps > 0.0 {
            return self.two_scale(x);
        }
        self.z(x as f64 * self.scale + self.tx)
    }
    pub fn fy(&self, y: i64) -> f64 {
        if self.eps > 0.0 {
            return self.two_scale(y);
        }
        self.z(y as f64 * self.scale + self.ty)
    }
    pub fn inv1(&self, v: f64, t: f64) -> i64 {
        if self.eps > 0.0 {
            let c = (v / self.eps).round();
            let d = v - c * self.eps;
            return if v.is_finite() && d.abs() <= 200.0 && d == d.round() && c.abs() < 28.0 { c as i64 * 1024 + d as i64 } else { OFF };
        }
        let u = (v - t) / self.scale;
        let r = u.round();
        if !u.is_finite() || (u - r).abs() > self.tol || r.abs() > 29000.0 {
            return OFF;
        }
        r as i64
    }
    pub fn inv(&self, x: f64, y: f64) -> P {
        (self.inv1(x, self.tx), self.inv1(y, self.ty))
    }
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let s = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        s.chars()
            .map(|c| if c == '"' || c == '\\' || (c as u32) < 32 || (c as u32) > 126 { ' ' } else { c })
            .take(160)
            .collect()
    })
}
