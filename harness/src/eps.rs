//! Nearly degenerate inputs: every coordinate is c B + d with small c and d and a huge B, so that
//! points which coincide, or are collinear, at the coarse scale are told apart only by the few
//! lowest bits.  Such a coordinate is written down as 1024 c + d.
use crate::poly::*;
use crate::util::*;

#[derive(Clone, Copy)]
pub struct Eps {
    pub ty: u8,
    pub b: i64,
    g: i64,
    d: i64,
    /// how many in ten coordinates are moved off the coarse grid
    dens: u64,
}
impl Eps {
    /// `ty` 0: f64, 1: f32, 3: i64
    pub fn new(r: &mut Rng, tys: &[u8]) -> Eps {
        let ty = *r.pick(tys);
        let g = *r.pick(&[2, 4, 6, 6, 14, 14, 30, 46]);
        // the largest coordinates take all bits of the mantissa
        let top = match g {
            2 => 52,
            4 | 6 => 51,
            14 => 50,
            30 => 49,
            _ => 48,
        };
        let b = 1i64 << match ty {
            0 => top - *r.pick(&[0, 0, 0, 1, 3]),
            1 => top - 29 - *r.pick(&[0, 0, 0, 1, 3]),
            _ => 20,
        };
        Eps { ty, b, g, d: *r.pick(&[1, 1, 2, 5, 30]), dens: r.range(1, 9) as u64 }
    }
    fn coord(&self, r: &mut Rng) -> i64 {
        let d = if r.chance(self.dens, 10) { r.range(-self.d, self.d) } else { 0 };
        (r.range(0, self.g) - self.g / 2) * self.b + d
    }
    pub fn point(&self, r: &mut Rng) -> P {
        (self.coord(r), self.coord(r))
    }
    /// a pool of points in which coarse coincidences and collinearities abound
    pub fn pool(&self, r: &mut Rng, n: usize) -> Vec<P> {
        let mut v: Vec<P> = vec![];
        while v.len() < n {
            let mut p = self.point(r);
            if v.len() >= 2 && r.chance(3, 4) {
                // near the line through two earlier points
                let (a, b) = (*r.pick(&v), *r.pick(&v));
                let c = |x: i64| (x + self.b / 2).div_euclid(self.b);
                let (dx, dy) = (c(b.0) - c(a.0), c(b.1) - c(a.1));
                let gcd = |mut a: i64, mut b: i64| { while b != 0 { (a, b) = (b, a % b) } a.abs().max(1) };
                let (h, l) = (self.g / 2, gcd(dx, dy));
                let k = r.range(-2 * l - 2, 2 * l + 2);
                let (x, y) = (c(a.0) + dx / l * k, c(a.1) + dy / l * k);
                if x.abs() <= h && y.abs() <= h {
                    let mut dd = || if r.chance(self.dens, 10) { r.range(-self.d, self.d) } else { 0 };
                    p = (x * self.b + dd(), y * self.b + dd());
                }
            }
            v.push(p);
        }
        v
    }
    /// a segment and a point in the middle of it, but for a few units
    pub fn almost_on(&self, r: &mut Rng) -> (S, P) {
        let h = self.g / 2;
        loop {
            let mut c = || r.range(-h, h);
            let (a, b) = ((c(), c()), (c(), c()));
            let k = r.range(2, 7);
            if a == b || (b.0 - a.0) % k != 0 || (b.1 - a.1) % k != 0 {
                continue;
            }
            let j = r.range(1, k - 1);
            let p = (a.0 + (b.0 - a.0) / k * j, a.1 + (b.1 - a.1) / k * j);
            let mut f = |x: i64| x * self.b + if r.chance(self.dens, 10) { r.range(-self.d, self.d) } else { 0 };
            return (((f(a.0), f(a.1)), (f(b.0), f(b.1))), (f(p.0), f(p.1)));
        }
    }
    pub fn pack1(&self, v: i64) -> i64 {
        let c = (v + self.b / 2).div_euclid(self.b);
        1024 * c + (v - c * self.b)
    }
    pub fn pack(&self, p: P) -> P {
        (self.pack1(p.0), self.pack1(p.1))
    }
    pub fn map(&self) -> Map {
        Map { eps: self.b as f64, ..Map::ID }
    }
    /// segments no two of which cross properly
    pub fn segments(&self, r: &mut Rng, n: usize) -> Vec<S> {
        let k = r.range(3, 9) as usize;
        let pool = self.pool(r, k);
        let mut v: Vec<S> = vec![];
        for _ in 0..20 * n {
            if v.len() == n {
                break;
            }
            let mut s = (*r.pick(&pool), *r.pick(&pool));
            if r.chance(1, 6) {
                s.1 = s.0;
            }
            if (s.0 != s.1 || r.chance(1, 2)) && !v.iter().any(|t| crosses(s, *t)) {
                v.push(s);
            }
        }
        v
    }
    /// a strictly valid polygon
    pub fn poly(&self, r: &mut Rng, pool: &[P], n: usize, holes: usize) -> Option<Poly> {
        let style = r.range(1, 3) as u64;
        let ext = ring_of(r, |r| if pool.is_empty() { self.point(r) } else { *r.pick(pool) }, 0, n, style, 20)?;
        let mut poly = vec![ext];
        for _ in 0..20 {
            if poly.len() > holes {
                break;
            }
            let (k, style) = (r.range(3, 6) as usize, r.range(1, 3) as u64);
            let sub = Eps { g: r.range(1, self.g), ..*self };
            let o = (r.range(0, self.g - sub.g), r.range(0, self.g - sub.g));
            let sh = |v: i64, o: i64| v + (sub.g / 2 - self.g / 2 + o) * self.b;
            let pt = |r: &mut Rng| {
                let p = sub.point(r);
                (sh(p.0, o.0), sh(p.1, o.1))
            };
            let Some(h) = ring_of(r, pt, 0, k, style, 3) else { continue };
            let two = |p: P| (2 * p.0, 2 * p.1);
            let mut t = poly.clone();
            t.push(h);
            let h = &t[t.len() - 1];
            if strictly_simple(&t) && inside2(two(h[0]), &poly[0])
                && poly[1..].iter().all(|q| !inside2(two(h[0]), q) && !inside2(two(q[0]), h))
            {
                poly = t;
            }
        }
        Some(poly)
    }
    pub fn pack_all(&self, ps: &mut [Poly]) {
        for q in ps.iter_mut().flatten().flatten() {
            *q = self.pack(*q);
        }
    }
}
/// no two edges of the operands cross properly
pub fn planar(polys: &[Vec<Poly>]) -> bool {
    let es: Vec<S> = polys.iter().flatten().flatten().flat_map(edges).collect();
    (0..es.len()).all(|i| (0..i).all(|j| !crosses(es[i], es[j])))
}
