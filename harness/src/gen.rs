//! Input generators: segment sets and polygons on a fine integer lattice such that every
//! vertex of the arrangement is itself a lattice point ("exact" inputs).
use crate::util::*;

/// Add `s` if all its proper crossings with `segs` are lattice points.
pub fn lattice_ok(segs: &[S], s: S) -> bool {
    segs.iter().all(|t| match proper(s, *t) {
        None => true,
        Some((nx, ny, d)) => nx % d == 0 && ny % d == 0,
    })
}

/// Random segments/points on the coarse grid 0..=g scaled by m.
pub fn segments(r: &mut Rng, g: i64, m: i64, n: usize, style: u64) -> Vec<S> {
    let mut v: Vec<S> = vec![];
    let mut tries = 0;
    while v.len() < n && tries < 400 {
        tries += 1;
        let rp = |r: &mut Rng| (r.range(0, g) * m, r.range(0, g) * m);
        let mut a = rp(r);
        let mut b = rp(r);
        match style {
            // axis-parallel / diagonal bias: many overlaps
            1 => {
                let k = r.range(0, 3);
                let d = r.range(1, g) * m;
                b = match k {
                    0 => (a.0 + d, a.1),
                    1 => (a.0, a.1 + d),
                    2 => (a.0 + d, a.1 + d),
                    _ => (a.0 + d, a.1 - d),
                };
            }
            // everything on two lines: heavy overlaps
            2 => {
                if r.chance(1, 2) {
                    a.1 = m;
                    b.1 = m;
                } else {
                    a.1 = a.0;
                    b.1 = b.0;
                }
            }
            // share an endpoint with an earlier segment
            3 => {
                if !v.is_empty() && r.chance(2, 3) {
                    let t = *r.pick(&v);
                    a = if r.chance(1, 2) { t.0 } else { t.1 };
                }
            }
            // stars through a common centre
            4 => {
                let c = (g / 2 * m, g / 2 * m);
                if r.chance(2, 3) {
                    b = (2 * c.0 - a.0, 2 * c.1 - a.1);
                }
            }
            // verticals
            5 => {
                if r.chance(1, 2) {
                    b.0 = a.0;
                }
            }
            _ => {}
        }
        if b.0 < 0 || b.1 < 0 || b.0 > g * m || b.1 > g * m {
            continue;
        }
        if a == b && !r.chance(1, 3) {
            continue;
        }
        if !v.is_empty() && r.chance(1, 25) {
            let t = *r.pick(&v);
            a = t.0;
            b = t.1;
        }
        if r.chance(1, 2) {
            std::mem::swap(&mut a, &mut b);
        }
        if lattice_ok(&v, (a, b)) {
            v.push((a, b));
        }
    }
    v
}

/// A random exactness-preserving map for lattice inputs.
pub fn exact_map(r: &mut Rng) -> Map {
    let mut m = Map::ID;
    match r.range(0, 4) {
        0 | 1 => {}
        2 => m.scale = 0.125,
        3 => m.scale = 64.0,
        // far from one, where absolute tolerances would show
        _ => m.scale = 2f64.powi(*r.pick(&[-1, -1, -20, -40, -120, 30, 120])),
    }
    if r.chance(1, 3) {
        // symmetric around the origin, so that zero and negative values occur
        m.tx = -(r.range(0, 400) as f64) * m.scale;
        m.ty = -(r.range(0, 400) as f64) * m.scale;
    }
    m.negzero = r.chance(1, 5);
    m
}

/// A map for a scalar type: f64, f32, i32, i64; `ext`: the largest lattice coordinate.
pub fn typed_map(r: &mut Rng, ty: u8, ext: i64) -> Map {
    let mut m = Map::ID;
    match ty {
        0 => return exact_map(r),
        1 => m.scale = 2f64.powi(*r.pick(&[0, 0, -3, 4, -12, 12])),
        2 => m.scale = (*r.pick(&[1, 1, 7, 400])).min((20000 / ext.max(1)).max(1)) as f64,
        _ => m.scale = *r.pick(&[1.0, 1.0, 1000.0, 16384.0]),
    }
    if r.chance(1, 2) {
        m.tx = -(r.range(0, ext) as f64) * m.scale;
        m.ty = -(r.range(0, ext) as f64) * m.scale;
    }
    m.negzero = ty == 1 && r.chance(1, 5);
    m
}

/// The arrangement stays combinatorially the same under small perturbations of computed points:
/// a vertex that has to be computed (a proper crossing) lies on exactly two segments and shares
/// its x with no other vertex; endpoints lie in no other segment's interior; overlapping
/// segments are identical.
pub fn general_position(v: &[S]) -> bool {
    in_position(v, false)
}
/// As `general_position`; `steep`: vertical segments may be crossed.
pub fn in_position(v: &[S], steep: bool) -> bool {
    let mut cs: Vec<P> = vec![];
    for i in 0..v.len() {
        for j in 0..i {
            let (s, t) = (v[i], v[j]);
            if (s.0 == t.0 && s.1 == t.1) || (s.0 == t.1 && s.1 == t.0) {
                continue;
            }
            let inner = |p: P, s: S| on_seg(p, s) && p != s.0 && p != s.1;
            if inner(s.0, t) || inner(s.1, t) || inner(t.0, s) || inner(t.1, s) {
                return false;
            }
            if let Some((x, y, d)) = proper(s, t) {
                if x % d != 0 || y % d != 0 {
                    return false;
                }
                cs.push((x / d, y / d));
            }
        }
    }
    // identical segments give identical crossings: allowed only if computed identically,
    // which is not promised, so refuse repeated crossings altogether
    cs.sort();
    let n = cs.len();
    if (1..n).any(|i| cs[i].0 == cs[i - 1].0 && (!steep || cs[i] == cs[i - 1])) {
        return false;
    }
    let own = |c: P, p: P| steep && v.iter().any(|s| s.0 .0 == s.1 .0 && on_seg(c, *s) && (p == s.0 || p == s.1));
    let fine = |c: P, p: P| p.0 != c.0 || own(c, p);
    cs.iter().all(|c| v.iter().all(|s| fine(*c, s.0) && fine(*c, s.1)))
}

/// A map under which computed points are rounded.
pub fn rounding_map(r: &mut Rng) -> Map {
    let mut m = Map::ID;
    m.scale = *r.pick(&[0.1, 1.0 / 3.0, 0.7, 1e-3, 17.3, std::f64::consts::PI, 1e-7, 12345.678]);
    let k = *r.pick(&[60000, 60000, 3000, 10, 0]);
    m.tx = m.scale * (r.range(-k, k) as f64 + 0.123456789);
    m.ty = m.scale * (r.range(-k, k) as f64 + 0.987654321);
    m.tol = 0.01;
    m
}

/// Make a rounding map fit for single precision on a small lattice.
pub fn single(m: &mut Map) {
    m.tx %= 64.0 * m.scale;
    m.ty %= 64.0 * m.scale;
    m.tol = 0.05;
}
