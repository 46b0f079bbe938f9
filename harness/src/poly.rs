//! Polygon generators on the integer lattice.
use crate::gen::lattice_ok;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Ring = Vec<P>;
/// exterior first, then holes; rings are stored open (no repeated closing vertex)
pub type Poly = Vec<Ring>;

pub fn edges(ring: &Ring) -> Vec<S> {
    (0..ring.len()).map(|i| (ring[i], ring[(i + 1) % ring.len()])).filter(|s| s.0 != s.1).collect()
}
pub fn area2(ring: &Ring) -> i64 {
    edges(ring).iter().map(|(a, b)| a.0 * b.1 - a.1 * b.0).sum()
}
/// parity of `p` (doubled coordinates) in the ring; p must not lie on it
pub fn inside2(p2: P, ring: &Ring) -> bool {
    let mut c = false;
    for (a, b) in edges(ring) {
        let (a, b) = ((2 * a.0, 2 * a.1), (2 * b.0, 2 * b.1));
        let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
        if a.0 <= p2.0 && p2.0 < b.0 && orient(a, b, p2) < 0 {
            c = !c;
        }
    }
    c
}

/// Trace the boundary of a union of counter-clockwise faces into simple rings and group
/// them into polygons.
pub fn assemble(faces: &[Vec<P>]) -> Vec<Poly> {
    let mut he: BTreeSet<(P, P)> = BTreeSet::new();
    for f in faces {
        for (a, b) in edges(f) {
            if !he.remove(&(b, a)) {
                he.insert((a, b));
            }
        }
    }
    let mut out: BTreeMap<P, Vec<P>> = BTreeMap::new();
    for (a, b) in &he {
        out.entry(*a).or_default().push(*b);
    }
    let mut rings: Vec<Ring> = vec![];
    while let Some((a, b)) = he.iter().next().copied() {
        let mut path: Vec<P> = vec![a];
        let mut cur = (a, b);
        loop {
            he.remove(&cur);
            out.get_mut(&cur.0).unwrap().retain(|x| *x != cur.1);
            if let Some(i) = path.iter().position(|p| *p == cur.1) {
                rings.push(path[i..].to_vec());
                path.truncate(i + 1);
                if i == 0 {
                    break;
                }
            } else {
                path.push(cur.1);
            }
            let v = *path.last().unwrap();
            let nx = out[&v][0];
            cur = (v, nx);
        }
    }
    group(rings)
}
fn group(rings: Vec<Ring>) -> Vec<Poly> {
    let (ext, holes): (Vec<Ring>, Vec<Ring>) = rings.into_iter().partition(|r| area2(r) > 0);
    let mut polys: Vec<Poly> = ext.into_iter().map(|r| vec![r]).collect();
    for h in holes {
        let (a, b) = edges(&h)[0];
        let mid = (a.0 + b.0, a.1 + b.1);
        let best = (0..polys.len()).filter(|i| inside2(mid, &polys[*i][0])).min_by_key(|i| area2(&polys[*i][0]));
        polys[best.expect("hole without exterior")].push(h);
    }
    polys
}

/// Random union of faces of a triangulated w x h grid; `diag`: 0 squares only.
pub fn cells(r: &mut Rng, w: i64, h: i64, m: i64, o: P, density: u64, diag: bool) -> Vec<Poly> {
    let mut faces = vec![];
    for i in 0..w {
        for j in 0..h {
            let (x, y) = (o.0 + i * m, o.1 + j * m);
            let (a, b, c, d) = ((x, y), (x + m, y), (x + m, y + m), (x, y + m));
            if diag && r.chance(1, 2) {
                let (t1, t2) = if r.chance(1, 2) { (vec![a, b, c], vec![a, c, d]) } else { (vec![a, b, d], vec![b, c, d]) };
                if r.chance(density, 100) {
                    faces.push(t1);
                }
                if r.chance(density, 100) {
                    faces.push(t2);
                }
            } else if r.chance(density, 100) {
                faces.push(vec![a, b, c, d]);
            }
        }
    }
    let mut ps = assemble(&faces);
    if r.chance(1, 2) {
        for p in ps.iter_mut() {
            for ring in p.iter_mut() {
                drop_collinear(ring);
            }
        }
    }
    ps
}
/// Rectangles nested several levels deep, islands in holes in islands; `slant`: corners cut off
pub fn nested(r: &mut Rng, w: i64, h: i64, m: i64, o: P) -> Vec<Poly> {
    let mut map = vec![vec![0u64; h as usize]; w as usize];
    fn fill(r: &mut Rng, map: &mut Vec<Vec<u64>>, x0: i64, y0: i64, x1: i64, y1: i64, depth: u64) {
        if x1 - x0 < 1 || y1 - y0 < 1 || depth == 0 {
            return;
        }
        for x in x0..x1 {
            for y in y0..y1 {
                map[x as usize][y as usize] ^= 1;
            }
        }
        // mostly leave a margin; cut the rest into side-by-side parts
        let g = if r.chance(5, 6) { 1 } else { 0 };
        let (x0, y0, x1, y1) = (x0 + g, y0 + g, x1 - g, y1 - g);
        let (dx, dy) = (x1 - x0, y1 - y0);
        let gap = r.range(0, 1);
        if dx > 2 && r.chance(1, 3) {
            let c = r.range(x0 + 1, x1 - 1);
            fill(r, map, x0, y0, c, y1, depth - 1);
            fill(r, map, c + gap, y0, x1, y1, depth - 1);
        } else if dy > 2 && r.chance(1, 3) {
            let c = r.range(y0 + 1, y1 - 1);
            fill(r, map, x0, y0, x1, c, depth - 1);
            fill(r, map, x0, c + gap, x1, y1, depth - 1);
        } else {
            fill(r, map, x0, y0, x1, y1, depth - 1);
        }
    }
    let d = r.range(1, 5) as u64;
    fill(r, &mut map, 0, 0, w, h, d);
    let slant = r.chance(1, 3);
    let mut fs = vec![];
    for i in 0..w {
        for j in 0..h {
            if map[i as usize][j as usize] == 1 {
                let (x, y) = (o.0 + i * m, o.1 + j * m);
                let f = [(x, y), (x + m, y), (x + m, y + m), (x, y + m)];
                if slant && r.chance(1, 6) {
                    let k = r.range(0, 3) as usize;
                    fs.push(vec![f[k], f[(k + 1) % 4], f[(k + 2) % 4]]);
                } else {
                    fs.push(f.to_vec());
                }
            }
        }
    }
    let mut ps = assemble(&fs);
    ps.iter_mut().flatten().for_each(drop_collinear);
    ps
}
pub fn drop_collinear(ring: &mut Ring) {
    let n = ring.len();
    let keep: Vec<P> =
        (0..n).filter(|&i| orient(ring[(i + n - 1) % n], ring[i], ring[(i + 1) % n]) != 0).map(|i| ring[i]).collect();
    *ring = keep;
}
/// Random start vertex and orientation of every ring, random order of polygons and holes.
pub fn jumble(r: &mut Rng, ps: &mut [Poly]) {
    for p in ps.iter_mut() {
        let n = p.len();
        if n > 2 {
            r.shuffle(&mut p[1..]);
        }
        for ring in p.iter_mut() {
            let k = r.range(0, ring.len() as i64 - 1) as usize;
            ring.rotate_left(k);
            if r.chance(1, 2) {
                ring.reverse();
            }
        }
    }
    r.shuffle(ps);
}

/// No two edges of the rings meet except consecutive ones at their shared vertex.
pub fn strictly_simple(rings: &[Ring]) -> bool {
    let mut es: Vec<(usize, usize, usize, S)> = vec![];
    for (k, ring) in rings.iter().enumerate() {
        let n = ring.len();
        if n < 3 {
            return false;
        }
        for i in 0..n {
            es.push((k, i, n, (ring[i], ring[(i + 1) % n])));
        }
    }
    for a in 0..es.len() {
        let (ka, ia, n, s) = es[a];
        if s.0 == s.1 {
            return false;
        }
        for b in a + 1..es.len() {
            let (kb, ib, _, t) = es[b];
            let adj = ka == kb && ((ia + 1) % n == ib || (ib + 1) % n == ia);
            if adj {
                // share exactly one vertex: the other end must not lie on the edge
                let (sh, x, y) = if s.1 == t.0 { (s.1, s.0, t.1) } else { (s.0, s.1, t.0) };
                if orient(x, sh, y) == 0 && (on_seg(x, (sh, y)) || on_seg(y, (sh, x))) {
                    return false;
                }
                if n == 3 && orient(s.0, s.1, if s.1 == t.0 { t.1 } else { t.0 }) == 0 {
                    return false;
                }
            } else if crosses(s, t) || touches(s, t) {
                return false;
            }
        }
    }
    true
}

/// A random strictly simple ring on the g x g coarse grid (scaled by m), if one was found.
pub fn free_ring(r: &mut Rng, g: i64, m: i64, n: usize, style: u64) -> Option<Ring> {
    ring_of(r, |r| (r.range(0, g) * m, r.range(0, g) * m), g * m, n, style, 60)
}
/// A random strictly simple ring through `n` points drawn by `pt` (style 0: from 0..=e).
pub fn ring_of(r: &mut Rng, pt: impl Fn(&mut Rng) -> P, e: i64, n: usize, style: u64, tries: usize) -> Option<Ring> {
    for _ in 0..tries {
        let mut pts: Vec<P> = vec![];
        let mut guard = 0;
        while pts.len() < n && guard < 200 {
            guard += 1;
            let p = pt(r);
            if !pts.contains(&p) {
                pts.push(p);
            }
        }
        let mut ring = pts;
        match style {
            // star shaped
            0 => {
                let c = (e / 2 * 2 + 1, e / 2 * 2 + 1);
                let ang = |p: &P| (((2 * p.1 - c.1) as f64).atan2((2 * p.0 - c.0) as f64) * 1e9) as i64;
                ring.sort_by_key(ang);
            }
            // steppy: upper and lower zigzag (x-sorted)
            1 => {
                ring.sort();
                let (mut up, mut lo) = (vec![], vec![]);
                for (i, p) in ring.iter().enumerate() {
                    if i == 0 || i + 1 == ring.len() || r.chance(1, 2) {
                        up.push(*p)
                    } else {
                        lo.push(*p)
                    }
                }
                lo.reverse();
                up.extend(lo);
                ring = up;
            }
            // y-sorted zigzag
            2 => {
                ring.sort_by_key(|p| (p.1, p.0));
                let (mut up, mut lo) = (vec![], vec![]);
                for (i, p) in ring.iter().enumerate() {
                    if i == 0 || i + 1 == ring.len() || r.chance(1, 2) {
                        up.push(*p)
                    } else {
                        lo.push(*p)
                    }
                }
                lo.reverse();
                up.extend(lo);
                ring = up;
            }
            // 2-opt untangling
            _ => {
                'o: for _ in 0..200 {
                    let k = ring.len();
                    for i in 0..k {
                        for j in i + 2..k {
                            if i == 0 && j == k - 1 {
                                continue;
                            }
                            let s = (ring[i], ring[i + 1]);
                            let t = (ring[j], ring[(j + 1) % k]);
                            if crosses(s, t) || touches(s, t) {
                                ring[i + 1..=j].reverse();
                                continue 'o;
                            }
                        }
                    }
                    break;
                }
            }
        }
        if r.chance(1, 2) {
            drop_collinear(&mut ring);
        }
        if ring.len() >= 3 && strictly_simple(std::slice::from_ref(&ring)) {
            return Some(ring);
        }
    }
    None
}
/// A strictly valid polygon (2-regular): free ring with up to `nh` holes.
pub fn free_poly(r: &mut Rng, g: i64, m: i64, n: usize, nh: usize) -> Option<Poly> {
    let style = r.range(0, 3) as u64;
    let ext = free_ring(r, g, m, n, style)?;
    let mut poly = vec![ext];
    let mut tries = 0;
    while poly.len() < nh + 1 && tries < 40 {
        tries += 1;
        let k = r.range(3, 6) as usize;
        let gg = r.range(1, (g / 2).max(1));
        let st = r.range(0, 3) as u64;
        if let Some(h) = free_ring(r, gg, m, k.min(((gg + 1) * (gg + 1)) as usize), st) {
            let o = (r.range(0, g - gg) * m, r.range(0, g - gg) * m);
            let h: Ring = h.iter().map(|p| (p.0 + o.0, p.1 + o.1)).collect();
            let hp = (2 * h[0].0, 2 * h[0].1);
            let mut t = poly.clone();
            t.push(h);
            if strictly_simple(&t) && inside2(hp, &poly[0]) && poly[1..].iter().all(|q| !inside2(hp, q))
                && poly[1..].iter().all(|q| !inside2((2 * q[0].0, 2 * q[0].1), t.last().unwrap()))
            {
                poly = t;
            }
        }
    }
    Some(poly)
}
/// All vertices distinct, rings disjoint: what `monotone_chains` documents as valid.
pub fn strict_poly(r: &mut Rng, style: u64) -> Option<(Poly, i64)> {
    match style {
        0 | 5 => {
            let m = 2;
            let e = if style == 0 { 6 } else { 16 };
            let (w, h) = (r.range(2, e), r.range(2, e));
            let d = r.range(40, 90) as u64;
            let dg = r.chance(2, 3);
            let ps = cells(r, w, h, m, (0, 0), d, dg);
            let ok: Vec<Poly> = ps.into_iter().filter(|p| strictly_simple(p)).collect();
            if ok.is_empty() {
                return None;
            }
            let b = ok.iter().max_by_key(|p| p.iter().map(|x| x.len()).sum::<usize>()).unwrap().clone();
            Some((b, 2 * e))
        }
        1 => {
            let n = r.range(3, 7) as usize;
            let nh = r.range(0, 1) as usize;
            free_poly(r, 4, 1, n, nh).map(|p| (p, 4))
        }
        2 => {
            let n = r.range(4, 14) as usize;
            let nh = r.range(0, 3) as usize;
            free_poly(r, 9, 1, n, nh).map(|p| (p, 9))
        }
        3 => {
            let n = r.range(6, 24) as usize;
            let nh = r.range(0, 4) as usize;
            free_poly(r, 40, 1, n, nh).map(|p| (p, 40))
        }
        6 => {
            let n = r.range(30, 120) as usize;
            let nh = r.range(0, 12) as usize;
            free_poly(r, 15000, 1, n, nh).map(|p| (p, 15000))
        }
        _ => {
            let n = r.range(8, 40) as usize;
            let nh = r.range(0, 6) as usize;
            free_poly(r, 15000, 1, n, nh).map(|p| (p, 15000))
        }
    }
}

/// All edges of all rings meet at lattice points only.
pub fn all_lattice(polys: &[&[Poly]]) -> bool {
    let mut acc: Vec<S> = vec![];
    for ps in polys {
        for p in ps.iter() {
            for ring in p {
                for e in edges(ring) {
                    if !lattice_ok(&acc, e) {
                        return false;
                    }
                    acc.push(e);
                }
            }
        }
    }
    true
}

/// Random, possibly self-intersecting and overlapping closed rings.
pub fn wild(r: &mut Rng, g: i64, m: i64, rings: usize) -> Vec<Poly> {
    let mut acc: Vec<S> = vec![];
    let mut ps: Vec<Poly> = vec![];
    for _ in 0..rings {
        for _ in 0..30 {
            let n = r.range(3, 7) as usize;
            let mut ring: Ring = vec![];
            let ortho = r.chance(1, 3);
            while ring.len() < n {
                let mut p = (r.range(0, g) * m, r.range(0, g) * m);
                if ortho && !ring.is_empty() {
                    let l = *ring.last().unwrap();
                    if ring.len() % 2 == 1 { p.1 = l.1 } else { p.0 = l.0 }
                }
                ring.push(p);
            }
            if r.chance(1, 8) {
                // revisit an edge
                let a = ring[0];
                let b = ring[1];
                ring.push(a);
                ring.push(b);
            }
            let mut t = acc.clone();
            let mut ok = true;
            for e in edges(&ring) {
                if !lattice_ok(&t, e) {
                    ok = false;
                    break;
                }
                t.push(e);
            }
            if ok && edges(&ring).len() >= 2 {
                acc = t;
                if !ps.is_empty() && r.chance(1, 2) {
                    ps.last_mut().unwrap().push(ring);
                } else {
                    ps.push(vec![ring]);
                }
                break;
            }
        }
    }
    ps
}

/// Many triangles around one centre: a vertex of high degree. The spokes depend on `spokes`
/// only, so that the operands of one run share edges.
pub fn fan(r: &mut Rng, g: i64, m: i64, spokes: u64, raw: bool) -> Vec<Poly> {
    let mut sr = Rng::new(spokes, 77);
    let e = g * m;
    let c = (e / 2 + sr.range(-1, 1) * (m / 4), e / 2 + sr.range(-1, 1) * (m / 4));
    let mut bd: Vec<P> = vec![];
    for (a, b, dx, dy) in [(0, 0, 1, 0), (e, 0, 0, 1), (e, e, -1, 0), (0, e, 0, -1)] {
        for i in 0..g {
            bd.push((a + dx * i * m, b + dy * i * m));
        }
    }
    let keep = sr.range(60, 100) as u64;
    bd.retain(|_| sr.chance(keep, 100));
    let d = r.range(30, 70) as u64;
    // every other triangle: every spoke is an edge of both operands
    let alt = if sr.chance(1, 2) { Some(r.range(0, 1) as usize) } else { None };
    if r.chance(1, 3) {
        // smaller triangles on the same spokes
        for p in bd.iter_mut() {
            *p = (c.0 + (p.0 - c.0) / 2, c.1 + (p.1 - c.1) / 2);
        }
    }
    let mut faces = vec![];
    for i in 0..bd.len() {
        let (a, b) = (bd[i], bd[(i + 1) % bd.len()]);
        let want = match alt {
            Some(k) => i % 2 == k && !r.chance(1, 20),
            None => r.chance(d, 100),
        };
        if orient(c, a, b) > 0 && want {
            faces.push(vec![c, a, b]);
        }
    }
    if raw {
        // every triangle a polygon of its own, some of them twice
        return faces.into_iter().flat_map(|f| if r.chance(1, 4) { vec![vec![f.clone()], vec![f]] } else { vec![vec![f]] }).collect();
    }
    assemble(&faces)
}

/// A rectilinear polygon, monotone in x; every vertical edge has an x of its own, all x and y
/// are congruent to `par` modulo `md` (times `m`).
pub fn skyline(r: &mut Rng, g: i64, m: i64, md: i64, par: i64) -> Poly {
    let mut xs: Vec<i64> = (0..=g).collect();
    r.shuffle(&mut xs);
    xs.truncate(r.range(2, (g + 1).min(7)) as usize);
    xs.sort();
    let c = |v: i64| (md * v + par) * m;
    let mut lo = r.range(0, g - 1);
    let mut hi = r.range(lo + 1, g);
    let (mut top, mut bot): (Ring, Ring) = (vec![(c(xs[0]), c(hi))], vec![(c(xs[0]), c(lo))]);
    for x in &xs[1..xs.len() - 1] {
        if r.chance(1, 2) {
            let h = r.range(lo + 1, g);
            if h != hi {
                top.push((c(*x), c(hi)));
                hi = h;
                top.push((c(*x), c(hi)));
            }
        } else {
            let l = r.range(0, hi - 1);
            if l != lo {
                bot.push((c(*x), c(lo)));
                lo = l;
                bot.push((c(*x), c(lo)));
            }
        }
    }
    let x = xs[xs.len() - 1];
    top.push((c(x), c(hi)));
    bot.push((c(x), c(lo)));
    top.reverse();
    bot.extend(top);
    vec![bot]
}

/// An operand whose edges meet those of `with` only at lattice points; fine unit `m` per coarse unit.
pub fn operand(r: &mut Rng, g: i64, m: i64, kind: u64) -> Vec<Poly> {
    match kind {
        0 => {
            let (w, h) = (r.range(1, g), r.range(1, g));
            let o = (r.range(0, g - w) * m, r.range(0, g - h) * m);
            let d = r.range(35, 85) as u64;
            cells(r, w, h, m, o, d, false)
        }
        1 => {
            let (w, h) = (r.range(1, g), r.range(1, g));
            let o = (r.range(0, g - w) * m, r.range(0, g - h) * m);
            let d = r.range(35, 85) as u64;
            cells(r, w, h, m, o, d, true)
        }
        2 => {
            // half-shifted cells
            let (w, h) = (r.range(1, g - 1), r.range(1, g - 1));
            let o = (r.range(0, g - w - 1) * m + m / 2, r.range(0, g - h - 1) * m + m / 2);
            let d = r.range(35, 85) as u64;
            let dg = r.chance(1, 2);
            cells(r, w, h, m, o, d, dg)
        }
        3 => {
            let n = r.range(3, 7) as usize;
            free_poly(r, g, m, n, 0).map(|p| vec![p]).unwrap_or_default()
        }
        4 => {
            let n = r.range(3, 8) as usize;
            let nh = r.range(0, 2) as usize;
            free_poly(r, g, m, n, nh).map(|p| vec![p]).unwrap_or_default()
        }
        5 => {
            // nested rectangles: islands in holes
            let mut faces = vec![];
            let mut k = 0;
            while 2 * k < g {
                if k % 2 == 0 {
                    faces.push(k);
                }
                k += 1;
            }
            let mut out = vec![];
            for k in faces {
                let sq = |k: i64| vec![(k * m, k * m), ((g - k) * m, k * m), ((g - k) * m, (g - k) * m), (k * m, (g - k) * m)];
                let mut p = vec![sq(k)];
                if 2 * (k + 1) < g {
                    p.push(sq(k + 1));
                }
                out.push(p);
            }
            out
        }
        _ => vec![],
    }
}

/// Every strictly simple ring with `lo..=hi` corners on the w x h grid, once (the first corner is
/// the least, the second less than the last).
pub fn all_rings(w: i64, h: i64, lo: usize, hi: usize, mut f: impl FnMut(&Ring)) {
    let pts: Vec<P> = (0..w).flat_map(|x| (0..h).map(move |y| (x, y))).collect();
    fn go(pts: &[P], lo: usize, hi: usize, ring: &mut Ring, f: &mut dyn FnMut(&Ring)) {
        let n = ring.len();
        if n >= lo && ring[1] < ring[n - 1] && strictly_simple(std::slice::from_ref(ring)) {
            f(ring);
        }
        if n == hi {
            return;
        }
        for p in pts {
            if *p <= ring[0] || ring.contains(p) {
                continue;
            }
            // the new edge must not meet the earlier ones
            let e = (ring[n - 1], *p);
            let bad = (0..n - 1).any(|i| {
                let t = (ring[i], ring[i + 1]);
                crosses(e, t) || on_seg(*p, t) || (i + 2 < n && touches(e, t)) || on_seg(ring[i], e)
            });
            if !bad {
                ring.push(*p);
                go(pts, lo, hi, ring, f);
                ring.pop();
            }
        }
    }
    for p in &pts {
        go(&pts, lo.max(3), hi, &mut vec![*p], &mut f);
    }
}
/// The faces of a w x h grid of squares, each cut by a diagonal: falling if the bit is set.
pub fn faces(w: i64, h: i64, m: i64, diag: u64) -> Vec<Vec<P>> {
    let mut fs = vec![];
    for i in 0..w {
        for j in 0..h {
            let (x, y) = (i * m, j * m);
            let (a, b, c, d) = ((x, y), (x + m, y), (x + m, y + m), (x, y + m));
            if diag >> (i * h + j) & 1 == 0 {
                fs.extend([vec![a, b, c], vec![a, c, d]]);
            } else {
                fs.extend([vec![a, b, d], vec![b, c, d]]);
            }
        }
    }
    fs
}
