//! Recorder for the scan-line walker over monotone polygons and its raster queries.
use crate::mono::{ls_json, polygon, Sc};
use crate::poly::*;
use crate::util::*;
use geo::prelude::BoundingRect;
use geo::{Coordinate, GeoFloat, LineString};
use geo_crossings::monotone::{monotone_chains, MonoPoly, Trapz};
use std::fmt::Write;

pub type Mono = (Vec<P>, Vec<P>);

/// A random monotone polygon with vertices on the (kx+1) x (ky+1) grid.
pub fn mono(r: &mut Rng, kx: i64, ky: i64, n: usize) -> Option<Mono> {
    for _ in 0..80 {
        let mut pts: Vec<P> = vec![];
        let mut guard = 0;
        while pts.len() < n && guard < 100 {
            guard += 1;
            let p = (r.range(0, kx), r.range(0, ky));
            if !pts.contains(&p) {
                pts.push(p);
            }
        }
        pts.sort();
        let (a, b) = (pts[0], *pts.last().unwrap());
        if a.0 == b.0 {
            continue;
        }
        let (mut t, mut o) = (vec![a], vec![a]);
        let free = r.chance(1, 2);
        for p in &pts[1..pts.len() - 1] {
            let up = if free { r.chance(1, 2) } else { orient(a, b, *p) >= 0 };
            if up { t.push(*p) } else { o.push(*p) }
        }
        t.push(b);
        o.push(b);
        if t.len() + o.len() < 5 {
            continue;
        }
        // heights at whole positions stay on the lattice
        if [&t, &o].iter().any(|c| c.windows(2).any(|w| w[1].0 - w[0].0 > 8)) {
            continue;
        }
        let mut ring = o.clone();
        ring.extend(t[1..t.len() - 1].iter().rev());
        if area2(&ring) > 0 && strictly_simple(std::slice::from_ref(&ring)) {
            return Some((t, o));
        }
    }
    None
}
/// Every monotone polygon with vertices on the (kx+1) x (ky+1) grid.
pub fn all(kx: i64, ky: i64, mut emit: impl FnMut(Mono)) {
    let pts: Vec<P> = (0..=kx).flat_map(|x| (0..=ky).map(move |y| (x, y))).collect();
    for i in 0..pts.len() {
        for j in i + 1..pts.len() {
            let (a, b) = (pts[i], pts[j]);
            if a.0 == b.0 {
                continue;
            }
            let mid = &pts[i + 1..j];
            for code in 1..3i64.pow(mid.len() as u32) {
                let (mut t, mut o, mut c) = (vec![a], vec![a], code);
                for p in mid {
                    match c % 3 {
                        1 => t.push(*p),
                        2 => o.push(*p),
                        _ => {}
                    }
                    c /= 3;
                }
                t.push(b);
                o.push(b);
                let mut ring = o.clone();
                ring.extend(t[1..t.len() - 1].iter().rev());
                if area2(&ring) > 0 && strictly_simple(std::slice::from_ref(&ring)) {
                    emit((t, o));
                }
            }
        }
    }
}
fn ls<T: Sc>(v: &[P], m: &Map) -> LineString<T> {
    LineString(v.iter().map(|p| Coordinate { x: T::mk(m.fx(p.0)), y: T::mk(m.fy(p.1)) }).collect())
}
fn pts_json(v: &[P]) -> String {
    let v: Vec<String> = v.iter().map(|p| format!("[{},{}]", p.0, p.1)).collect();
    format!("[{}]", v.join(","))
}
/// Either built directly or taken from a decomposition of the same outline.
fn build<T: Sc + GeoFloat>(mo: &Mono, m: &Map, via: bool) -> MonoPoly<T> {
    if via {
        let mut ring = mo.1.clone();
        ring.extend(mo.0[1..mo.0.len() - 1].iter().rev());
        let mut v = monotone_chains(&polygon::<T>(&vec![ring], m));
        if v.len() == 1 {
            return v.remove(0);
        }
    }
    MonoPoly::new(ls(&mo.0, m), ls(&mo.1, m))
}
pub fn head(mo: &Mono) -> String {
    format!("\"top\":{},\"bot\":{}", pts_json(&mo.0), pts_json(&mo.1))
}

pub fn history<T: Sc + GeoFloat>(r: &mut Rng, mo: &Mono, m: &Map, lo: i64, hi: i64, step: i64) -> String {
    let via = r.chance(1, 4);
    let mut out = String::new();
    let y = |v: T| m.inv1(v.un(), m.ty);
    let x = |v: T| m.inv1(v.un(), m.tx);
    let res = guarded(|| {
        let mp = build::<T>(mo, m, via);
        let at = |u: i64| T::mk(m.fx(u));
        let rx = |r: &mut Rng| lo + step * r.range(-2, (hi - lo) / step + 2);
        let u = rx(r);
        let mut sc = mp.scan_lines(at(u));
        macro_rules! cur {
            () => {{
                let c = sc.curr();
                format!("\"cur\":[{},{},{}]}}", x(c.x), y(c.top), y(c.bot))
            }};
        }
        write!(out, "{{\"k\":\"scan_lines\",\"u\":{u},\"tz\":[],\"end\":1,{}", cur!()).unwrap();
        for _ in 0..r.range(1, 7) {
            let u = rx(r);
            let mut tz: Vec<String> = vec![];
            let mut end = 0;
            let mut push = |t: Trapz<T>| {
                // upside down by less than the lattice resolves: still wrong
                let lt = if t.left.top < t.left.bot || t.right.top < t.right.bot { OFF } else { y(t.left.top) };
                tz.push(format!(
                    "[{},{},{},{},{},{}]",
                    x(t.left.x), lt, y(t.left.bot), x(t.right.x), y(t.right.top), y(t.right.bot)
                ))
            };
            let k = r.range(0, 3);
            let name = match k {
                0 => {
                    for t in sc.advance_to(at(u)) {
                        push(t);
                    }
                    end = 1;
                    "to"
                }
                1 => {
                    // abandon the iterator half way
                    let lim = r.range(0, 2) as usize;
                    let mut n = 0;
                    let mut it = sc.advance_to(at(u));
                    while n < lim {
                        n += 1;
                        match it.next() {
                            Some(t) => push(t),
                            None => {
                                end = 1;
                                break;
                            }
                        }
                    }
                    "part"
                }
                2 => {
                    sc.advance_upto(at(u), |t| push(t));
                    end = 1;
                    "upto"
                }
                _ => {
                    // one visible step
                    let mut stutter = 0;
                    while sc.curr().x < at(u) {
                        match sc.advance_next(at(u)) {
                            Some(Some(t)) => {
                                push(t);
                                break;
                            }
                            Some(None) => {
                                stutter += 1;
                                if stutter > 1000 {
                                    panic!("advance_next makes no progress");
                                }
                            }
                            None => {
                                end = 1;
                                break;
                            }
                        }
                    }
                    "next"
                }
            };
            write!(out, ",{{\"k\":\"{name}\",\"u\":{u},\"end\":{end},\"tz\":[{}],{}", tz.join(","), cur!()).unwrap();
        }
    });
    match res {
        Ok(()) => format!("\"st\":\"ok\",\"acts\":[{out}]"),
        Err(e) => {
            let cut = out.rfind("}").map(|i| i + 1).unwrap_or(0);
            format!("\"st\":\"panic\",\"msg\":\"{e}\",\"acts\":[{}]", &out[..cut])
        }
    }
}

/// Raster queries strip by strip.  `what`: 0 area, 1 bounds, 2 upper bounds, 3 a mixture of all
/// queries with plain moves in between and rasters that change.
#[allow(clippy::too_many_arguments)]
pub fn raster<T: Sc + GeoFloat>(r: &mut Rng, mo: &Mono, m: &Map, hi: i64, yhi: i64, step: i64, what: u8, rows: i64) -> String {
    let via = r.chance(1, 4);
    let (x0, x1) = (-1, hi / step + 1);
    let left = r.range(x0, x1 - 1);
    let y = |v: T| m.inv1(v.un(), m.ty);
    let mut out = String::new();
    // doubled area in lattice units
    let near = if T::epsilon().un() > 1e-10 { 0.05 } else { 1e-3 };
    let show = |acc: &[T]| {
        let v: Vec<String> = acc
            .iter()
            .map(|a| {
                let d = 2.0 * a.un() / (m.scale * m.scale);
                let q = d.round();
                if (d - q).abs() <= near && q.abs() < 2e9 { format!("{q}") } else { "-1".into() }
            })
            .collect();
        v.join(",")
    };
    let res = guarded(|| {
        let mp = build::<T>(mo, m, via);
        let mut sc = mp.scan_lines(T::mk(m.fx(left * step)));
        let mut cur = left;
        let stride = r.range(1, 4);
        let (mut cmin, mut cmax, mut h) = (0, 0, 0);
        let mut acc: Vec<T> = vec![];
        let mut idle = 0;
        while cur < x1 {
            // rows: h rows of k steps each, possibly clipping the polygon
            let fresh = h == 0 || what == 3 && r.chance(1, 3);
            if fresh {
                h = r.range(1, rows);
                let k = r.range(1, 4);
                cmin = step * r.range(-2, yhi / step);
                cmax = cmin + step * h * k;
                // rows need not start empty
                let unit = m.scale * m.scale / 2.0;
                let full = r.chance(1, 3);
                acc = (0..h).map(|_| T::mk(if full { r.range(0, 3000) as f64 * unit } else { 0.0 })).collect();
            }
            if what == 3 && idle < 4 && r.chance(1, 5) {
                // not forward at all
                idle += 1;
                cur -= r.range(0, 1);
            } else {
                cur += if stride == 4 { r.range(1, 3) } else { stride };
            }
            let q = if what == 3 { r.range(0, 5) } else { what as i64 };
            let mut right = m.fx(cur * step);
            if what == 0 && m.tol >= 0.01 && r.chance(1, 2) {
                // a strip border computed slightly differently: off by some units in the last place
                right = ulps(right, r.range(-3, 3));
            }
            let mut right = T::mk(right);
            if right.un().abs() < 1e-30 * m.scale {
                right = T::zero();
            }
            let (lo, top) = (T::mk(m.fy(cmin)), T::mk(m.fy(cmax)));
            if !out.is_empty() {
                out.push(',');
            }
            let init = if fresh { show(&acc) } else { String::new() };
            write!(out, "{{\"u\":{},\"w\":[{cmin},{cmax},{h}],\"i\":[{init}],", cur * step).unwrap();
            match q {
                0 => {
                    sc.cross_area(right, lo, top, &mut acc);
                    write!(out, "\"q\":\"area\",\"a\":[{}]}}", show(&acc)).unwrap();
                }
                1 => match sc.cross_bounds(right, lo, top, h as usize) {
                    None => out.push_str("\"q\":\"bounds\",\"b\":[]}"),
                    Some((j0, j1, bm, tm)) => write!(out, "\"q\":\"bounds\",\"b\":[{j0},{j1},{},{}]}}", y(bm), y(tm)).unwrap(),
                },
                2 => {
                    let (j0, j1) = sc.cross_ubounds(right, lo, top, h as usize);
                    write!(out, "\"q\":\"ubounds\",\"b\":[{j0},{j1}]}}").unwrap();
                }
                k => {
                    // plain moves: all the way, or abandoned
                    match k {
                        3 => sc.advance_upto(right, |_| {}),
                        4 => drop(sc.advance_to(right).next()),
                        _ => sc.advance_to(right).for_each(drop),
                    }
                    write!(out, "\"q\":\"move\",\"x\":{}}}", m.inv1(sc.curr().x.un(), m.tx)).unwrap();
                }
            }
        }
    });
    let rnd = (m.tol >= 0.01) as u8;
    let head = format!("\"rnd\":{rnd},\"left\":{}", left * step);
    match res {
        Ok(()) => format!("{head},\"st\":\"ok\",\"acts\":[{out}]"),
        Err(e) => {
            let cut = out.rfind('}').map(|i| i + 1).unwrap_or(0);
            format!("{head},\"st\":\"panic\",\"msg\":\"{e}\",\"acts\":[{}]", &out[..cut])
        }
    }
}

/// Conversions of a monotone polygon, and what the constructor accepts.
pub fn conversions<T: Sc>(r: &mut Rng, mo: &Mono, m: &Map) -> String {
    // corrupt the chains in some runs: the constructor must refuse them
    let (mut t, mut b) = mo.clone();
    let kind = r.range(0, 15);
    let (tgt, oth) = if r.chance(1, 2) { (&mut t, &mut b) } else { (&mut b, &mut t) };
    let n = tgt.len();
    match kind {
        0 => tgt.reverse(),
        1 => {
            let i = r.range(0, n as i64 - 2) as usize;
            tgt.swap(i, i + 1)
        }
        2 => {
            let i = r.range(0, n as i64 - 1) as usize;
            let p = tgt[i];
            tgt.insert(i, p)
        }
        3 => tgt[n - 1].1 += 1,
        4 => tgt[0].1 -= 1,
        5 => {
            tgt.reverse();
            oth.reverse()
        }
        // parts of chains: both may still fit, or not
        6 => {
            tgt.truncate(r.range(0, n as i64 - 1) as usize);
            if r.chance(1, 2) {
                oth.clone_from(tgt);
                if oth.len() > 2 && r.chance(1, 2) {
                    oth.remove(1);
                }
            }
        }
        7 => drop(tgt.remove(0)),
        8 => tgt.truncate(1),
        // the chains change places: each is still a chain
        9 => std::mem::swap(tgt, oth),
        _ => {}
    }
    // no box around what has no extent, nor around chains in the wrong places
    let boxed = (&t, &b) == (&mo.0, &mo.1);
    let made = guarded(|| MonoPoly::<T>::new(ls(&t, m), ls(&b, m)));
    let head = format!("\"top\":{},\"bot\":{},\"boxed\":{}", pts_json(&t), pts_json(&b), boxed as u8);
    let mp = match made {
        Ok(mp) => mp,
        Err(e) => return format!("{head},\"st\":\"refused\",\"msg\":\"{e}\""),
    };
    let res = guarded(|| {
        let bb = if boxed {
            let bb = mp.bounding_rect();
            let q = |c: Coordinate<T>| m.inv(c.x.un(), c.y.un());
            let (lo, hi) = (q(bb.min()), q(bb.max()));
            format!("{},{},{},{}", lo.0, lo.1, hi.0, hi.1)
        } else {
            String::new()
        };
        let (vt, vb) = (ls_json(mp.top(), m), ls_json(mp.bot(), m));
        let (pt, pb) = mp.clone().into_ls_pair();
        let pair = format!("[{},{}]", ls_json(&pt, m), ls_json(&pb, m));
        let p = mp.into_polygon();
        format!(
            "\"bb\":[{bb}],\"views\":[{vt},{vb}],\"pair\":{pair},\"ring\":{},\"holes\":{}",
            ls_json(p.exterior(), m), p.interiors().len()
        )
    });
    match res {
        Ok(s) => format!("{head},\"st\":\"ok\",{s}"),
        Err(e) => format!("{head},\"st\":\"panic\",\"msg\":\"{e}\""),
    }
}
