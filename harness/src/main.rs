mod bops;
mod calls;
mod cross;
mod eps;
mod gen;
mod mono;
mod order;
mod poly;
mod scan;
mod splay;
mod util;
use std::collections::HashMap;
use std::io::Write;
use util::*;

struct Args(HashMap<String, String>);
impl Args {
    fn num(&self, k: &str, d: i64) -> i64 {
        self.0.get(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
    fn str(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.into())
    }
}

fn main() {
    silence_panics();
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut m = HashMap::new();
    while let Some(k) = it.next() {
        m.insert(k.trim_start_matches("--").to_string(), it.next().unwrap());
    }
    let a = Args(m);
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    match cmd.as_str() {
        "cross" => cross_cmd(&a, &mut out),
        "bops" => bops_cmd(&a, &mut out),
        "mono" => mono_cmd(&a, &mut out),
        "scan" => scan_cmd(&a, &mut out),
        "splay" => splay_cmd(&a, &mut out),
        "order" => order_cmd(&a, &mut out),
        "calls" => calls_cmd(&a, &mut out),
        _ => panic!("unknown command"),
    }
    out.flush().unwrap();
}

fn cross_cmd(a: &Args, out: &mut impl Write) {
    let what = if a.str("what", "ev") == "ev" { 0 } else { 1 };
    let seed = a.num("seed", 1) as u64;
    let n = a.num("n", 1000);
    let mut id = 0;
    let mut emit = |c: cross::Case, tag: &str| {
        id += 1;
        writeln!(
            out,
            "{{\"id\":{id},\"tag\":\"{tag}\",\"L\":{},{}}}",
            cross::segs_json(&c.segs),
            cross::run(&c, what)
        )
        .unwrap();
    };
    if a.str("mode", "rand") == "exh" {
        // every multiset of k segments/points on the w x w grid
        let w = a.num("w", 3);
        let k = a.num("k", 2) as usize;
        let m = a.num("m", 120);
        let pts: Vec<P> = (0..w).flat_map(|x| (0..w).map(move |y| (x * m, y * m))).collect();
        let mut all: Vec<S> = vec![];
        for i in 0..pts.len() {
            for j in i..pts.len() {
                all.push((pts[i], pts[j]));
            }
        }
        let mut idx = vec![0usize; k];
        let stride = a.num("stride", 1);
        let off = a.num("off", 0);
        let mut cnt = 0;
        loop {
            if cnt % stride == off {
                let segs: Vec<S> = idx.iter().map(|&i| all[i]).collect();
                emit(cross::Case { segs, map: Map::ID, f32: false, container: (cnt / stride % 4) as u8 * 6 }, "exh");
            }
            cnt += 1;
            let mut p = k;
            while p > 0 && idx[p - 1] == all.len() - 1 {
                p -= 1;
            }
            if p == 0 {
                break;
            }
            let v = idx[p - 1] + 1;
            for q in p - 1..k {
                idx[q] = v;
            }
        }
        return;
    }
    let md = a.str("mode", "rand");
    if md == "round" || md == "steep" {
        let steep = md == "steep";
        let mut r = Rng::new(seed, 12);
        let mut n = n;
        while n > 0 {
            let nn = r.range(2, a.num("hi", 10)) as usize;
            let f32_ = !steep && nn <= 10 && r.chance(1, 6);
            let (g, m) = if f32_ { (r.range(2, 4), 12) } else { (r.range(2, 30), *r.pick(&[60, 420, 840])) };
            let style = if steep { 5 } else { *r.pick(&[0, 0, 0, 3, 5]) };
            let mut segs: Vec<S> = vec![];
            for s in gen::segments(&mut r, g, m, 4 * nn, style) {
                segs.push(s);
                if segs.len() > nn || !gen::in_position(&segs, steep) {
                    segs.pop();
                }
            }
            let crossed = |e: &S| segs.iter().any(|f| proper(*e, *f).is_some());
            if segs.len() < 2 || (steep && !segs.iter().any(|e| e.0 .0 == e.1 .0 && crossed(e))) {
                continue;
            }
            let mut map = gen::rounding_map(&mut r);
            if steep {
                map.jitter = r.next() | 1;
            }
            if f32_ {
                gen::single(&mut map);
            }
            emit(cross::Case { segs, map, f32: f32_, container: 0 }, "round");
            n -= 1;
        }
        return;
    }
    if md == "eps" {
        let mut r = Rng::new(seed, 13);
        for _ in 0..n {
            let e = eps::Eps::new(&mut r, &[0, 0, 0, 1]);
            let k = r.range(2, a.num("hi", 9)) as usize;
            let segs = e.segments(&mut r, k).iter().map(|s| (e.pack(s.0), e.pack(s.1))).collect();
            emit(cross::Case { segs, map: e.map(), f32: e.ty == 1, container: 0 }, "eps");
        }
        return;
    }
    if let Some(f) = a.0.get("input") {
        // one case per line: "x1 y1 x2 y2 ..." in lattice units
        for line in std::fs::read_to_string(f).unwrap().lines() {
            let v: Vec<i64> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
            let segs = v.chunks(4).map(|c| ((c[0], c[1]), (c[2], c[3]))).collect();
            emit(cross::Case { segs, map: Map::ID, f32: false, container: 0 }, "input");
        }
        return;
    }
    let lo = a.num("lo", 2);
    let hi = a.num("hi", 8);
    let mut r = Rng::new(seed, 11);
    for _ in 0..n {
        let style = r.range(0, 6) as u64;
        let nn = r.range(lo, hi) as usize;
        let f32_ = r.chance(1, 6);
        let (g, m) = if f32_ { (r.range(2, 4), *r.pick(&[2, 4, 6])) } else { (r.range(2, 7), *r.pick(&[60, 420, 840, 2520])) };
        let segs = gen::segments(&mut r, g, m, nn, style);
        let map = gen::typed_map(&mut r, f32_ as u8, g * m);
        let container = (r.range(0, 5) + 6 * r.range(0, 3)) as u8;
        emit(cross::Case { segs, map, f32: f32_, container }, "rand");
    }
}

fn bops_cmd(a: &Args, out: &mut impl Write) {
    let seed = a.num("seed", 1) as u64;
    let n = a.num("n", 1000);
    let mode = a.str("mode", "pair");
    let mut r = Rng::new(seed, 21);
    let nest = a.num("nest", 0) > 0;
    let mut id = 0;
    if mode == "round" || mode == "steep" || mode == "steepwild" {
        let steep = mode != "round";
        // computed vertices are rounded; operands in general position relative to each other
        while id < n {
            let f32_ = !steep && r.chance(1, 5);
            let (g, m) = if f32_ { (r.range(3, 4), 12) } else { (r.range(3, 14), *r.pick(&[60, 420, 840])) };
            let (ka, kb) = (*r.pick(&[1, 1, 2, 3, 4]), *r.pick(&[1, 1, 2, 3, 4]));
            let pa = poly::operand(&mut r, g, m, ka);
            // move the second operand by less than one cell
            let (dx, dy) = (r.range(-m / 2, m / 2), r.range(-m / 2, m / 2));
            let mut pb = poly::operand(&mut r, g, m, kb);
            if r.chance(2, 3) {
                for q in pb.iter_mut().flatten().flatten() {
                    *q = (q.0 + dx, q.1 + dy);
                }
            }
            let mut init = vec![pa, pb];
            if steep {
                let (gg, md) = if mode == "steepwild" { (r.range(2, 6), 3) } else { (r.range(2, 9), 2) };
                init = (0..md).map(|k| vec![poly::skyline(&mut r, gg, m, md, k)]).collect();
                if md == 3 {
                    // the first operand consists of two crossing rings
                    let x = init.pop().unwrap();
                    let holes = r.chance(1, 2);
                    if holes { init[0][0].extend(x.into_iter().flatten()) } else { init[0].extend(x) }
                }
            }
            init.iter_mut().for_each(|p| poly::jumble(&mut r, p));
            let es: Vec<S> = init.iter().flatten().flatten().flat_map(|q| (0..q.len()).map(move |i| (q[i], q[(i + 1) % q.len()]))).collect();
            let crossed = |e: &S| es.iter().any(|f| proper(*e, *f).is_some());
            if es.len() < 4 || es.len() > 40 || !gen::in_position(&es, steep) || !es.iter().any(crossed) {
                continue;
            }
            if steep && !es.iter().any(|e| e.0 .0 == e.1 .0 && crossed(e)) {
                continue;
            }
            let steps = (0..4).map(|o| (o as u8, 0, 1)).collect();
            let mut map = gen::rounding_map(&mut r);
            if steep {
                map.jitter = r.next() | 1;
            }
            if f32_ {
                gen::single(&mut map);
            }
            let c = bops::Case { init, steps, map, f32: f32_, via: r.range(0, 2) as u8 };
            id += 1;
            writeln!(out, "{{\"id\":{id},{}}}", bops::run(&c)).unwrap();
        }
        return;
    }
    if mode == "eps" {
        while id < n {
            let e = eps::Eps::new(&mut r, &[0, 0, 0, 1]);
            let k = r.range(4, 8) as usize;
            let pool = e.pool(&mut r, k);
            let mut init = vec![];
            for _ in 0..2 {
                let mut ps: Vec<poly::Poly> = vec![];
                for _ in 0..r.range(1, 2) {
                    let (k, h) = (r.range(3, 6.min(pool.len() as i64)) as usize, r.range(0, 1) as usize);
                    if let Some(p) = e.poly(&mut r, &pool, k, h) {
                        // valid operands: polygons of one operand are apart
                        let es: Vec<S> = p.iter().flat_map(poly::edges).collect();
                        let fs: Vec<S> = ps.iter().flatten().flat_map(poly::edges).collect();
                        let two = |p: P| (2 * p.0, 2 * p.1);
                        if !es.iter().any(|s| fs.iter().any(|t| crosses(*s, *t) || touches(*s, *t)))
                            && !ps.iter().any(|q| poly::inside2(two(q[0][0]), &p[0]) || poly::inside2(two(p[0][0]), &q[0]))
                        {
                            ps.push(p);
                        }
                    }
                }
                init.push(ps);
            }
            if init.iter().any(|ps| ps.is_empty()) || !eps::planar(&init) {
                continue;
            }
            init.iter_mut().for_each(|p| e.pack_all(p));
            init.iter_mut().for_each(|p| poly::jumble(&mut r, p));
            let steps = (0..4).map(|o| (o as u8, 0, 1)).collect();
            let c = bops::Case { init, steps, map: e.map(), f32: e.ty == 1, via: r.range(0, 2) as u8 };
            id += 1;
            writeln!(out, "{{\"id\":{id},{}}}", bops::run(&c)).unwrap();
        }
        return;
    }
    if mode == "exh" {
        // every pair of operands of a small family
        let (w, h) = (a.num("w", 3), a.num("h", 3));
        let (stride, off) = (a.num("stride", 1), a.num("off", 0));
        let m = 840;
        let up = |ring: &poly::Ring| ring.iter().map(|p| (p.0 * m, p.1 * m)).collect::<Vec<P>>();
        let mut all: Vec<Vec<poly::Poly>> = vec![];
        match a.str("family", "rings").as_str() {
            "rings" => poly::all_rings(w, h, 3, a.num("k", 3) as usize, |ring| all.push(vec![vec![up(ring)]])),
            "cells" => {
                let fs = poly::faces(w, h, m, a.num("diag", 0) as u64);
                for set in 0..1u64 << fs.len() {
                    let chosen: Vec<Vec<P>> = (0..fs.len()).filter(|i| set >> i & 1 == 1).map(|i| fs[i].clone()).collect();
                    all.push(poly::assemble(&chosen));
                }
            }
            _ => {
                // every closed sequence of k points, valid or not
                let pts: Vec<P> = (0..w).flat_map(|x| (0..h).map(move |y| (x * m, y * m))).collect();
                let k = a.num("k", 4) as u32;
                for c in 0..pts.len().pow(k) {
                    let ring: Vec<P> = (0..k).map(|i| pts[c / pts.len().pow(i) % pts.len()]).collect();
                    if ring.iter().min() == Some(&ring[0]) && ring.iter().any(|p| *p != ring[0]) {
                        all.push(vec![vec![ring]]);
                    }
                }
            }
        }
        let mut cnt = 0;
        for x in 0..all.len() {
            for y in x..all.len() {
                cnt += 1;
                if cnt % stride != off {
                    continue;
                }
                let mut init = vec![all[x].clone(), all[y].clone()];
                if r.chance(1, 2) {
                    init.reverse();
                }
                if !poly::all_lattice(&init.iter().map(|v| v.as_slice()).collect::<Vec<_>>()) {
                    continue;
                }
                init.iter_mut().for_each(|p| poly::jumble(&mut r, p));
                let steps = (0..4).map(|o| (o as u8, 0, 1)).collect();
                let c = bops::Case { init, steps, map: Map::ID, f32: false, via: r.range(0, 2) as u8 };
                id += 1;
                writeln!(out, "{{\"id\":{id},{}}}", bops::run(&c)).unwrap();
            }
        }
        return;
    }
    while id < n {
        let g = r.range(2, a.num("g", 5));
        let m = *r.pick(if nest || g > 9 { &[4, 60, 420] } else { &[4, 60, 420, 2520] });
        let nr = if mode == "hist" { r.range(2, 3) } else { 2 } as usize;
        let fan = a.num("fan", 0) as u64;
        let (g, m, spokes) = if fan > 0 { (r.range(3, fan as i64), *r.pick(&[4, 60]), r.range(1, 1 << 30) as u64) } else { (g, m, 0) };
        let mut init = vec![];
        for _ in 0..nr {
            let ps = if nest {
                let o = (r.range(0, 4) * m / 2, r.range(0, 4) * m / 2);
                let big = a.num("nest", 9);
                let (w, h) = (r.range(3, big), r.range(3, big));
                let mut ps = poly::nested(&mut r, w, h, m, o);
                poly::jumble(&mut r, &mut ps);
                ps
            } else if fan > 0 {
                let mut ps = poly::fan(&mut r, g, m, spokes, mode == "wild");
                poly::jumble(&mut r, &mut ps);
                ps
            } else if mode == "wild" {
                let k = r.range(1, 2) as usize;
                poly::wild(&mut r, g, m, k)
            } else {
                let k = *r.pick(&[0, 1, 1, 2, 3, 4, 4, 5, 6]);
                let mut ps = poly::operand(&mut r, g, m, k);
                poly::jumble(&mut r, &mut ps);
                ps
            };
            init.push(ps);
        }
        let refs: Vec<&[poly::Poly]> = init.iter().map(|v| v.as_slice()).collect();
        if !poly::all_lattice(&refs) {
            continue;
        }
        let steps: Vec<(u8, usize, usize)> = if mode == "hist" {
            let k = r.range(3, 6) as usize;
            (0..k).map(|i| (r.range(0, 3) as u8, r.range(0, (nr + i) as i64 - 1) as usize, r.range(0, (nr + i) as i64 - 1) as usize)).collect()
        } else {
            (0..4).map(|o| (o as u8, 0, 1)).collect()
        };
        let f32 = m == 4 && r.chance(1, 3);
        let mut map = gen::typed_map(&mut r, f32 as u8, g * m);
        if r.chance(1, 6) {
            // rings that enclose nothing are no part of a valid operand
            map.rep = if mode == "wild" { r.next() | 1 } else { (r.next() | 1) & !2 };
        }
        let c = bops::Case { init, steps, map, f32, via: r.range(0, 2) as u8 };
        id += 1;
        writeln!(out, "{{\"id\":{id},{}}}", bops::run(&c)).unwrap();
    }
}

fn mono_cmd(a: &Args, out: &mut impl Write) {
    let seed = a.num("seed", 1) as u64;
    let n = a.num("n", 1000);
    let what = a.str("what", "chains");
    let mut r = Rng::new(seed, 31);
    let mut id = 0;
    let maxstyle = a.num("maxstyle", 4);
    let mode = a.str("mode", "exact");
    if mode == "exh" {
        // every simple polygon on a small grid
        let (stride, off) = (a.num("stride", 1), a.num("off", 0));
        let mut cnt = 0;
        let mut go = |ring: &poly::Ring| {
            cnt += 1;
            if cnt % stride != off {
                return;
            }
            let mut ps = vec![vec![ring.clone()]];
            poly::jumble(&mut r, &mut ps);
            let ty = r.range(0, 3) as u8;
            id += 1;
            let body = if what == "chains" { mono::chains(&ps[0], &Map::ID, ty) } else { mono::sweep(&ps[0], &Map::ID, ty) };
            writeln!(out, "{{\"id\":{id},\"poly\":{},{body}}}", bops::rings_json(&ps)).unwrap();
        };
        poly::all_rings(a.num("w", 3), a.num("h", 3), 3, a.num("k", 9) as usize, &mut go);
        return;
    }
    while id < n {
        if mode == "eps" {
            let e = eps::Eps::new(&mut r, &[0, 0, 0, 1, 3]);
            let (k, h) = (r.range(3, 14) as usize, r.range(0, 3) as usize);
            let pool = if r.chance(1, 2) { e.pool(&mut r, 2 * k) } else { vec![] };
            let Some(p) = e.poly(&mut r, &pool, k, h) else { continue };
            let mut ps = vec![p];
            e.pack_all(&mut ps);
            poly::jumble(&mut r, &mut ps);
            id += 1;
            let body = if what == "chains" { mono::chains(&ps[0], &e.map(), e.ty) } else { mono::sweep(&ps[0], &e.map(), e.ty) };
            writeln!(out, "{{\"id\":{id},\"poly\":{},{body}}}", bops::rings_json(&ps)).unwrap();
            continue;
        }
        let style = r.range(a.num("minstyle", 0), maxstyle) as u64;
        let Some((p, ext)) = poly::strict_poly(&mut r, style) else { continue };
        let mut ps = vec![p];
        poly::jumble(&mut r, &mut ps);
        let ty = if ext < 50 { r.range(0, 3) as u8 } else { *r.pick(&[0, 0, 3]) };
        let mut map = gen::typed_map(&mut r, ty, ext);
        if r.chance(1, 6) {
            map.rep = r.next() | 1;
        }
        id += 1;
        let body = if what == "chains" { mono::chains(&ps[0], &map, ty) } else { mono::sweep(&ps[0], &map, ty) };
        writeln!(out, "{{\"id\":{id},\"poly\":{},{body}}}", bops::rings_json(&ps)).unwrap();
    }
}

fn scan_cmd(a: &Args, out: &mut impl Write) {
    let seed = a.num("seed", 1) as u64;
    let n = a.num("n", 1000);
    let what = a.str("what", "hist");
    let mut r = Rng::new(seed, 41);
    let mut id = 0;
    if a.str("mode", "exact") == "exh" {
        let (w, h) = (a.num("w", 2), a.num("h", 2));
        let (stride, off) = (a.num("stride", 1), a.num("off", 0));
        let mut cnt = 0;
        scan::all(w, h, |mo| {
            cnt += 1;
            if cnt % stride != off {
                return;
            }
            let (mx, my, step) = if what == "hist" { (2, 1680, 1) } else { (840, 840, 840) };
            let up = |v: &Vec<util::P>| v.iter().map(|p| (p.0 * mx, p.1 * my)).collect::<Vec<_>>();
            let mo = (up(&mo.0), up(&mo.1));
            for rep in 0..a.num("reps", 1) {
                let mut r = Rng::new(cnt as u64 * 64 + rep as u64, 43);
                let mut map = util::Map::ID;
                map.tol = 1e-6;
                id += 1;
                let body = match what.as_str() {
                    "hist" => scan::history::<f64>(&mut r, &mo, &map, 0, w * mx, step),
                    _ => scan::raster::<f64>(&mut r, &mo, &map, w * mx, h * my, step, 3, 4),
                };
                writeln!(out, "{{\"id\":{id},{},{body}}}", scan::head(&mo)).unwrap();
            }
        });
        return;
    }
    while id < n {
        // kinds of shapes: few columns, many columns, many rows; and single precision on small ones
        let ty = r.chance(1, 5) as u8;
        let kind = r.range(0, 7);
        let kx = if ty == 1 { r.range(1, 4) } else if kind == 0 { r.range(9, 24) } else { r.range(1, 8) };
        let tall = ty == 0 && kind == 1 && matches!(what.as_str(), "area" | "bounds" | "ubounds" | "mixed");
        let ky = if ty == 1 { r.range(1, 4) } else if tall { r.range(9, 33) } else { r.range(1, 8) };
        let cnt = if kind == 0 && ty == 0 { r.range(20, 50) } else if tall { r.range(3, 7) } else { r.range(3, 12) } as usize;
        let Some(mo) = scan::mono(&mut r, kx, ky, cnt) else { continue };
        if [&mo.0, &mo.1].iter().any(|c| c.windows(2).any(|w| w[0].1 != w[1].1 && 840 % (w[0].1 - w[1].1) != 0)) {
            continue;
        }
        // every height at a (half-)integer position, and every crossing with a row, is integral
        let (mx, my, step) = match (what.as_str(), ty) {
            ("hist", 0) => (2, 1680, 1),
            ("hist", _) => (2, 24, 1),
            (_, 0) => (840, 840, 840),
            _ => (12, 12, 12),
        };
        let up = |v: &Vec<util::P>| v.iter().map(|p| (p.0 * mx, p.1 * my)).collect::<Vec<_>>();
        let mo = (up(&mo.0), up(&mo.1));
        let mut map = if ty == 1 { gen::typed_map(&mut r, 1, 48) } else { gen::exact_map(&mut r) };
        map.negzero = false;
        map.tol = if ty == 1 { 0.01 } else { 1e-6 };
        if ty == 0 && a.str("mode", "exact") == "round" {
            map = gen::rounding_map(&mut r);
        }
        id += 1;
        macro_rules! rec {
            ($t:ty) => {
                match what.as_str() {
                    "hist" => scan::history::<$t>(&mut r, &mo, &map, 0, kx * mx, step),
                    w => {
                        let k = match w { "area" => 0, "bounds" => 1, "ubounds" => 2, _ => 3 };
                        let rows = if tall { *r.pick(&[40, 40, 40, 300]) } else { 6 };
                        scan::raster::<$t>(&mut r, &mo, &map, kx * mx, ky * my, step, k, rows)
                    }
                }
            };
        }
        let body = if what == "conv" {
            let ext = 840 * kx.max(ky);
            let ty = r.range(0, 3) as u8;
            let mut map = gen::typed_map(&mut r, ty, ext);
            map.negzero = false;
            match ty {
                0 => scan::conversions::<f64>(&mut r, &mo, &map),
                1 => scan::conversions::<f32>(&mut r, &mo, &map),
                2 => scan::conversions::<i32>(&mut r, &mo, &map),
                _ => scan::conversions::<i64>(&mut r, &mo, &map),
            }
        } else {
            format!("{},{}", scan::head(&mo), if ty == 1 { rec!(f32) } else { rec!(f64) })
        };
        writeln!(out, "{{\"id\":{id},{body}}}").unwrap();
    }
}

fn splay_cmd(a: &Args, out: &mut impl Write) {
    let mode = a.str("mode", "map");
    if mode == "big" {
        // one history per process: destroying a collection must not exhaust the stack
        let body = splay::big(&a.str("kind", "drop"), &a.str("shape", "asc"), a.num("n", 1_000_000), a.num("set", 0) == 1);
        writeln!(out, "{{\"id\":1,{body}}}").unwrap();
        return;
    }
    if let Some(f) = a.0.get("script") {
        // one history per line: "op arg arg;op arg;..."
        let s = std::fs::read_to_string(f).unwrap();
        for (i, line) in s.lines().enumerate() {
            // "op@n": the comparison panics once n of them have been answered
            let (ops, fuses): (Vec<_>, Vec<i64>) = line
                .split(';')
                .filter(|x| !x.is_empty())
                .map(|o| {
                    let mut w = o.split(' ');
                    let (name, fuse) = w.next().unwrap().split_once('@').unwrap_or((o.split(' ').next().unwrap(), "-1"));
                    (splay::Op(name.into(), w.map(|x| x.parse().unwrap()).collect()), fuse.parse::<i64>().unwrap())
                })
                .unzip();
            let ops = (&ops[..], &fuses[..]);
            let body = if mode == "set" { splay::run_set(ops, false) } else { splay::run_map(ops, false) };
            writeln!(out, "{{\"id\":{},{body}}}", i + 1).unwrap();
        }
        return;
    }
    let mut r = Rng::new(a.num("seed", 1) as u64, 51);
    for id in 1..=a.num("n", 1000) {
        let most = a.num("len", 40);
        let keys = *r.pick(if most > 400 { &[100, 250, 400] } else if most > 60 { &[15, 30, 60] } else { &[2, 4, 6, 9, 15] });
        let len = r.range(5, most) as usize;
        let mut ops = splay::random_ops(&mut r, len, keys, mode == "set");
        // more owning iterators / held references where these are what is looked at
        for (flag, name) in [("iters", "iter"), ("refs", "refs")] {
            for _ in 0..4 * a.num(flag, 0) {
                let (hi, bias) = (5 + keys, r.range(0, 2));
                let arg = (0..r.range(1, hi)).map(|_| if bias == 2 { r.range(0, 1) } else { bias ^ r.chance(1, 6) as i64 });
                let op = if name == "iter" {
                    splay::Op(name.into(), arg.collect())
                } else {
                    splay::Op(name.into(), (0..r.range(2, 7)).flat_map(|_| [r.range(0, 3), r.range(0, keys)]).collect())
                };
                let at = r.range(0, ops.len() as i64) as usize;
                ops.insert(at, op);
            }
        }
        let rev = r.chance(1, 4);
        let mut fuses = vec![];
        if a.num("panics", 0) > 0 {
            // one operation in `panics` meets a comparison that panics
            fuses = ops.iter().map(|o| if o.0 != "extend" && r.chance(1, a.num("panics", 0) as u64) { r.range(0, 7).min(r.range(0, 7)) } else { -1 }).collect();
            // and all that is left is looked at in the end
            for name in ["len", "min", "max"] {
                ops.push(splay::Op(name.into(), vec![]));
            }
            ops.push(splay::Op("iter".into(), vec![0; keys as usize + 3]));
        }
        let ops = (&ops[..], &fuses[..]);
        let body = if mode == "set" { splay::run_set(ops, rev) } else { splay::run_map(ops, rev) };
        writeln!(out, "{{\"id\":{id},{body}}}").unwrap();
    }
}

fn calls_cmd(a: &Args, out: &mut impl Write) {
    let rows = calls::collections(a.str("mode", "map") == "set", a.num("n", 1000), a.num("seed", 1) as u64);
    for (id, body) in rows.iter().enumerate() {
        writeln!(out, "{{\"id\":{},{body}}}", id + 1).unwrap();
    }
}

fn order_cmd(a: &Args, out: &mut impl Write) {
    let meet = a.str("what", "cmp") == "meet";
    let mut r = Rng::new(a.num("seed", 1) as u64, 61);
    let mut id = 0;
    let mut emit = |x: S, y: S, m: &Map, ty: u8| {
        id += 1;
        let body = if meet { order::meet(x, y, m, ty) } else { order::compare(x, y, m, ty) };
        writeln!(out, "{{\"id\":{id},{body}}}").unwrap();
    };
    if a.str("mode", "exact") == "steep" {
        // one segment within a few units in the last place of vertical; they cross or stay apart
        let mut n = a.num("n", 1000);
        while n > 0 {
            let (g, m) = (r.range(2, 9), *r.pick(&[60, 420, 2520]));
            let mut rp = || (r.range(0, g) * m, r.range(0, g) * m);
            let (p, mut q, s, t) = (rp(), rp(), rp(), rp());
            q.0 = p.0;
            if s.0 == p.0 || t.0 == p.0 || s.0 == t.0 || p == q || touches((p, q), (s, t)) {
                continue;
            }
            if !proper((p, q), (s, t)).map_or(r.chance(1, 4), |(nx, ny, d)| nx % d == 0 && ny % d == 0) {
                continue;
            }
            let mut map = gen::rounding_map(&mut r);
            map.jitter = r.next() | 1;
            if r.chance(1, 2) { emit((p, q), (s, t), &map, 0) } else { emit((s, t), (p, q), &map, 0) }
            n -= 1;
        }
        return;
    }
    if a.str("mode", "exact") == "eps" {
        for _ in 0..a.num("n", 1000) {
            let e = eps::Eps::new(&mut r, if meet { &[0, 0, 0, 1] } else { &[0, 0, 0, 1, 3] });
            let k = *r.pick(&[3, 3, 4]);
            let pool = e.pool(&mut r, k);
            let pt = |r: &mut Rng| e.pack(*r.pick(&pool));
            let (mut x, mut y) = ((pt(&mut r), pt(&mut r)), (pt(&mut r), pt(&mut r)));
            if r.chance(1, 2) {
                let (s, p) = e.almost_on(&mut r);
                (x.0, y) = (e.pack(p), (e.pack(s.0), e.pack(s.1)));
            }
            if r.chance(1, 3) {
                x.1 = x.0;
            }
            if r.chance(1, 2) { emit(x, y, &e.map(), e.ty) } else { emit(y, x, &e.map(), e.ty) }
        }
        return;
    }
    // every pair of segments and points on a w x w grid
    let w = a.num("w", 3);
    let m = 840;
    let pts: Vec<P> = (0..w).flat_map(|x| (0..w).map(move |y| (x * m, y * m))).collect();
    let all: Vec<S> = pts.iter().flat_map(|p| pts.iter().map(move |q| (*p, *q))).collect();
    for x in &all {
        for y in &all {
            if proper(*x, *y).map_or(true, |(nx, ny, d)| nx % d == 0 && ny % d == 0) {
                emit(*x, *y, &Map::ID, 0);
            }
        }
    }
    let mut n = a.num("n", 1000);
    while n > 0 {
        let ty = r.range(0, if meet { 1 } else { 3 }) as u8;
        let (g, m) = if ty == 1 && meet { (4, 12) } else { (r.range(2, 9), *r.pick(&[1, 60, 420, 2520])) };
        let mut rp = || (r.range(0, g) * m, r.range(0, g) * m);
        let (mut p, mut q, mut s, mut t) = (rp(), rp(), rp(), rp());
        match r.range(0, 11) {
            0 => t = s,
            1 => q = p,
            2 => s = p,
            3 => t = p,
            4 => s = q,
            5 => (s, t) = (q, p),
            6 => {
                // collinear
                let d = (q.0 - p.0, q.1 - p.1);
                s = (p.0 + d.0, p.1 + d.1);
                t = (p.0 + 2 * d.0, p.1 + 2 * d.1);
            }
            7 => {
                s.0 = p.0;
                q.0 = p.0;
                p.1 = s.1;
            }
            _ => {}
        }
        if [p, q, s, t].iter().any(|p| p.0 > 22680 || p.1 > 22680 || p.0 < 0 || p.1 < 0) {
            continue;
        }
        if meet && !proper((p, q), (s, t)).map_or(true, |(nx, ny, d)| nx % d == 0 && ny % d == 0) {
            continue;
        }
        let map = gen::typed_map(&mut r, ty, 22680);
        emit((p, q), (s, t), &map, ty);
        n -= 1;
    }
}
