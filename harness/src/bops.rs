//! Recorder for boolean operations: single operations and histories over registers.
use crate::poly::*;
use crate::util::*;
use geo::{Coordinate, LineString, MultiPolygon, Polygon};
use geo_crossings::bops::OpType;
use geo_crossings::{BooleanOp, Float};
use std::fmt::Write;

pub const OPS: [(&str, u8); 4] = [("and", 0), ("or", 1), ("xor", 2), ("diff", 3)];

fn to_ring<T: Float>(r: &Ring, m: &Map) -> LineString<T> {
    let f = |v: f64| T::from(v).unwrap();
    LineString(m.closed(r).iter().map(|p| m.pt(*p)).map(|p| Coordinate { x: f(p.0), y: f(p.1) }).collect())
}
pub fn to_poly<T: Float>(p: &Poly, m: &Map) -> Polygon<T> {
    Polygon::new(to_ring(&p[0], m), p[1..].iter().map(|r| to_ring(r, m)).collect())
}
pub fn to_mp<T: Float>(ps: &[Poly], m: &Map) -> MultiPolygon<T> {
    let mut mp = MultiPolygon(ps.iter().map(|p| to_poly(p, m)).collect());
    if m.rep & 2 != 0 {
        add_nothing(&mut mp, &mut Rng::new(m.rep, ps.len() as u64));
    }
    mp
}
/// Adds polygons and rings that enclose nothing: the region stays the same.
fn add_nothing<T: Float>(mp: &mut MultiPolygon<T>, r: &mut Rng) {
    for _ in 0..r.range(0, 2) {
        let nothing = match (r.range(0, 4), mp.0.first().map(|p| &p.exterior().0).filter(|v| v.len() > 3)) {
            (0, _) | (_, None) => vec![],
            (1, Some(v)) => vec![v[0]],
            (2, Some(v)) => vec![v[1]; r.range(2, 5) as usize],
            (3, Some(v)) => vec![v[0], v[1], v[0]],
            (_, Some(v)) => vec![v[0], v[1], v[1], v[0]],
        };
        let at = r.range(0, mp.0.len() as i64) as usize;
        if at < mp.0.len() && r.chance(1, 2) {
            mp.0[at].interiors_push(LineString(nothing));
        } else {
            mp.0.insert(at, Polygon::new(LineString(nothing), vec![]));
        }
    }
}
fn ring_json<T: Float>(ls: &LineString<T>, m: &Map) -> String {
    let v: Vec<String> = ls
        .0
        .iter()
        .map(|c| {
            let p = m.inv(c.x.to_f64().unwrap(), c.y.to_f64().unwrap());
            format!("[{},{}]", p.0, p.1)
        })
        .collect();
    format!("[{}]", v.join(","))
}
pub fn mp_json<T: Float>(mp: &MultiPolygon<T>, m: &Map) -> String {
    let v: Vec<String> = mp
        .0
        .iter()
        .map(|p| {
            let mut rs = vec![ring_json(p.exterior(), m)];
            rs.extend(p.interiors().iter().map(|h| ring_json(h, m)));
            format!("[{}]", rs.join(","))
        })
        .collect();
    format!("[{}]", v.join(","))
}
pub fn rings_json(ps: &[Poly]) -> String {
    let v: Vec<String> = ps
        .iter()
        .flatten()
        .map(|r| {
            let mut q: Vec<String> = r.iter().map(|p| format!("[{},{}]", p.0, p.1)).collect();
            q.push(q[0].clone());
            format!("[{}]", q.join(","))
        })
        .collect();
    format!("[{}]", v.join(","))
}
fn apply<T: Float>(a: &MultiPolygon<T>, b: &MultiPolygon<T>, op: u8, via: u8) -> MultiPolygon<T> {
    // the trait is implemented for polygons as well: use that when both are single polygons
    if via == 1 && a.0.len() == 1 && b.0.len() == 1 {
        let (a, b) = (&a.0[0], &b.0[0]);
        return match op {
            0 => a.intersection(b),
            1 => a.union(b),
            2 => a.xor(b),
            _ => a.difference(b),
        };
    }
    if via == 2 {
        let ty = match op {
            0 => OpType::Intersection,
            1 => OpType::Union,
            2 => OpType::Xor,
            _ => OpType::Difference,
        };
        return a.boolean_op(b, ty);
    }
    match op {
        0 => a.intersection(b),
        1 => a.union(b),
        2 => a.xor(b),
        _ => a.difference(b),
    }
}

pub struct Case {
    pub init: Vec<Vec<Poly>>,
    /// (op, a, b): registers are 0-based; each step appends its result
    pub steps: Vec<(u8, usize, usize)>,
    pub map: Map,
    pub f32: bool,
    pub via: u8,
}
fn run_t<T: Float>(c: &Case) -> String {
    let m = &c.map;
    let mut regs: Vec<Option<MultiPolygon<T>>> = c.init.iter().map(|ps| Some(to_mp(ps, m))).collect();
    let mut out = String::new();
    for (op, a, b) in &c.steps {
        let (Some(x), Some(y)) = (regs[*a].clone(), regs[*b].clone()) else {
            // an operand was never produced; stop here
            break;
        };
        if !out.is_empty() {
            out.push(',');
        }
        let name = OPS.iter().find(|o| o.1 == *op).unwrap().0;
        match guarded(|| apply(&x, &y, *op, c.via)) {
            Ok(r) => {
                write!(out, "{{\"op\":\"{name}\",\"a\":{},\"b\":{},\"st\":\"ok\",\"out\":{}}}", a + 1, b + 1, mp_json(&r, m)).unwrap();
                regs.push(Some(r));
            }
            Err(e) => {
                write!(out, "{{\"op\":\"{name}\",\"a\":{},\"b\":{},\"st\":\"panic\",\"msg\":\"{e}\",\"out\":[]}}", a + 1, b + 1).unwrap();
                regs.push(None);
            }
        }
    }
    let v: Vec<String> = c.init.iter().map(|p| rings_json(p)).collect();
    format!("\"regs\":[{}],\"steps\":[{out}]", v.join(","))
}
pub fn run(c: &Case) -> String {
    if c.f32 { run_t::<f32>(c) } else { run_t::<f64>(c) }
}
