//! Recorder for the monotone decomposition.
use crate::poly::*;
use crate::util::*;
use geo::{Coordinate, GeoNum, LineString, Polygon};
use geo_crossings::{monotone_chains, MonotoneSweep};
use std::fmt::Write;

pub trait Sc: GeoNum {
    fn mk(v: f64) -> Self;
    fn un(self) -> f64;
    /// a printed value
    fn read(s: &str) -> f64 {
        s.parse().unwrap()
    }
}
impl Sc for f64 { fn mk(v: f64) -> f64 { v } fn un(self) -> f64 { self } }
impl Sc for f32 {
    fn mk(v: f64) -> f32 { v as f32 }
    fn un(self) -> f64 { self as f64 }
    fn read(s: &str) -> f64 { s.parse::<f32>().unwrap() as f64 }
}
impl Sc for i32 { fn mk(v: f64) -> i32 { v as i32 } fn un(self) -> f64 { self as f64 } }
impl Sc for i64 { fn mk(v: f64) -> i64 { v as i64 } fn un(self) -> f64 { self as f64 } }

fn ring<T: Sc>(r: &Ring, m: &Map) -> LineString<T> {
    LineString(m.closed(r).iter().map(|p| Coordinate { x: T::mk(m.fx(p.0)), y: T::mk(m.fy(p.1)) }).collect())
}
pub fn polygon<T: Sc>(p: &Poly, m: &Map) -> Polygon<T> {
    Polygon::new(ring(&p[0], m), p[1..].iter().map(|r| ring(r, m)).collect())
}
pub fn ls_json<T: Sc>(ls: &LineString<T>, m: &Map) -> String {
    let v: Vec<String> = ls.0.iter().map(|c| { let p = m.inv(c.x.un(), c.y.un()); format!("[{},{}]", p.0, p.1) }).collect();
    format!("[{}]", v.join(","))
}
fn chains_t<T: Sc>(p: &Poly, m: &Map) -> String {
    let poly = polygon::<T>(p, m);
    match guarded(|| {
        let ps = monotone_chains(&poly);
        let v: Vec<String> = ps
            .iter()
            .map(|q| {
                let whole = q.clone().into_polygon();
                format!("{{\"top\":{},\"bot\":{},\"ring\":{}}}", ls_json(q.top(), m), ls_json(q.bot(), m), ls_json(whole.exterior(), m))
            })
            .collect();
        v.join(",")
    }) {
        Ok(s) => format!("\"st\":\"ok\",\"pieces\":[{s}]"),
        Err(e) => format!("\"st\":\"panic\",\"msg\":\"{e}\",\"pieces\":[]"),
    }
}
/// A link as printed: its kind, the points it names, and the side of the interior.
fn link_json<T: Sc>(text: &str, m: &Map) -> String {
    let kind = text.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("");
    let pts: Vec<String> = text
        .match_indices("Pt(")
        .map(|(i, _)| {
            let inner = &text[i + 3..];
            let v: Vec<f64> = inner[..inner.find(')').unwrap()].split(',').map(|x| T::read(x.trim())).collect();
            let q = m.inv(v[0], v[1]);
            format!("[{},{}]", q.0, q.1)
        })
        .collect();
    let side = if text.contains("CounterClockwise") { "above" } else if text.contains("Clockwise") { "below" } else { "" };
    format!("{{\"k\":\"{kind}\",\"p\":[{}],\"side\":\"{side}\"}}", pts.join(","))
}
fn sweep_t<T: Sc>(p: &Poly, m: &Map) -> String {
    let poly = polygon::<T>(p, m);
    let mut out = String::new();
    let r = guarded(|| {
        let sweep = Box::pin(MonotoneSweep::from_polygon(&poly));
        for e in sweep {
            let c = e.pt.coord();
            let q = m.inv(c.x.un(), c.y.un());
            let ty = format!("{:?}", e.ty);
            if !out.is_empty() {
                out.push(',');
            }
            let links: Vec<String> = e.links.iter().map(|k| link_json::<T>(&format!("{k:?}"), m)).collect();
            write!(out, "{{\"p\":[{},{}],\"ty\":\"{ty}\",\"links\":[{}]}}", q.0, q.1, links.join(",")).unwrap();
        }
    });
    match r {
        Ok(()) => format!("\"st\":\"ok\",\"ev\":[{out}]"),
        Err(e) => format!("\"st\":\"panic\",\"msg\":\"{e}\",\"ev\":[{out}]"),
    }
}
pub fn chains(p: &Poly, m: &Map, ty: u8) -> String {
    match ty {
        0 => chains_t::<f64>(p, m),
        1 => chains_t::<f32>(p, m),
        2 => chains_t::<i32>(p, m),
        _ => chains_t::<i64>(p, m),
    }
}
pub fn sweep(p: &Poly, m: &Map, ty: u8) -> String {
    match ty {
        0 => sweep_t::<f64>(p, m),
        1 => sweep_t::<f32>(p, m),
        2 => sweep_t::<i32>(p, m),
        _ => sweep_t::<i64>(p, m),
    }
}
