//! Recorder for the sweep order of points and segments, and for segment intersection.
use crate::mono::Sc;
use crate::util::*;
use geo::{Coordinate, GeoNum, Line};
use geo_crossings::{Float, LineOrPoint, SweepPoint};
use std::cmp::Ordering;

fn o(x: Option<Ordering>) -> &'static str {
    match x {
        None => "none",
        Some(Ordering::Less) => "lt",
        Some(Ordering::Equal) => "eq",
        Some(Ordering::Greater) => "gt",
    }
}
fn co<T: Sc>(p: P, m: &Map) -> Coordinate<T> {
    let (x, y) = m.pt(p);
    Coordinate { x: T::mk(x), y: T::mk(y) }
}
fn mk<T: Sc + GeoNum>(s: S, m: &Map) -> LineOrPoint<T> {
    if s.0 == s.1 && (s.0 .0 + s.0 .1) % 2 == 0 {
        LineOrPoint::from(co::<T>(s.0, m))
    } else {
        LineOrPoint::from(Line::new(co::<T>(s.0, m), co::<T>(s.1, m)))
    }
}
fn pt<T: Sc>(c: Coordinate<T>, m: &Map) -> String {
    let p = m.inv(c.x.un(), c.y.un());
    format!("[{},{}]", p.0, p.1)
}
fn conv<T: Sc>(l: &LineOrPoint<T>, m: &Map) -> String {
    let v = l.line();
    format!("[{},{},{}]", pt(v.start, m), pt(v.end, m), pt(l.second().coord(), m))
}

fn cmp_t<T: Sc>(a: S, b: S, m: &Map) -> String {
    let (ga, gb) = (mk::<T>(a, m), mk::<T>(b, m));
    let (pa, pb): (SweepPoint<T>, SweepPoint<T>) = (co::<T>(a.0, m).into(), co::<T>(b.0, m).into());
    format!(
        "\"isl\":[{},{}],\"conv\":[{},{}],\"ab\":\"{}\",\"ba\":\"{}\",\"eq\":[{},{}],\"pp\":\"{}\",\"pc\":\"{}\",\"pe\":{}",
        ga.is_line() as u8,
        gb.is_line() as u8,
        conv(&ga, m),
        conv(&gb, m),
        o(ga.partial_cmp(&gb)),
        o(gb.partial_cmp(&ga)),
        (ga == gb) as u8,
        (gb == ga) as u8,
        o(pa.partial_cmp(&pb)),
        o(Some(pa.cmp(&pb))),
        (pa == pb) as u8
    )
}
fn meet_t<T: Sc + Float>(a: S, b: S, m: &Map) -> String {
    let (ga, gb) = (mk::<T>(a, m), mk::<T>(b, m));
    let f = |r: Result<Option<LineOrPoint<T>>, String>| match r {
        Err(_) => "\"panic\"".to_string(),
        Ok(None) => "[]".into(),
        Ok(Some(l)) => {
            let v = l.line();
            if l.is_line() { format!("[{},{}]", pt(v.start, m), pt(v.end, m)) } else { format!("[{}]", pt(v.start, m)) }
        }
    };
    let st = |s: &str| if s == "\"panic\"" { "[\"panic\"]".to_string() } else { s.to_string() };
    let x = f(guarded(|| ga.intersect_line(&gb)));
    let y = f(guarded(|| ga.intersect_line_ordered(&gb)));
    // a computed crossing does not precede the left ends of the segments
    let ge = match guarded(|| ga.intersect_line_ordered(&gb)) {
        Ok(Some(LineOrPoint::Point(p))) => [ga, gb].iter().all(|s| {
            let l = s.line();
            p >= SweepPoint::from(l.start)
        }),
        _ => true,
    };
    format!("\"x\":{},\"xo\":{},\"ge\":{}", st(&x), st(&y), ge as u8)
}

pub fn compare(a: S, b: S, m: &Map, ty: u8) -> String {
    let body = guarded(|| match ty {
        0 => cmp_t::<f64>(a, b, m),
        1 => cmp_t::<f32>(a, b, m),
        2 => cmp_t::<i32>(a, b, m),
        _ => cmp_t::<i64>(a, b, m),
    });
    wrap(a, b, body)
}
pub fn meet(a: S, b: S, m: &Map, ty: u8) -> String {
    wrap(a, b, guarded(|| if ty == 0 { meet_t::<f64>(a, b, m) } else { meet_t::<f32>(a, b, m) }))
}
fn wrap(a: S, b: S, body: Result<String, String>) -> String {
    let h = format!("\"a\":[{},{},{},{}],\"b\":[{},{},{},{}]", a.0 .0, a.0 .1, a.1 .0, a.1 .1, b.0 .0, b.0 .1, b.1 .0, b.1 .1);
    match body {
        Ok(s) => format!("{h},\"st\":\"ok\",{s}"),
        Err(e) => format!("{h},\"st\":\"panic\",\"msg\":\"{e}\""),
    }
}
