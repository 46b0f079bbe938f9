//! Recorder for CrossingsIter and Intersections.
use crate::util::*;
use geo::line_intersection::LineIntersection;
use geo::{Coordinate, Line};
use geo_crossings::{Crossable, CrossingsIter, Float, Intersections, LineOrPoint};
use std::fmt::Write;
use std::rc::Rc;
use std::sync::Arc;

/// A user-defined crossable carrying its input index.
#[derive(Debug, Clone)]
pub struct Tagged<T: Float> {
    pub id: usize,
    pub line: Line<T>,
}
impl<T: Float> Crossable for Tagged<T> {
    type Scalar = T;
    fn line(&self) -> Line<T> {
        self.line
    }
}

pub struct Case {
    pub segs: Vec<S>,
    pub map: Map,
    pub f32: bool,
    /// `container % 6`: how the segments are held; `container / 6`: how the iterators are used (see `Feed`)
    pub container: u8,
}

/// What the crate is given to collect from, and how its iterators are used.
/// The result may depend on neither.
struct Feed<I> {
    inner: I,
    style: u8,
}
impl<I: Iterator> Iterator for Feed<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.inner.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.style {
            2 => (0, None),             // e.g. from_fn
            3 => (0, Some(usize::MAX)), // e.g. (0..usize::MAX).map_while(..)
            _ => self.inner.size_hint(),
        }
    }
}

pub fn to_line<T: Float>(s: &S, m: &Map) -> Line<T> {
    let f = |v: f64| T::from(v).unwrap();
    Line::new(
        Coordinate { x: f(m.pt(s.0).0), y: f(m.pt(s.0).1) },
        Coordinate { x: f(m.pt(s.1).0), y: f(m.pt(s.1).1) },
    )
}
fn inv<T: Float>(c: Coordinate<T>, m: &Map) -> P {
    m.inv(c.x.to_f64().unwrap(), c.y.to_f64().unwrap())
}

fn events<T, C, F>(items: Vec<C>, id: F, m: &Map, style: u8) -> String
where
    T: Float,
    C: Crossable<Scalar = T> + Clone,
    F: Fn(&C) -> usize,
{
    let cap = 40 + 40 * items.len() * items.len();
    let mut out = String::new();
    let r = guarded(|| {
        let mut n = 0;
        let mut it: CrossingsIter<C> = Feed { inner: items.into_iter(), style }.collect();
        while let Some(p) = it.next() {
            let (px, py) = inv(p, m);
            if n > 0 {
                out.push(',');
            }
            write!(out, "{{\"p\":[{px},{py}],\"r\":[").unwrap();
            for (k, c) in it.intersections().iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                let l = c.line.line();
                let a = inv(l.start, m);
                let b = inv(l.end, m);
                let kind = match c.line {
                    LineOrPoint::Point(_) => 0,
                    LineOrPoint::Line(_, _) => 1,
                };
                write!(
                    out,
                    "[{},{},{},{},{},{},{},{},{}]",
                    id(&c.crossable), a.0, a.1, b.0, b.1, c.first_segment as u8, c.has_overlap as u8, c.at_left as u8, kind
                )
                .unwrap();
            }
            out.push_str("]}");
            n += 1;
            if style == 1 {
                // the caller may rearrange the reported segments as it likes (as the boolean operations do)
                let segs = it.intersections_mut();
                segs.reverse();
                for c in segs.iter_mut() {
                    c.at_left = !c.at_left;
                    c.has_overlap = !c.has_overlap;
                    c.first_segment = !c.first_segment;
                }
            }
            if n > cap {
                panic!("runaway: more than {cap} points yielded");
            }
        }
        // a finished iterator stays finished, and reports no segments
        if it.next().is_some() || it.next().is_some() {
            panic!("iterator resumed after None");
        }
        if !it.intersections().is_empty() {
            panic!("segments reported after None");
        }
    });
    match r {
        Ok(()) => format!("\"st\":\"ok\",\"ev\":[{out}]"),
        Err(e) => {
            // drop a half-written event
            let cut = out.rfind("]}").map(|i| i + 2).unwrap_or(0);
            format!("\"st\":\"panic\",\"msg\":\"{e}\",\"ev\":[{}]", &out[..cut])
        }
    }
}

fn pairs<T, C, F>(items: Vec<C>, id: F, m: &Map, style: u8) -> String
where
    T: Float,
    C: Crossable<Scalar = T> + Clone,
    F: Fn(&C) -> usize,
{
    let cap = 40 + 10 * items.len() * items.len();
    let mut out = String::new();
    let r = guarded(|| {
        let mut it: Intersections<C> = Feed { inner: items.into_iter(), style }.collect();
        for (n, (a, b, x)) in it.by_ref().enumerate() {
            if n > 0 {
                out.push(',');
            }
            let (k, p, q, pr) = match x {
                LineIntersection::SinglePoint { intersection, is_proper } => (0, intersection, intersection, is_proper),
                LineIntersection::Collinear { intersection } => (1, intersection.start, intersection.end, false),
            };
            let (p, q) = (inv(p, m), inv(q, m));
            write!(out, "[{},{},{},{},{},{},{},{}]", id(&a), id(&b), k, p.0, p.1, q.0, q.1, pr as u8).unwrap();
            if n > cap {
                panic!("runaway: more than {cap} pairs yielded");
            }
        }
        if it.next().is_some() || it.next().is_some() {
            panic!("iterator resumed after None");
        }
    });
    match r {
        Ok(()) => format!("\"st\":\"ok\",\"prs\":[{out}]"),
        Err(e) => {
            let cut = out.rfind(']').map(|i| i + 1).unwrap_or(0);
            format!("\"st\":\"panic\",\"msg\":\"{e}\",\"prs\":[{}]", &out[..cut])
        }
    }
}

fn run_t<T: Float>(c: &Case, what: u8) -> String {
    let m = &c.map;
    let tagged: Vec<Tagged<T>> =
        c.segs.iter().enumerate().map(|(i, s)| Tagged { id: i + 1, line: to_line(s, m) }).collect();
    macro_rules! go {
        ($items:expr, $id:expr) => {
            if what == 0 { events($items, $id, m, c.container / 6) } else { pairs($items, $id, m, c.container / 6) }
        };
    }
    match c.container % 6 {
        0 => go!(tagged, |t: &Tagged<T>| t.id),
        1 => go!(tagged.iter().collect::<Vec<_>>(), |t: &&Tagged<T>| t.id),
        2 => go!(tagged.into_iter().map(Rc::new).collect::<Vec<_>>(), |t: &Rc<Tagged<T>>| t.id),
        3 => go!(tagged.into_iter().map(Arc::new).collect::<Vec<_>>(), |t: &Arc<Tagged<T>>| t.id),
        4 => go!(tagged.into_iter().map(Box::new).collect::<Vec<_>>(), |t: &Box<Tagged<T>>| t.id),
        _ => {
            // plain geo lines, identified by address
            let lines: Vec<Line<T>> = tagged.iter().map(|t| t.line).collect();
            let base = lines.as_ptr() as usize;
            let sz = std::mem::size_of::<Line<T>>();
            go!(lines.iter().collect::<Vec<_>>(), move |t: &&Line<T>| ((*t as *const Line<T> as usize) - base) / sz + 1)
        }
    }
}

pub fn run(c: &Case, what: u8) -> String {
    if c.f32 { run_t::<f32>(c, what) } else { run_t::<f64>(c, what) }
}
pub fn segs_json(segs: &[S]) -> String {
    let v: Vec<String> =
        segs.iter().map(|s| format!("[{},{},{},{}]", s.0 .0, s.0 .1, s.1 .0, s.1 .1)).collect();
    format!("[{}]", v.join(","))
}
