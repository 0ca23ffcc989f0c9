//! Points along the geometry of path data.
use crate::c14::{Piece, geometry};
use crate::command::*;
use oxvg_path::paths::segment::{self, Data};

pub type P = (f64, f64);

/// Number of steps each piece is divided into.
pub const STEPS: usize = 24;

/// One piece of a sub-path, by points along it.
#[derive(Clone, Debug)]
pub struct Stroke {
    pub line: bool,
    /// How far rounding its numbers may move a point.
    pub give: f64,
    pub points: [P; STEPS + 1],
}

#[derive(Clone, Debug)]
pub struct Shape {
    pub start: P,
    pub strokes: Vec<Stroke>,
    pub closed: bool,
}

fn mix(a: P, b: P, t: f64) -> P {
    (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t)
}

fn each(f: impl Fn(f64) -> P) -> [P; STEPS + 1] {
    let mut r = [(0.0, 0.0); STEPS + 1];
    for (i, p) in r.iter_mut().enumerate() {
        *p = f(i as f64 / STEPS as f64);
    }
    r
}

pub fn line(a: P, b: P) -> Stroke {
    Stroke { line: true, give: 0.0, points: each(|t| mix(a, b, t)) }
}

pub fn cubic(a: P, b: P, c: P, d: P) -> Stroke {
    let points = each(|t| {
        let (ab, bc, cd) = (mix(a, b, t), mix(b, c, t), mix(c, d, t));
        mix(mix(ab, bc, t), mix(bc, cd, t), t)
    });
    Stroke { line: false, give: 0.0, points }
}

pub fn quadratic(a: P, b: P, c: P) -> Stroke {
    Stroke { line: false, give: 0.0, points: each(|t| mix(mix(a, b, t), mix(b, c, t), t)) }
}

/// An elliptical arc, and how much it moves when its radii are rounded.
pub fn arc(from: P, a: &[f64; 7], to: P) -> Stroke {
    let mut exact = arc_exactly(from, a, to);
    for (x, y) in [(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0), (1.0, 1.0), (-1.0, -1.0)] {
        let mut b = *a;
        b[0] = a[0].abs() + x * 1e-3;
        b[1] = a[1].abs() + y * 1e-3;
        for (p, q) in arc_exactly(from, &b, to).points.iter().zip(&exact.points) {
            exact.give = exact.give.max(2.0 * distance(*p, *q)).max(2e-3 * distance(exact.points[0], *q));
        }
    }
    exact
}

/// An elliptical arc from its end points, as in the implementation notes of SVG.
fn arc_exactly(from: P, a: &[f64; 7], to: P) -> Stroke {
    let (mut rx, mut ry) = (a[0].abs(), a[1].abs());
    if from == to || rx == 0.0 || ry == 0.0 {
        return line(from, to);
    }
    let (sin, cos) = a[2].to_radians().sin_cos();
    let (hx, hy) = ((from.0 - to.0) / 2.0, (from.1 - to.1) / 2.0);
    let (x, y) = (cos * hx + sin * hy, -sin * hx + cos * hy);
    let size = (x / rx).powi(2) + (y / ry).powi(2);
    if size > 1.0 {
        rx *= size.sqrt();
        ry *= size.sqrt();
    }
    let rest = ((rx * ry).powi(2) - (rx * y).powi(2) - (ry * x).powi(2)).max(0.0) / ((rx * y).powi(2) + (ry * x).powi(2));
    let (large, sweep) = (a[3] != 0.0, a[4] != 0.0);
    let factor = if large == sweep { -rest.sqrt() } else { rest.sqrt() };
    let (cx, cy) = (factor * rx * y / ry, -factor * ry * x / rx);
    let first = ((y - cy) / ry).atan2((x - cx) / rx);
    let mut turn = ((-y - cy) / ry).atan2((-x - cx) / rx) - first;
    let full = std::f64::consts::TAU;
    if sweep && turn < 0.0 {
        turn += full;
    }
    if !sweep && turn > 0.0 {
        turn -= full;
    }
    let middle = ((from.0 + to.0) / 2.0, (from.1 + to.1) / 2.0);
    let points = each(|t| {
        let (s, c) = (first + turn * t).sin_cos();
        let (u, v) = (cx + rx * c, cy + ry * s);
        (middle.0 + cos * u - sin * v, middle.1 + sin * u + cos * v)
    });
    Stroke { line: false, give: 0.0, points }
}

/// The geometry of commands.
pub fn of_commands(path: &[Command]) -> Vec<Shape> {
    let mut drawing = path.iter().filter(|c| !matches!(letter(c.kind), 'M' | 'm' | 'Z'));
    geometry(path)
        .into_iter()
        .map(|s| {
            let mut at = s.start;
            let strokes = s
                .pieces
                .iter()
                .map(|p| {
                    let c = drawing.next().unwrap();
                    let from = at;
                    let (stroke, end) = match *p {
                        Piece::Line(e) => (line(from, e), e),
                        Piece::Cubic(b, c, e) => (cubic(from, b, c, e), e),
                        Piece::Quadratic(b, _, e) => (quadratic(from, b, e), e),
                        Piece::Arc(e) => (arc(from, &c.args, e), e),
                    };
                    at = end;
                    stroke
                })
                .collect();
            Shape { start: s.start, strokes, closed: s.closed }
        })
        .collect()
}

/// The geometry of segments without arcs.
pub fn of_segments(path: &segment::Path) -> Vec<Shape> {
    path.0
        .iter()
        .map(|s| {
            let mut at = (s.start().x, s.start().y);
            let strokes = s
                .data()
                .iter()
                .map(|d| {
                    let from = at;
                    let p = d.end_point();
                    at = (p.x, p.y);
                    match d {
                        Data::LineTo(_) => line(from, at),
                        Data::CurveTo(c) => cubic(from, (c.start_control.x, c.start_control.y), (c.end_control.x, c.end_control.y), at),
                        Data::ArcTo(_) => panic!("no arcs here"),
                    }
                })
                .collect();
            Shape { start: (s.start().x, s.start().y), strokes, closed: s.closed() }
        })
        .collect()
}

pub fn distance(a: P, b: P) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}

impl Shape {
    pub fn end(&self) -> P {
        self.strokes.last().map_or(self.start, |s| s.points[STEPS])
    }

    /// Without lines that draw nothing, and with the line that closes it written out.
    pub fn plain(&self, nothing: f64) -> Shape {
        let mut result = self.clone();
        if self.closed && distance(self.end(), self.start) > nothing {
            result.strokes.push(line(self.end(), self.start));
        }
        result.closed = self.closed || distance(self.end(), self.start) <= nothing;
        result.strokes.retain(|s| !s.line || distance(s.points[0], s.points[STEPS]) > nothing);
        result
    }
}

/// The commands of a path as the specification sees them.
pub fn commands(path: &oxvg_path::Path) -> Vec<Command> {
    path.0
        .iter()
        .map(|d| {
            let (kind, args) = parts(d);
            Command { kind, implicit: false, args }
        })
        .collect()
}
