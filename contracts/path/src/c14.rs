//! C14: from commands to geometry.
use crate::command::*;
use oxvg_path::Path;
use oxvg_path::geometry::{Point, Tolerance};
use oxvg_path::paths::segment::{self, Data, Segment};
use vc::Chooser;

type P = (f64, f64);

#[derive(Clone, Copy, Debug)]
pub enum Piece {
    Line(P),
    /// Both control points and the end point.
    Cubic(P, P, P),
    /// The control point, the start and the end point.
    Quadratic(P, P, P),
    /// The end point.
    Arc(P),
}

#[derive(Clone, Debug)]
pub struct SubPath {
    pub start: P,
    pub pieces: Vec<Piece>,
    /// Closed by a command.
    pub closed: bool,
}

/// The geometry of a sequence of commands by the rules of SVG.
pub fn geometry(path: &[Command]) -> Vec<SubPath> {
    let mut result: Vec<SubPath> = vec![];
    let (mut x, mut y) = (0.0, 0.0);
    let mut cubic: Option<P> = None;
    let mut quadratic: Option<P> = None;
    let mut fresh = false;
    for c in path {
        let a = &c.args;
        let relative = letter(c.kind).is_ascii_lowercase();
        let (bx, by) = if relative { (x, y) } else { (0.0, 0.0) };
        let at = |i: usize| if relative { (bx + a[i], by + a[i + 1]) } else { (a[i], a[i + 1]) };
        let (last_cubic, last_quadratic) = (cubic.take(), quadratic.take());
        // the reflection of a point through the current point
        let mirror = |p: Option<P>| p.map_or((x, y), |p| (2.0 * x - p.0, 2.0 * y - p.1));
        let upper = letter(c.kind).to_ascii_uppercase();
        if upper == 'M' {
            (x, y) = at(0);
            result.push(SubPath { start: (x, y), pieces: vec![], closed: false });
            fresh = true;
            continue;
        }
        if upper == 'Z' {
            // one command closes one sub-path; what follows starts where it began
            let start = result[result.len() - 1].start;
            if !fresh {
                result.push(SubPath { start, pieces: vec![], closed: false });
            }
            let last = result.len() - 1;
            result[last].closed = true;
            (x, y) = start;
            fresh = false;
            continue;
        }
        if !fresh {
            let start = result[result.len() - 1].start;
            result.push(SubPath { start, pieces: vec![], closed: false });
            fresh = true;
        }
        let piece = match upper {
            'L' => Piece::Line(at(0)),
            'H' => Piece::Line((if relative { x + a[0] } else { a[0] }, y)),
            'V' => Piece::Line((x, if relative { y + a[0] } else { a[0] })),
            'C' => {
                cubic = Some(at(2));
                Piece::Cubic(at(0), at(2), at(4))
            }
            'S' => {
                cubic = Some(at(0));
                Piece::Cubic(mirror(last_cubic), at(0), at(2))
            }
            'Q' => {
                quadratic = Some(at(0));
                Piece::Quadratic(at(0), (x, y), at(2))
            }
            'T' => {
                let control = mirror(last_quadratic);
                quadratic = Some(control);
                Piece::Quadratic(control, (x, y), at(0))
            }
            _ => Piece::Arc(at(5)),
        };
        (x, y) = match piece {
            Piece::Line(p) | Piece::Cubic(_, _, p) | Piece::Quadratic(_, _, p) | Piece::Arc(p) => p,
        };
        let last = result.len() - 1;
        result[last].pieces.push(piece);
    }
    result
}

fn end(p: &Piece) -> P {
    match p {
        Piece::Line(p) | Piece::Cubic(_, _, p) | Piece::Quadratic(_, _, p) | Piece::Arc(p) => *p,
    }
}

/// Equal up to the rounding of a different order of the same operations.
fn near(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * scale.abs().max(1e-300)
}
fn near_point(a: Point, b: P, scale: f64) -> bool {
    near(a.x, b.0, scale) && near(a.y, b.1, scale)
}

fn check_piece(found: &Data, expected: &Piece, scale: f64) {
    match (found, expected) {
        (Data::LineTo(p), Piece::Line(q)) => assert!(near_point(*p, *q, scale), "the end point of a line"),
        (Data::CurveTo(c), Piece::Cubic(p, q, r)) => {
            assert!(near_point(c.start_control, *p, scale), "the first control point");
            assert!(near_point(c.end_control, *q, scale), "the second control point");
            assert!(near_point(c.end_point, *r, scale), "the end point of a curve");
        }
        (Data::CurveTo(c), Piece::Quadratic(q, s, e)) => {
            // a quadratic curve as a cubic one: controls at two thirds of the way
            let two = |from: f64, to: f64| from + (to - from) * 2.0 / 3.0;
            assert!(near_point(c.start_control, (two(s.0, q.0), two(s.1, q.1)), scale), "the first control point of a quadratic curve");
            assert!(near_point(c.end_control, (two(e.0, q.0), two(e.1, q.1)), scale), "the second control point of a quadratic curve");
            assert!(near_point(c.end_point, *e, scale), "the end point of a curve");
        }
        // how the ellipse of an arc is kept is not decided here
        (Data::ArcTo(arc), Piece::Arc(p)) => assert!(near_point(arc.end_point(), *p, scale), "the end point of an arc"),
        (Data::LineTo(q), Piece::Arc(p)) => assert!(near_point(*q, *p, scale), "the end point of a degenerate arc"),
        _ => panic!("each command gives its kind of geometry: {found:?} for {expected:?}"),
    }
}

/// Compares the conversion with the rules. `scale` bounds the size of the numbers involved.
pub fn check(found: &segment::Path, expected: &[SubPath], tolerance: &Tolerance, scale: f64) {
    // a sub-path without geometry may be left out, and is never closed
    let mut found_parts: Vec<&Segment> = found.0.iter().filter(|s| !s.data().is_empty()).collect();
    let parts: Vec<&SubPath> = expected.iter().filter(|s| !s.pieces.is_empty()).collect();
    assert!(found_parts.len() == parts.len(), "one segment for each sub-path that draws something");
    for (f, e) in found_parts.drain(..).zip(parts) {
        assert!(near_point(*f.start(), e.start, scale), "where a sub-path starts");
        assert!(f.data().len() == e.pieces.len(), "one piece for each drawing command");
        for (d, p) in f.data().iter().zip(&e.pieces) {
            check_piece(d, p, scale);
        }
        let last = end(&e.pieces[e.pieces.len() - 1]);
        let distance = ((last.0 - e.start.0).powi(2) + (last.1 - e.start.1).powi(2)).sqrt();
        if e.closed {
            assert!(f.closed(), "a sub-path that is closed by a command is closed");
            assert!(f.end_point() == *f.start(), "closing returns to the start");
        } else if distance > tolerance.positional * 1.001 + 1e-9 * scale {
            assert!(!f.closed(), "a sub-path that ends elsewhere is not closed");
        } else if distance < tolerance.positional * 0.999 - 1e-9 * scale {
            assert!(f.closed(), "a sub-path that ends where it began is closed");
        }
    }
    for f in found.0.iter().filter(|s| s.data().is_empty()) {
        assert!(expected.iter().any(|e| near_point(*f.start(), e.start, scale)), "an empty segment is at the start of a sub-path");
    }
}

fn convert<C: Chooser>(ch: &mut C, path: &[Command]) {
    vc::note!(ch, "{}", show(path));
    let mut scale = 1.0f64;
    for c in path {
        for a in c.args() {
            scale += a.abs() * 4.0;
        }
    }
    let tolerance = Tolerance::default();
    let svg = Path(path.iter().map(Command::data).collect());
    let found = segment::Path::from_svg(&svg, &tolerance);
    check(&found, &geometry(path), &tolerance, scale);
    assert!(svg == Path(path.iter().map(Command::data).collect()), "the commands are only read");
}

fn sensible<C: Chooser>(ch: &mut C) -> f64 {
    ch.one_of(&[0.0, 1.0, -2.0, 3.5, 10.0, 0.0004])
}

/// Any two commands after a move, with a few coordinates.
pub fn pairs<C: Chooser>(ch: &mut C) {
    let mut serial = 0;
    let shape = ch.below(3);
    // coordinates that are all different, all equal, or return to the start
    let mut number = |_: &mut C| {
        serial += 1;
        match shape {
            0 => [3.0, 5.0, 7.5, 11.0, -13.0, 17.0, 19.0, 23.0, -29.0, 31.0, 37.0, 41.0, 43.0, -47.0, 53.0, 59.0, 61.0, 67.0][serial % 18],
            1 => 4.0,
            _ => 0.0,
        }
    };
    let first = ch.below(2);
    let mut path = vec![Command::any(ch, first, &mut number)];
    for _ in 0..3 {
        let kind = ch.below(KINDS);
        path.push(Command::any(ch, kind, &mut number));
    }
    convert(ch, &path);
    ch.reached();
}

/// Longer paths.
pub fn paths<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(7);
    random(ch, n);
}

/// Long paths.
pub fn long_paths<C: Chooser>(ch: &mut C) {
    let n = 20 + ch.below(100);
    random(ch, n);
}

fn random<C: Chooser>(ch: &mut C, n: usize) {
    let wild = ch.flag();
    let mut number = |ch: &mut C| {
        if wild {
            let v = ch.finite();
            ch.require(v.abs() < 1e100);
            v
        } else {
            sensible(ch)
        }
    };
    let first = ch.below(2);
    let mut path = vec![Command::any(ch, first, &mut number)];
    for _ in 1..n {
        let last = path[path.len() - 1].kind;
        let implicit = last != CLOSE && ch.below(3) == 0;
        let kind = if implicit { follow(last) } else { ch.below(KINDS) };
        let mut c = Command::any(ch, kind, &mut number);
        c.implicit = implicit;
        path.push(c);
    }
    convert(ch, &path);
    ch.reached();
}

/// The empty path has no geometry.
pub fn empty<C: Chooser>(ch: &mut C) {
    assert!(segment::Path::from_svg(&Path(vec![]), &Tolerance::default()).0.is_empty(), "no commands, no geometry");
    ch.reached();
}

fn exactly(a: Point, b: P) -> bool {
    a.x == b.0 && a.y == b.1
}

/// A move and one line command of any kind from any point, with the exact results.
pub fn one_line<C: Chooser>(ch: &mut C) {
    let kind = 3 + ch.below(6);
    let (x, y) = (ch.finite(), ch.finite());
    let a = [ch.finite(), ch.finite(), 0.0, 0.0, 0.0, 0.0, 0.0];
    vc::note!(ch, "M{x} {y} {}{:?}", letter(kind), &a[..count(kind)]);
    let svg = Path(vec![data(0, [x, y, 0.0, 0.0, 0.0, 0.0, 0.0]), data(kind, a)]);
    let found = segment::Path::from_svg(&svg, &Tolerance::default());
    let expected = match kind {
        3 => (a[0], a[1]),
        4 => (x + a[0], y + a[1]),
        5 => (a[0], y),
        6 => (x + a[0], y),
        7 => (x, a[0]),
        _ => (x, y + a[0]),
    };
    assert!(found.0.len() == 1 && exactly(*found.0[0].start(), (x, y)), "where the sub-path starts");
    assert!(found.0[0].data().len() == 1, "one piece");
    match &found.0[0].data()[0] {
        Data::LineTo(p) => assert!(exactly(*p, expected), "the end point of a line"),
        _ => panic!("a line command gives a line"),
    }
    ch.reached();
}

/// A move, any curve command and any smooth curve command, with any numbers: control points to the bit.
pub fn cubic_pair<C: Chooser>(ch: &mut C) {
    let (x, y) = (ch.finite(), ch.finite());
    let mut a = [0.0; 7];
    let mut b = [0.0; 7];
    let mut i = 0;
    while i < 6 {
        a[i] = ch.finite();
        i += 1;
    }
    i = 0;
    while i < 4 {
        b[i] = ch.finite();
        i += 1;
    }
    let first = 9 + ch.below(4);
    let second = 11 + ch.below(2);
    vc::note!(ch, "M{x} {y} {}{:?} {}{:?}", letter(first), &a[..count(first)], letter(second), &b[..count(second)]);
    let svg = Path(vec![data(0, [x, y, 0.0, 0.0, 0.0, 0.0, 0.0]), data(first, a), data(second, b)]);
    let found = segment::Path::from_svg(&svg, &Tolerance::default());
    let abs = |o: P, p: P, relative: bool| if relative { (o.0 + p.0, o.1 + p.1) } else { p };
    let relative = first == 10 || first == 12;
    let (c1, c2, e) = if first < 11 {
        (abs((x, y), (a[0], a[1]), relative), abs((x, y), (a[2], a[3]), relative), abs((x, y), (a[4], a[5]), relative))
    } else {
        ((x, y), abs((x, y), (a[0], a[1]), relative), abs((x, y), (a[2], a[3]), relative))
    };
    let relative = second == 12;
    let mirrored = (2.0 * e.0 - c2.0, 2.0 * e.1 - c2.1);
    let (d2, f) = (abs(e, (b[0], b[1]), relative), abs(e, (b[2], b[3]), relative));
    assert!(found.0.len() == 1 && found.0[0].data().len() == 2, "two pieces");
    match (&found.0[0].data()[0], &found.0[0].data()[1]) {
        (Data::CurveTo(p), Data::CurveTo(q)) => {
            assert!(exactly(p.start_control, c1) && exactly(p.end_control, c2) && exactly(p.end_point, e), "the first curve");
            assert!(exactly(q.start_control, mirrored), "a smooth curve reflects the control point before it");
            assert!(exactly(q.end_control, d2) && exactly(q.end_point, f), "the second curve");
        }
        _ => panic!("a curve command gives a curve"),
    }
    ch.reached();
}

/// One step of the conversion from any state, by one command that is not an arc.
#[cfg(kani)]
pub fn steps<C: Chooser>(ch: &mut C, from: usize, to: usize, number: fn(&mut C) -> f64) {
    let mut kind = from;
    while kind < to {
        step(ch, kind, number);
        kind += 1;
    }
    ch.reached();
}

#[cfg(kani)]
pub fn any_number<C: Chooser>(ch: &mut C) -> f64 {
    ch.finite()
}

/// Sums of sums of arbitrary numbers are out of the solvers' reach.
#[cfg(kani)]
pub fn whole_number<C: Chooser>(ch: &mut C) -> f64 {
    f64::from(ch.byte() as i8)
}

#[cfg(kani)]
fn step<C: Chooser>(ch: &mut C, kind: usize, number: fn(&mut C) -> f64) {
    let mut start = Point::new(number(ch), number(ch));
    let mut cursor = Point::new(number(ch), number(ch));
    let before = Point::new(number(ch), number(ch));
    let known = ch.below(3);
    let mut control = match known {
        0 => None,
        1 => Some((true, before)),
        _ => Some((false, before)),
    };
    let mut a = [0.0; 7];
    let mut i = 0;
    while i < 6 {
        if i < count(kind) {
            a[i] = number(ch);
        }
        i += 1;
    }
    let mut z_end = false;
    let (s, o) = ((start.x, start.y), (cursor.x, cursor.y));
    let found = Data::step(&data(kind, a), &mut start, &mut cursor, &mut control, &mut z_end);
    let relative = letter(kind).is_ascii_lowercase();
    let at = |i: usize| if relative { (o.0 + a[i], o.1 + a[i + 1]) } else { (a[i], a[i + 1]) };
    let upper = letter(kind).to_ascii_uppercase();
    assert!(z_end == (upper == 'Z'), "only closing closes");
    let mirror = |of: usize| if known == of { (2.0 * o.0 - before.x, 2.0 * o.1 - before.y) } else { o };
    let (piece, next) = match upper {
        'M' => {
            assert!(found.is_none() && exactly(start, at(0)) && exactly(cursor, at(0)), "a move");
            assert!(control.is_none(), "no control point after a move");
            return;
        }
        'Z' => {
            assert!(found.is_none(), "closing draws nothing here");
            return;
        }
        'L' => (Piece::Line(at(0)), None),
        'H' => (Piece::Line((if relative { o.0 + a[0] } else { a[0] }, o.1)), None),
        'V' => (Piece::Line((o.0, if relative { o.1 + a[0] } else { a[0] })), None),
        'C' => (Piece::Cubic(at(0), at(2), at(4)), Some((true, at(2)))),
        'S' => (Piece::Cubic(mirror(1), at(0), at(2)), Some((true, at(0)))),
        'Q' => (Piece::Quadratic(at(0), o, at(2)), Some((false, at(0)))),
        _ => (Piece::Quadratic(mirror(2), o, at(0)), Some((false, mirror(2)))),
    };
    assert!(exactly(start, s), "drawing keeps the start of the sub-path");
    assert!(exactly(cursor, end(&piece)), "drawing moves to the end point");
    match (control, next) {
        (None, None) => {}
        (Some((k, p)), Some((l, q))) => assert!(k == l && exactly(p, q), "the control point kept for a smooth curve"),
        _ => panic!("the control point kept for a smooth curve"),
    }
    match (&found, &piece) {
        (Some(Data::LineTo(p)), Piece::Line(q)) => assert!(exactly(*p, *q), "the end point of a line"),
        (Some(Data::CurveTo(c)), Piece::Cubic(p, q, r)) => {
            assert!(exactly(c.start_control, *p) && exactly(c.end_control, *q) && exactly(c.end_point, *r), "a cubic curve");
        }
        (Some(Data::CurveTo(c)), Piece::Quadratic(_, _, e)) => assert!(exactly(c.end_point, *e), "a quadratic curve"),
        _ => panic!("each command gives its kind of geometry"),
    }
    std::mem::forget(found);
}
