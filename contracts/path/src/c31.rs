//! C31: from geometry back to path data.
use crate::command::*;
use crate::trace::*;
use oxvg_parse::Parse as _;
use oxvg_path::Path;
use oxvg_path::geometry::{Curve, Point, Tolerance};
use oxvg_path::paths::segment::{self, Data, Segment};
use vc::Chooser;

/// Writes segments as commands and text, and compares what is drawn, stroke by stroke.
fn written<C: Chooser>(ch: &mut C, path: &segment::Path, expected: &[Shape], smart: bool) {
    let before = path.clone();
    let tolerance = Tolerance::default();
    let commands_written = path.to_svg(&tolerance, smart);
    assert!(*path == before, "the segments are only read");
    let text = commands_written.to_string();
    vc::note!(ch, "written as {text:?}");
    let read = Path::parse_string(&text).expect("path data that is written can be read");
    let found = of_commands(&commands(&read));
    let plain = |shapes: &[Shape]| -> Vec<Shape> { shapes.iter().filter(|s| !s.strokes.is_empty()).map(|s| s.plain(1e-9)).collect() };
    let (found, expected) = (plain(&found), plain(expected));
    // what is drawn as a dot or not at all may be either
    let visible = |shapes: Vec<Shape>| -> Vec<Shape> { shapes.into_iter().filter(|s| !s.strokes.is_empty()).collect() };
    let (found, expected) = (visible(found), visible(expected));
    assert!(found.len() == expected.len(), "as many sub-paths as segments");
    let mut slack = 2e-3;
    for (f, e) in found.iter().zip(&expected) {
        // every number may be rounded, and relative ones add up
        slack += 1e-3 * (1 + e.strokes.len()) as f64;
        assert!(distance(f.start, e.start) <= slack, "where a sub-path starts");
        assert!(f.closed == e.closed, "whether a sub-path is closed");
        assert!(f.strokes.len() == e.strokes.len(), "as many pieces as in the segment");
        for (a, b) in f.strokes.iter().zip(&e.strokes) {
            let slack = slack + b.give;
            for (p, q) in a.points.iter().zip(&b.points) {
                assert!(distance(*p, *q) <= slack, "the points along a piece");
            }
        }
    }
}

/// Segments of lines and curves.
fn drawn<C: Chooser>(ch: &mut C, most: usize, pieces: usize) {
    let fine = ch.below(3);
    let number = |ch: &mut C| match fine {
        0 => ch.one_of(&[0.0, 1.0, 2.0, 3.0, 6.0]),
        1 => ch.one_of(&[0.0, 0.5, -1.5, 10.0, 30.0, 0.001, 12.345]),
        _ => (ch.below(20001) as f64 - 10000.0) / 1000.0,
    };
    let point = |ch: &mut C| Point::new(number(ch), number(ch));
    let count = 1 + ch.below(most);
    let mut path = segment::Path(vec![]);
    for _ in 0..count {
        let start = point(ch);
        let mut data: Vec<Data> = vec![];
        let mut at = start;
        for _ in 0..ch.below(pieces + 1) {
            let kind = ch.below(8);
            let to = match ch.below(6) {
                0 => start,
                1 => at,
                2 => Point::new(at.x, number(ch)),
                3 => Point::new(number(ch), at.y),
                _ => point(ch),
            };
            // the last control point mirrored, as a cubic and as a quadratic one
            let (last, last_quadratic) = match data.last() {
                Some(Data::CurveTo(c)) => {
                    let quad = c.end_point + (c.end_control - c.end_point) * 1.5;
                    (Point::new(at.x * 2.0 - c.end_control.x, at.y * 2.0 - c.end_control.y), Point::new(at.x * 2.0 - quad.x, at.y * 2.0 - quad.y))
                }
                _ => (at, at),
            };
            data.push(match kind {
                0..=2 => Data::LineTo(to),
                3 => Data::CurveTo(Curve::new(point(ch), point(ch), to)),
                4 => Data::CurveTo(Curve::new(last, point(ch), to)),
                5 => Data::CurveTo(Curve::new_quad(point(ch), at, to)),
                6 => Data::CurveTo(Curve::new_quad(last_quadratic, at, to)),
                _ => Data::CurveTo(Curve::new(at, point(ch), to)),
            });
            at = to;
        }
        let closed = ch.flag();
        path.0.push(Segment::new(start, data, closed));
    }
    vc::note!(ch, "{path:?}");
    let smart = ch.flag();
    written(ch, &path, &of_segments(&path), smart);
    ch.reached();
}

pub fn pieces<C: Chooser>(ch: &mut C) {
    drawn(ch, 1, 3);
}

pub fn segments<C: Chooser>(ch: &mut C) {
    drawn(ch, 4, 6);
}

/// Arcs of ellipses turned any way, and arcs of nearly a whole turn.
fn turned<C: Chooser>(ch: &mut C, command: &mut Command) {
    if ch.flag() {
        command.args[2] = (ch.below(97) as f64 - 48.0) * 15.0;
    }
    if ch.below(4) == 0 && command.kind == 18 {
        command.args[3] = 1.0;
        command.args[5] = ch.one_of(&[0.0, 0.01, -0.01, 0.003]);
        command.args[6] = ch.one_of(&[0.0, 0.01, -0.01, 0.003]);
    }
}

/// Path data, through segments, to path data again.
pub fn again<C: Chooser>(ch: &mut C) {
    let n = 2 + ch.below(8);
    let fine = ch.below(2);
    let mut number = |ch: &mut C| match fine {
        0 => ch.one_of(&[0.0, 1.0, 2.0, 3.0, 6.0, -4.0]),
        _ => (ch.below(2001) as f64 - 1000.0) / 100.0,
    };
    let first = ch.below(2);
    let mut path = vec![Command::any(ch, first, &mut number)];
    for _ in 1..n {
        let kind = ch.below(KINDS);
        let mut command = Command::any(ch, kind, &mut number);
        if is_arc(kind) {
            turned(ch, &mut command);
        }
        path.push(command);
    }
    vc::note!(ch, "{}", show(&path));
    let svg = Path(path.iter().map(Command::data).collect());
    let tolerance = Tolerance::default();
    let converted = segment::Path::from_svg(&svg, &tolerance);
    let smart = ch.flag();
    written(ch, &converted, &of_commands(&path), smart);
    ch.reached();
}
