//! The path commands of SVG: kinds, letters, arguments.
use oxvg_path::command::{Data, ID};
use vc::Chooser;

pub const MOVE: usize = 0;
pub const CLOSE: usize = 2;
pub const ARC: usize = 17;
pub const KINDS: usize = 19;

/// Letter and number of arguments of each kind of command, and the kind that
/// follows without a letter.
pub const TABLE: [(char, usize, usize); KINDS] = [
    ('M', 2, 3),
    ('m', 2, 4),
    ('Z', 0, 2),
    ('L', 2, 3),
    ('l', 2, 4),
    ('H', 1, 5),
    ('h', 1, 6),
    ('V', 1, 7),
    ('v', 1, 8),
    ('C', 6, 9),
    ('c', 6, 10),
    ('S', 4, 11),
    ('s', 4, 12),
    ('Q', 4, 13),
    ('q', 4, 14),
    ('T', 2, 15),
    ('t', 2, 16),
    ('A', 7, 17),
    ('a', 7, 18),
];

pub fn letter(kind: usize) -> char {
    TABLE[kind].0
}
pub fn count(kind: usize) -> usize {
    TABLE[kind].1
}
pub fn follow(kind: usize) -> usize {
    TABLE[kind].2
}
pub fn is_arc(kind: usize) -> bool {
    kind >= ARC
}
pub fn kind_of_letter(c: char) -> Option<usize> {
    if c == 'z' {
        return Some(CLOSE);
    }
    let mut k = 0;
    while k < KINDS {
        if TABLE[k].0 == c {
            return Some(k);
        }
        k += 1;
    }
    None
}

pub fn id(kind: usize) -> ID {
    match kind {
        0 => ID::MoveTo,
        1 => ID::MoveBy,
        2 => ID::ClosePath,
        3 => ID::LineTo,
        4 => ID::LineBy,
        5 => ID::HorizontalLineTo,
        6 => ID::HorizontalLineBy,
        7 => ID::VerticalLineTo,
        8 => ID::VerticalLineBy,
        9 => ID::CubicBezierTo,
        10 => ID::CubicBezierBy,
        11 => ID::SmoothBezierTo,
        12 => ID::SmoothBezierBy,
        13 => ID::QuadraticBezierTo,
        14 => ID::QuadraticBezierBy,
        15 => ID::SmoothQuadraticBezierTo,
        16 => ID::SmoothQuadraticBezierBy,
        17 => ID::ArcTo,
        _ => ID::ArcBy,
    }
}

pub fn data(kind: usize, a: [f64; 7]) -> Data {
    match kind {
        0 => Data::MoveTo([a[0], a[1]]),
        1 => Data::MoveBy([a[0], a[1]]),
        2 => Data::ClosePath,
        3 => Data::LineTo([a[0], a[1]]),
        4 => Data::LineBy([a[0], a[1]]),
        5 => Data::HorizontalLineTo([a[0]]),
        6 => Data::HorizontalLineBy([a[0]]),
        7 => Data::VerticalLineTo([a[0]]),
        8 => Data::VerticalLineBy([a[0]]),
        9 => Data::CubicBezierTo([a[0], a[1], a[2], a[3], a[4], a[5]]),
        10 => Data::CubicBezierBy([a[0], a[1], a[2], a[3], a[4], a[5]]),
        11 => Data::SmoothBezierTo([a[0], a[1], a[2], a[3]]),
        12 => Data::SmoothBezierBy([a[0], a[1], a[2], a[3]]),
        13 => Data::QuadraticBezierTo([a[0], a[1], a[2], a[3]]),
        14 => Data::QuadraticBezierBy([a[0], a[1], a[2], a[3]]),
        15 => Data::SmoothQuadraticBezierTo([a[0], a[1]]),
        16 => Data::SmoothQuadraticBezierBy([a[0], a[1]]),
        17 => Data::ArcTo(a),
        _ => Data::ArcBy(a),
    }
}

/// Kind and arguments of an explicit command.
pub fn parts(d: &Data) -> (usize, [f64; 7]) {
    fn fill<const N: usize>(a: &[f64; N]) -> [f64; 7] {
        let mut r = [0.0; 7];
        let mut i = 0;
        while i < N {
            r[i] = a[i];
            i += 1;
        }
        r
    }
    match d {
        Data::MoveTo(a) => (0, fill(a)),
        Data::MoveBy(a) => (1, fill(a)),
        Data::ClosePath => (2, [0.0; 7]),
        Data::LineTo(a) => (3, fill(a)),
        Data::LineBy(a) => (4, fill(a)),
        Data::HorizontalLineTo(a) => (5, fill(a)),
        Data::HorizontalLineBy(a) => (6, fill(a)),
        Data::VerticalLineTo(a) => (7, fill(a)),
        Data::VerticalLineBy(a) => (8, fill(a)),
        Data::CubicBezierTo(a) => (9, fill(a)),
        Data::CubicBezierBy(a) => (10, fill(a)),
        Data::SmoothBezierTo(a) => (11, fill(a)),
        Data::SmoothBezierBy(a) => (12, fill(a)),
        Data::QuadraticBezierTo(a) => (13, fill(a)),
        Data::QuadraticBezierBy(a) => (14, fill(a)),
        Data::SmoothQuadraticBezierTo(a) => (15, fill(a)),
        Data::SmoothQuadraticBezierBy(a) => (16, fill(a)),
        Data::ArcTo(a) => (17, fill(a)),
        Data::ArcBy(a) => (18, fill(a)),
        Data::Implicit(d) => parts(d),
    }
}

/// A command with its arguments, as the specification sees it.
#[derive(Clone, Copy, Debug)]
pub struct Command {
    pub kind: usize,
    pub implicit: bool,
    pub args: [f64; 7],
}

impl Command {
    pub fn any<C: Chooser>(ch: &mut C, kind: usize, mut number: impl FnMut(&mut C) -> f64) -> Self {
        let mut args = [0.0; 7];
        for (i, a) in args.iter_mut().enumerate().take(count(kind)) {
            *a = if is_arc(kind) && (i == 3 || i == 4) { ch.below(2) as f64 } else { number(ch) };
        }
        Command { kind, implicit: false, args }
    }
    pub fn data(&self) -> Data {
        let d = data(self.kind, self.args);
        if self.implicit { Data::Implicit(Box::new(d)) } else { d }
    }
    pub fn args(&self) -> &[f64] {
        &self.args[..count(self.kind)]
    }
    pub fn show(&self) -> String {
        format!("{}{}{:?}", if self.implicit { "(implicit) " } else { "" }, letter(self.kind), self.args())
    }
}

pub fn show(path: &[Command]) -> String {
    path.iter().map(Command::show).collect::<Vec<_>>().join(" ")
}
