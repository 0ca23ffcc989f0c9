//! C32: optimised paths draw what the original draws.
use crate::command::*;
use crate::trace::*;
use oxvg_parse::Parse as _;
use oxvg_path::Path;
use oxvg_path::geometry::Tolerance;
use oxvg_path::optimize::Options;
use vc::Chooser;

fn to_line(p: P, a: P, b: P) -> f64 {
    let (x, y) = (b.0 - a.0, b.1 - a.1);
    let l = x * x + y * y;
    let t = if l == 0.0 { 0.0 } else { (((p.0 - a.0) * x + (p.1 - a.1) * y) / l).clamp(0.0, 1.0) };
    distance(p, (a.0 + x * t, a.1 + y * t))
}

/// The lines that are drawn, the points on them, and the area they enclose.
struct Outline {
    lines: Vec<(P, P)>,
    give: f64,
    coarse: f64,
    area: f64,
    length: f64,
    dots: Vec<P>,
}

fn outline(shapes: &[Shape], fill: bool) -> Outline {
    let mut o = Outline { lines: vec![], give: 0.0, coarse: 0.0, area: 0.0, length: 0.0, dots: vec![] };
    for s in shapes {
        if s.strokes.is_empty() {
            continue;
        }
        let mut lines = vec![];
        for stroke in &s.strokes {
            o.give = o.give.max(stroke.give);
            for w in stroke.points.windows(3) {
                // how far the drawn curve may be from the lines between its points
                o.coarse = o.coarse.max(distance(w[1], ((w[0].0 + w[2].0) / 2.0, (w[0].1 + w[2].1) / 2.0)) / 3.0);
            }
            for w in stroke.points.windows(2) {
                lines.push((w[0], w[1]));
            }
        }
        let last = (s.end(), s.start);
        if s.closed || fill {
            lines.push(last);
        }
        for (a, b) in &lines {
            o.area += (a.0 * b.1 - b.0 * a.1) / 2.0;
            o.length += distance(*a, *b);
        }
        if !(s.closed || fill) {
            o.area += (last.0.0 * last.1.1 - last.1.0 * last.0.1) / 2.0;
        }
        if lines.iter().all(|(a, b)| distance(s.start, *a) < 0.02 && distance(s.start, *b) < 0.02) {
            o.dots.push(s.start);
        } else {
            o.lines.extend(lines);
        }
    }
    o
}

fn farthest(from: &Outline, to: &Outline) -> f64 {
    let mut most = 0.0f64;
    for (a, b) in &from.lines {
        for p in [*a, ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0)] {
            let lines = to.lines.iter().map(|(c, d)| to_line(p, *c, *d));
            let dots = to.dots.iter().map(|d| distance(p, *d));
            let d = lines.chain(dots).fold(f64::INFINITY, f64::min);
            most = most.max(d);
        }
    }
    most
}

fn compare<C: Chooser>(ch: &mut C, path: &[Command], options: Options) {
    let tolerance = Tolerance::default();
    let svg = Path(path.iter().map(Command::data).collect());
    vc::note!(ch, "{} with {options:?}", svg.to_string());
    let optimised = svg.optimize(options, &tolerance);
    let text = optimised.to_string();
    vc::note!(ch, "becomes {text:?}");
    let read = Path::parse_string(&text).expect("path data that is written can be read");
    let fill = options.intersects(Options::UnsafeStroke);
    let before = outline(&of_commands(path), fill);
    let after = outline(&of_commands(&commands(&read)), fill);
    let slack = 0.02 + before.give + after.give + before.coarse + after.coarse + 2e-3 * path.len() as f64;
    // a curve may become an arc that is off by a thousandth of its radius
    let read = commands(&read);
    let radius = read.iter().filter(|c| is_arc(c.kind)).fold(0.0f64, |r, c| r.max(c.args[0]).max(c.args[1]));
    let slack = if options.contains(Options::ArcCurves) { slack + 2e-3 * radius } else { slack };
    // where joined arcs are almost half circles, their centre moves a lot with small changes of their ends
    let near = of_commands(&read)
        .iter()
        .flat_map(|s| &s.strokes)
        .zip(read.iter().filter(|c| !matches!(letter(c.kind), 'M' | 'm' | 'Z')))
        .filter(|(_, c)| is_arc(c.kind))
        .filter_map(|(s, c)| {
            let beyond = c.args[0].min(c.args[1]) - distance(s.points[0], s.points[STEPS]) / 2.0;
            (beyond > 0.0 && beyond < 0.02).then(|| (0.02 * c.args[0].max(c.args[1])).sqrt())
        })
        .fold(0.0, f64::max);
    // arcs whose ends are within a tenth of the same ellipse are joined
    let joined = options.contains(Options::JoinNodes) && radius > 0.0;
    let slack = if joined { slack + near + 0.1 } else { slack };
    let gap = farthest(&before, &after).max(farthest(&after, &before));
    vc::note!(ch, "gap {gap} of {slack} ({} {} {}), area {} {}", before.give, before.coarse, after.coarse, before.area, after.area);
    assert!(gap <= slack, "the outline that is drawn");
    assert!((before.area - after.area).abs() <= slack * before.length + 0.1, "the signed area that is enclosed");
}

fn kappa(r: f64, x: f64, y: f64) -> Vec<(usize, [f64; 7])> {
    let k = r * 0.552_284_749_8;
    let c = |a: f64, b: f64, c: f64, d: f64, e: f64, f: f64| (10, [a, b, c, d, e, f, 0.0]);
    let _ = (x, y);
    vec![c(0.0, k, r - k, r, r, r), c(k, 0.0, r, k - r, r, -r), c(0.0, -k, k - r, -r, -r, -r), c(-k, 0.0, -r, r - k, -r, r)]
}

/// Pieces in relative commands, some of them cut in two or straight or round.
fn piece<C: Chooser>(ch: &mut C, number: fn(&mut C) -> f64) -> Vec<(usize, [f64; 7])> {
    let lerp = |a: P, b: P, t: f64| (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t);
    match ch.below(9) {
        0 => {
            let (x, y) = (number(ch), number(ch));
            vec![(4, [x, y, 0.0, 0.0, 0.0, 0.0, 0.0])]
        }
        1 => {
            // a line in two parts, or one that turns back
            let (x, y) = (number(ch), number(ch));
            let t = ch.one_of(&[0.5, 2.0, -1.0]);
            vec![(4, [x, y, 0.0, 0.0, 0.0, 0.0, 0.0]), (4, [x * t, y * t, 0.0, 0.0, 0.0, 0.0, 0.0])]
        }
        2 => {
            // a curve, or a curve in two parts
            let mut points = [(0.0, 0.0); 3];
            // now and then a point is where the curve starts
            for p in &mut points {
                if ch.below(4) > 0 {
                    *p = (number(ch), number(ch));
                }
            }
            let [a, b, c] = points;
            let t = ch.one_of(&[0.0, 0.5, 0.25]);
            if t == 0.0 {
                return vec![(10, [a.0, a.1, b.0, b.1, c.0, c.1, 0.0])];
            }
            let o = (0.0, 0.0);
            let (p, q, r) = (lerp(o, a, t), lerp(a, b, t), lerp(b, c, t));
            let (u, v) = (lerp(p, q, t), lerp(q, r, t));
            let m = lerp(u, v, t);
            vec![
                (10, [p.0, p.1, u.0, u.1, m.0, m.1, 0.0]),
                (10, [v.0 - m.0, v.1 - m.1, r.0 - m.0, r.1 - m.1, c.0 - m.0, c.1 - m.1, 0.0]),
            ]
        }
        3 => {
            // a straight curve
            let (x, y) = (number(ch), number(ch));
            vec![(10, [x / 4.0, y / 4.0, x / 2.0, y / 2.0, x, y, 0.0])]
        }
        4 => {
            // quarters of a circle
            let r = number(ch);
            let all = kappa(r, 0.0, 0.0);
            let n = 1 + ch.below(4);
            all[..n].to_vec()
        }
        5 => {
            let (r, s) = (number(ch).abs() + 1.0, number(ch).abs() + 1.0);
            let (large, sweep) = (ch.below(2) as f64, ch.below(2) as f64);
            let turn = ch.one_of(&[0.0, 30.0, 45.0, 90.0, 120.0, 180.0, -60.0, 400.0]);
            vec![(18, [r, if ch.flag() { r } else { s }, turn, large, sweep, number(ch), number(ch)])]
        }
        6 => {
            // two arcs of one circle
            let r = number(ch).abs() + 0.5;
            let sweep = ch.below(2) as f64;
            let y = if sweep == 1.0 { -r } else { r };
            vec![(18, [r, r, 0.0, 0.0, sweep, r, y]), (18, [r, r, 0.0, 0.0, sweep, r, -y])]
        }
        7 => {
            let (a, c) = ((number(ch), number(ch)), (number(ch), number(ch)));
            vec![(14, [a.0, a.1, c.0, c.1, 0.0, 0.0, 0.0])]
        }
        _ => {
            let n = 15 + ch.below(2);
            vec![(n, [number(ch), number(ch), 0.0, 0.0, 0.0, 0.0, 0.0])]
        }
    }
}

const OPTIONS: [Options; 9] = [
    Options::CloseSegments,
    Options::JoinNodes,
    Options::RemoveEmptySegments,
    Options::RemoveNoopCommands,
    Options::RemoveCloseLine,
    Options::StraightCurves,
    Options::ArcCurves,
    Options::SmartArcRounding,
    Options::UniteSegments,
];

fn any<C: Chooser>(ch: &mut C, most: usize) {
    let number: fn(&mut C) -> f64 = match ch.below(3) {
        0 => |ch| ch.one_of(&[0.0, 1.0, 2.0, 3.0, 6.0, -4.0]),
        1 => |ch| ch.one_of(&[10.0, -10.0, 5.0, 7.5, -20.0]),
        _ => |ch| (ch.below(2001) as f64 - 1000.0) / 100.0,
    };
    let mut path = vec![];
    let at = |kind, args| Command { kind, implicit: false, args };
    for _ in 0..1 + ch.below(2) {
        path.push(at(0, [number(ch), number(ch), 0.0, 0.0, 0.0, 0.0, 0.0]));
        for _ in 0..ch.below(most) + 1 {
            for (kind, args) in piece(ch, number) {
                path.push(at(kind, args));
            }
        }
        if ch.flag() {
            path.push(at(2, [0.0; 7]));
        }
    }
    let mut options = Options::empty();
    for o in &OPTIONS[..8] {
        if ch.flag() {
            options |= *o;
        }
    }
    compare(ch, &path, options);
    ch.reached();
}

pub fn small<C: Chooser>(ch: &mut C) {
    any(ch, 1);
}

pub fn paths<C: Chooser>(ch: &mut C) {
    any(ch, 4);
}
