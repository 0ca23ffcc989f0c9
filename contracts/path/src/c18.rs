//! C18: points, rectangles, rounding.
use oxvg_path::geometry::{Point, Quadrant, Rectangle, Tolerance, TolerancePrecision};
use vc::Chooser;

fn eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn is(p: Point, x: f64, y: f64) -> bool {
    eq(p.x, x) && eq(p.y, y)
}

fn any<C: Chooser>(ch: &mut C) -> Point {
    Point::new(ch.finite(), ch.finite())
}

/// Constructors, conversions and coordinates.
pub fn making<C: Chooser>(ch: &mut C) {
    let (x, y, z) = (ch.float(), ch.float(), ch.float());
    vc::note!(ch, "{x:?} {y:?} {z:?}");
    let p = Point::new(x, y);
    assert!(is(p, x, y) && is(Point::splat(x), x, x), "coordinates are kept");
    assert!(is(p.with_x(z), z, y) && is(p.with_y(z), x, z), "replacing one coordinate keeps the other");
    assert!(is(Point::from((x, y)), x, y) && is(Point::from([x, y]), x, y), "conversion to a point");
    let (a, b): (f64, f64) = p.into();
    let [c, d]: [f64; 2] = p.into();
    assert!(eq(a, x) && eq(b, y) && eq(c, x) && eq(d, y), "conversion of a point");
    assert!(p.is_nan() == (x.is_nan() || y.is_nan()), "a point is no number if a coordinate is none");
    assert!(p.is_finite() == (x.is_finite() && y.is_finite()), "a point is finite if both coordinates are");
    assert!(is(p.map(|v| if eq(v, x) { z } else { v }), z, if eq(y, x) { z } else { y }), "mapping both coordinates");
    ch.reached();
}

/// Sums, differences, negation, choice.
pub fn sums<C: Chooser>(ch: &mut C) {
    let (p, q) = (any(ch), any(ch));
    vc::note!(ch, "{p:?} {q:?}");
    assert!(is(p + q, p.x + q.x, p.y + q.y), "sum");
    assert!(is(p - q, p.x - q.x, p.y - q.y), "difference");
    assert!(is(-p, -p.x, -p.y), "negative");
    let mut r = p;
    r += q;
    assert!(is(r, p.x + q.x, p.y + q.y), "sum in place");
    let mut r = p;
    r -= q;
    assert!(is(r, p.x - q.x, p.y - q.y), "difference in place");
    ch.reached();
}

/// Minimum, maximum, leftmost, rightmost, quadrant.
pub fn choices<C: Chooser>(ch: &mut C) {
    let (p, q) = (any(ch), any(ch));
    vc::note!(ch, "{p:?} {q:?}");
    let least = |a: f64, b: f64| if a < b { a } else { b };
    let most = |a: f64, b: f64| if a > b { a } else { b };
    assert!(is(p.min(q), least(p.x, q.x), least(p.y, q.y)), "smaller coordinates");
    assert!(is(p.max(q), most(p.x, q.x), most(p.y, q.y)), "greater coordinates");
    let l = p.leftmost(q);
    assert!((l == p || l == q) && l.x <= p.x && l.x <= q.x, "the left one of two points");
    let r = p.rightmost(q);
    assert!((r == p || r == q) && r.x >= p.x && r.x >= q.x, "the right one of two points");
    // on the same vertical the two choices never name one point twice
    assert!(p.x != q.x || (l == p && r == q), "both of two points are named");
    let quadrant = match (p.x >= 0.0, p.y >= 0.0) {
        (true, true) => Quadrant::A,
        (false, true) => Quadrant::B,
        (false, false) => Quadrant::C,
        (true, false) => Quadrant::D,
    };
    assert!(p.quadrant() == quadrant, "the quadrant of a point");
    ch.reached();
}

/// Multiples and fractions.
pub fn multiples<C: Chooser>(ch: &mut C) {
    let p = any(ch);
    let k = ch.finite();
    ch.require(k != 0.0);
    vc::note!(ch, "{p:?} {k:?}");
    assert!(is(p * k, p.x * k, p.y * k), "multiple");
    assert!(is(p / k, p.x / k, p.y / k), "fraction");
    let mut s = p;
    s *= k;
    assert!(is(s, p.x * k, p.y * k), "multiple in place");
    let mut s = p;
    s /= k;
    assert!(is(s, p.x / k, p.y / k), "fraction in place");
    assert!(eq(p.product(), p.x * p.y), "product of the coordinates");
    ch.reached();
}

/// Products and lengths.
pub fn products<C: Chooser>(ch: &mut C) {
    let (p, q, r) = (any(ch), any(ch), any(ch));
    vc::note!(ch, "{p:?} {q:?} {r:?}");
    let near = |a: f64, b: f64, scale: f64| eq(a, b) || (a - b).abs() <= 1e-12 * scale || !scale.is_finite();
    let size = |p: Point| p.x.abs() + p.y.abs();
    assert!(near(p.dot(q), p.x * q.x + p.y * q.y, size(p) * size(q)), "scalar product");
    assert!(is(p.dot_into(q), p.dot(q), p.dot(q)), "scalar product in both coordinates");
    assert!(near(p.len_squared(), p.x * p.x + p.y * p.y, size(p) * size(p)), "squared length");
    assert!(near(p.len(), p.x.hypot(p.y), size(p)) || !(size(p) * size(p)).is_normal(), "length");
    let (dx, dy) = (p.x - q.x, p.y - q.y);
    assert!(near(p.distance_squared(q), dx * dx + dy * dy, (dx.abs() + dy.abs()).powi(2)), "squared distance");
    assert!(near(p.distance(q), dx.hypot(dy), dx.abs() + dy.abs()) || !(dx * dx + dy * dy).is_normal(), "distance");
    let cross = (q.x - p.x) * (r.y - p.y) - (q.y - p.y) * (r.x - p.x);
    let sizes = (size(p) + size(q)) * (size(p) + size(r));
    assert!(near(p.cross(q, r), cross, sizes), "vector product around a point");
    assert!(is(p.reflect(q), 2.0 * q.x - p.x, 2.0 * q.y - p.y), "reflection");
    let m = p.midpoint(q);
    assert!(near(m.x, p.x / 2.0 + q.x / 2.0, p.x.abs() + q.x.abs()) || (p.x.abs() + q.x.abs()) < 1e-290, "the middle");
    assert!(near(m.y, p.y / 2.0 + q.y / 2.0, p.y.abs() + q.y.abs()) || (p.y.abs() + q.y.abs()) < 1e-290, "the middle");
    let t = ch.one_of(&[0.0, 0.25, 0.5, 1.0]);
    let l = p.lerp(q, t);
    let both = size(p) + size(q);
    assert!(near(l.x, p.x * (1.0 - t) + q.x * t, both) && near(l.y, p.y * (1.0 - t) + q.y * t, both), "a point between");
    let o = p.orth(q);
    assert!((is(o, -p.y, p.x) || is(o, p.y, -p.x)) && (o.dot(-q) >= 0.0 || o.dot(-q).is_nan()), "the orthogonal on the side away from a point");
    let tolerance = Tolerance::default();
    assert!(Point::is_parallel(p, q, r, &tolerance) == (p.cross(q, r).abs() < tolerance.positional), "points on a line");
    let between = (p - q).dot(q - r) >= 0.0;
    assert!(Point::is_continuous_parallel(p, q, r, &tolerance) == (Point::is_parallel(p, q, r, &tolerance) && between), "points on a line in order");
    ch.reached();
}

/// Reflection is its own inverse where nothing is rounded, and exact.
pub fn reflection<C: Chooser>(ch: &mut C) {
    let (p, q) = (any(ch), any(ch));
    vc::note!(ch, "{p:?} {q:?}");
    assert!(is(p.reflect(q), 2.0 * q.x - p.x, 2.0 * q.y - p.y), "reflection");
    ch.reached();
}

/// Angles and rotation.
pub fn angles<C: Chooser>(ch: &mut C) {
    let p = Point::new(ch.finite(), ch.finite());
    ch.require(p.x.abs() < 1e100 && p.y.abs() < 1e100 && p.len() > 1e-100);
    let turns = ch.below(9) as f64 - 4.0;
    vc::note!(ch, "{p:?} {turns}");
    assert!((p.angle_radians() - p.y.atan2(p.x)).abs() < 1e-12, "the angle of a point");
    assert!((p.angle() - p.y.atan2(p.x).to_degrees()).abs() < 1e-9, "the angle in degrees");
    let r = p.rotate(turns * 90.0);
    let (x, y) = match (turns as i32).rem_euclid(4) {
        0 => (p.x, p.y),
        1 => (-p.y, p.x),
        2 => (-p.x, -p.y),
        _ => (p.y, -p.x),
    };
    assert!(r.distance(Point::new(x, y)) <= 1e-9 * p.len(), "rotation by right angles");
    ch.reached();
}

/// Rounding to a number of decimal places.
pub fn rounding<C: Chooser>(ch: &mut C) {
    let digits = ch.below(12) as i32 - 2;
    let v = ch.finite();
    let w = ch.finite();
    ch.require(v.abs() < 1e9 && w.abs() < 1e9);
    let tolerance = Tolerance { precision: digits, ..Tolerance::default() };
    let precision = tolerance.precision();
    let scale = 10f64.powi(digits);
    vc::note!(ch, "{v:?} and {w:?} to {digits} places");
    assert!((precision.0 - scale).abs() <= 1e-12 * scale, "the scale of a precision");
    let r = precision.round(v);
    assert!((r - v).abs() <= 0.5 / scale * (1.0 + 1e-9) + v.abs() * 1e-15, "rounding moves by at most half a unit");
    let units = r * scale;
    assert!((units - units.round()).abs() <= 1e-6 * (1.0 + units.abs() * 1e-9), "a rounded number has no further places");
    assert!(v > w || r <= precision.round(w), "rounding keeps the order");
    assert!(precision.round(-v) == -r, "rounding is symmetric");
    assert!(precision.round(r) == r, "a rounded number stays");
    assert!(precision.scale(v) == (v * precision.0).round() && precision.descale(v) == v / precision.0, "scaling");
    assert!(tolerance.square().0 == tolerance.positional * tolerance.positional, "the square of the tolerance");
    ch.reached();
}

/// Rectangles: corners, intersection, containment, clamping.
pub fn rectangles<C: Chooser>(ch: &mut C) {
    let (a, b, c, d) = (any(ch), any(ch), any(ch), any(ch));
    let p = any(ch);
    vc::note!(ch, "{a:?} {b:?}; {c:?} {d:?}; {p:?}");
    let r = Rectangle::new(a, b);
    let (lo, hi) = (a.min(b), a.max(b));
    assert!(r.min() == lo.0 && r.max() == hi.0, "the corners of a rectangle");
    let s = Rectangle::new(c, d);
    let (lo2, hi2) = (c.min(d), c.max(d));
    let inside = |p: Point, lo: Point, hi: Point| lo.x <= p.x && p.x <= hi.x && lo.y <= p.y && p.y <= hi.y;
    assert!(r.contains(p) == inside(p, lo, hi), "containment of a point");
    let (x, y) = (lo.max(lo2), hi.min(hi2));
    let overlap = x.x <= y.x && x.y <= y.y;
    assert!(r.intersects(&s) == overlap && s.intersects(&r) == overlap, "whether rectangles overlap");
    match r.intersection(&s) {
        Some(i) => assert!(overlap && i.min() == x.0 && i.max() == y.0, "the common part"),
        None => assert!(!overlap, "the common part"),
    }
    let q = r.clamp(p);
    assert!(inside(q, lo, hi), "a clamped point is inside");
    assert!((q.x == p.x) == (lo.x <= p.x && p.x <= hi.x) && (q.y == p.y) == (lo.y <= p.y && p.y <= hi.y), "a coordinate inside stays");
    assert!((p.x >= lo.x || q.x == lo.x) && (p.x <= hi.x || q.x == hi.x), "a coordinate outside goes to the nearest side");
    assert!((p.y >= lo.y || q.y == lo.y) && (p.y <= hi.y || q.y == hi.y), "a coordinate outside goes to the nearest side");
    ch.reached();
}

/// Rectangles: size.
pub fn sizes<C: Chooser>(ch: &mut C) {
    let (a, b) = (any(ch), any(ch));
    vc::note!(ch, "{a:?} {b:?}");
    let r = Rectangle::new(a, b);
    let (lo, hi) = (r.min(), r.max());
    assert!(r.width() == hi.x - lo.x && r.height() == hi.y - lo.y, "the size of a rectangle");
    ch.reached();
}

/// The bounding rectangle of points.
pub fn bounding<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(4);
    let points: Vec<Point> = (0..n).map(|_| any(ch)).collect();
    vc::note!(ch, "{points:?}");
    let r = Rectangle::from_points(points.iter());
    let r2 = Rectangle::from_coords(points.iter().map(|p| &p.0));
    assert!(r == r2, "the same rectangle of the same points");
    assert!(points.iter().all(|p| r.contains(*p)), "all points are inside");
    assert!(points.iter().any(|p| p.x == r.min().x) && points.iter().any(|p| p.x == r.max().x), "each side has a point");
    assert!(points.iter().any(|p| p.y == r.min().y) && points.iter().any(|p| p.y == r.max().y), "each side has a point");
    ch.reached();
}

/// Rounding one number in the symbolic layer: whole numbers stay.
pub fn rounding_whole<C: Chooser>(ch: &mut C) {
    let v = ch.finite();
    let p = TolerancePrecision(1.0);
    let r = p.round(v);
    assert!((r - v).abs() <= 0.5, "rounding moves by at most half a unit");
    assert!(p.round(r) == r, "a rounded number stays");
    ch.reached();
}
