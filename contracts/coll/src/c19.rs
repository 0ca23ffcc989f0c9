//! C19: transforms. The oracle is the affine map `x' = a x + c y + e, y' = b x + d y + f`,
//! computed with the wider type from the definitions of the SVG and CSS functions.
use lightningcss::properties::transform::{Matrix, Transform, TransformList};
use lightningcss::values::{
    angle::Angle,
    length::{LengthPercentage, LengthValue},
    percentage::{NumberOrPercentage, Percentage},
};
use oxvg_collections::attribute::transform::{Precision, SVGTransform, SVGTransformList};
use oxvg_parse::Parse;
use oxvg_serialize::{PrinterOptions, ToValue};
use vc::Chooser;

pub type Map = [f64; 6];
const IDENTITY: Map = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];

/// First `n`, then `m`.
fn compose(m: Map, n: Map) -> Map {
    [
        m[0] * n[0] + m[2] * n[1],
        m[1] * n[0] + m[3] * n[1],
        m[0] * n[2] + m[2] * n[3],
        m[1] * n[2] + m[3] * n[3],
        m[0] * n[4] + m[2] * n[5] + m[4],
        m[1] * n[4] + m[3] * n[5] + m[5],
    ]
}

fn translation(x: f64, y: f64) -> Map {
    [1.0, 0.0, 0.0, 1.0, x, y]
}

fn rotation(degrees: f64) -> Map {
    let (s, c) = degrees.to_radians().sin_cos();
    [c, s, -s, c, 0.0, 0.0]
}

fn of_matrix(m: &Matrix<f32>) -> Map {
    [m.a, m.b, m.c, m.d, m.e, m.f].map(f64::from)
}

/// The map an SVG transform function stands for.
fn of_svg(t: &SVGTransform) -> Option<Map> {
    Some(match t {
        SVGTransform::Matrix(m) => of_matrix(m),
        SVGTransform::Translate(x, y) => translation((*x).into(), (*y).into()),
        SVGTransform::Scale(x, y) => [(*x).into(), 0.0, 0.0, (*y).into(), 0.0, 0.0],
        SVGTransform::Rotate(a, x, y) => {
            let (x, y) = (f64::from(*x), f64::from(*y));
            compose(translation(x, y), compose(rotation((*a).into()), translation(-x, -y)))
        }
        SVGTransform::SkewX(a) => [1.0, 0.0, f64::from(*a).to_radians().tan(), 1.0, 0.0, 0.0],
        SVGTransform::SkewY(a) => [1.0, f64::from(*a).to_radians().tan(), 0.0, 1.0, 0.0, 0.0],
        SVGTransform::CssTransform(t) => of_css(t)?,
    })
}

fn degrees(a: &Angle) -> f64 {
    match a {
        Angle::Deg(v) => f64::from(*v),
        Angle::Rad(v) => f64::from(*v).to_degrees(),
        Angle::Grad(v) => f64::from(*v) * 0.9,
        Angle::Turn(v) => f64::from(*v) * 360.0,
    }
}

fn pixels(l: &LengthPercentage) -> Option<f64> {
    let LengthPercentage::Dimension(l) = l else { return None };
    Some(match l {
        LengthValue::Px(v) => f64::from(*v),
        LengthValue::In(v) => f64::from(*v) * 96.0,
        LengthValue::Cm(v) => f64::from(*v) * 96.0 / 2.54,
        LengthValue::Mm(v) => f64::from(*v) * 96.0 / 25.4,
        LengthValue::Pt(v) => f64::from(*v) * 96.0 / 72.0,
        LengthValue::Pc(v) => f64::from(*v) * 16.0,
        _ => return None,
    })
}

fn factor(n: &NumberOrPercentage) -> f64 {
    match n {
        NumberOrPercentage::Number(v) => f64::from(*v),
        NumberOrPercentage::Percentage(Percentage(v)) => f64::from(*v),
    }
}

/// The map a CSS transform function stands for, where it does not depend on a box.
fn of_css(t: &Transform) -> Option<Map> {
    Some(match t {
        Transform::Matrix(m) => of_matrix(m),
        Transform::Translate(x, y) => translation(pixels(x)?, pixels(y)?),
        Transform::TranslateX(x) => translation(pixels(x)?, 0.0),
        Transform::TranslateY(y) => translation(0.0, pixels(y)?),
        Transform::Scale(x, y) => [factor(x), 0.0, 0.0, factor(y), 0.0, 0.0],
        Transform::ScaleX(x) => [factor(x), 0.0, 0.0, 1.0, 0.0, 0.0],
        Transform::ScaleY(y) => [1.0, 0.0, 0.0, factor(y), 0.0, 0.0],
        Transform::Rotate(a) | Transform::RotateZ(a) => rotation(degrees(a)),
        Transform::SkewX(a) => [1.0, 0.0, degrees(a).to_radians().tan(), 1.0, 0.0, 0.0],
        Transform::SkewY(a) => [1.0, degrees(a).to_radians().tan(), 0.0, 1.0, 0.0, 0.0],
        Transform::Skew(x, y) => [1.0, degrees(y).to_radians().tan(), degrees(x).to_radians().tan(), 1.0, 0.0, 0.0],
        _ => return None,
    })
}

fn of_list(list: &[SVGTransform]) -> Option<Map> {
    let mut m = IDENTITY;
    for t in list {
        m = compose(m, of_svg(t)?);
    }
    Some(m)
}

/// Equal up to the rounding of single precision, which grows with the numbers met.
fn close(a: Map, b: Map, scale: f64) -> bool {
    (0..6).all(|i| (a[i] - b[i]).abs() <= scale)
}

/// The largest argument of the function: rotations are rounded relative to it.
fn reach(t: &SVGTransform) -> f64 {
    match t {
        SVGTransform::Rotate(a, x, y) => f64::from(a.abs() / 36.0).max(1.0) * f64::from(x.abs() + y.abs() + 1.0),
        _ => 1.0,
    }
}

/// Whether the function always has a matrix. Slants of negative angles are left alone
/// because they would be animated differently.
fn convertible(t: &SVGTransform) -> bool {
    !matches!(t, SVGTransform::SkewX(a) | SVGTransform::SkewY(a) if *a < 0.0)
}

fn size(m: Map) -> f64 {
    m.iter().fold(1.0, |s: f64, v| s.max(v.abs()))
}

const NUMBERS: [f32; 10] = [0.0, 1.0, -1.0, 0.5, 2.0, -3.5, 10.0, 100.0, 0.001, -0.25];
const ANGLES: [f32; 16] = [0.0, 90.0, -90.0, 180.0, -180.0, 270.0, 360.0, 45.0, 30.0, -60.0, 1.0, -0.5, 135.0, 200.0, 0.01, 720.0];

fn angle<C: Chooser>(ch: &mut C) -> f32 {
    ch.one_of(&ANGLES)
}

/// An angle whose tangent is finite.
fn slant<C: Chooser>(ch: &mut C) -> f32 {
    ch.one_of(&[0.0, 45.0, -45.0, 30.0, -60.0, 1.0, 80.0, 135.0, 180.0])
}

fn number<C: Chooser>(ch: &mut C) -> f32 {
    ch.one_of(&NUMBERS)
}

fn svg<C: Chooser>(ch: &mut C) -> SVGTransform {
    match ch.below(6) {
        0 => SVGTransform::Translate(number(ch), number(ch)),
        1 => SVGTransform::Scale(number(ch), number(ch)),
        2 => SVGTransform::Rotate(angle(ch), number(ch), number(ch)),
        3 => SVGTransform::SkewX(slant(ch)),
        4 => SVGTransform::SkewY(slant(ch)),
        _ => SVGTransform::Matrix(matrix(ch)),
    }
}

fn matrix<C: Chooser>(ch: &mut C) -> Matrix<f32> {
    let mut v = || ch.one_of(&[0.0, 1.0, -1.0, 0.5, 7.0]);
    Matrix { a: v(), b: v(), c: v(), d: v(), e: v(), f: v() }
}

fn matches(got: Option<Map>, expected: Map, scale: f64) -> bool {
    got.is_some_and(|m| close(m, expected, scale))
}

/// One function: its CSS form, its matrix and its way back describe the same map.
pub fn single<C: Chooser>(ch: &mut C) {
    let t = svg(ch);
    let expected = of_svg(&t).unwrap_or(IDENTITY);
    let scale = 2e-6 * size(expected) * reach(&t);
    vc::note!(ch, "{t:?}");

    let css: Transform = t.clone().into();
    vc::note!(ch, "as CSS {css:?}");
    assert!(matches(of_css(&css), expected, scale), "the CSS form describes the same map");
    let list = SVGTransformList(vec![t.clone()]);
    let m = list.to_matrix_2d();
    vc::note!(ch, "as matrix {m:?}, expected {expected:?}");
    assert!(m.is_some() || !convertible(&t), "the function has a matrix");
    if let Some(m) = m {
        assert!(close(of_matrix(&m), expected, scale), "the matrix describes the same map");
    }
    let back = SVGTransform::try_from(&css);
    vc::note!(ch, "and back {back:?}");
    assert!(back.is_ok_and(|b| matches(of_svg(&b), expected, scale)), "the way back describes the same map");
    ch.reached();
}

/// A list: its matrix is the product, last function first.
pub fn list<C: Chooser>(ch: &mut C) {
    let n = ch.below(5);
    let mut functions = vec![];
    let mut scale: f64 = 2e-6;
    let mut all = true;
    for _ in 0..n {
        let t = svg(ch);
        scale *= 3.0 * size(of_svg(&t).unwrap_or(IDENTITY)) * reach(&t);
        all &= convertible(&t);
        functions.push(t);
    }
    let expected = of_list(&functions).unwrap_or(IDENTITY);
    vc::note!(ch, "{functions:?}");
    let list = SVGTransformList(functions);
    let m = list.to_matrix_2d();
    vc::note!(ch, "as matrix {m:?}, expected {expected:?}");
    assert!(m.is_some() || !all, "the list has a matrix");
    if let Some(m) = m {
        assert!(close(of_matrix(&m), expected, scale), "the matrix of a list is the product in order");
    }

    let css: TransformList = list.clone().into();
    assert!(css.0.len() == list.0.len(), "one CSS function for each");
    let back = SVGTransformList::try_from(&css);
    assert!(back.is_ok_and(|b| b.0.len() == list.0.len() && matches(of_list(&b.0), expected, scale)), "and back the same map");
    ch.reached();
}

fn length<C: Chooser>(ch: &mut C) -> LengthPercentage {
    let v = number(ch);
    LengthPercentage::Dimension(match ch.below(4) {
        0 => LengthValue::Px(v),
        1 => LengthValue::In(v),
        2 => LengthValue::Mm(v),
        _ => LengthValue::Em(v),
    })
}

fn share<C: Chooser>(ch: &mut C) -> NumberOrPercentage {
    let v = number(ch);
    if ch.below(4) == 0 { NumberOrPercentage::Percentage(Percentage(v)) } else { NumberOrPercentage::Number(v) }
}

fn turn<C: Chooser>(ch: &mut C) -> Angle {
    let v = slant(ch);
    match ch.below(4) {
        0 => Angle::Deg(v),
        1 => Angle::Rad(v.to_radians()),
        2 => Angle::Grad(v / 0.9),
        _ => Angle::Turn(v / 360.0),
    }
}

/// A CSS function is either not convertible or converted to the same map.
pub fn from_css<C: Chooser>(ch: &mut C) {
    let css = match ch.below(12) {
        0 => Transform::Matrix(matrix(ch)),
        1 => Transform::Translate(length(ch), length(ch)),
        2 => Transform::TranslateX(length(ch)),
        3 => Transform::TranslateY(length(ch)),
        4 => Transform::Scale(share(ch), share(ch)),
        5 => Transform::ScaleX(share(ch)),
        6 => Transform::ScaleY(share(ch)),
        7 => Transform::Rotate(turn(ch)),
        8 => Transform::RotateZ(turn(ch)),
        9 => Transform::SkewX(turn(ch)),
        10 => Transform::SkewY(turn(ch)),
        _ => Transform::Skew(turn(ch), turn(ch)),
    };
    let got = SVGTransform::try_from(&css);
    let expected = of_css(&css);
    vc::note!(ch, "{css:?} converted to {got:?}, expected {expected:?}");
    if let Ok(got) = got {
        assert!(expected.is_some(), "a transform that depends on a box has no SVG form");
        let expected = expected.unwrap_or(IDENTITY);
        assert!(matches(of_svg(&got), expected, 3e-5 * size(expected)), "the SVG form describes the same map");
    }
    ch.reached();
}

const EXACT: Precision = Precision { float: 5, deg: 5, transform: 5 };

/// Recognising the functions a matrix is made of keeps the map.
pub fn recognise<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(3);
    let mut functions = vec![];
    for _ in 0..n {
        functions.push(match ch.below(7) {
            0 => SVGTransform::Translate(number(ch), number(ch)),
            1 => SVGTransform::Scale(ch.one_of(&[1.0, -1.0, 0.5, 2.0, -3.0]), ch.one_of(&[1.0, -1.0, 0.5, 2.0, -3.0])),
            2 => SVGTransform::Rotate(angle(ch), 0.0, 0.0),
            3 => SVGTransform::SkewX(slant(ch)),
            4 => SVGTransform::SkewY(slant(ch)),
            5 => SVGTransform::Rotate(angle(ch), number(ch), number(ch)),
            _ => SVGTransform::Matrix(matrix(ch)),
        });
    }
    let exact = of_list(&functions).unwrap_or(IDENTITY);
    let [a, b, c, d, e, f] = exact.map(|v| v as f32);
    let m = Matrix { a, b, c, d, e, f };
    let expected = of_matrix(&m);
    // flat up to rounding: the direction is lost
    let area = expected[0] * expected[3] - expected[1] * expected[2];
    ch.require(area == 0.0 || area.abs() >= 0.01);
    let got = SVGTransform::Matrix(m.clone()).matrix_to_transform(&EXACT);
    vc::note!(ch, "{m:?} recognised as {got:?}");
    let got = of_list(&got);
    vc::note!(ch, "which is {got:?}");
    // the arguments are kept to five places, angles near zero only to the square root of the precision
    let scale = 2e-3 * size(expected) * size(expected);
    assert!(matches(got, expected, scale), "the functions describe the map of the matrix");
    ch.reached();
}

fn same(a: f32, b: f32) -> bool {
    (a - b).abs() <= 1e-5 * a.abs().max(b.abs())
}

fn same_arguments(a: &SVGTransform, b: &SVGTransform) -> bool {
    match (a, b) {
        (SVGTransform::Matrix(a), SVGTransform::Matrix(b)) => {
            same(a.a, b.a) && same(a.b, b.b) && same(a.c, b.c) && same(a.d, b.d) && same(a.e, b.e) && same(a.f, b.f)
        }
        (SVGTransform::Translate(a, b), SVGTransform::Translate(c, d)) | (SVGTransform::Scale(a, b), SVGTransform::Scale(c, d)) => same(*a, *c) && same(*b, *d),
        (SVGTransform::Rotate(a, b, c), SVGTransform::Rotate(d, e, f)) => same(*a, *d) && same(*b, *e) && same(*c, *f),
        (SVGTransform::SkewX(a), SVGTransform::SkewX(b)) | (SVGTransform::SkewY(a), SVGTransform::SkewY(b)) => same(*a, *b),
        _ => false,
    }
}

/// Printing a list of functions and reading it again gives the same functions.
pub fn round_trip<C: Chooser>(ch: &mut C) {
    let n = ch.below(4);
    let mut functions = vec![];
    for _ in 0..n {
        functions.push(svg(ch));
    }
    let list = SVGTransformList(functions);
    let text = list.to_value_string(PrinterOptions::default()).unwrap_or_else(|_| "error".to_string());
    let back = SVGTransformList::parse_string(&text);
    vc::note!(ch, "{list:?} printed as {text:?} and read as {back:?}");
    assert!(
        back.is_ok_and(|b| b.0.len() == list.0.len() && b.0.iter().zip(&list.0).all(|(a, b)| same_arguments(a, b))),
        "printed functions are read back as the same functions"
    );
    ch.reached();
}

/// Texts in the notations of the SVG grammar denote the functions.
pub fn read<C: Chooser>(ch: &mut C) {
    let n = ch.below(4);
    let mut text = String::new();
    let mut expected = vec![];
    for i in 0..n {
        if i > 0 {
            text.push_str(ch.one_of(&["", " ", ",", " , "]));
        }
        let kind = ch.below(6);
        text.push_str(["translate", "scale", "rotate", "skewX", "skewY", "matrix"][kind]);
        text.push_str(ch.one_of(&["(", " (", "( "]));
        let count = match kind {
            0 | 1 => 1 + ch.below(2),
            2 => 1 + 2 * ch.below(2),
            3 | 4 => 1,
            _ => 6,
        };
        let mut arguments = vec![];
        for j in 0..count {
            if j > 0 {
                text.push_str(ch.one_of(&[" ", ",", ", "]));
            }
            let (written, value) = ch.one_of(&[("0", 0.0), ("1", 1.0), ("-2", -2.0), (".5", 0.5), ("+3e1", 30.0), ("-.25", -0.25)]);
            text.push_str(written);
            arguments.push(value);
        }
        text.push_str(ch.one_of(&[")", " )"]));
        let arg = |i: usize| arguments.get(i).copied();
        let a0 = arguments[0];
        expected.push(match kind {
            0 => SVGTransform::Translate(a0, arg(1).unwrap_or(0.0)),
            1 => SVGTransform::Scale(a0, arg(1).unwrap_or(a0)),
            2 => SVGTransform::Rotate(a0, arg(1).unwrap_or(0.0), arg(2).unwrap_or(0.0)),
            3 => SVGTransform::SkewX(a0),
            4 => SVGTransform::SkewY(a0),
            _ => SVGTransform::Matrix(Matrix { a: a0, b: arguments[1], c: arguments[2], d: arguments[3], e: arguments[4], f: arguments[5] }),
        });
    }
    let got = SVGTransformList::parse_string(&text);
    vc::note!(ch, "text {text:?} read as {got:?}");
    assert!(got.is_ok_and(|l| l.0 == expected), "the text denotes these functions");
    ch.reached();
}

/// Long lists are read too.
pub fn many<C: Chooser>(ch: &mut C) {
    let n = ch.one_of(&[0usize, 1, 100, 2047, 2048, 2049, 5000]);
    vc::note!(ch, "{n} times skewX(1)");
    let got = SVGTransformList::parse_string(vc::keep("skewX(1)".repeat(n)));
    assert!(got.is_ok_and(|l| l.0.len() == n), "as many functions as written");
    ch.reached();
}

/// Rounding moves each argument by at most one unit of the last place kept, and keeps the kind.
pub fn rounding<C: Chooser>(ch: &mut C) {
    let precision = Precision { float: ch.below(6) as i32, deg: ch.below(6) as i32, transform: ch.below(6) as i32 };
    let mut v = || ch.one_of(&[0.0, 1.0, -1.5, 0.12345, -0.99999, 12.3456, 100.005, 0.0004, -7.25, 33.3333]);
    let (a, b, c) = (v(), v(), v());
    let kind = ch.below(6);
    let t = match kind {
        0 => SVGTransform::Translate(a, b),
        1 => SVGTransform::Scale(a, b),
        2 => SVGTransform::Rotate(a, b, c),
        3 => SVGTransform::SkewX(a),
        4 => SVGTransform::SkewY(a),
        _ => SVGTransform::Matrix(Matrix { a, b, c, d: b, e: c, f: a }),
    };
    let mut r = t.clone();
    r.round(&precision);
    vc::note!(ch, "{t:?} rounded by {precision:?} to {r:?}");
    let near = |x: f32, y: f32, places: i32| {
        let (x, y) = (f64::from(x), f64::from(y));
        let unit = 0.1f64.powi(places);
        // a multiple of the unit, not a whole unit away
        let n = y / unit;
        (x - y).abs() <= unit * 1.01 + 1e-5 * x.abs() && (n - n.round()).abs() <= 1e-6 * n.abs() + 1e-3
    };
    let (f, d, m) = (precision.float, precision.deg, precision.transform);
    let ok = match (&t, &r) {
        (SVGTransform::Translate(a, b), SVGTransform::Translate(c, e)) => near(*a, *c, f) && near(*b, *e, f),
        (SVGTransform::Scale(a, b), SVGTransform::Scale(c, e)) => near(*a, *c, m) && near(*b, *e, m),
        (SVGTransform::Rotate(a, x, y), SVGTransform::Rotate(b, p, q)) => near(*a, *b, d) && near(*x, *p, f) && near(*y, *q, f),
        (SVGTransform::SkewX(a), SVGTransform::SkewX(b)) | (SVGTransform::SkewY(a), SVGTransform::SkewY(b)) => near(*a, *b, d),
        (SVGTransform::Matrix(a), SVGTransform::Matrix(b)) => {
            near(a.a, b.a, m) && near(a.b, b.b, m) && near(a.c, b.c, m) && near(a.d, b.d, m) && near(a.e, b.e, f) && near(a.f, b.f, f)
        }
        _ => false,
    };
    assert!(ok, "each argument is rounded to its precision");
    ch.reached();
}

/// Any number, infinities and NaN included.
fn any<C: Chooser>(ch: &mut C) -> f32 {
    f32::from_bits(ch.word() as u32)
}

fn bits(v: f32) -> u32 {
    v.to_bits()
}

fn is_px(l: &LengthPercentage, v: f32) -> bool {
    matches!(l, LengthPercentage::Dimension(LengthValue::Px(w)) if bits(*w) == bits(v))
}

fn is_number(n: &NumberOrPercentage, v: f32) -> bool {
    matches!(n, NumberOrPercentage::Number(w) if bits(*w) == bits(v))
}

/// The CSS form of the functions other than rotations has the same arguments, for all numbers.
pub fn css_arguments<C: Chooser>(ch: &mut C) {
    let (x, y) = (any(ch), any(ch));
    vc::note!(ch, "arguments {x:?} {y:?}");
    use std::mem::ManuallyDrop as Keep;
    let t = Keep::new(Transform::from(SVGTransform::Translate(x, y)));
    assert!(matches!(&*t, Transform::Translate(a, b) if is_px(a, x) && is_px(b, y)), "translate");
    let t = Keep::new(Transform::from(SVGTransform::Scale(x, y)));
    assert!(matches!(&*t, Transform::Scale(a, b) if is_number(a, x) && is_number(b, y)), "scale");
    let t = Keep::new(Transform::from(SVGTransform::SkewX(x)));
    assert!(matches!(&*t, Transform::SkewX(Angle::Deg(a)) if bits(*a) == bits(x)), "skewX");
    let t = Keep::new(Transform::from(SVGTransform::SkewY(x)));
    assert!(matches!(&*t, Transform::SkewY(Angle::Deg(a)) if bits(*a) == bits(x)), "skewY");
    let t = Keep::new(Transform::from(SVGTransform::Rotate(x, 0.0, 0.0)));
    assert!(matches!(&*t, Transform::Rotate(Angle::Deg(a)) if bits(*a) == bits(x)), "rotate");
    let (c, d, e, f) = (any(ch), any(ch), any(ch), any(ch));
    let t = Keep::new(Transform::from(SVGTransform::Matrix(Matrix { a: x, b: y, c, d, e, f })));
    let same = |m: &Matrix<f32>| {
        bits(m.a) == bits(x) && bits(m.b) == bits(y) && bits(m.c) == bits(c) && bits(m.d) == bits(d) && bits(m.e) == bits(e) && bits(m.f) == bits(f)
    };
    assert!(matches!(&*t, Transform::Matrix(m) if same(m)), "matrix");
    ch.reached();
}

/// The SVG form of the CSS functions, for all numbers.
pub fn svg_arguments<C: Chooser>(ch: &mut C) {
    let (x, y) = (any(ch), any(ch));
    vc::note!(ch, "arguments {x:?} {y:?}");
    use std::mem::ManuallyDrop as Keep;
    let px = |v: f32| LengthPercentage::Dimension(LengthValue::Px(v));
    let number = NumberOrPercentage::Number;
    let to_svg = |t: Transform| Keep::new(SVGTransform::try_from(&*Keep::new(t)));
    let same = |a: f32, b: f32| bits(a) == bits(b);
    let t = to_svg(Transform::Translate(px(x), px(y)));
    assert!(matches!(&*t, Ok(SVGTransform::Translate(a, b)) if same(*a, x) && same(*b, y)), "translate");
    let t = to_svg(Transform::TranslateX(px(x)));
    assert!(matches!(&*t, Ok(SVGTransform::Translate(a, b)) if same(*a, x) && *b == 0.0), "translateX");
    let t = to_svg(Transform::Scale(number(x), number(y)));
    assert!(matches!(&*t, Ok(SVGTransform::Scale(a, b)) if same(*a, x) && same(*b, y)), "scale");
    let t = to_svg(Transform::ScaleX(number(x)));
    assert!(matches!(&*t, Ok(SVGTransform::Scale(a, b)) if same(*a, x) && *b == 1.0), "scaleX");
    let t = to_svg(Transform::Rotate(Angle::Deg(x)));
    assert!(matches!(&*t, Ok(SVGTransform::Rotate(a, b, c)) if same(*a, x) && *b == 0.0 && *c == 0.0), "rotate");
    let t = to_svg(Transform::SkewX(Angle::Deg(x)));
    assert!(matches!(&*t, Ok(SVGTransform::SkewX(a)) if same(*a, x)), "skewX");
    let t = to_svg(Transform::SkewY(Angle::Deg(x)));
    assert!(matches!(&*t, Ok(SVGTransform::SkewY(a)) if same(*a, x)), "skewY");
    ch.reached();
}
