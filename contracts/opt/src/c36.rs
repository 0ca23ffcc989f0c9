//! C36: transforms written in another way.
use crate::c23::run;
use crate::c35::numbers;
use crate::tree::*;
use oxvg_optimiser::Jobs;
use serde_json::{Value, json};
use vc::Chooser;

type Map = [f64; 6];

fn times(a: Map, b: Map) -> Map {
    [
        a[0] * b[0] + a[2] * b[1],
        a[1] * b[0] + a[3] * b[1],
        a[0] * b[2] + a[2] * b[3],
        a[1] * b[2] + a[3] * b[3],
        a[0] * b[4] + a[2] * b[5] + a[4],
        a[1] * b[4] + a[3] * b[5] + a[5],
    ]
}

fn map(text: &str) -> Map {
    product(text, |n| n)
}

/// The product of the transforms, with every one of their entries changed first.
fn product(text: &str, entry: fn(f64) -> f64) -> Map {
    let mut result = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
    for part in text.split(')') {
        let Some((name, args)) = part.split_once('(') else {
            assert!(part.trim().is_empty(), "every transform has arguments");
            continue;
        };
        let n = numbers(args);
        let or = |i: usize, other: f64| n.get(i).copied().unwrap_or(other);
        let next = match name.trim() {
            "translate" => [1.0, 0.0, 0.0, 1.0, n[0], or(1, 0.0)],
            "scale" => [n[0], 0.0, 0.0, or(1, n[0]), 0.0, 0.0],
            "rotate" => {
                let (s, c) = n[0].to_radians().sin_cos();
                let (x, y) = (or(1, 0.0), or(2, 0.0));
                [c, s, -s, c, x - c * x + s * y, y - s * x - c * y]
            }
            "skewX" => [1.0, 0.0, n[0].to_radians().tan(), 1.0, 0.0, 0.0],
            "skewY" => [1.0, n[0].to_radians().tan(), 0.0, 1.0, 0.0, 0.0],
            "matrix" => [n[0], n[1], n[2], n[3], n[4], n[5]],
            other => panic!("unexpected transform {other}"),
        };
        result = times(result, next.map(entry));
    }
    result
}

/// How many decimals the entries of a matrix have.
fn decimals(matrix: &[f64]) -> i32 {
    let of = |n: &f64| (0..5).find(|d| (n * 10f64.powi(*d) - (n * 10f64.powi(*d)).round()).abs() < 1e-5 * 10f64.powi(*d)).unwrap_or(5);
    matrix.iter().map(of).max().unwrap_or(0)
}

/// How far the result may be off: numbers are rounded to as many decimals as matrices have, if they have any.
fn tolerance(text: &str, whole: &Map) -> f64 {
    let own = text.split(')').filter_map(|part| part.split_once("matrix(")).map(|(_, args)| decimals(&numbers(args)));
    let fewest = own.chain([decimals(whole)]).filter(|d| *d > 0).min().unwrap_or(5);
    2e-3 + if fewest < 5 { 2.0 * 10f64.powi(-fewest) } else { 0.0 }
}

fn number<C: Chooser>(ch: &mut C) -> f64 {
    match ch.below(4) {
        0 => 0.0,
        1 => ch.below(21) as f64 - 10.0,
        2 => (ch.below(81) as f64 - 40.0) / 4.0,
        _ => (ch.below(4001) as f64 - 2000.0) / 100.0,
    }
}

fn factor<C: Chooser>(ch: &mut C) -> f64 {
    ch.one_of(&[1.0, 2.0, -1.0, 0.5, 3.0, 1.25, -2.5])
}

fn angle<C: Chooser>(ch: &mut C) -> f64 {
    ch.one_of(&[0.0, 30.0, 45.0, 90.0, -45.0, 60.0, 180.0, 270.0, 12.5, -120.0])
}

fn transform<C: Chooser>(ch: &mut C) -> String {
    let mut text = String::new();
    if ch.below(8) == 0 {
        // turned about a point, in three steps
        let (x, y, a) = (number(ch), number(ch), angle(ch));
        return format!("translate({x} {y})rotate({a})translate({} {})", -x, -y);
    }
    for _ in 0..1 + ch.below(3) {
        text.push_str(&match ch.below(9) {
            0 => format!("translate({})", number(ch)),
            1 => format!("translate({} {})", number(ch), number(ch)),
            2 => format!("scale({})", factor(ch)),
            3 => format!("scale({},{})", factor(ch), factor(ch)),
            4 => format!("rotate({})", angle(ch)),
            5 => format!("rotate({} {} {})", angle(ch), number(ch), number(ch)),
            6 => format!("skewX({})", ch.one_of(&[0.0, 10.0, -30.0, 45.0])),
            7 => format!("skewY({})", ch.one_of(&[0.0, 20.0, -15.0, 45.0])),
            _ => {
                let (mut a, mut b, mut c, mut d) = (factor(ch), number(ch) / 10.0, number(ch) / 10.0, factor(ch));
                match ch.below(4) {
                    0 => (c, d) = (-b, a),
                    1 => (b, c) = (0.0, 0.0),
                    2 => (a, b, c, d) = (a.round(), b.round(), c.round(), d.round()),
                    _ => {}
                }
                if (a * d - b * c).abs() < 0.2 {
                    (a, b, c, d) = (1.0, 0.0, 0.0, 1.0);
                }
                format!("matrix({a} {b} {c} {d} {} {})", number(ch), number(ch))
            }
        });
        text.push_str(ch.one_of(&["", " "]));
    }
    text
}

pub fn transforms<C: Chooser>(ch: &mut C) {
    let text = transform(ch);
    let (element, name) = ch.one_of(&[("g", "transform"), ("rect", "transform"), ("linearGradient", "gradientTransform"), ("pattern", "patternTransform")]);
    let document = format!("<svg xmlns=\"{SVG}\"><{element} id=\"a\" {name}=\"{text}\"/></svg>");
    let mut params = json!({ "degPrecision": 4, "floatPrecision": 4 });
    for key in ["convertToShorts", "matrixToTransform", "shortRotate", "removeUseless", "collapseIntoOne"] {
        if ch.below(4) == 0 {
            params[key] = Value::from(ch.flag());
        }
    }
    vc::note!(ch, "{params} on {document}");
    let job = json!({ "name": "convertTransform", "params": params });
    let (before, after) = run(&document, &Jobs::from_svgo_plugin_config(Some(vec![job])).expect("jobs"));
    vc::note!(ch, "gave {after}");
    let place = |text: &str| {
        let mut document = read(text);
        let e = root(&mut document).elements().next().expect("the element").clone();
        assert!(e.name == element && e.get("id") == Some("a"), "the element stays");
        map(e.get(name).unwrap_or(""))
    };
    let (b, a) = (place(&before), place(&after));
    vc::note!(ch, "{b:?} is now {a:?}");
    // what is rounded off may be multiplied by as much as this, even where the products cancel out
    let size = product(&text, f64::abs).iter().fold(1.0, |m: f64, n| m.max(*n));
    let off = tolerance(&text, &b);
    for (b, a) in b.iter().zip(&a) {
        assert!((b - a).abs() < off * size, "the map is the same");
    }
    ch.reached();
}
