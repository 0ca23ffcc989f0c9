//! C35: shapes written as other elements.
use crate::c23::run;
use crate::tree::*;
use oxvg_optimiser::Jobs;
use serde_json::json;
use vc::Chooser;

/// An outline, as far as these elements have one.
#[derive(Debug, Clone, PartialEq)]
enum Outline {
    Nothing,
    /// Corners, and whether it is closed.
    Lines(Vec<(f64, f64)>, bool),
    /// Centre and radii.
    Ellipse(f64, f64, f64, f64),
    /// What the job has to leave as it is.
    Same(String),
}

const SHAPES: [&str; 6] = ["rect", "line", "polyline", "polygon", "circle", "ellipse"];
const GEOMETRY: [&str; 16] = ["x", "y", "width", "height", "x1", "y1", "x2", "y2", "points", "cx", "cy", "r", "rx", "ry", "d", "pathLength"];

fn px(text: Option<&str>) -> Option<f64> {
    match text {
        None => Some(0.0),
        Some(t) => t.strip_suffix("px").unwrap_or(t).parse().ok(),
    }
}

/// Numbers that may follow each other without space, as in `1-2.5.5`.
pub fn numbers(text: &str) -> Vec<f64> {
    let mut found: Vec<String> = vec![];
    let (mut inside, mut dot, mut before) = (false, false, ' ');
    for c in text.chars() {
        if matches!(c, ' ' | ',' | '\n') {
            inside = false;
        } else {
            if !inside || c == '-' && before != 'e' || c == '.' && dot {
                found.push(String::new());
                (inside, dot) = (true, false);
            }
            dot |= matches!(c, '.' | 'e');
            found.last_mut().unwrap().push(c);
        }
        before = c;
    }
    found.iter().map(|n| n.parse().expect("a number")).collect()
}

fn everything(e: &Element) -> String {
    let mut all: Vec<String> = e.attributes.iter().filter(|a| GEOMETRY.contains(&a.2.as_str())).map(|a| format!("{}={}", a.2, a.3)).collect();
    all.sort();
    format!("{} {}", e.name, all.join(" "))
}

/// The outline of a shape that has one in these units.
fn outline(e: &Element) -> Outline {
    let same = Outline::Same(everything(e));
    let at = |name: &str| px(e.get(name));
    match e.name.as_str() {
        "rect" => {
            let (Some(x), Some(y), Some(w), Some(h)) = (at("x"), at("y"), at("width"), at("height")) else { return same };
            if e.get("rx").is_some() || e.get("ry").is_some() {
                same
            } else if w <= 0.0 || h <= 0.0 {
                Outline::Nothing
            } else {
                Outline::Lines(vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)], true)
            }
        }
        "line" => match (at("x1"), at("y1"), at("x2"), at("y2")) {
            (Some(a), Some(b), Some(c), Some(d)) => Outline::Lines(vec![(a, b), (c, d)], false),
            _ => same,
        },
        "polyline" | "polygon" => {
            let n = numbers(e.get("points").unwrap_or(""));
            let points: Vec<(f64, f64)> = n.chunks_exact(2).map(|p| (p[0], p[1])).collect();
            if points.len() < 2 { Outline::Nothing } else { Outline::Lines(points, e.name == "polygon") }
        }
        "circle" => match (at("cx"), at("cy"), at("r")) {
            (Some(x), Some(y), Some(r)) if r > 0.0 => Outline::Ellipse(x, y, r, r),
            (Some(_), Some(_), Some(_)) => Outline::Nothing,
            _ => same,
        },
        "ellipse" => {
            let radius = |a: &str, b: &str| match (e.get(a), e.get(b)) {
                (None | Some("auto"), other) => if other == Some("auto") { Some(0.0) } else { px(other) },
                (own, _) => px(own),
            };
            match (at("cx"), at("cy"), radius("rx", "ry"), radius("ry", "rx")) {
                (Some(x), Some(y), Some(a), Some(b)) if a > 0.0 && b > 0.0 => Outline::Ellipse(x, y, a, b),
                (Some(_), Some(_), Some(_), Some(_)) => Outline::Nothing,
                _ => same,
            }
        }
        "path" => path(e.get("d").unwrap_or("")),
        _ => same,
    }
}

/// The outline of path data with lines only, or with two arcs.
fn path(text: &str) -> Outline {
    let mut corners: Vec<(f64, f64)> = vec![];
    let (mut closed, mut arcs) = (false, vec![]);
    let mut args: Vec<f64> = vec![];
    let starts: Vec<usize> = text.char_indices().filter(|(_, c)| c.is_ascii_alphabetic() && *c != 'e').map(|(i, _)| i).chain([text.len()]).collect();
    for part in starts.windows(2) {
        let part = &text[part[0]..part[1]];
        assert!(args.is_empty(), "commands have all their arguments");
        let command = part.chars().next().unwrap();
        if matches!(command, 'z' | 'Z') {
            closed = true;
        }
        for number in numbers(&part[1..]) {
            assert!(!closed, "nothing follows the end");
            args.push(number);
            let here = corners.last().copied().unwrap_or((0.0, 0.0));
            let (ox, oy) = if command.is_ascii_lowercase() { here } else { (0.0, 0.0) };
            let to = match (command.to_ascii_uppercase(), args.len()) {
                ('M' | 'L', 2) => (ox + args[0], oy + args[1]),
                ('H', 1) => (ox + args[0], here.1),
                ('V', 1) => (here.0, oy + args[0]),
                ('A', 7) => {
                    arcs.push((args[0], args[1], args[4]));
                    (ox + args[5], oy + args[6])
                }
                _ => continue,
            };
            corners.push(to);
            args.clear();
        }
    }
    if arcs.is_empty() {
        return if corners.is_empty() { Outline::Nothing } else { Outline::Lines(corners, closed) };
    }
    assert!(arcs.len() == 2 && corners.len() == 3 && closed && arcs[0] == arcs[1], "two halves of an ellipse");
    let (a, b) = (corners[0], corners[1]);
    assert!(near(a.0, corners[2].0) && near(a.1, corners[2].1), "the halves meet");
    let upright = near(a.0, b.0) && near((a.1 - b.1).abs() / 2.0, arcs[0].1);
    let level = near(a.1, b.1) && near((a.0 - b.0).abs() / 2.0, arcs[0].0);
    assert!(upright || level, "the halves are as far apart as the ellipse is wide");
    Outline::Ellipse((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0, arcs[0].0, arcs[0].1)
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() < 2e-3
}

fn agree(a: &Outline, b: &Outline) -> bool {
    match (a, b) {
        (Outline::Lines(a, x), Outline::Lines(b, y)) => {
            // a closed outline may also name its first corner again
            let b = if *x && b.len() == a.len() + 1 && b[0] == b[a.len()] { &b[..a.len()] } else { b };
            x == y && a.len() == b.len() && a.iter().zip(b).all(|(a, b)| near(a.0, b.0) && near(a.1, b.1))
        }
        (Outline::Ellipse(a, b, c, d), Outline::Ellipse(e, f, g, h)) => near(*a, *e) && near(*b, *f) && near(*c, *g) && near(*d, *h),
        _ => a == b,
    }
}

fn number<C: Chooser>(ch: &mut C) -> String {
    let n = match ch.below(3) {
        0 => ch.below(20) as f64,
        1 => (ch.below(4000) as f64 - 2000.0) / 8.0,
        _ => (ch.below(200_000) as f64 - 100_000.0) / 1000.0,
    };
    format!("{n}")
}

fn length<C: Chooser>(ch: &mut C) -> String {
    let n = number(ch);
    match ch.below(12) {
        0 => format!("{n}px"),
        1 => format!("{n}%"),
        2 => format!("{n}em"),
        _ => n,
    }
}

fn shape<C: Chooser>(ch: &mut C, text: &mut String, n: usize) {
    let name = ch.one_of(&SHAPES);
    text.push_str(&format!("<{name} id=\"s{n}\""));
    let attributes: &[&str] = match name {
        "rect" => &["x", "y", "width", "height"],
        "line" => &["x1", "y1", "x2", "y2"],
        "circle" => &["cx", "cy", "r"],
        "ellipse" => &["cx", "cy", "rx", "ry"],
        _ => &[],
    };
    let alike = length(ch);
    for a in attributes {
        if ch.below(6) > 0 {
            let mut value = length(ch);
            if matches!(*a, "width" | "height" | "r" | "rx" | "ry") {
                value = value.trim_start_matches('-').into();
            }
            if matches!(*a, "rx" | "ry") && ch.below(3) == 0 {
                value = alike.trim_start_matches('-').into();
            }
            if matches!(*a, "rx" | "ry") && ch.below(8) == 0 {
                value = "auto".into();
            }
            text.push_str(&format!(" {a}=\"{value}\""));
        }
    }
    if name == "rect" && ch.below(6) == 0 {
        text.push_str(ch.one_of(&[" rx=\"1\"", " ry=\"2\"", " rx=\"1\" ry=\"2\"", " rx=\"0\""]));
    }
    if attributes.is_empty() && ch.below(12) > 0 {
        let numbers: Vec<String> = (0..2 * ch.below(6)).map(|_| number(ch)).collect();
        text.push_str(&format!(" points=\"{}\"", numbers.join(ch.one_of(&[" ", ",", ", "]))));
    }
    if ch.below(4) == 0 {
        text.push_str(ch.one_of(&[" fill=\"red\"", " class=\"c\"", " transform=\"scale(2)\"", " data-a=\"x\"", " stroke=\"tan\""]));
    }
    if ch.below(6) == 0 {
        text.push_str(&format!("><title>t</title></{name}>"));
    } else {
        text.push_str("/>");
    }
}

fn other_attributes(e: &Element) -> Vec<String> {
    let mut result: Vec<String> = e.attributes.iter().filter(|a| !GEOMETRY.contains(&a.2.as_str())).map(|a| format!("{}={}", a.2, a.3)).collect();
    result.sort();
    result
}

pub fn documents<C: Chooser>(ch: &mut C) {
    let mut text = format!("<svg xmlns=\"{SVG}\">");
    let to_path = ch.flag();
    let mut styled = "";
    if to_path && ch.below(3) == 0 {
        styled = ch.one_of(&["rect", "line", "polyline", "polygon", "circle", "ellipse", "path", "g"]);
        let sheet = ch.one_of(&["", "svg>", "g ", ".c,", ".c "]);
        text.push_str(&format!("<style>{sheet}{styled}{{fill:red}}</style>"));
    }
    let n = 1 + ch.below(4);
    let group = ch.flag();
    text.push_str(if group { "<g fill=\"tan\">" } else { "" });
    for i in 0..n {
        shape(ch, &mut text, i);
    }
    text.push_str(if group { "</g></svg>" } else { "</svg>" });
    let arcs = ch.flag();
    let job = if to_path { json!({ "name": "convertShapeToPath", "params": { "convertArcs": arcs } }) } else { json!({ "name": "convertEllipseToCircle", "params": true }) };
    vc::note!(ch, "{job} on {text}");
    let (before, after) = run(&text, &Jobs::from_svgo_plugin_config(Some(vec![job])).expect("jobs"));
    vc::note!(ch, "gave {after}");
    let (mut before, mut after) = (read(&before), read(&after));
    let (before, after) = (root(&mut before), root(&mut after));
    let (mut was, mut is) = (vec![], vec![]);
    before.each(&mut |e| was.push(e.clone()));
    after.each(&mut |e| is.push(e.clone()));
    let shape = |e: &Element| e.get("id").is_some();
    let rest = |all: &[Element]| all.iter().filter(|e| !shape(e) && e.name != "title").map(|e| (e.name.clone(), other_attributes(e))).collect::<Vec<_>>();
    assert!(rest(&was) == rest(&is), "only shapes change");
    let mut kept = is.iter().filter(|e| shape(e)).peekable();
    for b in was.iter().filter(|e| shape(e)) {
        let expected = outline(b);
        let a = match kept.peek() {
            Some(a) if a.get("id") == b.get("id") => kept.next().unwrap(),
            _ => {
                assert!(expected == Outline::Nothing, "only shapes that draw nothing are removed");
                continue;
            }
        };
        assert!(other_attributes(a) == other_attributes(b), "other attributes stay");
        assert!(a.elements().count() == b.elements().count(), "what is in a shape stays");
        let leave = if to_path {
            styled == b.name || styled == "path" || !arcs && matches!(b.name.as_str(), "circle" | "ellipse")
        } else {
            b.name != "ellipse"
        };
        if leave {
            assert!(everything(a) == everything(b), "shapes that are not meant stay as they are");
        } else if let Outline::Same(same) = &expected {
            assert!(a.name == b.name && *same == everything(a) || matches!(outline(a), Outline::Same(_)) && circle_for(b, a), "shapes in other units stay as they are");
        } else {
            assert!(agree(&expected, &outline(a)), "the outline is the same");
        }
    }
    assert!(kept.next().is_none(), "no shape is new");
    ch.reached();
}

/// A circle in place of an ellipse in other units, which are the same across and along.
fn circle_for(ellipse: &Element, circle: &Element) -> bool {
    if ellipse.name != "ellipse" || circle.name != "circle" || ellipse.get("cx") != circle.get("cx") || ellipse.get("cy") != circle.get("cy") {
        return false;
    }
    let own = |n: &str| ellipse.get(n).filter(|v| *v != "auto");
    match (own("rx"), own("ry"), circle.get("r")) {
        (Some(a), Some(b), Some(r)) => a == b && a == r && !r.ends_with('%'),
        (Some(a), None, Some(r)) | (None, Some(a), Some(r)) => a == r && !r.ends_with('%'),
        (None, None, Some(r)) => px(Some(r)) == Some(0.0),
        _ => false,
    }
}
