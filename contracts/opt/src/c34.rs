//! C34: attributes that move between groups and what is in them.
use crate::c23::run;
use crate::tree::*;
use oxvg_optimiser::Jobs;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use vc::Chooser;

const INHERITED: [&str; 5] = ["fill", "stroke", "stroke-width", "fill-rule", "color"];
const EFFECTS: [&str; 4] = ["opacity", "clip-path", "mask", "filter"];

type Map = [f64; 6];

fn times(a: Map, b: Map) -> Map {
    [
        a[0] * b[0] + a[2] * b[1],
        a[1] * b[0] + a[3] * b[1],
        a[0] * b[2] + a[2] * b[3],
        a[1] * b[2] + a[3] * b[3],
        a[0] * b[4] + a[2] * b[5] + a[4],
        a[1] * b[4] + a[3] * b[5] + a[5],
    ]
}

fn numbers(text: &str) -> Vec<f64> {
    let bare = |n: &str| n.trim_end_matches("px").trim_end_matches("deg").parse().expect("a number");
    text.split([' ', ',']).filter(|n| !n.is_empty()).map(bare).collect()
}

/// What a `transform` attribute stands for.
fn map(text: &str) -> Map {
    let mut result = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
    for part in text.split(')') {
        let Some((name, args)) = part.split_once('(') else { continue };
        let n = numbers(args);
        let next = match name.trim().trim_start_matches(',').trim() {
            "translate" => [1.0, 0.0, 0.0, 1.0, n[0], n.get(1).copied().unwrap_or(0.0)],
            "scale" => [n[0], 0.0, 0.0, n.get(1).copied().unwrap_or(n[0]), 0.0, 0.0],
            "rotate" => {
                let (s, c) = n[0].to_radians().sin_cos();
                [c, s, -s, c, 0.0, 0.0]
            }
            "matrix" => [n[0], n[1], n[2], n[3], n[4], n[5]],
            other => panic!("unexpected transform {other}"),
        };
        result = times(result, next);
    }
    result
}

/// The value an element has of its own, the `style` attribute first.
fn own(e: &Element, name: &str) -> Option<String> {
    let mut found: Option<(bool, String)> = None;
    for declaration in e.get("style").unwrap_or("").split(';') {
        let Some((n, v)) = declaration.split_once(':') else { continue };
        let (v, important) = v.split_once('!').map_or((v, false), |(v, _)| (v, true));
        if n.trim() == name && !(found.as_ref().is_some_and(|f| f.0) && !important) {
            found = Some((important, v.trim().to_string()));
        }
    }
    found.map(|f| f.1).or_else(|| e.get(name).map(String::from))
}

/// A value however it is written.
fn value(text: &str) -> String {
    let text = text.replace(['"', '\''], "");
    let text = text.strip_suffix("px").unwrap_or(&text).to_string();
    match text.as_str() {
        "#f00" => "red".into(),
        _ => text.parse::<f64>().map_or(text.clone(), |n| n.to_string()),
    }
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Shape {
    name: String,
    /// Attributes of the element that are no styles.
    attributes: Vec<String>,
    styles: BTreeMap<&'static str, String>,
    /// Classes of the element and of all it is in.
    classes: BTreeSet<String>,
    place: Map,
    /// Clips, masks and filters, from the outside in, where they are, and how many shapes they cover from which on.
    effects: Vec<(&'static str, String, Map, usize, usize)>,
    /// How opaque each group of shapes is.
    opacity: Vec<(usize, usize, f64)>,
}

/// What is drawn, and what each id stands for.
#[derive(Debug, Default)]
pub struct Drawn {
    shapes: Vec<Shape>,
    /// What is drawn while an attribute is animated.
    animated: Vec<Shape>,
    /// What drawing the element with an id elsewhere gives.
    ids: BTreeMap<String, Vec<Shape>>,
}

fn count(e: &Element) -> usize {
    match e.name.as_str() {
        "switch" => e.elements().next().map_or(0, count),
        _ if is_group(e) => e.elements().map(count).sum(),
        _ => 1,
    }
}

fn is_group(e: &Element) -> bool {
    matches!(e.name.as_str(), "g" | "svg" | "switch" | "a")
}

fn top() -> Shape {
    Shape { place: map(""), ..Shape::default() }
}

fn uses(e: &Element, ids: &mut BTreeMap<String, Vec<Shape>>) {
    if let Some(id) = e.get("id") {
        let mut alone = Drawn::default();
        draw(e, &top(), &mut alone);
        ids.insert(id.into(), alone.shapes);
    }
    e.elements().for_each(|c| uses(c, ids));
}

fn draw(e: &Element, outer: &Shape, drawn: &mut Drawn) {
    let mut at = outer.clone();
    let at_origin = own(e, "transform-origin").map_or(vec![0.0, 0.0], |o| numbers(&o));
    let (x, y) = (at_origin[0], at_origin[1]);
    at.place = times(at.place, [1.0, 0.0, 0.0, 1.0, x, y]);
    at.place = times(at.place, map(&own(e, "transform").unwrap_or_default()));
    at.place = times(at.place, [1.0, 0.0, 0.0, 1.0, -x, -y]);
    for name in INHERITED {
        match own(e, name).as_deref() {
            None | Some("inherit") => {}
            Some(v) => {
                at.styles.insert(name, value(v));
            }
        }
    }
    at.classes.extend(e.get("class").map(String::from));
    let (from, covers) = (drawn.shapes.len(), count(e));
    if covers > 0 {
        for name in EFFECTS {
            match own(e, name).as_deref() {
                None | Some("none" | "inherit") => {}
                Some(v) if name == "opacity" => {
                    let v: f64 = v.parse().expect("a number");
                    match at.opacity.iter_mut().find(|o| (o.0, o.1) == (from, covers)) {
                        Some(o) => o.2 *= v,
                        None => at.opacity.push((from, covers, v)),
                    }
                }
                Some(v) => at.effects.push((name, value(v), at.place, from, covers)),
            }
        }
    }
    if is_group(e) {
        for c in e.elements().take(if e.is("switch") { 1 } else { usize::MAX }) {
            draw(c, &at, drawn);
        }
    } else {
        at.name = e.name.clone();
        at.attributes = e.attributes.iter().filter(|a| matches!(a.2.as_str(), "x" | "d" | "r" | "points" | "width")).map(|a| format!("{}={}", a.2, a.3)).collect();
        at.attributes.sort();
        for animated in e.elements().filter_map(|c| c.get("attributeName")) {
            let mut during = e.clone();
            during.children.clear();
            during.name = format!("{} with animated {animated}", e.name);
            during.attributes.retain(|a| a.2 != animated);
            let value = if animated == "opacity" { "1" } else { "animated" };
            let style = format!("{};{animated}:{value}!important", e.get("style").unwrap_or(""));
            during.attributes.retain(|a| a.2 != "style");
            during.attributes.push((String::new(), String::new(), "style".into(), style));
            let mut moment = Drawn { shapes: drawn.shapes.clone(), ..Drawn::default() };
            draw(&during, outer, &mut moment);
            drawn.animated.extend(moment.shapes.pop());
        }
        drawn.shapes.push(at);
    }
}

pub fn drawn(text: &str) -> Drawn {
    let mut drawn_ = Drawn::default();
    let mut document = read(text);
    let document = root(&mut document);
    draw(document, &top(), &mut drawn_);
    uses(document, &mut drawn_.ids);
    drawn_
}

fn near(a: Map, b: Map) -> bool {
    a.iter().zip(&b).all(|(a, b)| (a - b).abs() < 1e-3 * (1.0 + a.abs()))
}

fn named<C: Chooser>(ch: &mut C, text: &mut String, group: bool, ids: &mut Vec<&'static str>) {
    if ch.below(6) == 0 {
        // no id: an existing test wants ids to move where classes do not
        if group && ch.below(4) == 0 {
            text.push_str(" class=\"d\"");
        } else if let Some(id) = ids.pop() {
            text.push_str(&format!(" id=\"{id}\""));
        }
    } else if group && ch.below(8) == 0 {
        text.push_str(ch.one_of(&[" class=\"c\"", " data-a=\"1\"", " data-a=\"2\"", " overflow=\"hidden\"", " stop-color=\"red\"", " vector-effect=\"none\""]));
    }
}

fn attributes<C: Chooser>(ch: &mut C, text: &mut String, group: bool, ids: &mut Vec<&'static str>) {
    let mut styles = String::new();
    let early = ch.flag();
    if early {
        named(ch, text, group, ids);
    }
    let put = |ch: &mut C, text: &mut String, styles: &mut String, name: &str, value: &str| match ch.below(6) {
        0 => styles.push_str(&format!("{name}:{value};")),
        1 if ch.below(4) == 0 => styles.push_str(&format!("{name}:{value}!important;")),
        _ => text.push_str(&format!(" {name}=\"{value}\"")),
    };
    for (name, values) in [
        ("fill", &["red", "tan", "gold", "inherit", "url(#p)"] as &[&str]),
        ("stroke", &["red", "none", "tan"]),
        ("stroke-width", &["2", "3"]),
        ("fill-rule", &["evenodd", "nonzero"]),
        ("opacity", &[".5", ".25"]),
    ] {
        if ch.below(4) == 0 {
            let value = ch.one_of(values);
            put(ch, text, &mut styles, name, value);
            if ch.below(6) == 0 {
                let value = ch.one_of(values);
                let important = ch.one_of(&["", "!important"]);
                styles.push_str(&format!("{name}:{value}{important};"));
            }
        }
    }
    if ch.below(3) == 0 {
        let t = ch.one_of(&["translate(3)", "translate(1 2)", "scale(2)", "rotate(90)", "matrix(1 0 0 2 5 6)", "scale(2 3)translate(4 5)"]);
        text.push_str(&format!(" transform=\"{t}\""));
    }
    if ch.below(12) == 0 {
        let t = ch.one_of(&["translate(3px)", "translate(1px,2px)", "scale(2)", "rotate(90deg)", "matrix(1,0,0,2,5,6)"]);
        styles.push_str(&format!("transform:{t};"));
    }
    if ch.below(12) == 0 {
        match ch.below(2) {
            0 => text.push_str(" transform-origin=\"5px 6px\""),
            _ => styles.push_str("transform-origin:7px 8px;"),
        }
    }
    for effect in &EFFECTS[1..] {
        if ch.below(12) == 0 {
            let value = ch.one_of(&["url(#e)", "url(#f)", "none"]);
            put(ch, text, &mut styles, effect, value);
        }
    }
    if !early {
        named(ch, text, group, ids);
    }
    if !styles.is_empty() {
        text.push_str(&format!(" style=\"{styles}\""));
    }
}

fn content<C: Chooser>(ch: &mut C, text: &mut String, depth: usize, left: &mut usize, ids: &mut Vec<&'static str>) {
    for _ in 0..1 + ch.below(3) {
        if *left == 0 {
            return;
        }
        *left -= 1;
        if depth > 0 && ch.flag() {
            let name = ch.one_of(&["g", "g", "g", "g", "g", "g", "switch", "a"]);
            text.push_str(&format!("<{name}"));
            attributes(ch, text, true, ids);
            text.push('>');
            if ch.below(8) > 0 {
                content(ch, text, depth - 1, left, ids);
            }
            text.push_str(&format!("</{name}>"));
        } else {
            let shape = ch.one_of(&["path d=\"M0 0h9v9\"", "path d=\"M1 1h2v9z\"", "rect x=\"1\"", "circle r=\"3\"", "use x=\"2\" href=\"#z\"", "image width=\"7\"", "text x=\"2\"", "polygon points=\"0 0 5 5 9 0\""]);
            text.push('<');
            text.push_str(shape);
            attributes(ch, text, false, ids);
            match ch.below(16) {
                0 => text.push_str("><animate attributeName=\"fill\" to=\"red\"/></"),
                1 => text.push_str("><animate attributeName=\"opacity\" to=\"1\"/></"),
                _ => {
                    text.push_str("/>");
                    continue;
                }
            }
            text.push_str(shape.split(' ').next().unwrap());
            text.push('>');
        }
    }
}

const JOBS: [&str; 5] = ["moveElemsAttrsToGroup", "moveGroupAttrsToElems", "collapseGroups", "removeNonInheritableGroupAttrs", "convertStyleToAttrs"];

fn same<C: Chooser>(ch: &mut C, before: &[Shape], after: &[Shape]) {
    assert!(before.len() == after.len(), "as many shapes as before");
    for (b, a) in before.iter().zip(after) {
        assert!(b.name == a.name && b.attributes == a.attributes, "the shapes are the same, in the same order");
        vc::note!(ch, "{b:?} is now {a:?}");
        assert!(b.classes == a.classes, "a shape has the same classes around it");
        assert!(b.styles == a.styles, "a shape has the same styles");
        assert!(near(b.place, a.place), "a shape is in the same place");
        assert!(b.opacity.len() == a.opacity.len(), "as opaque");
        let sorted = |s: &Shape| {
            let mut o = s.opacity.clone();
            o.sort_by(|a, b| a.partial_cmp(b).unwrap());
            o
        };
        for (b, a) in sorted(b).iter().zip(&sorted(a)) {
            assert!((b.0, b.1) == (a.0, a.1) && (b.2 - a.2).abs() < 1e-6, "as opaque, together with the same shapes");
        }
        assert!(b.effects.len() == a.effects.len(), "the same effects");
        for (b, a) in b.effects.iter().zip(&a.effects) {
            assert!(b.0 == a.0 && b.1 == a.1 && (b.3, b.4) == (a.3, a.4) && near(b.2, a.2), "the same effects, in the same place and on the same shapes");
        }
    }
}

fn one<C: Chooser>(ch: &mut C, elements: usize, jobs: usize) {
    let mut text = format!("<svg xmlns=\"{SVG}\">");
    let mut left = 1 + ch.below(elements);
    let mut ids = vec!["a", "b", "c", "d"];
    content(ch, &mut text, 3, &mut left, &mut ids);
    text.push_str("</svg>");
    let names: Vec<&str> = (0..1 + ch.below(jobs)).map(|_| ch.one_of(&JOBS)).collect();
    vc::note!(ch, "{names:?} on {text}");
    let plugins = names.iter().map(|n| json!({ "name": n, "params": if *n == "convertStyleToAttrs" { json!({}) } else { json!(true) } })).collect();
    let (before, after) = run(&text, &Jobs::from_svgo_plugin_config(Some(plugins)).expect("jobs"));
    vc::note!(ch, "from {before}");
    vc::note!(ch, "gave {after}");
    let (before, after) = (drawn(&before), drawn(&after));
    same(ch, &before.shapes, &after.shapes);
    same(ch, &before.animated, &after.animated);
    assert!(before.ids.keys().eq(after.ids.keys()), "no id is lost");
    for (id, before) in &before.ids {
        vc::note!(ch, "using {id}");
        same(ch, before, &after.ids[id]);
    }
    ch.reached();
}

pub fn small<C: Chooser>(ch: &mut C) {
    one(ch, 4, 1);
}

pub fn documents<C: Chooser>(ch: &mut C) {
    one(ch, 12, 3);
}
