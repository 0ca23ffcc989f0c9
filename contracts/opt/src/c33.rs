//! C33: removal jobs remove what they name and nothing else.
use crate::c23::run;
use crate::tree::*;
use oxvg_optimiser::Jobs;
use serde_json::{Value, json};
use vc::Chooser;

/// The namespaces of editors, as in the documentation of the job it was ported from.
const EDITORS: [&str; 22] = [
    "http://creativecommons.org/ns#",
    "http://inkscape.sourceforge.net/DTD/sodipodi-0.dtd",
    "http://ns.adobe.com/AdobeIllustrator/10.0/",
    "http://ns.adobe.com/AdobeSVGViewerExtensions/3.0/",
    "http://ns.adobe.com/Extensibility/1.0/",
    "http://ns.adobe.com/Flows/1.0/",
    "http://ns.adobe.com/GenericCustomNamespace/1.0/",
    "http://ns.adobe.com/Graphs/1.0/",
    "http://ns.adobe.com/ImageReplacement/1.0/",
    "http://ns.adobe.com/SaveForWeb/1.0/",
    "http://ns.adobe.com/Variables/1.0/",
    "http://ns.adobe.com/XPath/1.0/",
    "http://purl.org/dc/elements/1.1/",
    "http://schemas.microsoft.com/visio/2003/SVGExtensions/",
    "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd",
    "http://taptrix.com/vectorillustrator/svg_extensions",
    "http://www.bohemiancoding.com/sketch/ns",
    "http://www.figma.com/figma/ns",
    "http://www.inkscape.org/namespaces/inkscape",
    "http://www.serif.com/",
    "http://www.vector.evaxdesign.sk",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
];
const OWN: &str = "urn:own";
const HEAD: &str = "xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" xmlns:inkscape=\"http://www.inkscape.org/namespaces/inkscape\" xmlns:so=\"http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd\" xmlns:own=\"urn:own\"";

const ELEMENTS: [&str; 31] = [
    "g", "g", "g", "rect", "circle", "defs", "text", "tspan", "tref", "title", "desc", "metadata", "script", "style", "a", "a", "image", "use", "pattern",
    "mask", "switch", "symbol", "clipPath", "marker", "inkscape:layer", "so:namedview", "own:thing", "svg", "linearGradient", "foreignObject", "ed:thing",
];
const ATTRIBUTES: [&str; 48] = [
    "id=\"a\"", "id=\"b\"", "id=\"c\"", "id=\"\"", "class=\"x\"", "class=\"y x\"", "class=\"z\"", "class=\"\"", "fill=\"\"", "fill=\"red\"", "fill=\"currentColor\"",
    "fill=\"none\"", "stroke=\"currentColor\"", "stroke=\"red\"", "stroke=\"\"", "onclick=\"f()\"", "onload=\"\"", "onfocus=\"f()\"", "onmouseover=\"f()\"",
    "requiredFeatures=\"\"", "requiredExtensions=\"\"", "systemLanguage=\"\"", "systemLanguage=\"de\"", "xlink:href=\"a.png\"", "xlink:href=\"#a\"",
    "xlink:href=\"data:image/jpeg;base64,x\"", "xlink:href=\"b.svg\"", "xlink:href=\"x.gif?q\"", "href=\"javascript:f()\"", "xlink:href=\" javascript:f()\"",
    "href=\"#b\"", "href=\"a.jpg\"", "inkscape:label=\"l\"", "so:type=\"t\"", "own:data=\"d\"", "own:empty=\"\"", "filter=\"url(#a)\"", "width=\"10\"", "height=\"20\"",
    "width=\"50%\"", "viewBox=\"0 0 10 20\"", "data-a=\"1\"", "data-b=\"\"", "opacity=\"0.5\"", "clip-path=\"url(#a)\"", "xml:lang=\"en\"", "ed:data=\"e\"",
    "style=\"filter:url(#a)\"",
];
const TEXTS: [&str; 9] = ["t", " ", "Created with x", "Created using y", "not Created with", "\n  ", "é", "a b", "x"];
const COMMENTS: [&str; 5] = ["c", "!kept", " !c", "license", ""];

fn attributes<C: Chooser>(ch: &mut C, text: &mut String, skip: &[&str]) {
    let mut seen: Vec<&str> = skip.to_vec();
    for _ in 0..ch.below(4) {
        let a = ch.one_of(&ATTRIBUTES);
        let name = a.split_once('=').unwrap().0;
        if !seen.contains(&name) {
            seen.push(name);
            text.push(' ');
            text.push_str(a);
        }
    }
}

/// Attributes, now and then those of a size.
fn sized<C: Chooser>(ch: &mut C, text: &mut String, can: bool, skip: &[&str]) {
    if !can || ch.below(4) > 0 {
        return attributes(ch, text, skip);
    }
    let width = ch.one_of(&["10", "10", "10px", "10%", "20"]);
    let height = ch.one_of(&["20", "20", "20px", "20%", "10"]);
    text.push_str(&format!(" width=\"{width}\" height=\"{height}\""));
    if ch.below(4) > 0 {
        let view = ch.one_of(&["0 0 10 20", "0 0 10 20", "0 0 10 10", "0 0 20 20", "1 0 10 20", "0 1 10 20"]);
        text.push_str(&format!(" viewBox=\"{view}\""));
    }
}

fn content<C: Chooser>(ch: &mut C, text: &mut String, depth: usize, most: usize, left: &mut usize) {
    for _ in 0..ch.below(most) {
        match ch.below(8) {
            0 => text.push_str(ch.one_of(&TEXTS)),
            1 => text.push_str(&format!("<!--{}-->", ch.one_of(&COMMENTS))),
            2 if ch.below(3) == 0 => text.push_str(ch.one_of(&["<?pi x?>", "<?php y?>"])),
            _ if *left > 0 => {
                *left -= 1;
                let name = ch.one_of(&ELEMENTS);
                text.push('<');
                text.push_str(name);
                sized(ch, text, matches!(name, "svg" | "pattern" | "symbol" | "rect" | "g"), &[]);
                text.push('>');
                match name {
                    "style" | "script" => text.push_str(ch.one_of(&["", "", "x{fill:red}", ".x{filter:url(#a)}"])),
                    "title" | "desc" if ch.below(3) > 0 => text.push_str(ch.one_of(&TEXTS)),
                    _ if depth > 0 => content(ch, text, depth - 1, 4, left),
                    _ => {}
                }
                text.push_str(&format!("</{name}>"));
            }
            _ => {}
        }
    }
}

pub fn source<C: Chooser>(ch: &mut C) -> String {
    let mut text = String::new();
    if ch.flag() {
        text.push_str("<!--before--><?pi a?>");
    }
    let editor = if ch.flag() { ch.one_of(&EDITORS) } else { ch.one_of(&["urn:other", "http://www.inkscape.org/", "http://ns.adobe.com/Flows/1.0"]) };
    text.push_str(&format!("<svg {HEAD} xmlns:ed=\"{editor}\""));
    sized(ch, &mut text, true, &["id", "class"]);
    text.push_str(ch.one_of(&["", " class=\"w\"", " class=\"n w\""]));
    text.push('>');
    let mut left = 12;
    content(ch, &mut text, 3, 6, &mut left);
    text.push_str("</svg>");
    if ch.flag() {
        text.push_str("<!--!after-->");
    }
    text
}

type Expect = Box<dyn Fn(&mut Vec<Tree>)>;

fn all(f: impl Fn(&mut Element) + 'static) -> Expect {
    Box::new(move |d| root(d).each(&mut |e| f(e)))
}

/// Drops elements, also at the top.
fn elements(f: impl Fn(&Element) -> bool + 'static) -> Expect {
    Box::new(move |d| {
        d.retain(|t| !matches!(t, Tree::Element(e) if f(e)));
        if d.iter().any(|t| matches!(t, Tree::Element(_))) {
            root(d).drop_if(&mut |_, t| matches!(t, Tree::Element(e) if f(e)));
        }
    })
}

fn event(name: &str) -> bool {
    matches!(name, "onclick" | "onload" | "onfocus" | "onmouseover")
}

fn raster(href: &str) -> bool {
    ["jpg", "jpeg", "png", "gif"].iter().any(|x| href.contains(&format!(".{x}")) || href.contains(&format!("image/{x}")) || href.starts_with(x))
}

/// Takes links that run scripts out of the tree, leaving their elements.
fn unlink(children: &mut Vec<Tree>) {
    let mut result = vec![];
    for mut c in children.drain(..) {
        if let Tree::Element(e) = &mut c {
            unlink(&mut e.children);
            let link = |v: Option<&str>| v.is_some_and(|v| v.trim_start().starts_with("javascript:"));
            if e.is("a") && (link(e.get("href")) || link(e.get_ns(XLINK, "href"))) {
                result.extend(std::mem::take(&mut e.children).into_iter().filter(|c| !matches!(c, Tree::Text(_))));
                continue;
            }
        }
        result.push(c);
    }
    *children = result;
}

/// Drops empty containers, innermost first.
fn hollow(e: &mut Element, filtered: bool) {
    let switch = e.is("switch");
    for c in &mut e.children {
        if let Tree::Element(e) = c {
            hollow(e, filtered);
        }
    }
    e.children.retain(|c| {
        let Tree::Element(c) = c else { return true };
        let container =
            ["a", "defs", "g", "marker", "mask", "pattern", "switch", "symbol"].iter().any(|n| c.is(n));
        if !container || !c.is_empty() {
            return true;
        }
        if c.is("pattern") {
            return !c.attributes.is_empty();
        }
        if c.is("mask") {
            return c.get("id").is_some();
        }
        let styled = c.get("style").is_some_and(|s| s.contains("filter:")) || filtered && c.get("class").is_some_and(|c| c.split_ascii_whitespace().any(|t| t == "x"));
        switch || c.is("g") && (styled || c.get("filter").is_some())
    });
}

fn job<C: Chooser>(ch: &mut C) -> (Value, Expect) {
    let on = ch.below(6) > 0;
    let flag = |name: &str, e: Expect| (json!({ "name": name, "params": on }), if on { e } else { Box::new(|_: &mut Vec<Tree>| {}) as Expect });
    match ch.below(23) {
        0 => {
            let kept: Option<&'static [&'static str]> = ch.one_of(&[None, Some(&[]), Some(&["^!"]), Some(&["c$", "^l"])]);
            let params = kept.map_or(json!({}), |k| json!({ "preservePatterns": k }));
            let keep = move |t: &str| match kept {
                None | Some(["^!"]) => t.starts_with('!'),
                Some([]) => false,
                _ => t.ends_with('c') || t.starts_with('l'),
            };
            (
                json!({ "name": "removeComments", "params": params }),
                Box::new(move |d| {
                    d.retain(|t| !matches!(t, Tree::Comment(c) if !keep(c)));
                    root(d).drop_if(&mut |_, t| matches!(t, Tree::Comment(c) if !keep(c)));
                }),
            )
        }
        1 => {
            let any = ch.flag();
            (
                json!({ "name": "removeDesc", "params": { "removeAny": any } }),
                elements(move |e| {
                    let made = |t: &Tree| matches!(t, Tree::Text(t) if t.starts_with("Created with") || t.starts_with("Created using"));
                    e.is("desc") && (any || e.is_empty() || e.children.iter().any(made))
                }),
            )
        }
        2 => flag("removeTitle", elements(|e| e.is("title"))),
        3 => flag("removeMetadata", elements(|e| e.is("metadata"))),
        4 => flag("removeStyleElement", elements(|e| e.is("style"))),
        5 => flag(
            "removeEmptyAttrs",
            all(|e| e.attributes.retain(|a| !a.3.is_empty() || a.0.is_empty() && matches!(a.2.as_str(), "requiredFeatures" | "requiredExtensions" | "systemLanguage"))),
        ),
        6 => flag("removeRasterImages", elements(|e| e.is("image") && e.get_ns(XLINK, "href").is_some_and(raster))),
        7 => {
            let ids: &'static [&'static str] = ch.one_of(&[&[], &["a"], &["b", "c"], &["none"]]);
            let classes: &'static [&'static str] = ch.one_of(&[&[], &["x"], &["z", "y"]]);
            (
                json!({ "name": "removeElementsByAttr", "params": { "id": ids, "class": classes } }),
                elements(move |e| e.get("id").is_some_and(|i| ids.contains(&i)) || e.get("class").is_some_and(|c| c.split_ascii_whitespace().any(|t| classes.contains(&t)))),
            )
        }
        8 => {
            let (selector, test): (&str, fn(&Element) -> bool) = ch.one_of(&[
                ("g", (|e| e.name == "g") as fn(&Element) -> bool),
                (".x", |e| e.get("class").is_some_and(|c| c.split_ascii_whitespace().any(|t| t == "x"))),
                ("#a", |e| e.get("id") == Some("a")),
                ("[fill='red']", |e| e.get("fill") == Some("red")),
                ("*", |_| true),
            ]);
            let names: &'static [&'static str] = ch.one_of(&[&["fill"], &["id", "class"], &["xlink:href", "own:data"], &[]]);
            (
                json!({ "name": "removeAttributesBySelector", "params": [{ "selector": selector, "attributes": names }] }),
                all(move |e| {
                    if test(e) {
                        e.attributes.retain(|a| !names.contains(&attribute_name(a).as_str()));
                    }
                }),
            )
        }
        9 => flag("removeDimensions", all(|e| {
            let number = |v: Option<&str>| v.filter(|v| !v.ends_with('%')).map(|v| v.trim_end_matches("px").to_string());
            if !e.is("svg") {
                return;
            }
            if e.get("viewBox").is_none() {
                let (Some(w), Some(h)) = (number(e.get("width")), number(e.get("height"))) else { return };
                e.attributes.push((String::new(), String::new(), "viewBox".into(), format!("0 0 {w} {h}")));
            }
            e.attributes.retain(|a| !a.0.is_empty() || a.2 != "width" && a.2 != "height");
        })),
        10 => flag("removeScripts", Box::new(|d| {
            root(d).drop_if(&mut |_, t| matches!(t, Tree::Element(e) if e.is("script")));
            root(d).each(&mut |e| e.attributes.retain(|a| !a.0.is_empty() || !event(&a.2)));
            unlink(d);
        })),
        11 => {
            let choice: [Option<bool>; 3] = [ch.one_of(&[None, Some(true), Some(false)]), ch.one_of(&[None, Some(true), Some(false)]), ch.one_of(&[None, Some(true), Some(false)])];
            let mut params = serde_json::Map::new();
            for (n, c) in ["text", "tspan", "tref"].iter().zip(&choice) {
                if let Some(c) = c {
                    params.insert((*n).into(), json!(c));
                }
            }
            (
                json!({ "name": "removeEmptyText", "params": params }),
                elements(move |e| {
                    let on = |i: usize| choice[i].unwrap_or(true);
                    on(0) && e.is("text") && e.is_empty() || on(1) && e.is("tspan") && e.is_empty() || on(2) && e.is("tref") && e.get_ns(XLINK, "href").is_none()
                }),
            )
        }
        12 => {
            let (pattern, element, name, value): (&str, fn(&str) -> bool, fn(&str) -> bool, fn(&str) -> bool) = ch.one_of(&[
                ("fill", (|_| true) as fn(&str) -> bool, (|n| n == "fill") as fn(&str) -> bool, (|_| true) as fn(&str) -> bool),
                ("g:fill", |e| e == "g", |n| n == "fill", |_| true),
                ("*:(fill|stroke)", |_| true, |n| n == "fill" || n == "stroke", |_| true),
                ("*:fill:red", |_| true, |n| n == "fill", |v| v == "red"),
                ("rect:*:red", |e| e == "rect", |_| true, |v| v == "red"),
                ("*:.*:currentColor", |_| true, |_| true, |v| v.eq_ignore_ascii_case("currentcolor")),
                ("own:thing", |e| e == "own", |n| n == "thing", |_| true),
                ("data-.*", |_| true, |n| n.starts_with("data-"), |_| true),
                ("id", |_| true, |n| n == "id", |_| true),
                ("", |_| true, |n| n.is_empty(), |_| true),
            ]);
            let current = ch.flag();
            (
                json!({ "name": "removeAttrs", "params": { "attrs": [pattern], "elemSeparator": ":", "preserveCurrentColor": current } }),
                all(move |e| {
                    if element(&e.written()) {
                        e.attributes.retain(|a| {
                            let paint = e.ns == SVG && matches!(a.2.as_str(), "fill" | "stroke") && a.0.is_empty();
                            !(name(&attribute_name(a)) && value(&a.3)) || current && paint && a.3.eq_ignore_ascii_case("currentcolor")
                        });
                    }
                }),
            )
        }
        13 => {
            let more: Option<&'static [&'static str]> = ch.one_of(&[None, Some(&[]), Some(&[OWN])]);
            let editor = move |ns: &str| EDITORS.contains(&ns) || more.is_some_and(|m| m.contains(&ns));
            let params = if editor(OWN) { json!({ "additionalNamespaces": [OWN] }) } else { json!({}) };
            (
                json!({ "name": "removeEditorsNSData", "params": params }),
                Box::new(move |d| {
                    root(d).drop_if(&mut |_, t| matches!(t, Tree::Element(e) if editor(&e.ns)));
                    root(d).each(&mut |e| {
                        e.attributes.retain(|a| !editor(&a.0));
                        e.scope.retain(|s| !editor(&s.1));
                    });
                }),
            )
        }
        14 => flag("removeUnusedNS", Box::new(|d| {
            let mut used = vec![SVG.to_string()];
            root(d).each(&mut |e| {
                used.push(e.ns.clone());
                used.extend(e.attributes.iter().map(|a| a.0.clone()));
            });
            root(d).each(&mut |e| e.scope.retain(|s| s.0.is_empty() || s.0 == "xml" || used.contains(&s.1)));
        })),
        15 => flag("removeEmptyContainers", Box::new(|d| {
            let mut filtered = false;
            root(d).each(&mut |e| filtered |= e.is("style") && e.children.iter().any(|t| matches!(t, Tree::Text(t) if t.contains(".x") && t.contains("filter"))));
            hollow(root(d), filtered);
        })),
        16 => (json!({ "name": "sortAttrs", "params": {} }), Box::new(|_| {})),
        17 => {
            (
                json!({ "name": "addAttributesToSVGElement", "params": { "attributes": { "id": "new", "data-a": "7", "width": "3" } } }),
                Box::new(|d| {
                    let r = root(d);
                    for (n, v) in [("id", "new"), ("data-a", "7"), ("width", "3")] {
                        if r.get(n).is_none() {
                            r.attributes.push((String::new(), String::new(), n.into(), v.into()));
                        }
                    }
                }),
            )
        }
        18 => flag("removeXMLProcInst", Box::new(|_| {})),
        19 => flag("removeViewBox", Box::new(|d| {
            let mut top = true;
            root(d).each(&mut |e| {
                let number = |n: &str| e.get(n).map(|v| v.trim_end_matches("px").to_string()).unwrap_or_default();
                let same = e.get("viewBox") == Some(&*format!("0 0 {} {}", number("width"), number("height")));
                if same && (e.is("pattern") || e.is("symbol") || e.is("svg") && top) {
                    e.attributes.retain(|a| !a.0.is_empty() || a.2 != "viewBox");
                }
                top = false;
            });
        })),
        20 => {
            let listed = ch.flag();
            let names: &'static [&'static str] = ch.one_of(&[&["n"] as &'static [&str], &["n", "x"], &["x"], &[], &["m", "n", "m"]]);
            let params = if listed { json!({ "classNames": names }) } else { json!({ "className": names.join(" ") }) };
            (
                json!({ "name": "addClassesToSVGElement", "params": params }),
                Box::new(move |d| {
                    let r = root(d);
                    let mut classes: Vec<&str> = r.get("class").map_or(vec![], |c| c.split_ascii_whitespace().collect());
                    for n in names {
                        if !classes.contains(n) {
                            classes.push(n);
                        }
                    }
                    let class = classes.join(" ");
                    if let Some(a) = r.attributes.iter_mut().find(|a| a.0.is_empty() && a.2 == "class") {
                        a.3 = class;
                    } else if !names.is_empty() {
                        r.attributes.push((String::new(), String::new(), "class".into(), class));
                    }
                }),
            )
        }
        21 => flag("removeXMLNS", Box::new(|d| root(d).each(&mut |e| {
            if e.prefix.is_empty() {
                e.ns.clear();
            }
            e.scope.retain(|s| !s.0.is_empty());
        }))),
        _ => flag("sortDefsChildren", Box::new(|_| {})),
    }
}

/// Puts attributes, classes and the elements in definitions in one order.
fn in_order(children: &mut [Tree], defs: bool) {
    for c in children {
        if let Tree::Element(e) = c {
            for a in e.attributes.iter_mut().filter(|a| a.0.is_empty() && a.2 == "class") {
                let mut classes: Vec<&str> = a.3.split_ascii_whitespace().collect();
                classes.sort_unstable();
                a.3 = classes.join(" ");
            }
            e.attributes.sort();
            in_order(&mut e.children, defs);
            if e.is("defs") && defs {
                e.children.retain(|c| !matches!(c, Tree::Text(_)));
                e.children.sort_by_key(|c| format!("{c:?}"));
            }
        }
    }
}

fn on(plugin: &Value, name: &str) -> bool {
    plugin["name"] == name && plugin["params"] != json!(false)
}

fn jobs(plugins: Vec<Value>) -> Jobs {
    Jobs::from_svgo_plugin_config(Some(plugins)).expect("the configuration is read")
}

/// Reads what links say from attributes and titles alike.
fn links(e: &mut Element) {
    let put = |e: &mut Element, n: &str, v: String| e.attributes.push((String::new(), String::new(), n.into(), v));
    if let Some(href) = e.get_ns(XLINK, "href").map(String::from).filter(|_| e.get("href").is_none()) {
        put(e, "href", href);
    }
    if e.get_ns(XLINK, "show") == Some("new") && e.get("target").is_none() {
        put(e, "target", "_blank".into());
    }
    if let Some(title) = e.get_ns(XLINK, "title").map(String::from).filter(|_| !e.elements().any(|c| c.is("title"))) {
        let title = Element {
            ns: SVG.into(),
            prefix: String::new(),
            name: "title".into(),
            attributes: vec![],
            scope: vec![],
            children: vec![Tree::Text(title)],
        };
        e.children.insert(0, Tree::Element(title));
    }
    e.attributes.retain(|a| a.0 != XLINK);
    e.scope.clear();
}

/// Attributes of links may be written without their prefix; all else remains.
pub fn xlink<C: Chooser>(ch: &mut C) {
    let mut text = format!("<svg xmlns=\"{SVG}\" xmlns:own=\"urn:own\"");
    let prefix = ch.one_of(&["xlink", "x"]);
    if ch.flag() {
        text.push_str(&format!(" xmlns:{prefix}=\"{XLINK}\""));
    }
    if ch.flag() {
        text.push_str(" data-a=\"1\" own:data=\"2\"");
    }
    text.push('>');
    let mut open: Vec<&str> = vec![];
    for _ in 0..ch.below(7) {
        let name = ch.one_of(&["a", "g", "use", "tref", "linearGradient", "image", "cursor"]);
        text.push_str(&format!("<{name} xmlns:{prefix}=\"{XLINK}\""));
        for (n, v) in [
            (format!("{prefix}:href"), ch.one_of(&[None, Some("#a"), Some("b.png")])),
            ("href".into(), ch.one_of(&[None, None, Some("#c")]).filter(|_| name != "cursor" && name != "tref")),
            (format!("{prefix}:show"), ch.one_of(&[None, Some("new"), Some("replace"), Some("embed")])),
            ("target".into(), ch.one_of(&[None, None, Some("_top")]).filter(|_| name == "a")),
            (format!("{prefix}:title"), ch.one_of(&[None, None, Some("t")])),
            (format!("{prefix}:type"), ch.one_of(&[None, None, Some("simple")])),
            (format!("{prefix}:role"), ch.one_of(&[None, None, Some("r")])),
            ("data-b".into(), ch.one_of(&[None, Some("3")])),
            ("own:data".into(), ch.one_of(&[None, None, Some("4")])),
        ] {
            if let Some(v) = v {
                text.push_str(&format!(" {n}=\"{v}\""));
            }
        }
        text.push('>');
        open.push(name);
        if ch.below(4) == 0 {
            text.push_str("<title>s</title>");
        }
        if ch.flag() {
            text.push_str(&format!("</{}>", open.pop().unwrap()));
        }
    }
    for name in open.iter().rev() {
        text.push_str(&format!("</{name}>"));
    }
    text.push_str("</svg>");
    let legacy = ch.flag();
    vc::note!(ch, "removeXlink, legacy {legacy}, on {text}");
    let (before, after) = run(&text, &jobs(vec![json!({ "name": "removeXlink", "params": { "includeLegacy": legacy } })]));
    vc::note!(ch, "gave {after}");
    let mut wanted = read(&before);
    let mut got = read(&after);
    root(&mut got).each(&mut |e| {
        let old = e.is("tref") || e.is("cursor");
        assert!(
            e.get_ns(XLINK, "href").is_none() || e.get("href").is_some() || old && !legacy || e.is("g"),
            "links are written without a prefix"
        );
        assert!(!e.is("a") || e.get_ns(XLINK, "show") != Some("new"), "where links open is written without a prefix");
    });
    root(&mut wanted).each(&mut links);
    root(&mut got).each(&mut links);
    in_order(&mut wanted, false);
    in_order(&mut got, false);
    assert!(got == wanted, "links lead where they did and all else remains");
    ch.reached();
}

pub fn one<C: Chooser>(ch: &mut C) {
    let source = source(ch);
    let (plugin, expected) = job(ch);
    vc::note!(ch, "{plugin} on {source}");
    let defs = on(&plugin, "sortDefsChildren");
    let attributes = on(&plugin, "removeEmptyAttrs");
    let (before, after) = run(&source, &jobs(vec![plugin]));
    let mut wanted = read(&before);
    expected(&mut wanted);
    let mut got = if after.trim().is_empty() { vec![] } else { read(&after) };
    join(&mut wanted);
    join(&mut got);
    if attributes {
        // Empty conditions count only where a condition means something.
        for d in [&mut wanted, &mut got] {
            root(d).each(&mut |e| {
                let graphics = ["g", "rect", "circle", "text", "tspan", "a", "image", "use", "switch", "svg", "foreignObject"].iter().any(|n| e.is(n));
                e.attributes.retain(|a| graphics || !a.3.is_empty());
            });
        }
    }
    in_order(&mut wanted, defs);
    in_order(&mut got, defs);
    vc::note!(ch, "gave {after}");
    assert!(got == wanted, "exactly what the job names is removed");
    ch.reached();
}
