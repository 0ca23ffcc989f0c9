//! C10: documents that are read, written and read again.
use oxvg_ast::node::Ref;
use oxvg_ast::parse::roxmltree::parse;
use oxvg_ast::serialize::Node as _;
use oxvg_ast::xmlwriter::{Indent, Options, Space};
use oxvg_collections::element::ElementId;
use std::fmt::Write as _;
use vc::Chooser;

const SVG: &str = "http://www.w3.org/2000/svg";
const XLINK: &str = "http://www.w3.org/1999/xlink";
const URIS: [&str; 5] = [SVG, XLINK, "u:1", "u:2", "http://www.w3.org/1999/xhtml"];
const PREFIXES: [&str; 5] = ["p", "q", "xlink", "svg", "inkscape"];
const NAMES: [&str; 9] = ["g", "text", "tspan", "rect", "a", "svg", "title", "unknown", "é-1.x_"];
/// Attributes whose values are kept as they are.
const PLAIN: [&str; 5] = ["x", "data-a", "role", "unknown", "é"];
const VALUES: [&str; 9] = ["", "v", "a b", " a", "<&>\"'", "]]>", "\u{a0}é", "&#38;amp;", "none"];
/// Attributes with values of their own types.
const TYPED: [(&str, &str); 10] = [
    ("width", "10"),
    ("height", "10.50px"),
    ("fill", "#ff0000"),
    ("d", "M 0 0 L 10 10"),
    ("transform", "translate(1 2)"),
    ("style", "fill:red;stroke:blue"),
    ("class", "a b"),
    ("viewBox", "0 0 10 10"),
    ("points", "1,2 3,4"),
    ("id", "n1"),
];
const TEXTS: [&str; 8] = ["t", " ", "\n  ", "a &lt;b&gt; &amp;amp; c", "é\u{a0}", "<![CDATA[ <x> & ]]>", "&#x41;\"'", "a]]&gt;b"];
const OTHERS: [&str; 4] = ["<!-- c -->", "<!---->", "<?pi?>", "<?pi some data?>"];
const STYLES: [&str; 5] = ["a{fill:red}", ".b, #c > d {stroke:red}\n", "@media print{a{fill:red}}", "<![CDATA[a{fill:red}]]>", ""];

/// What is in scope: the uri of each prefix and the default.
#[derive(Clone)]
struct Scope {
    prefixes: [Option<&'static str>; 5],
}

fn escape(value: &str) -> String {
    value.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")
}

fn element<C: Chooser>(ch: &mut C, out: &mut String, scope: &Scope, depth: usize, top: bool) {
    let mut scope = scope.clone();
    let mut declarations = String::new();
    if top {
        if ch.below(4) != 0 {
            _ = write!(declarations, " xmlns=\"{SVG}\"");
        }
    } else if ch.below(8) == 0 {
        let uri = if ch.below(3) == 0 { "" } else { URIS[ch.below(5)] };
        _ = write!(declarations, " xmlns=\"{uri}\"");
    }
    for (i, prefix) in PREFIXES.iter().enumerate() {
        if ch.below(6) == 0 {
            let uri = ch.one_of(&URIS);
            scope.prefixes[i] = Some(uri);
            _ = write!(declarations, " xmlns:{prefix}=\"{uri}\"");
        }
    }
    let prefix = |ch: &mut C, out: &mut String| -> Option<&'static str> {
        let i = ch.below(12);
        if let Some(Some(uri)) = scope.prefixes.get(i) {
            _ = write!(out, "{}:", PREFIXES[i]);
            return Some(uri);
        }
        None
    };
    if depth > 0 && !top && ch.below(10) == 0 {
        _ = write!(out, "<style{declarations}>{}</style>", ch.one_of(&STYLES));
        return;
    }
    let mut name = String::new();
    prefix(ch, &mut name);
    name.push_str(if top { "svg" } else { ch.one_of(&NAMES) });
    _ = write!(out, "<{name}{declarations}");
    // expanded names of attributes are unique
    let mut used: Vec<(Option<&str>, &str)> = vec![];
    for _ in 0..ch.below(4) {
        let mut text = String::new();
        let uri = prefix(ch, &mut text);
        let (local, value) = if ch.below(3) == 0 {
            ch.one_of(&TYPED)
        } else {
            (ch.one_of(&PLAIN), ch.one_of(&VALUES))
        };
        if used.contains(&(uri, local)) {
            continue;
        }
        used.push((uri, local));
        _ = write!(out, " {text}{local}=\"{}\"", escape(value));
    }
    if ch.below(6) == 0 {
        _ = write!(out, " xml:space=\"preserve\"");
    }
    if ch.below(4) == 0 {
        out.push_str("/>");
        return;
    }
    out.push('>');
    for _ in 0..ch.below(5) {
        match ch.below(7) {
            0..3 => out.push_str(ch.one_of(&TEXTS)),
            3 => out.push_str(ch.one_of(&OTHERS)),
            _ if depth > 0 => element(ch, out, &scope, depth - 1, false),
            _ => {}
        }
    }
    _ = write!(out, "</{name}>");
}

fn source<C: Chooser>(ch: &mut C, depth: usize) -> String {
    let mut out = String::new();
    if ch.below(4) == 0 {
        out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>");
    }
    for _ in 0..ch.below(3) {
        out.push_str(ch.one_of(&OTHERS));
    }
    element(ch, &mut out, &Scope { prefixes: [None; 5] }, depth, true);
    if ch.below(4) == 0 {
        out.push_str(ch.one_of(&OTHERS));
    }
    out
}

#[derive(PartialEq, Eq, Debug, Clone)]
pub enum Item {
    Element { name: (String, String), attributes: Vec<(String, String, Option<String>)>, children: Vec<Item> },
    Text(String),
    Comment(String),
    Instruction(String, String),
}

/// A style sheet, apart from white space and semicolons.
fn sheet(node: roxmltree::Node) -> Vec<Item> {
    let text: String = node.descendants().filter(roxmltree::Node::is_text).filter_map(|t| t.text()).collect();
    let text: String = text.chars().filter(|c| !c.is_ascii_whitespace() && *c != ';').collect();
    if text.is_empty() { vec![] } else { vec![Item::Text(text)] }
}

/// Whether style elements hold style sheets, and nothing else does.
fn styled(node: Ref) -> bool {
    if node.element().is_some_and(|e| e.node_type() == oxvg_ast::node::Type::Element && *e.qual_name() == ElementId::Style) {
        let mut children = node.child_nodes_iter();
        return children.next().is_none_or(|c| c.style().is_some() && children.next().is_none());
    }
    node.style().is_none() && node.child_nodes_iter().all(styled)
}

/// What an XML reader sees: expanded names, attributes by name, text; values of typed attributes
/// are left out.
pub fn items(node: roxmltree::Node) -> Vec<Item> {
    let mut result: Vec<Item> = vec![];
    for child in node.children() {
        if child.is_element() {
            let mut attributes: Vec<_> = child
                .attributes()
                .map(|a| {
                    let plain = a.namespace().is_some_and(|n| n != SVG) || PLAIN[1..].contains(&a.name());
                    (a.namespace().unwrap_or_default().to_string(), a.name().to_string(), plain.then(|| a.value().to_string()))
                })
                .collect();
            attributes.sort();
            let style = child.tag_name().name() == "style";
            result.push(Item::Element {
                name: (child.tag_name().namespace().unwrap_or_default().to_string(), child.tag_name().name().to_string()),
                attributes,
                children: if style { sheet(child) } else { items(child) },
            });
        } else if child.is_text() {
            let text = child.text().unwrap_or_default();
            if let Some(Item::Text(last)) = result.last_mut() {
                last.push_str(text);
            } else if !text.is_empty() {
                result.push(Item::Text(text.into()));
            }
        } else if child.is_comment() {
            result.push(Item::Comment(child.text().unwrap_or_default().into()));
        } else if let Some(pi) = child.pi() {
            result.push(Item::Instruction(pi.target.into(), pi.value.unwrap_or_default().into()));
        }
    }
    result
}

fn same<'i, 'a>(a: Option<Ref<'i, 'a>>, b: Option<Ref<'i, 'a>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => std::ptr::eq(a, b),
        (a, b) => a.is_none() && b.is_none(),
    }
}

/// Whether every link of the tree agrees with the others.
pub fn consistent<'i, 'a>(node: Ref<'i, 'a>) -> bool {
    let mut previous: Option<Ref<'i, 'a>> = None;
    let mut child = node.first_child.get();
    while let Some(c) = child {
        if !same(c.parent.get(), Some(node)) || !same(c.previous_sibling.get(), previous) || !consistent(c) {
            return false;
        }
        previous = Some(c);
        child = c.next_sibling.get();
    }
    same(node.last_child.get(), previous)
}

fn round_trip<C: Chooser>(ch: &mut C, source: &str, options: fn() -> Options) {
    vc::note!(ch, "source {source}");
    let xml = roxmltree::Document::parse(source);
    assert!(xml.is_ok(), "(the source is well-formed)");
    let write = |source: &str| {
        parse(source, |document, _| {
            assert!(styled(document), "style elements hold their style sheet");
            assert!(consistent(document), "the links of the tree that was read are consistent");
            assert!(document.parent.get().is_none() && document.next_sibling.get().is_none() && document.previous_sibling.get().is_none(), "the document has no parent or siblings");
            document.serialize_with_options(options())
        })
    };
    let out = write(source);
    assert!(matches!(out, Ok(Ok(_))), "the document is read and written");
    let Ok(Ok(out)) = out else { return };
    vc::note!(ch, "written {out}");
    let read = roxmltree::Document::parse(&out);
    assert!(read.is_ok(), "what was written is well-formed");
    let Ok(read) = read else { return };
    let (expected, is) = (items(xml.unwrap().root()), items(read.root()));
    vc::note!(ch, "source holds {expected:?}");
    vc::note!(ch, "written holds {is:?}");
    assert!(expected == is, "names, attributes, text and their order are the same after writing and reading");
    let again = write(&out);
    assert!(matches!(again, Ok(Ok(_))), "what was written is read and written again");
    let Ok(Ok(again)) = again else { return };
    vc::note!(ch, "written again {again}");
    assert!(out == again, "writing what was read back gives the same text");
    ch.reached();
}

pub fn original() -> Options {
    Options { trim_whitespace: Space::Never, indent: Indent::None, minify: false, ..Options::default() }
}

pub fn minified() -> Options {
    Options { trim_whitespace: Space::Never, indent: Indent::None, minify: true, ..Options::default() }
}

/// Small documents.
pub fn small<C: Chooser>(ch: &mut C) {
    let source = source(ch, 1);
    round_trip(ch, &source, original);
}

pub fn documents<C: Chooser>(ch: &mut C) {
    let minify = ch.flag();
    let depth = 1 + ch.below(4);
    let source = source(ch, depth);
    round_trip(ch, &source, if minify { minified } else { original });
}

