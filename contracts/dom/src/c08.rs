//! C08: the structure of what the writer writes.
use crate::xml::{self, Item};
use oxvg_ast::xmlwriter::{Indent, Options, Space, XmlWriter};
use oxvg_collections::element::ElementId;
use vc::Chooser;

pub fn options<C: Chooser>(ch: &mut C) -> Options {
    let indent = |n| match n {
        0 => Indent::None,
        1 => Indent::Spaces(2),
        _ => Indent::Tabs,
    };
    Options {
        use_single_quote: ch.flag(),
        indent: indent(ch.below(3)),
        attributes_indent: indent(ch.below(3)),
        enable_self_closing: ch.flag(),
        trim_whitespace: ch.one_of(&[Space::Never, Space::Auto, Space::Default, Space::Preserve]),
        minify: ch.flag(),
    }
}

struct Open {
    name: &'static str,
    attributes: Vec<(String, String)>,
    children: Vec<Item>,
}

/// Drops white space from text, and text that is left empty.
pub fn bare(items: &[Item]) -> Vec<Item> {
    let mut result: Vec<Item> = vec![];
    for item in items {
        match item {
            Item::Text(t) => {
                let t: String = t.chars().filter(|c| !c.is_ascii_whitespace()).collect();
                if t.is_empty() {
                } else if let Some(Item::Text(last)) = result.last_mut() {
                    last.push_str(&t);
                } else {
                    result.push(Item::Text(t));
                }
            }
            Item::Element { name, attributes, children } => result.push(Item::Element { name: name.clone(), attributes: attributes.clone(), children: bare(children) }),
            other => result.push(other.clone()),
        }
    }
    result
}

fn run<C: Chooser>(ch: &mut C, options: Options, steps: usize, texts: &[&str]) {
    let mut w = XmlWriter::new(Vec::<u8>::new(), options);
    let mut top: Vec<Item> = vec![];
    let mut open: Vec<Open> = vec![];
    // whether the start tag of the innermost element can still take attributes
    let mut in_tag = false;
    let mut started = false;
    let mut names = 0;
    for _ in 0..steps {
        match ch.below(8) {
            0 | 1 => {
                let (id, name) = [(ElementId::G, "g"), (ElementId::Text, "text"), (ElementId::TSpan, "tspan"), (ElementId::Svg, "svg")][ch.below(4)].clone();
                vc::note!(ch, "start {name}");
                assert!(w.start_element(&id).is_ok(), "an element can always be started");
                open.push(Open { name, attributes: vec![], children: vec![] });
                in_tag = true;
                started = true;
            }
            2 => {
                let value = ch.one_of(texts);
                let name = format!("a{names}");
                vc::note!(ch, "attribute {name}={value:?}");
                names += 1;
                let result = w.write_attribute_fmt(format_args!("{name}"), format_args!("{value}"));
                assert!(result.is_ok() == in_tag, "an attribute is accepted exactly inside a start tag");
                if in_tag {
                    open.last_mut().unwrap().attributes.push((name, value.to_string()));
                }
            }
            3 => {
                let value = ch.one_of(texts);
                let formatted = ch.flag();
                vc::note!(ch, "text {value:?}");
                let empty = value.chars().all(|c| c.is_ascii_whitespace());
                let result = if formatted { w.write_text_fmt(format_args!("{value}")) } else { w.write_text(value, ch.flag(), ch.flag()) };
                match open.last_mut() {
                    Some(parent) => {
                        assert!(result.is_ok(), "text is accepted inside an element");
                        parent.children.push(Item::Text(value.to_string()));
                        // text without content may be left out
                        if !empty {
                            in_tag = false;
                        } else if in_tag {
                            // not decided whether the tag is still open
                            vc::note!(ch, "comment");
                            assert!(w.write_comment("x").is_ok(), "a comment is accepted everywhere");
                            parent.children.push(Item::Comment("x".into()));
                            in_tag = false;
                        }
                    }
                    None => assert!(result.is_err() || empty, "text outside an element is refused"),
                }
            }
            4 => {
                vc::note!(ch, "comment");
                assert!(w.write_comment(" c<>& ").is_ok(), "a comment is accepted everywhere");
                open.last_mut().map_or(&mut top, |o| &mut o.children).push(Item::Comment(" c<>& ".into()));
                in_tag = false;
                started = true;
            }
            5 | 6 => {
                vc::note!(ch, "end");
                let result = w.end_element();
                started = true;
                if let Some(o) = open.pop() {
                    assert!(result.is_ok(), "an open element can be ended");
                    let item = Item::Element { name: o.name.into(), attributes: o.attributes, children: o.children };
                    open.last_mut().map_or(&mut top, |o| &mut o.children).push(item);
                    in_tag = false;
                }
            }
            _ => {
                if ch.flag() {
                    vc::note!(ch, "declaration");
                    let result = w.write_declaration(&"xml".into(), &Some("version=\"1.0\"".into()));
                    if started {
                        assert!(result.is_err(), "a declaration is accepted only at the beginning");
                    } else {
                        assert!(result.is_ok(), "a declaration is accepted at the beginning");
                        top.push(Item::Instruction("xml version=\"1.0\"".into()));
                        started = true;
                    }
                } else {
                    let value = ch.one_of(texts);
                    vc::note!(ch, "CDATA {value:?}");
                    let result = w.write_cdata_text(value);
                    match open.last_mut() {
                        Some(parent) => {
                            assert!(result.is_ok(), "text is accepted inside an element");
                            parent.children.push(Item::Text(value.to_string()));
                            in_tag = false;
                        }
                        None => assert!(result.is_err(), "text outside an element is refused"),
                    }
                }
            }
        }
    }
    let out = String::from_utf8(w.end_document().expect("the document can be ended")).expect("text");
    while let Some(o) = open.pop() {
        let item = Item::Element { name: o.name.into(), attributes: o.attributes, children: o.children };
        open.last_mut().map_or(&mut top, |o| &mut o.children).push(item);
    }
    vc::note!(ch, "written {out:?}");
    let read = xml::read(&out);
    assert!(read.is_ok(), "the document is well-formed");
    let read = read.unwrap();
    assert!(bare(&read) == bare(&top), "the document has the structure that was written");
    if top.iter().filter(|i| matches!(i, Item::Element { .. })).count() == 1 {
        assert!(roxmltree::Document::parse(&out).is_ok(), "an XML reader accepts the document");
    }
    ch.reached();
}

const TEXTS: [&str; 5] = ["t", " a\n b ", "<&\"'>", "", " "];

/// All sequences of a few calls with the usual options.
pub fn short_sequences<C: Chooser>(ch: &mut C) {
    let mut o = Options::default();
    o.enable_self_closing = ch.flag();
    if ch.flag() {
        o.indent = Indent::Spaces(2);
    }
    let steps = ch.below(5);
    run(ch, o, steps, &["t"]);
}

pub fn sequences<C: Chooser>(ch: &mut C) {
    let o = options(ch);
    vc::note!(ch, "{o:?}");
    let steps = ch.below(18);
    run(ch, o, steps, &TEXTS);
}

pub fn long_sequences<C: Chooser>(ch: &mut C) {
    let o = options(ch);
    vc::note!(ch, "{o:?}");
    let steps = 40 + ch.below(100);
    run(ch, o, steps, &TEXTS);
}
