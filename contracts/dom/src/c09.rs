//! C09: white space of written text.
use crate::world::{R, allocator};
use crate::xml::{self, Item};
use oxvg_ast::node::NodeData;
use oxvg_ast::serialize::Node as _;
use oxvg_ast::xmlwriter::{Indent, Options, Space, XmlWriter};
use oxvg_collections::{attribute::{Attr, AttrId}, element::ElementId};
use std::cell::{Cell, RefCell};
use vc::Chooser;

const CHARS: [char; 7] = [' ', 'a', '\n', '\t', '<', '\u{a0}', 'é'];

fn is_space(c: char) -> bool {
    matches!(c, ' ' | '\n' | '\t' | '\r')
}

/// What a mode makes of a text at some position.
fn expected(mode: Space, text: &str, first: bool, last: bool) -> String {
    match mode {
        Space::Never => text.into(),
        Space::Preserve => text.chars().map(|c| if matches!(c, '\n' | '\t') { ' ' } else { c }).collect(),
        _ => {
            let words: Vec<&str> = text.split(is_space).filter(|w| !w.is_empty()).collect();
            if words.is_empty() {
                return if text.is_empty() || first || last { String::new() } else { " ".into() };
            }
            let mut result = words.join(" ");
            if !first && text.starts_with(is_space) {
                result.insert(0, ' ');
            }
            if !last && text.ends_with(is_space) {
                result.push(' ');
            }
            result
        }
    }
}

fn options(mode: Space) -> Options {
    Options { trim_whitespace: mode, ..Options::default() }
}

/// One text inside an element.
pub fn one_text<C: Chooser>(ch: &mut C) {
    let n = ch.below(6);
    let text: String = (0..n).map(|_| CHARS[ch.below(CHARS.len())]).collect();
    let mode = ch.one_of(&[Space::Never, Space::Preserve, Space::Default]);
    let (first, last) = (ch.flag(), ch.flag());
    vc::note!(ch, "{text:?} in mode {mode:?}, first: {first}, last: {last}");
    let mut w = XmlWriter::new(Vec::<u8>::new(), options(mode));
    w.start_element(&ElementId::Text).expect("start");
    assert!(w.write_text(&text, first, last).is_ok(), "text is written");
    let out = String::from_utf8(w.end_document().expect("end")).expect("text");
    let read = xml::read(&out).expect("well-formed");
    let Some(Item::Element { children, .. }) = read.first() else { panic!("an element") };
    let is = match children.as_slice() {
        [] => "",
        [Item::Text(t)] => t,
        _ => panic!("only text"),
    };
    vc::note!(ch, "written {out:?}");
    assert!(is == expected(mode, &text, first, last), "the text is the one the mode prescribes");
    ch.reached();
}

#[derive(Clone)]
enum Tree {
    Text(String),
    Comment,
    Element(Option<bool>, Vec<Tree>),
}

fn tree<C: Chooser>(ch: &mut C, depth: usize, width: usize) -> Vec<Tree> {
    let n = ch.below(width + 1);
    (0..n)
        .map(|_| match ch.below(if depth == 0 { 4 } else { 7 }) {
            0..3 => {
                let n = 1 + ch.below(4);
                Tree::Text((0..n).map(|_| CHARS[ch.below(CHARS.len())]).collect())
            }
            3 => Tree::Comment,
            _ => {
                let space = ch.one_of(&[None, None, Some(true), Some(false)]);
                Tree::Element(space, tree(ch, depth - 1, 3))
            }
        })
        .collect()
}

fn build(allocator: &crate::world::A, trees: &[Tree], parent: R) {
    for tree in trees {
        let child: R = match tree {
            Tree::Text(t) => allocator.alloc(NodeData::Text(RefCell::new(Some(t.clone().into())))),
            Tree::Comment => allocator.alloc(NodeData::Comment(RefCell::new(Some("c".into())))),
            Tree::Element(space, children) => {
                let attrs = space.map(|p| Attr::new(AttrId::XmlSpace, if p { "preserve" } else { "default" })).into_iter().collect();
                let child: R = allocator.alloc(NodeData::Element { name: ElementId::TSpan, attrs: RefCell::new(attrs), selector_flags: Cell::new(None) });
                build(allocator, children, child);
                child
            }
        };
        parent.append_child(child);
    }
}

/// The children as they should be read back.
fn prescribed(trees: &[Tree], mode: Space, preserve: bool) -> Vec<Item> {
    let mut result: Vec<Item> = vec![];
    let mut i = 0;
    while i < trees.len() {
        match &trees[i] {
            Tree::Text(_) => {
                let start = i;
                let mut text = String::new();
                while let Some(Tree::Text(t)) = trees.get(i) {
                    text.push_str(t);
                    i += 1;
                }
                let effective = match mode {
                    Space::Auto => {
                        if preserve {
                            Space::Preserve
                        } else {
                            Space::Default
                        }
                    }
                    m => m,
                };
                let text = expected(effective, &text, start == 0, i == trees.len());
                if !text.is_empty() {
                    result.push(Item::Text(text));
                }
                continue;
            }
            Tree::Comment => result.push(Item::Comment("c".into())),
            Tree::Element(space, children) => {
                let preserve = space.unwrap_or(preserve);
                let attributes = space.map(|p| ("xml:space".to_string(), if p { "preserve" } else { "default" }.to_string())).into_iter().collect();
                result.push(Item::Element { name: "tspan".into(), attributes, children: prescribed(children, mode, preserve) });
            }
        }
        i += 1;
    }
    result
}

/// Drops a trailing space left by several text nodes that end an element together: it's only
/// prescribed for a single text.
fn without_trailing(items: &[Item], trees: &[Tree]) -> Vec<Item> {
    let mut inner = trees.iter().filter_map(|t| match t {
        Tree::Element(_, children) => Some(children),
        _ => None,
    });
    let mut result: Vec<Item> = items
        .iter()
        .map(|item| match item {
            Item::Element { name, attributes, children } => Item::Element {
                name: name.clone(),
                attributes: attributes.clone(),
                children: inner.next().map_or_else(|| children.clone(), |trees| without_trailing(children, trees)),
            },
            item => item.clone(),
        })
        .collect();
    if let [.., Tree::Text(_), Tree::Text(_)] = trees
        && let Some(Item::Text(text)) = result.last_mut()
    {
        text.truncate(text.trim_end_matches(' ').len());
        if text.is_empty() {
            result.pop();
        }
    }
    result
}

/// Whole text elements.
pub fn documents<C: Chooser>(ch: &mut C) {
    let mode = ch.one_of(&[Space::Never, Space::Preserve, Space::Default, Space::Auto]);
    let trees = tree(ch, 2, 4);
    let allocator = allocator(60);
    let document: R = allocator.alloc(NodeData::Document);
    let root: R = allocator.alloc(NodeData::Element { name: ElementId::Text, attrs: RefCell::new(vec![]), selector_flags: Cell::new(None) });
    document.append_child(root);
    build(allocator, &trees, root);
    let original = document.serialize_with_options(Options { trim_whitespace: Space::Never, ..Options::default() }).expect("written");
    vc::note!(ch, "{original:?} in mode {mode:?}");
    let out = document.serialize_with_options(options(mode)).expect("written");
    vc::note!(ch, "written {out:?}");
    let read = xml::read(&out).expect("well-formed");
    let Some(Item::Element { children, .. }) = read.first() else { panic!("an element") };
    let is = without_trailing(children, &trees);
    assert!(is == without_trailing(&prescribed(&trees, mode, false), &trees), "the texts are the ones the mode prescribes");
    ch.reached();
}

/// Leaves out spaces at the ends of each text.
fn trimmed(items: &[Item]) -> Vec<Item> {
    items
        .iter()
        .filter_map(|item| match item {
            Item::Text(t) => {
                let t = t.trim_matches(' ');
                (!t.is_empty()).then(|| Item::Text(t.into()))
            }
            Item::Element { name, attributes, children } => Some(Item::Element { name: name.clone(), attributes: attributes.clone(), children: trimmed(children) }),
            item => Some(item.clone()),
        })
        .collect()
}

/// Text elements in indented documents: the same, except that spaces next to markup may be dropped
/// where white space is collapsed.
pub fn indented<C: Chooser>(ch: &mut C) {
    let mode = ch.one_of(&[Space::Never, Space::Preserve, Space::Default, Space::Auto]);
    let indent = ch.one_of(&[Indent::Spaces(2), Indent::Tabs, Indent::Spaces(1)]);
    let trees: Vec<Tree> = tree(ch, 2, 4);
    // texts that are next to each other are not separate in the output
    let mut trees: Vec<Tree> = separate(&trees);
    if trees.is_empty() {
        trees.push(Tree::Comment);
    }
    let allocator = allocator(60);
    let document: R = allocator.alloc(NodeData::Document);
    let outer: R = allocator.alloc(NodeData::Element { name: ElementId::G, attrs: RefCell::new(vec![]), selector_flags: Cell::new(None) });
    document.append_child(outer);
    let root: R = allocator.alloc(NodeData::Element { name: ElementId::Text, attrs: RefCell::new(vec![]), selector_flags: Cell::new(None) });
    outer.append_child(root);
    build(allocator, &trees, root);
    let original = document.serialize_with_options(options(Space::Never)).expect("written");
    vc::note!(ch, "{original:?} in mode {mode:?}, {indent:?}");
    let out = document.serialize_with_options(Options { indent, ..options(mode) }).expect("written");
    vc::note!(ch, "written {out:?}");
    let read = xml::read(&out).expect("well-formed");
    let Some(Item::Element { children, .. }) = read.first() else { panic!("an element") };
    let text = children.iter().find_map(|c| match c {
        Item::Element { name, children, .. } if name == "text" => Some(children),
        _ => None,
    });
    assert!(text.is_some(), "the text element is written");
    let (is, expected) = (text.unwrap(), prescribed(&trees, mode, false));
    if matches!(mode, Space::Never | Space::Preserve) {
        assert!(*is == expected, "indentation leaves the content of text elements alone");
    } else {
        assert!(trimmed(is) == trimmed(&expected), "indentation adds nothing to the content of text elements");
    }
    // outside, only white space is added
    let others: Vec<&Item> = children.iter().filter(|c| !matches!(c, Item::Element { .. })).collect();
    assert!(others.iter().all(|c| matches!(c, Item::Text(t) if t.chars().all(is_space))), "indentation adds white space only");
    ch.reached();
}

fn separate(trees: &[Tree]) -> Vec<Tree> {
    let mut result: Vec<Tree> = vec![];
    for tree in trees {
        match tree {
            Tree::Text(_) if matches!(result.last(), Some(Tree::Text(_))) => {}
            Tree::Element(space, children) => result.push(Tree::Element(*space, separate(children))),
            tree => result.push(tree.clone()),
        }
    }
    result
}
