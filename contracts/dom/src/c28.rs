//! C28: selectors.
use oxvg_ast::parse::roxmltree::parse;
use oxvg_ast::selectors::{SelectElement, Selector};
use oxvg_serialize::ToValue as _;
use std::fmt::Write as _;
use vc::Chooser;

/// An element of a document.
#[derive(Debug)]
pub struct Item {
    pub parent: Option<usize>,
    pub name: &'static str,
    pub id: Option<&'static str>,
    pub classes: Vec<&'static str>,
    pub attributes: Vec<(&'static str, &'static str)>,
    pub empty: bool,
}

pub const NAMES: [&str; 6] = ["g", "path", "a", "text", "linearGradient", "made-up"];
/// Also of another namespace, where type selectors name the part after the prefix.
const ELEMENTS: [&str; 8] = ["g", "path", "a", "text", "linearGradient", "made-up", "o:g", "o:a"];
pub const IDS: [&str; 3] = ["i", "j", "K"];
pub const CLASSES: [&str; 4] = ["b", "c", "B", "d-e"];
const ATTRIBUTES: [&str; 5] = ["data-x", "lang", "fill", "pathLength", "made-up"];
const VALUES: [&str; 6] = ["red", "re", "red blue", "en-GB", "en", "Red"];
const FILLER: [&str; 5] = ["", "", " \n", "<!-- -->", "text"];

pub struct Document {
    pub items: Vec<Item>,
    pub source: String,
    /// The element to select from. The root stands for the document.
    pub scope: usize,
}

impl Document {
    fn any<C: Chooser>(ch: &mut C, limit: usize) -> Document {
        let mut document = Document { items: vec![], source: String::new(), scope: 0 };
        document.element(ch, None, limit);
        if ch.below(3) == 0 {
            document.scope = ch.below(document.items.len());
        }
        document
    }

    fn element<C: Chooser>(&mut self, ch: &mut C, parent: Option<usize>, limit: usize) {
        let at = self.items.len();
        let name = if parent.is_none() { "svg" } else { ch.one_of(&ELEMENTS) };
        let mut item = Item { parent, name, id: None, classes: vec![], attributes: vec![], empty: true };
        write!(self.source, "<{name} data-n=\"{at}\"").unwrap();
        if parent.is_none() {
            self.source.push_str(" xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" xmlns:o=\"urn:o\"");
        }
        if ch.below(3) == 0 {
            let id = ch.one_of(&IDS);
            item.id = Some(id);
            item.attributes.push(("id", id));
        }
        if ch.below(2) == 0 {
            let from = ch.below(CLASSES.len());
            item.classes = (0..ch.below(3)).map(|i| CLASSES[(from + i) % CLASSES.len()]).collect();
            if !item.classes.is_empty() {
                write!(self.source, " class=\"{}\"", item.classes.join(" ")).unwrap();
            }
        }
        if ch.below(2) == 0 {
            let name = ch.one_of(&ATTRIBUTES);
            let value = match name {
                "fill" => "red",
                "pathLength" => "10",
                _ => ch.one_of(&VALUES),
            };
            item.attributes.push((name, value));
        }
        if name == "a" && ch.flag() {
            item.attributes.push(("href", "#"));
        }
        for (name, value) in &item.attributes {
            write!(self.source, " {name}=\"{value}\"").unwrap();
        }
        self.source.push('>');
        self.items.push(item);
        loop {
            let filler = ch.one_of(&FILLER);
            self.source.push_str(filler);
            self.items[at].empty &= filler != "text";
            if self.items.len() >= limit || ch.below(3) == 0 {
                break;
            }
            self.items[at].empty = false;
            self.element(ch, Some(at), limit);
        }
        write!(self.source, "</{name}>").unwrap();
    }

    fn siblings(&self, at: usize) -> Vec<usize> {
        (0..self.items.len()).filter(|i| self.items[*i].parent == self.items[at].parent).collect()
    }

    pub fn ancestors(&self, at: usize) -> Vec<usize> {
        std::iter::successors(self.items[at].parent, |p| self.items[*p].parent).collect()
    }

    /// Breadth-first.
    fn order(&self) -> Vec<usize> {
        let mut order = vec![0];
        let mut i = 0;
        while i < order.len() {
            let parent = order[i];
            order.extend((0..self.items.len()).filter(|c| self.items[*c].parent == Some(parent)));
            i += 1;
        }
        order
    }
}

#[derive(Debug, Clone)]
pub enum Simple {
    Type(&'static str),
    Any,
    Id(&'static str),
    Class(&'static str),
    Attribute(&'static str),
    AttributeIs(&'static str, &'static str, &'static str, bool),
    /// a, b, of the same type, from the end
    Nth(i32, i32, bool, bool),
    First(bool),
    Last(bool),
    Only(bool),
    Empty,
    Root,
    Scope,
    Not(Vec<Simple>),
}

#[derive(Debug, Clone)]
pub struct Complex {
    /// Each with the combinator before it.
    pub parts: Vec<(char, Vec<Simple>)>,
}

fn simple<C: Chooser>(ch: &mut C, first: bool, inside: bool) -> Simple {
    if first && ch.below(2) == 0 {
        return if ch.below(4) == 0 { Simple::Any } else { Simple::Type(if ch.below(8) == 0 { "svg" } else { ch.one_of(&NAMES) }) };
    }
    match ch.below(if inside { 13 } else { 14 }) {
        0 => Simple::Id(ch.one_of(&IDS)),
        1 | 2 => Simple::Class(ch.one_of(&CLASSES)),
        3 => Simple::Attribute(ch.one_of(&ATTRIBUTES)),
        4 | 5 => {
            let operator = ch.one_of(&["=", "~=", "|=", "^=", "$=", "*="]);
            Simple::AttributeIs(ch.one_of(&["data-x", "lang", "fill", "made-up", "id", "class"]), operator, ch.one_of(&["red", "re", "ed", "en", "b", "", "red blue", "i"]), ch.below(4) == 0)
        }
        6 => Simple::Nth(ch.below(5) as i32 - 2, ch.below(7) as i32 - 2, ch.flag(), ch.flag()),
        7 => Simple::First(ch.flag()),
        8 => Simple::Last(ch.flag()),
        9 => Simple::Only(ch.flag()),
        10 => Simple::Empty,
        11 => Simple::Root,
        12 => Simple::Scope,
        _ => {
            let n = 1 + ch.below(2);
            Simple::Not(compound(ch, n, true))
        }
    }
}

fn compound<C: Chooser>(ch: &mut C, n: usize, inside: bool) -> Vec<Simple> {
    (0..n).map(|i| simple(ch, i == 0, inside)).collect()
}

pub fn complex<C: Chooser>(ch: &mut C) -> Complex {
    let parts = 1 + ch.below(3);
    Complex {
        parts: (0..parts)
            .map(|_| {
                let n = 1 + ch.below(2);
                (ch.one_of(&[' ', '>', '+', '~']), compound(ch, n, false))
            })
            .collect(),
    }
}

fn write_simple(out: &mut String, simple: &Simple) {
    let of = |of: &bool| if *of { "of-type" } else { "child" };
    match simple {
        Simple::Type(name) => out.push_str(name),
        Simple::Any => out.push('*'),
        Simple::Id(id) => write!(out, "#{id}").unwrap(),
        Simple::Class(class) => write!(out, ".{class}").unwrap(),
        Simple::Attribute(name) => write!(out, "[{name}]").unwrap(),
        Simple::AttributeIs(name, operator, value, any_case) => write!(out, "[{name}{operator}\"{value}\"{}]", if *any_case { " i" } else { "" }).unwrap(),
        Simple::Nth(a, b, of_type, last) => write!(out, ":nth-{}{}({a}n{b:+})", if *last { "last-" } else { "" }, of(of_type)).unwrap(),
        Simple::First(t) => write!(out, ":first-{}", of(t)).unwrap(),
        Simple::Last(t) => write!(out, ":last-{}", of(t)).unwrap(),
        Simple::Only(t) => write!(out, ":only-{}", of(t)).unwrap(),
        Simple::Empty => out.push_str(":empty"),
        Simple::Root => out.push_str(":root"),
        Simple::Scope => out.push_str(":scope"),
        Simple::Not(inner) => {
            out.push_str(":not(");
            inner.iter().for_each(|s| write_simple(out, s));
            out.push(')');
        }
    }
}

pub fn written(list: &[Complex]) -> String {
    let mut out = String::new();
    for (i, complex) in list.iter().enumerate() {
        if i > 0 {
            out.push_str(", ");
        }
        for (i, (combinator, compound)) in complex.parts.iter().enumerate() {
            if i > 0 {
                out.push(*combinator);
            }
            compound.iter().for_each(|s| write_simple(&mut out, s));
        }
    }
    out
}

fn value(d: &Document, at: usize, name: &str) -> Option<String> {
    let item = &d.items[at];
    if name == "class" {
        return (!item.classes.is_empty()).then(|| item.classes.join(" "));
    }
    item.attributes.iter().find(|(n, _)| *n == name).map(|(_, v)| (*v).into())
}

fn is(d: &Document, at: usize, simple: &Simple) -> bool {
    let item = &d.items[at];
    let place = |of_type: bool| -> (i32, i32) {
        let siblings: Vec<usize> = d.siblings(at).into_iter().filter(|i| !of_type || d.items[*i].name == item.name).collect();
        let index = siblings.iter().position(|i| *i == at).unwrap();
        (index as i32 + 1, (siblings.len() - index) as i32)
    };
    match simple {
        Simple::Type(name) => item.name.trim_start_matches("o:") == *name,
        Simple::Any => true,
        Simple::Id(id) => item.id == Some(id),
        Simple::Class(class) => item.classes.contains(class),
        Simple::Attribute(name) => value(d, at, name).is_some(),
        Simple::AttributeIs(name, operator, expected, any_case) => {
            let Some(mut value) = value(d, at, name) else { return false };
            let mut expected = (*expected).to_string();
            if *any_case {
                value = value.to_ascii_lowercase();
                expected = expected.to_ascii_lowercase();
            }
            match *operator {
                "=" => value == expected,
                "~=" => value.split(' ').any(|w| w == expected) && !expected.is_empty() && !expected.contains(' '),
                "|=" => value == expected || value.starts_with(&format!("{expected}-")),
                _ if expected.is_empty() => false,
                "^=" => value.starts_with(&expected),
                "$=" => value.ends_with(&expected),
                _ => value.contains(&expected),
            }
        }
        Simple::Nth(a, b, of_type, last) => {
            let place = place(*of_type);
            let index = if *last { place.1 } else { place.0 };
            (0..50).any(|n| a * n + b == index)
        }
        Simple::First(t) => place(*t).0 == 1,
        Simple::Last(t) => place(*t).1 == 1,
        Simple::Only(t) => place(*t) == (1, 1),
        Simple::Empty => item.empty,
        Simple::Root => item.parent.is_none(),
        Simple::Scope => at == d.scope,
        Simple::Not(inner) => !inner.iter().all(|s| is(d, at, s)),
    }
}

pub fn matches(d: &Document, at: usize, parts: &[(char, Vec<Simple>)]) -> bool {
    let Some(((combinator, last), rest)) = parts.split_last() else { return true };
    if !last.iter().all(|s| is(d, at, s)) {
        return false;
    }
    if rest.is_empty() {
        return true;
    }
    let before: Vec<usize> = d.siblings(at).into_iter().filter(|i| *i < at).collect();
    let ancestors = d.ancestors(at);
    match combinator {
        ' ' => ancestors.iter().any(|a| matches(d, *a, rest)),
        '>' => ancestors.first().is_some_and(|a| matches(d, *a, rest)),
        '+' => before.last().is_some_and(|b| matches(d, *b, rest)),
        _ => before.iter().any(|b| matches(d, *b, rest)),
    }
}

fn check<C: Chooser>(ch: &mut C, d: &Document, list: &[Complex]) {
    let selector = written(list);
    vc::note!(ch, "{selector} from {} of {}", d.scope, d.source);
    let order = d.order();
    let matching: Vec<usize> = order.iter().copied().filter(|at| list.iter().any(|c| matches(d, *at, &c.parts))).collect();
    let inside: Vec<usize> = matching.iter().copied().filter(|at| d.scope == 0 || d.ancestors(*at).contains(&d.scope)).collect();
    // among all, selecting from the document; from the root its descendants
    let number = |e: &oxvg_ast::element::Element| -> usize {
        let attribute = e.get_attribute_local(&"data-n".into()).expect("a number");
        attribute.value().to_value_string(Default::default()).expect("written").parse().expect("a number")
    };
    let scoped = selector.contains(":scope");
    let result = parse(&d.source, |document, _| {
        let document = document.element().expect("the document");
        let elements: Vec<_> = document.breadth_first().filter(|e| e.node_type() == oxvg_ast::node::Type::Element).collect();
        assert!(elements.iter().map(number).eq(order.iter().copied()), "the elements are there in order");
        let scope = elements[order.iter().position(|i| *i == d.scope).unwrap()];
        let (from, expected) = if d.scope == 0 && !scoped {
            (document, inside)
        } else {
            (scope, inside.into_iter().filter(|at| *at != d.scope).collect())
        };
        vc::note!(ch, "expected {expected:?}");
        let selected = from.select(&selector);
        assert!(selected.is_ok(), "the selector is supported");
        let Ok(selected) = selected else { return };
        let selected: Vec<_> = selected.collect();
        assert!(selected.iter().all(|e| e.node_type() == oxvg_ast::node::Type::Element), "only elements are selected");
        let selected: Vec<usize> = selected.iter().map(number).collect();
        vc::note!(ch, "selected {selected:?}");
        assert!(selected == expected, "exactly the matching elements are selected, each once and in order");
        // one at a time
        if !scoped {
            let selector = Selector::new(&selector).unwrap();
            for element in elements {
                assert!(selector.matches_naive(&SelectElement::new(element)) == matching.contains(&number(&element)), "an element matches by itself exactly if it is selected");
            }
        }
    });
    assert!(result.is_ok(), "the document is read");
    ch.reached();
}

/// One simple selector on a small document.
pub fn simples<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(2);
    let complex = Complex { parts: vec![(' ', compound(ch, n, false))] };
    let limit = 1 + ch.below(6);
    let d = Document::any(ch, limit);
    check(ch, &d, &[complex]);
}

pub fn lists<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(2);
    let list: Vec<Complex> = (0..n).map(|_| complex(ch)).collect();
    let limit = 1 + ch.below(14);
    let d = Document::any(ch, limit);
    check(ch, &d, &list);
}
