//! C24: positions in the source.
use oxvg_ast::node::Ranges;
use oxvg_ast::parse::roxmltree::parse;
use std::ops::Range;
use vc::Chooser;

/// The line and column of a position, read from the start.
fn position(cursor: usize, source: &[u8]) -> (usize, usize) {
    let (mut line, mut column) = (0, 0);
    let mut i = 0;
    while i < cursor {
        if source[i] == b'\n' {
            line += 1;
            column = 0;
        } else {
            column += 1;
        }
        i += 1;
    }
    (line, column)
}

fn check(cursor: usize, source: &[u8]) {
    let (line, column) = Ranges::to_line_and_col(cursor, source);
    let expected = position(cursor, source);
    assert!(line == expected.0, "the line is the number of newlines before");
    assert!(column == expected.1, "the column is the distance from the last newline before");
}

pub fn lines<const N: usize, C: Chooser>(ch: &mut C) {
    let mut source = [0u8; N];
    for byte in &mut source {
        *byte = ch.byte();
    }
    let len = ch.below(N + 1);
    let cursor = ch.below(N + 1);
    ch.require(cursor <= len);
    vc::note!(ch, "position {cursor} of {:?}", &source[..len]);
    check(cursor, &source[..len]);
    ch.reached();
}

pub fn small<C: Chooser>(ch: &mut C) {
    let len = ch.below(10);
    let source: Vec<u8> = (0..len).map(|_| if ch.flag() { b'\n' } else { b'a' }).collect();
    let cursor = ch.below(len + 1);
    vc::note!(ch, "position {cursor} of {source:?}");
    check(cursor, &source);
    ch.reached();
}

pub fn long<C: Chooser>(ch: &mut C) {
    let len = ch.below(4001);
    let gap = 1 + ch.below(60);
    let mut source: Vec<u8> = (0..len).map(|_| if ch.below(gap) == 0 { b'\n' } else { ch.byte() }).collect();
    if ch.flag() {
        source.iter_mut().for_each(|b| *b = b.max(&mut b' ').to_owned());
    }
    let cursor = ch.below(len + 1);
    vc::note!(ch, "position {cursor} of {:?}", &source[..cursor]);
    check(cursor, &source);
    ch.reached();
}

struct Element {
    range: Range<usize>,
    attributes: Vec<(String, Ranges)>,
}

const ELEMENTS: [&str; 6] = ["g", "path", "text", "linearGradient", "x:unknown", "unknown"];
const ATTRIBUTES: [&str; 8] = ["id", "fill", "d", "class", "x:made-up", "data-é", "stroke-width", "xml:space"];
const VALUES: [&str; 7] = ["", "a", "red", "M0 0\n1 1", " é ", "&lt;&amp;", "10px"];
const CONTENT: [&str; 6] = ["", "\n", "text", "<!-- <g/> -->", "<![CDATA[<g/>]]>", "é\n\n"];

fn element<C: Chooser>(ch: &mut C, source: &mut String, elements: &mut Vec<Element>, depth: usize, root: bool) {
    let index = elements.len();
    let start = source.len();
    elements.push(Element { range: start..start, attributes: vec![] });
    let name = if root { "svg" } else { ch.one_of(&ELEMENTS) };
    source.push('<');
    source.push_str(name);
    if root {
        source.push_str(" xmlns=\"http://www.w3.org/2000/svg\" xmlns:x='urn:x'");
    }
    let from = ch.below(ATTRIBUTES.len());
    for i in 0..ch.below(4) {
        let name = ATTRIBUTES[(from + i) % ATTRIBUTES.len()];
        source.push_str(ch.one_of(&[" ", "\n\t", "  "]));
        let start = source.len();
        source.push_str(name);
        let after_name = source.len();
        source.push_str(ch.one_of(&["=", " = ", "=\n"]));
        let quote = ch.one_of(&['"', '\'']);
        source.push(quote);
        let value = source.len();
        source.push_str(ch.one_of(&VALUES));
        let after_value = source.len();
        source.push(quote);
        let ranges = Ranges { range: start..source.len(), name: start..after_name, value: value..after_value };
        elements[index].attributes.push((name.into(), ranges));
    }
    source.push_str(ch.one_of(&["", " ", "\n"]));
    if ch.flag() && !root {
        source.push_str("/>");
    } else {
        source.push('>');
        for _ in 0..ch.below(4) {
            source.push_str(ch.one_of(&CONTENT));
            if depth > 0 {
                element(ch, source, elements, depth - 1, false);
            }
        }
        source.push_str(ch.one_of(&CONTENT));
        source.push_str("</");
        source.push_str(name);
        source.push_str(ch.one_of(&["", " "]));
        source.push('>');
    }
    elements[index].range.end = source.len();
}

pub fn ranges<C: Chooser>(ch: &mut C) {
    let depth = ch.below(4);
    let mut source = String::from(ch.one_of(&["", "<?xml version=\"1.0\"?>\n", "\n\n", "<!--é-->"]));
    if source.starts_with('\n') {
        source.push_str("<!---->");
    }
    let mut expected = vec![];
    element(ch, &mut source, &mut expected, depth, true);
    vc::note!(ch, "{source}");
    let result = parse(&source, |document, _| {
        let mut is = vec![];
        let mut rest = vec![document];
        while let Some(node) = rest.pop() {
            let mut children: Vec<_> = node.child_nodes_iter().collect();
            children.reverse();
            rest.extend(children);
            if node.node_type() == oxvg_ast::node::Type::Element {
                is.extend(node.element());
            }
        }
        assert!(is.len() == expected.len(), "every element has a range");
        for (element, expected) in is.iter().zip(&expected) {
            assert!(*element.range() == Some(expected.range.clone()), "the range of an element covers its text");
            for (name, expected) in &expected.attributes {
                let found: Vec<_> = element
                    .attribute_ranges()
                    .iter()
                    .filter(|(id, _)| if let Some(p) = id.prefix().value() { format!("{p}:{}", id.local_name()) == *name } else { id.local_name().to_string() == *name })
                    .collect();
                assert!(found.len() == 1, "an attribute has its ranges");
                let is = found[0].1;
                assert!(is.range == expected.range, "the range of an attribute covers its text");
                assert!(is.name == expected.name, "the range of the name of an attribute covers its text");
                assert!(is.value == expected.value, "the range of the value of an attribute covers its text");
            }
            assert!(element.attribute_ranges().len() == expected.attributes.len(), "there are no other ranges");
        }
    });
    assert!(result.is_ok(), "the document is read");
    ch.reached();
}
