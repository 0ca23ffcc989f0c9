//! C27: computed styles.
use crate::c28::{CLASSES, Complex, Document, IDS, Item, NAMES, Simple, complex, matches, written};
use oxvg_ast::parse::roxmltree::parse;
use oxvg_ast::style::{ComputedStyles, Mode, root};
use oxvg_collections::attribute::AttrId;
use oxvg_serialize::ToValue as _;
use std::fmt::Write as _;
use vc::Chooser;

/// Properties, some of their values, and whether they are inherited.
const PROPERTIES: [(&str, [&str; 5], bool); 3] = [
    ("fill", ["red", "tan", "pink", "gold", "peru"], true),
    ("stroke-width", ["1", "2", "3", "4", "5"], true),
    ("opacity", [".1", ".2", ".3", ".4", ".5"], false),
];

fn id(property: usize) -> AttrId<'static> {
    [AttrId::Fill, AttrId::StrokeWidth, AttrId::Opacity][property].clone()
}

#[derive(Debug, Clone, Copy)]
struct Declaration {
    property: usize,
    value: usize,
    important: bool,
}

#[derive(Debug)]
struct Rule {
    selectors: Vec<Complex>,
    declarations: Vec<Declaration>,
    media: bool,
}

#[derive(Debug, Default)]
struct Own {
    attributes: Vec<Declaration>,
    inline: Vec<Declaration>,
}

fn declarations<C: Chooser>(ch: &mut C, most: usize, important: bool) -> Vec<Declaration> {
    let n = ch.below(most + 1);
    (0..n).map(|_| Declaration { property: ch.below(PROPERTIES.len()), value: ch.below(5), important: important && ch.below(4) == 0 }).collect()
}

fn text(declarations: &[Declaration]) -> String {
    let mut out = String::new();
    for d in declarations {
        let (name, values, _) = PROPERTIES[d.property];
        write!(out, "{name}:{}{};", values[d.value], if d.important { "!important" } else { "" }).unwrap();
    }
    out
}

fn specificity(complex: &Complex) -> (usize, usize, usize) {
    fn simple(s: &Simple) -> (usize, usize, usize) {
        match s {
            Simple::Any => (0, 0, 0),
            Simple::Type(_) => (0, 0, 1),
            Simple::Id(_) => (1, 0, 0),
            Simple::Not(inner) => sum(inner),
            _ => (0, 1, 0),
        }
    }
    fn sum(all: &[Simple]) -> (usize, usize, usize) {
        all.iter().map(simple).fold((0, 0, 0), |a, b| (a.0 + b.0, a.1 + b.1, a.2 + b.2))
    }
    complex.parts.iter().map(|(_, c)| sum(c)).fold((0, 0, 0), |a, b| (a.0 + b.0, a.1 + b.1, a.2 + b.2))
}

/// What the cascade selects for the element itself: the highest of importance, kind, specificity and order.
fn cascaded(d: &Document, own: &[Own], rules: &[Rule], at: usize, property: usize) -> Option<(usize, bool)> {
    type Rank = (bool, u8, (usize, usize, usize), usize);
    let mut all: Vec<(Rank, (usize, bool))> = vec![];
    for declaration in own[at].attributes.iter().filter(|x| x.property == property) {
        all.push(((false, 0, (0, 0, 0), all.len()), (declaration.value, false)));
    }
    for rule in rules {
        let Some(specificity) = rule.selectors.iter().filter(|s| matches(d, at, &s.parts)).map(specificity).max() else { continue };
        for declaration in rule.declarations.iter().filter(|x| x.property == property) {
            all.push(((declaration.important, 1, specificity, all.len()), (declaration.value, rule.media)));
        }
    }
    for declaration in own[at].inline.iter().filter(|x| x.property == property) {
        all.push(((declaration.important, 2, (0, 0, 0), all.len()), (declaration.value, false)));
    }
    all.into_iter().max_by_key(|(rank, _)| *rank).map(|(_, value)| value)
}

fn computed(d: &Document, own: &[Own], rules: &[Rule], at: usize, property: usize) -> Option<(usize, bool)> {
    cascaded(d, own, rules, at, property).or_else(|| {
        let parent = d.items[at].parent?;
        PROPERTIES[property].2.then(|| computed(d, own, rules, parent, property)).flatten()
    })
}

fn element<C: Chooser>(ch: &mut C, d: &mut Document, own: &mut Vec<Own>, parent: Option<usize>, limit: usize) {
    let at = d.items.len();
    let name = if parent.is_none() { "svg" } else { ch.one_of(&NAMES[..5]) };
    let mut item = Item { parent, name, id: None, classes: vec![], attributes: vec![], empty: true };
    write!(d.source, "<{name} data-n=\"{at}\"").unwrap();
    if parent.is_none() {
        d.source.push_str(" xmlns=\"http://www.w3.org/2000/svg\"");
    }
    if ch.below(3) == 0 {
        let id = ch.one_of(&IDS);
        item.id = Some(id);
        item.attributes.push(("id", id));
        write!(d.source, " id=\"{id}\"").unwrap();
    }
    if ch.flag() {
        item.classes = vec![ch.one_of(&CLASSES)];
        write!(d.source, " class=\"{}\"", item.classes[0]).unwrap();
    }
    let mut attributes = declarations(ch, 2, false);
    attributes.dedup_by_key(|a| a.property);
    for a in &attributes {
        let (name, values, _) = PROPERTIES[a.property];
        write!(d.source, " {name}=\"{}\"", values[a.value]).unwrap();
        item.attributes.push((name, values[a.value]));
    }
    let inline = if ch.below(3) == 0 { declarations(ch, 2, true) } else { vec![] };
    if !inline.is_empty() {
        write!(d.source, " style=\"{}\"", text(&inline)).unwrap();
    }
    own.push(Own { attributes, inline });
    d.source.push('>');
    d.items.push(item);
    while d.items.len() < limit && ch.below(3) != 0 {
        d.items[at].empty = false;
        element(ch, d, own, Some(at), limit);
    }
    write!(d.source, "</{name}>").unwrap();
}

/// Leaves out what depends on where the style sheets are.
fn independent(complex: &mut Complex) {
    fn replace(s: &mut Simple) {
        match s {
            Simple::Not(inner) => inner.iter_mut().for_each(replace),
            Simple::Scope | Simple::Nth(_, _, false, true) | Simple::Last(false) | Simple::Only(false) | Simple::Empty => *s = Simple::Class("b"),
            _ => {}
        }
    }
    complex.parts.iter_mut().flat_map(|p| &mut p.1).for_each(replace);
}

fn check<C: Chooser>(ch: &mut C, limit: usize, most: usize) {
    let mut rules = vec![];
    for _ in 0..ch.below(most + 1) {
        let n = 1 + ch.below(2);
        let mut selectors: Vec<Complex> = (0..n).map(|_| complex(ch)).collect();
        selectors.iter_mut().for_each(independent);
        rules.push(Rule { selectors, declarations: declarations(ch, 3, true), media: ch.below(4) == 0 });
    }
    let mut d = Document { items: vec![], source: String::new(), scope: 0 };
    let mut own = vec![];
    element(ch, &mut d, &mut own, None, limit);
    // style sheets, which are not among the elements that are looked at
    let mut sheets = String::from("<style>");
    for rule in &rules {
        let body = format!("{}{{{}}}", written(&rule.selectors), text(&rule.declarations)).replace('>', "&gt;");
        if rule.media {
            write!(sheets, "@media print{{{body}}}").unwrap();
        } else {
            sheets.push_str(&body);
        }
        if ch.below(4) == 0 {
            sheets.push_str("</style><style>");
        }
    }
    sheets.push_str("</style>");
    let end = d.source.rfind("</svg>").unwrap();
    let source = format!("{}{sheets}</svg>", &d.source[..end]);
    d.items[0].empty = false;
    vc::note!(ch, "{source}");
    let result = parse(&source, |document, _| {
        let document = document.element().expect("the document");
        let styles: Vec<_> = root(document).collect();
        for element in document.breadth_first().filter(|e| e.node_type() == oxvg_ast::node::Type::Element) {
            let Some(number) = element.get_attribute_local(&"data-n".into()) else { continue };
            let at: usize = number.value().to_value_string(Default::default()).expect("written").parse().expect("a number");
            drop(number);
            let styles = ComputedStyles::default().with_all(element, &styles);
            assert!(styles.is_ok(), "styles are computed");
            let Ok(styles) = styles else { continue };
            for (property, (name, values, _)) in PROPERTIES.iter().enumerate() {
                let expected = computed(&d, &own, &rules, at, property);
                let is = styles.get(&id(property));
                let is = is.map(|(attr, mode)| (attr.value().to_value_string(Default::default()).expect("written"), mode));
                vc::note!(ch, "{name} of element {at}: expected {:?}, is {is:?}", expected.map(|(v, m)| (values[v], m)));
                assert!(is.as_ref().map(|v| v.0.trim_start_matches('0')) == expected.map(|v| values[v.0]), "the computed value is the one selected by the cascade");
                let dynamic = expected.is_some_and(|e| e.1);
                assert!(is.is_none_or(|v| v.1 == if dynamic { Mode::Dynamic } else { Mode::Static }), "a value is dynamic exactly if it is selected from an at-rule");
            }
        }
    });
    assert!(result.is_ok(), "the document is read");
    ch.reached();
}

pub fn small<C: Chooser>(ch: &mut C) {
    check(ch, 2, 2);
}

pub fn documents<C: Chooser>(ch: &mut C) {
    let limit = 1 + ch.below(8);
    check(ch, limit, 5);
}
