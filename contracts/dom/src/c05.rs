//! C05: an element's attributes as an ordered map keyed by namespace and local name.
use crate::world::{allocator, element_data};
use oxvg_ast::element::Element;
use oxvg_collections::{
    attribute::{Attr, AttrId},
    element::ElementId,
    name::{NS, Prefix},
};
use oxvg_serialize::{PrinterOptions, ToValue as _};
use vc::Chooser;

const SVG: &str = "http://www.w3.org/2000/svg";
const XLINK: &str = "http://www.w3.org/1999/xlink";
const XML: &str = "http://www.w3.org/XML/1998/namespace";
const XMLNS: &str = "http://www.w3.org/2000/xmlns/";

const NAMESPACES: [&str; 5] = [SVG, XLINK, XML, "u1", "u2"];
const LOCALS: [&str; 4] = ["id", "href", "lang", "foo"];
const ALIASES: [Option<&str>; 4] = [None, Some("xlink"), Some("xml"), Some("p")];
const VALUES: [&str; 4] = ["v0", "v1", "v2", "v3"];

/// What is stored of an attribute.
#[derive(Clone, PartialEq, Debug)]
pub struct Entry {
    ns: String,
    local: String,
    alias: Option<String>,
    value: String,
}

impl Entry {
    fn is(&self, ns: &str, local: &str) -> bool {
        self.ns == ns && self.local == local
    }
}

fn entry(attr: &Attr) -> Entry {
    let attr: &Attr = attr;
    Entry {
        ns: attr.prefix().ns().uri().to_string(),
        local: attr.local_name().to_string(),
        alias: attr.prefix().value().map(|v| v.to_string()),
        value: attr.to_value_string(PrinterOptions::default()).expect("printable"),
    }
}

fn entries(element: &Element) -> Vec<Entry> {
    element.attributes().as_slice().iter().map(entry).collect()
}

fn id(owner: &ElementId<'static>, ns: &'static str, alias: Option<&'static str>, local: &'static str) -> AttrId<'static> {
    owner.parse_attr_id(&Prefix::new(ns.into(), alias.map(Into::into)), local.into())
}

/// One operation on the attributes.
fn operate<C: Chooser>(ch: &mut C, element: &Element<'static, 'static>, model: &mut Vec<Entry>, names: &[(&'static str, &'static str)], aliases: &[Option<&'static str>], values: usize) {
    let owner = element.qual_name().clone();
    let kind = ch.below(6);
    match kind {
        0 | 1 => {
            let (ns, local) = names[ch.below(names.len())];
            let alias = aliases[ch.below(aliases.len())];
            let value = VALUES[ch.below(values)];
            vc::note!(ch, "set {ns} {local} written {alias:?} to {value}");
            let attr = Attr::new(id(&owner, ns, alias, local), value);
            let new = entry(&attr);
            assert!(new.is(ns, local) && new.alias.as_deref() == alias && new.value == value, "an attribute has the name and value it was made of");
            let place = model.iter().position(|e| e.is(ns, local));
            let old = place.map(|i| model[i].clone());
            match place {
                Some(i) => model[i] = new,
                None => model.push(new),
            }
            if kind == 0 {
                let returned = element.attributes().set_named_item(attr);
                assert!(returned.as_ref().map(entry) == old, "setting returns the attribute it replaces");
            } else {
                element.set_attribute(attr);
            }
        }
        2 | 3 => {
            let (ns, local) = names[ch.below(names.len())];
            let alias = aliases[ch.below(aliases.len())];
            vc::note!(ch, "remove {ns} {local} written {alias:?}");
            let name = id(&owner, ns, alias, local);
            let old = model.iter().position(|e| e.is(ns, local)).map(|i| model.remove(i));
            let returned = if kind == 2 { element.remove_attribute(&name) } else { element.attributes().remove_named_item(&name) };
            assert!(returned.as_ref().map(entry) == old, "removing returns the attribute of that name");
        }
        4 => {
            let keep: Vec<bool> = model.iter().map(|_| ch.flag()).collect();
            vc::note!(ch, "keep {keep:?}");
            let mut seen = vec![];
            element.attributes().retain(|a| {
                seen.push(entry(a));
                keep[seen.len() - 1]
            });
            assert!(seen == *model, "filtering asks once about each attribute, in order");
            let mut i = 0;
            model.retain(|_| {
                i += 1;
                keep[i - 1]
            });
        }
        _ => {
            let (ns, local) = names[ch.below(names.len())];
            let alias = aliases[ch.below(aliases.len())];
            let value = VALUES[ch.below(values)];
            vc::note!(ch, "change {ns} {local} written {alias:?} to {value} in place");
            let name = id(&owner, ns, alias, local);
            let found = element.get_attribute_node_mut(&name);
            let place = model.iter().position(|e| e.is(ns, local));
            assert!(found.is_some() == place.is_some(), "the mutable lookup finds exactly the stored name");
            if let Some(mut found) = found {
                let place = place.unwrap();
                assert!(entry(&found) == model[place], "the mutable lookup finds the attribute of that name");
                let new = Attr::new(name, value);
                model[place] = entry(&new);
                *found = new;
            }
        }
    }
}

/// Every lookup agrees with the model.
fn check(element: &Element<'static, 'static>, model: &[Entry], names: &[(&'static str, &'static str)], aliases: &[Option<&'static str>]) {
    assert!(entries(element) == model, "the attributes are exactly the prescribed ones, in order");
    let attributes = element.attributes();
    assert!(attributes.len() == model.len() && attributes.is_empty() == model.is_empty(), "length");
    assert!(element.has_attributes() != model.is_empty(), "whether there are any");
    for (i, e) in model.iter().enumerate() {
        assert!(attributes.item(i).as_deref().map(entry).as_ref() == Some(e), "lookup by index");
        assert!(!model[..i].iter().any(|f| f.is(&e.ns, &e.local)), "no two attributes of one name");
    }
    assert!(attributes.item(model.len()).is_none(), "nothing behind the last index");
    let listed: Vec<Entry> = attributes.clone().into_iter().map(|a| entry(&a)).collect();
    assert!(listed == model, "iteration gives each attribute, in order");
    let mut listed = vec![];
    let mut iter = element.attributes().into_iter_mut();
    while let Some(a) = iter.next() {
        listed.push(entry(&a));
        drop(a);
    }
    assert!(listed == model, "mutable iteration gives each attribute, in order");
    let named: Vec<std::cell::Ref<AttrId>> = element.get_attribute_names();
    assert!(
        named.len() == model.len() && named.iter().zip(model).all(|(n, e)| n.prefix().ns().uri().as_str() == e.ns && n.local_name().as_str() == e.local),
        "the names are those of the attributes, in order"
    );
    drop(named);
    let owner = element.qual_name().clone();
    for &(ns, local) in names {
        let expected = model.iter().find(|e| e.is(ns, local));
        for &alias in aliases {
            let name = id(&owner, ns, alias, local);
            assert!(element.get_attribute(&name).as_deref().map(entry).as_ref() == expected, "lookup by name");
            assert!(attributes.get_named_item(&name).as_deref().map(entry).as_ref() == expected, "lookup by name in the collection");
            assert!(attributes.get_named_item_mut(&name).as_deref().map(entry).as_ref() == expected, "mutable lookup by name");
            assert!(element.has_attribute(&name) == expected.is_some(), "whether there is one of that name");
        }
        assert!(element.get_attribute_ns(&NS::new(ns.into()), &local.into()).as_deref().map(entry).as_ref() == expected, "lookup by namespace and local name");
        let plain = model.iter().find(|e| e.alias.is_none() && e.local == local);
        assert!(element.get_attribute_local(&local.into()).as_deref().map(entry).as_ref() == plain, "lookup by unprefixed local name");
    }
}

fn element<C: Chooser>(ch: &mut C) -> Element<'static, 'static> {
    let _ = &ch;
    Element::new(allocator(2).alloc(element_data())).expect("element")
}

/// Any history of edits from the empty list.
pub fn histories<C: Chooser>(ch: &mut C) {
    let element = element(ch);
    let mut names = vec![];
    for ns in NAMESPACES {
        for local in LOCALS {
            names.push((ns, local));
        }
    }
    let mut model = vec![];
    let steps = ch.below(14);
    for _ in 0..steps {
        operate(ch, &element, &mut model, &names, &ALIASES, VALUES.len());
        assert!(entries(&element) == model, "the attributes are exactly the prescribed ones, in order");
    }
    check(&element, &model, &names, &ALIASES);
    ch.reached();
}

/// Edits of many attributes.
pub fn many<C: Chooser>(ch: &mut C) {
    const LOCALS: [&str; 20] =
        ["id", "href", "foo", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "x", "y", "cx", "cy", "width", "data-a", "data-b"];
    let element = element(ch);
    let mut names = vec![];
    for ns in NAMESPACES {
        for local in LOCALS {
            names.push((ns, local));
        }
    }
    let mut model = vec![];
    for at in 0..ch.below(names.len()) {
        if ch.below(3) == 0 {
            continue;
        }
        let (ns, local) = names[at];
        let attr = Attr::new(id(element.qual_name(), ns, None, local), "v");
        model.push(entry(&attr));
        element.set_attribute(attr);
    }
    for _ in 0..4 {
        operate(ch, &element, &mut model, &names, &ALIASES, VALUES.len());
        assert!(entries(&element) == model, "the attributes are exactly the prescribed ones, in order");
    }
    let at = ch.below(names.len() - 5);
    check(&element, &model, &names[at..at + 5], &ALIASES);
    ch.reached();
}

/// All histories of a few steps over names that are easy to confuse.
pub fn short_histories<C: Chooser>(ch: &mut C) {
    let element = element(ch);
    let names = [(SVG, "href"), (XLINK, "href"), ("u1", "href"), (SVG, "foo")];
    let aliases = [None, Some("p")];
    let mut model = vec![];
    let steps = ch.below(4);
    for _ in 0..steps {
        operate(ch, &element, &mut model, &names, &aliases, 1);
        assert!(entries(&element) == model, "the attributes are exactly the prescribed ones, in order");
    }
    check(&element, &model, &names, &aliases);
    ch.reached();
}

/// Replacing all attributes by those of another collection.
pub fn replaced<C: Chooser>(ch: &mut C) {
    let (one, other) = (element(ch), element(ch));
    let names: Vec<_> = NAMESPACES.iter().map(|&ns| (ns, "href")).chain(LOCALS.iter().map(|&l| (SVG, l))).collect();
    let (mut a, mut b) = (vec![], vec![]);
    for _ in 0..ch.below(5) {
        operate(ch, &one, &mut a, &names, &ALIASES, 4);
    }
    for _ in 0..ch.below(5) {
        operate(ch, &other, &mut b, &names, &ALIASES, 4);
    }
    one.set_attributes(&other.attributes());
    check(&one, &b, &names, &ALIASES);
    ch.reached();
}

/// Sorting reorders the attributes by the documented keys.
pub fn sorted<C: Chooser>(ch: &mut C) {
    let n = ch.below(8);
    sort(ch, n);
}

pub fn sorted_many<C: Chooser>(ch: &mut C) {
    let n = ch.below(80);
    sort(ch, n);
}

fn sort<C: Chooser>(ch: &mut C, n: usize) {
    const LOCALS: [&str; 21] = [
        "id", "x", "x1", "fill", "fill-opacity", "stroke-width", "foo", "xmlns", "stroke", "fill-rule", "y", "cx", "foo-bar", "opacity", "z", "aa", "fill-a-b", "stroke-line-join", "foo-x-y-z", "x-", "foo--a",
    ];
    let element = element(ch);
    let mut model: Vec<Entry> = vec![];
    for _ in 0..n {
        let (ns, alias) = match ch.below(5) {
            0 | 1 => (SVG, None),
            2 => (XMLNS, Some("xmlns")),
            3 => (XLINK, Some("xlink")),
            _ => ("u1", Some("a")),
        };
        let local = if ns == XMLNS { ch.one_of(&["a", "xlink", "foo"]) } else { ch.one_of(&LOCALS) };
        let attr = if local == "xmlns" { Attr::XMLNS(SVG.into()) } else { Attr::new(id(element.qual_name(), ns, alias, local), VALUES[ch.below(4)]) };
        let new = entry(&attr);
        if !model.iter().any(|e| e.is(&new.ns, &new.local)) {
            model.push(new);
            element.set_attribute(attr);
        }
    }
    let mut order: Vec<&str> = vec![];
    for _ in 0..ch.below(5) {
        let name = ch.one_of(&["fill", "stroke", "x", "id", "foo"]);
        if !order.contains(&name) {
            order.push(name);
        }
    }
    let front = ch.flag();
    vc::note!(ch, "{:?} by {order:?} with declarations first: {front}", model.iter().map(|e| (&e.alias, &e.local)).collect::<Vec<_>>());
    element.attributes().sort(&order, front);
    let after = entries(&element);
    assert!(after.len() == model.len() && model.iter().all(|e| after.contains(e)), "sorting keeps exactly the attributes");
    let key = |e: &Entry| {
        let declaration = e.alias.is_none() && e.local == "xmlns";
        let class = if front && declaration {
            0
        } else if front && e.ns == XMLNS {
            1
        } else if e.ns != SVG {
            2
        } else {
            3
        };
        let part = e.local.split('-').next().unwrap_or_default();
        let place = order.iter().position(|o| *o == part).unwrap_or(order.len());
        (class, place, e.alias.clone(), e.local.clone())
    };
    for pair in after.windows(2) {
        assert!(key(&pair[0]) <= key(&pair[1]), "sorted by the documented keys");
    }
    ch.reached();
}
