//! C21: element and attribute ids. `names` lists the known names.
use crate::c20::{KNOWN, atom};
use crate::names::{ATTRIBUTES, ELEMENTS};
use oxvg_collections::{
    attribute::{Attr, AttrId},
    element::ElementId,
    name::Prefix,
};
use vc::Chooser;

/// Words near the known names.
fn mangled<C: Chooser>(ch: &mut C, name: &'static str) -> &'static str {
    let text = match ch.below(6) {
        0 => name.to_string(),
        1 => format!("{name}x"),
        2 => name[..name.len() - 1].to_string(),
        3 => name.to_uppercase(),
        4 => name.replacen('-', "", 1),
        _ => format!("x{name}"),
    };
    vc::keep(text)
}

fn prefix<C: Chooser>(ch: &mut C) -> (Prefix<'static>, &'static str, Option<&'static str>) {
    let n = ch.below(8);
    let (ns, usual) = if n < 6 { KNOWN[n] } else { ("http://example.com/", Some("ex")) };
    let alias = if ch.flag() { usual } else { ch.one_of(&[None, Some("svg"), Some("xlink"), Some("q")]) };
    let ns_atom = atom(ch, ns);
    (Prefix::new(ns_atom, alias.map(|a| a.into())), ns, alias)
}

/// Which elements the known and nearby names stand for.
pub fn elements<C: Chooser>(ch: &mut C) {
    let (_, name) = &ELEMENTS[ch.below(ELEMENTS.len())];
    let local = mangled(ch, name);
    let (p, ns, alias) = prefix(ch);
    let known = ELEMENTS.iter().find(|(_, n)| *n == local && ns == KNOWN[0].0);
    let local_atom = atom(ch, local);
    let id = ElementId::new(p.clone(), local_atom);
    vc::note!(ch, "{p:?} {local:?} is {id:?}");
    assert!(id.local_name().as_str() == local, "the local name is read back");
    assert!(id.prefix().ns().uri().as_str() == ns, "the namespace is read back");
    assert!(id.prefix().value().as_deref() == alias, "the prefix is read back");
    match known {
        Some((expected, _)) => {
            assert!(id == *expected, "a known name is that of its element");
            assert!(std::mem::discriminant(id.unaliased()) == std::mem::discriminant(expected), "without the alias it is the known id");
            assert!(matches!(id, ElementId::Aliased { .. }) == p.is_aliased(), "aliased exactly when its prefix is");
            assert!(id.categories().bits() == expected.categories().bits() && id.permitted_categories().bits() == expected.permitted_categories().bits(), "an alias has the categories of its element");
            assert!(id.permitted_elements() == expected.permitted_elements() && id.expected_attributes() == expected.expected_attributes(), "an alias permits what its element permits");
            assert!(id.expected_attribute_groups() == expected.expected_attribute_groups(), "an alias has the attribute groups of its element");
        }
        None => assert!(matches!(id, ElementId::Unknown(_)), "an unknown name is no known element"),
    }
    ch.reached();
}

/// Each id is called by its name.
pub fn known<C: Chooser>(ch: &mut C) {
    if ch.flag() {
        let (id, name) = &ELEMENTS[ch.below(ELEMENTS.len())];
        vc::note!(ch, "{id:?}");
        assert!(id.local_name().as_str() == *name, "the element has its name");
        assert!(*id.prefix() == Prefix::SVG && id.prefix().value().is_none(), "the element is in the SVG namespace");
    } else {
        let (id, prefix, name) = &ATTRIBUTES[ch.below(ATTRIBUTES.len())];
        vc::note!(ch, "{id:?}");
        assert!(id.local_name().as_str() == *name, "the attribute has its name");
        assert!(id.prefix() == prefix && id.prefix().value() == prefix.value(), "the attribute has its prefix");
    }
    ch.reached();
}

/// The attribute a name stands for on an element: one of those the element itself
/// expects, or else of its groups, or else an unknown attribute of this name.
pub fn attributes<C: Chooser>(ch: &mut C, near: bool) {
    let (element, _) = &ELEMENTS[ch.below(ELEMENTS.len())];
    let (_, attr_prefix, name) = &ATTRIBUTES[ch.below(ATTRIBUTES.len())];
    let local = if near { mangled(ch, name) } else { name };
    let (p, ns, alias) = if near && ch.flag() {
        prefix(ch)
    } else {
        let alias = if ch.flag() { Some("q") } else { None };
        let alias_atom = alias.map_or_else(|| attr_prefix.value(), |a: &'static str| Some(a.into()));
        let p = Prefix::new(attr_prefix.ns().uri().clone(), alias_atom);
        let ns = KNOWN.iter().find(|k| k.0 == attr_prefix.ns().uri().as_str()).map_or("", |k| k.0);
        let usual = KNOWN.iter().find(|k| k.0 == ns).and_then(|k| k.1);
        (p, ns, alias.or(usual))
    };
    let local_atom = if near { atom(ch, local) } else { local.into() };
    // the answer is the same when the lookup is repeated, and for an alias of the element
    let aliased = ElementId::Aliased { prefix: Prefix::new(KNOWN[0].0.into(), Some("s".into())), element_id: Box::new(element.clone()) };
    for element_or_alias in [element, element, &aliased] {
        let id = element_or_alias.parse_attr_id(&p, local_atom.clone());
        vc::note!(ch, "on {element_or_alias:?}, {p:?} {local:?} is {id:?}");
        assert!(id.local_name().as_str() == local, "the local name is read back");
        assert!(id.prefix().ns().uri().as_str() == ns, "the namespace is read back");
        assert!(id.prefix().value().as_deref() == alias, "the prefix is read back");

        let named = |a: &AttrId| a.local_name().as_str() == local && a.prefix().ns().uri().as_str() == ns;
        let own = element.expected_attributes().iter().any(named);
        let groups = element.expected_attribute_groups();
        let grouped = ATTRIBUTES.iter().any(|(a, _, _)| named(a) && a.attribute_group().intersects(groups));
        assert!(matches!(id, AttrId::Unknown(_)) == !(own || grouped), "known exactly when the element expects it");
        if own {
            assert!(element.expected_attributes().contains(&id), "the element's own attribute comes first");
        } else if grouped {
            assert!(id.attribute_group().intersects(groups), "the attribute is of a group of the element");
        }
        if own || grouped {
            assert!(matches!(id, AttrId::Aliased { .. }) == p.is_aliased(), "aliased exactly when its prefix is");
            assert!(element.is_permitted_attribute(&id), "a known attribute is permitted");
        }

        let attr = Attr::new(id.clone(), "1");
        assert!(*attr.name() == id, "an attribute is called by its id");
        assert!(attr.local_name().as_str() == local, "an attribute has its local name");
        assert!(attr.prefix().ns().uri().as_str() == ns, "an attribute has its namespace");
        assert!(attr.prefix().value().as_deref() == alias, "an attribute has its prefix");
    }
    ch.reached();
}

/// Every local name of at most `N` ASCII characters in the SVG namespace is that of the
/// known element of this name, if there is one.
pub fn short_names<C: Chooser>(ch: &mut C) {
    const N: usize = 3;
    let n = ch.below(N + 1);
    let mut bytes = [0u8; N];
    for b in &mut bytes {
        *b = ch.byte() & 127;
    }
    let bytes: &'static [u8; N] = vc::keep(bytes);
    // SAFETY: the bytes are ASCII
    let local = unsafe { std::str::from_utf8_unchecked(&bytes[..n]) };
    vc::note!(ch, "local name {local:?}");
    let id = std::mem::ManuallyDrop::new(ElementId::new(Prefix::SVG, oxvg_collections::atom::Atom::Static(local)));
    // the known names of at most three characters
    let known = local == "a" || local == "g" || local == "set" || local == "svg" || local == "use";
    assert!(matches!(*id, ElementId::Unknown(_)) == !known, "known exactly when the name is");
    assert!(!matches!(*id, ElementId::Aliased { .. }), "not aliased");
    assert!(id.local_name().as_str() == local, "the local name is read back");
    ch.reached();
}
