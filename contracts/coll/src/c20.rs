//! C20: names, prefixes and namespaces.
use oxvg_collections::{
    atom::Atom,
    attribute::AttrId,
    element::ElementId,
    name::{NS, Prefix, QualName},
};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vc::Chooser;

/// Well-known namespaces and their usual prefixes.
pub const KNOWN: [(&str, Option<&str>); 6] = [
    ("http://www.w3.org/2000/svg", None),
    ("http://www.w3.org/1999/xhtml", Some("html")),
    ("http://www.w3.org/XML/1998/namespace", Some("xml")),
    ("http://www.w3.org/2000/xmlns/", Some("xmlns")),
    ("http://www.w3.org/1999/xlink", Some("xlink")),
    ("http://www.w3.org/1998/Math/MathML", Some("mathml")),
];
const OTHER: [&str; 4] = ["http://example.com/", "svg", "http://www.w3.org/2000/sv", "http://www.w3.org/2000/svgs"];
const ALIASES: [Option<&str>; 9] = [None, Some("html"), Some("xml"), Some("xmlns"), Some("xlink"), Some("mathml"), Some("svg"), Some("a"), Some("XLINK")];

pub fn uri<C: Chooser>(ch: &mut C) -> &'static str {
    let n = ch.below(KNOWN.len() + OTHER.len());
    if n < KNOWN.len() { KNOWN[n].0 } else { OTHER[n - KNOWN.len()] }
}

/// The same characters stored in different ways.
pub fn atom<C: Chooser>(ch: &mut C, text: &'static str) -> Atom<'static> {
    match ch.below(3) {
        0 => Atom::Static(text),
        1 => Atom::from(text),
        _ => Atom::from(text.to_string()),
    }
}

fn hash<T: Hash>(value: &T) -> u64 {
    let mut h = DefaultHasher::new();
    value.hash(&mut h);
    h.finish()
}

/// Any prefix, with the namespace and the written form it was made of.
fn prefix<C: Chooser>(ch: &mut C) -> (Prefix<'static>, &'static str, Option<&'static str>) {
    let ns = uri(ch);
    let alias = ch.one_of(&ALIASES);
    let ns_atom = atom(ch, ns);
    let alias_atom = alias.map(|a| atom(ch, a));
    (Prefix::new(ns_atom, alias_atom), ns, alias)
}

/// Namespace and alias are kept by construction, and what is derived from them agrees.
pub fn construction<C: Chooser>(ch: &mut C) {
    let (p, ns, alias) = prefix(ch);
    vc::note!(ch, "namespace {ns:?} alias {alias:?} gives {p:?}");
    check_prefix(&p, ns, alias);
    ch.reached();
}

fn check_prefix(p: &Prefix, ns: &str, alias: Option<&str>) {
    assert!(p.ns().uri().as_str() == ns, "the namespace is read back");
    let value = std::mem::ManuallyDrop::new(p.value());
    assert!(value.as_deref() == alias, "the alias is read back");
    assert!(p.is_empty() == alias.is_none(), "empty exactly without an alias");
    let mut usual = None;
    for known in KNOWN {
        if known.0 == ns {
            usual = Some(known.1);
        }
    }
    assert!(p.is_aliased() == usual.is_some_and(|u| u != alias), "aliased exactly when a well-known namespace has an unusual prefix");
    let plain = p.unaliased();
    assert!(!plain.is_aliased(), "without the alias it is not aliased");
    assert!(plain.ns().uri().as_str() == ns, "without the alias the namespace is the same");
    if let Some(usual) = usual {
        let value = std::mem::ManuallyDrop::new(plain.value());
        assert!(value.as_deref() == usual, "without the alias it is the usual prefix");
    } else {
        let value = std::mem::ManuallyDrop::new(plain.value());
        assert!(value.as_deref() == alias, "an unknown namespace keeps its prefix");
    }
}

/// Two prefixes are equal exactly when their namespaces are.
pub fn pairs<C: Chooser>(ch: &mut C) {
    let (p, ns, alias) = prefix(ch);
    let (q, ns2, alias2) = prefix(ch);
    vc::note!(ch, "{p:?} and {q:?}");
    let equal = ns == ns2;
    assert!((p == q) == equal && (q == p) == equal, "prefixes are equal exactly when their namespaces are");
    assert!(!equal || hash(&p) == hash(&q), "equal prefixes have equal hashes");
    assert!(p.is_ns(q.ns()) == equal, "belonging to a namespace is being equal to it");
    assert!((p.ns() == q.ns()) == equal, "namespaces are equal exactly when their names are");
    assert!(!equal || hash(p.ns()) == hash(q.ns()), "equal namespaces have equal hashes");
    assert!(p.ns().partial_cmp(q.ns()) == Some(ns.cmp(ns2)), "namespaces are ordered by their names");
    assert!(p.cmp(&q) == alias.cmp(&alias2), "prefixes are ordered as they are written");
    ch.reached();
}

const LOCALS: [&str; 7] = ["svg", "href", "g", "d", "x", "Svg", "other"];

/// Qualified names and ids made of two names, each written in its own way.
pub fn names<C: Chooser>(ch: &mut C) {
    let (p, ns, alias) = prefix(ch);
    let (q, ns2, alias2) = prefix(ch);
    let a = ch.one_of(&LOCALS);
    let b = ch.one_of(&LOCALS);
    let equal = ns == ns2 && a == b;
    vc::note!(ch, "{p:?} {a:?} and {q:?} {b:?}");

    let n = QualName { prefix: p.clone(), local: atom(ch, a) };
    let m = QualName { prefix: q.clone(), local: atom(ch, b) };
    assert!((n == m) == equal, "names are equal exactly when namespace and local name are");
    assert!(!equal || hash(&n) == hash(&m), "equal names have equal hashes");
    let written = |alias: Option<&str>, local: &str| alias.map_or(local.to_string(), |p| format!("{p}:{local}"));
    assert!(n.to_string() == written(alias, a), "a name is written with its prefix");

    let order = alias.cmp(&alias2).then(a.cmp(b));
    let e = ElementId::new(p.clone(), n.local.clone());
    let f = ElementId::new(q.clone(), m.local.clone());
    assert!((e == f) == equal && (f == e) == equal, "elements are equal exactly when namespace and local name are");
    assert!(!equal || hash(&e) == hash(&f), "equal elements have equal hashes");
    assert!(!equal || e.info().bits() == f.info().bits(), "equal elements have the same flags");
    assert!(e.cmp(&f) == order, "elements are ordered as they are written");
    assert!(e.to_string() == written(alias, a), "an element is written with its prefix");
    assert!(e.len() == written(alias, a).len(), "the length is that of the written name");

    let element = ch.one_of(&[0usize, 1, 2]);
    let element = [ElementId::Svg, ElementId::Use, ElementId::Path][element].clone();
    let e = element.parse_attr_id(&p, n.local.clone());
    let f = element.parse_attr_id(&q, m.local.clone());
    assert!((e == f) == equal && (f == e) == equal, "attributes of one element are equal exactly when namespace and local name are");
    assert!(!equal || hash(&e) == hash(&f), "equal attributes have equal hashes");
    assert!(!equal || e.info() == f.info(), "equal attributes have the same flags");
    assert!(!equal || e.default() == f.default(), "equal attributes have the same default");
    assert!(e.cmp(&f) == order, "attributes are ordered as they are written");
    assert!(e.to_string() == written(alias, a), "an attribute is written with its prefix");
    ch.reached();
}

/// Ids of the known attributes: equal ids have equal names and hashes.
pub fn attribute_pairs<C: Chooser>(ch: &mut C) {
    let n = crate::names::ATTRIBUTES.len();
    let (a, _, _) = &crate::names::ATTRIBUTES[ch.below(n)];
    let (b, _, _) = &crate::names::ATTRIBUTES[ch.below(n)];
    vc::note!(ch, "{a:?} and {b:?}");
    let aliased = |id: &AttrId<'static>| AttrId::Aliased { prefix: Prefix::new(id.prefix().ns().uri().clone(), Some("q".into())), attr_id: Box::new(id.clone()) };
    let (c, d) = (aliased(a), aliased(b));
    let equal = a == b;
    for (x, y) in [(a, &d), (&c, b), (&c, &d)] {
        assert!((x == y) == equal, "equality looks through aliases");
    }
    if equal {
        assert!(hash(a) == hash(&d) && hash(&c) == hash(b), "equal ids have equal hashes");
        assert!(a.local_name() == b.local_name() && a.prefix() == b.prefix(), "equal ids have equal names");
        assert!(c.info() == a.info() && c.attribute_group() == a.attribute_group() && format!("{:?}", c.r#type()) == format!("{:?}", a.r#type()), "an alias has the flags of its id");
    }
    ch.reached();
}

/// Atoms are equal, ordered and hashed as the text they hold, however it is stored.
pub fn atoms<C: Chooser>(ch: &mut C) {
    const TEXTS: [&str; 6] = ["", "a", "b", "ab", "\u{e9}", "A"];
    let (s, t) = (ch.one_of(&TEXTS), ch.one_of(&TEXTS));
    let (a, b) = (atom(ch, s), atom(ch, t));
    vc::note!(ch, "{a:?} and {b:?}");
    assert!(&*a == s && a.as_str() == s, "an atom holds its text");
    assert!((a == b) == (s == t), "atoms are equal exactly when their texts are");
    assert!(a.cmp(&b) == s.cmp(t), "atoms are ordered as their texts");
    assert!(s != t || hash(&a) == hash(&b), "equal atoms have equal hashes");
    let mut c = a.clone();
    c.push_str(t);
    assert!(c.as_str() == format!("{s}{t}"), "pushing appends");
    assert!(a.as_str() == s && b.as_str() == t, "pushing to a copy leaves the original alone");
    assert!(a.into_owned().as_str() == s, "owning keeps the text");
    ch.reached();
}

/// The bounded symbolic form: every namespace of the list with every alias of at most `N` ASCII characters.
pub fn aliases<const N: usize, C: Chooser>(ch: &mut C, from: usize, to: usize) {
    let n = ch.below(N + 1);
    let mut bytes = [0u8; N];
    for b in bytes.iter_mut().take(n) {
        let v = ch.byte();
        ch.require(v < 128);
        *b = v;
    }
    let bytes: &'static [u8; N] = vc::keep(bytes);
    // SAFETY: the bytes are ASCII
    let alias = unsafe { std::str::from_utf8_unchecked(&bytes[..n]) };
    let written = if ch.flag() { Some(alias) } else { None };
    let mut i = from;
    while i < to {
        let ns = if i < KNOWN.len() { KNOWN[i].0 } else { OTHER[i - KNOWN.len()] };
        let p = std::mem::ManuallyDrop::new(Prefix::new(Atom::Static(ns), written.map(Atom::Static)));
        vc::note!(ch, "namespace {ns:?} alias {written:?} gives {p:?}");
        check_prefix(&p, ns, written);
        assert!(matches!(p.ns(), NS::Unknown(_)) == (i >= KNOWN.len()), "well-known namespaces are recognised");
        i += 1;
    }
    ch.reached();
}

/// Notes what is hashed.
struct Trace {
    bytes: [u8; 16],
    n: usize,
}

impl Hasher for Trace {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            assert!(self.n < 16, "room for the trace");
            self.bytes[self.n] = *b;
            self.n += 1;
        }
    }
}

fn hashed_alike<T: Hash>(a: &T, b: &T) -> bool {
    let (mut t, mut u) = (Trace { bytes: [0; 16], n: 0 }, Trace { bytes: [0; 16], n: 0 });
    a.hash(&mut t);
    b.hash(&mut u);
    let mut same = t.n == u.n;
    for i in 0..16 {
        same &= t.bytes[i] == u.bytes[i];
    }
    same
}

fn of_kind(kind: usize, uri: &'static str, alias: Option<&'static str>, aliased: bool) -> Prefix<'static> {
    let plain = match kind {
        0 => Prefix::SVG,
        1 => Prefix::HTML,
        2 => Prefix::XML,
        3 => Prefix::XMLNS,
        4 => Prefix::XLink,
        5 => Prefix::MathML,
        _ => return Prefix::Unknown { prefix: alias.map(Atom::Static), ns: NS::Unknown(Atom::Static(uri)) },
    };
    if aliased { Prefix::Aliased { prefix: Box::new(plain), alias: alias.map(Atom::Static) } } else { plain }
}

/// Equality and hashing of prefixes of all kinds, aliased or not, unknown
/// namespaces being any text of at most two ASCII characters.
pub fn equality<C: Chooser>(ch: &mut C, from: usize, to: usize, others: usize) {
    let mut uris = [""; 2];
    for uri in &mut uris {
        let n = ch.below(3);
        let bytes: &'static [u8; 2] = vc::keep([ch.byte() & 127, ch.byte() & 127]);
        // SAFETY: the bytes are ASCII
        *uri = unsafe { std::str::from_utf8_unchecked(&bytes[..n]) };
    }
    use std::mem::ManuallyDrop as Keep;
    let mut i = from;
    while i < to {
        let mut j = others;
        while j < 7 {
            let mut aliased = 0;
            while aliased < 4 {
                let p = Keep::new(of_kind(i, uris[0], Some("a"), aliased % 2 == 1));
                let q = Keep::new(of_kind(j, uris[1], None, aliased / 2 == 1));
                let equal = i == j && (i < 6 || uris[0] == uris[1]);
                vc::note!(ch, "{p:?} and {q:?}");
                assert!((*p == *q) == equal, "prefixes are equal exactly when their namespaces are");
                assert!(p.is_ns(q.ns()) == equal, "belonging to a namespace is being equal to it");
                assert!(!equal || hashed_alike(&*p, &*q), "equal prefixes have equal hashes");
                aliased += 1;
            }
            j += 1;
        }
        i += 1;
    }
    ch.reached();
}
