//! C02: edits of whole child lists.
use crate::c01::{attached, contents, detached};
use crate::world::*;
use oxvg_ast::element::Element;
use oxvg_ast::node::{Node, NodeData};
use oxvg_collections::element::ElementId;
use vc::Chooser;

fn element(node: R) -> Element<'static, 'static> {
    Element::new(node).unwrap()
}

// ------------------------------------------------------------- small families

const K: usize = 8;
const P: u8 = 0;
const GRANDPARENT: u8 = 4;

/// A node (0) with up to three children (1, 2, 3), in any place below node 4
/// (with or without siblings 5 and 6), and a grandchild (7).
struct Family {
    nodes: [R; K],
    before: Links<K>,
    children: u8,
}

fn family<C: Chooser>(ch: &mut C) -> Family {
    let a = allocator(K + 1);
    let nodes: [R; K] = std::array::from_fn(|_| separate(a.alloc(NodeData::Root)));
    let children = ch.below(4) as u8;
    let mut links = Links::<K>::empty();
    let mut c = 1;
    while c <= 3 {
        if c <= children {
            links = attached(&links, c, P, if c == 1 { NONE } else { c - 1 }, NONE);
        }
        c += 1;
    }
    if ch.flag() {
        links = attached(&links, 7, 2, NONE, NONE);
    }
    if ch.flag() {
        links = attached(&links, P, GRANDPARENT, NONE, NONE);
        if ch.flag() {
            links = attached(&links, 5, GRANDPARENT, NONE, P);
        }
        if ch.flag() {
            links = attached(&links, 6, GRANDPARENT, P, NONE);
        }
    }
    links.install(&nodes);
    Family { nodes, before: links, children }
}

impl Family {
    fn became(&self, expected: &Links<K>) {
        let after = Links::<K>::read(&self.nodes);
        let mut n = 0;
        while n < K as u8 {
            assert!(after.get(n, PARENT) == expected.get(n, PARENT), "the parent of every node");
            assert!(after.get(n, PREV) == expected.get(n, PREV), "the previous sibling of every node");
            assert!(after.get(n, NEXT) == expected.get(n, NEXT), "the next sibling of every node");
            assert!(after.get(n, FIRST) == expected.get(n, FIRST), "the first child of every node");
            assert!(after.get(n, LAST) == expected.get(n, LAST), "the last child of every node");
            n += 1;
        }
    }
}

pub fn family_empty<C: Chooser>(ch: &mut C) {
    let f = family(ch);
    vc::note!(ch, "links {:?}; empty node 0", f.before.0);
    f.nodes[0].empty();
    let mut expected = f.before;
    let mut c = 1;
    while c <= 3 {
        if c <= f.children {
            expected = detached(&expected, c);
        }
        c += 1;
    }
    f.became(&expected);
    ch.reached();
}

pub fn family_retain<C: Chooser>(ch: &mut C) {
    let f = family(ch);
    let keep = [true, ch.flag(), ch.flag(), ch.flag()];
    vc::note!(ch, "links {:?}; retain in node 0 the children {keep:?}", f.before.0);
    let mut asked = 0;
    f.nodes[0].retain_children(|n| {
        let i = index_of(&f.nodes, n) as usize;
        asked += 1;
        assert!(i == asked, "every child is asked about once, in order");
        keep[i]
    });
    assert!(asked == f.children as usize, "every child is asked about");
    let mut expected = f.before;
    let mut c = 1;
    while c <= 3 {
        if c <= f.children && !keep[c as usize] {
            expected = detached(&expected, c);
        }
        c += 1;
    }
    f.became(&expected);
    ch.reached();
}

pub fn family_flatten<C: Chooser>(ch: &mut C) {
    let f = family(ch);
    ch.require(f.before.get(P, PARENT) != NONE);
    vc::note!(ch, "links {:?}; flatten node 0", f.before.0);
    element(f.nodes[0]).flatten();
    let mut expected = f.before;
    let mut c = 1;
    while c <= 3 {
        if c <= f.children {
            expected = detached(&expected, c);
            expected = attached(&expected, c, GRANDPARENT, expected.get(P, PREV), P);
        }
        c += 1;
    }
    f.became(&detached(&expected, P));
    ch.reached();
}

pub fn family_replace_children<C: Chooser>(ch: &mut C) {
    let f = family(ch);
    // two of: its own children, an uncle, the grandchild
    let options = [1, 3, 6, 7];
    let (a, b) = (options[ch.below(4)], options[ch.below(4)]);
    ch.require(a != b);
    let count = ch.below(3);
    vc::note!(ch, "links {:?}; replace the children of node 0 by the first {count} of {a}, {b}", f.before.0);
    let new = [f.nodes[a as usize], f.nodes[b as usize]];
    element(f.nodes[0]).replace_children(new[..count].iter().copied());
    let mut expected = f.before;
    let mut c = 1;
    while c <= 3 {
        if c <= f.children {
            expected = detached(&expected, c);
        }
        c += 1;
    }
    if count > 0 {
        expected = detached(&expected, a);
        expected = attached(&expected, a, P, NONE, NONE);
    }
    if count > 1 {
        expected = detached(&expected, b);
        expected = attached(&expected, b, P, expected.get(P, LAST), NONE);
    }
    f.became(&expected);
    ch.reached();
}

// -------------------------------------------------------------- whole forests

/// The nodes of a forest: elements or texts where there are no children.
fn populate<C: Chooser>(ch: &mut C, f: &Forest, texts: bool) -> (Vec<R>, &'static A) {
    let a = allocator(f.len() + 2);
    let nodes: Vec<R> = (0..f.len())
        .map(|i| -> R {
            if texts && f.children[i].is_empty() && f.parent[i].is_some() && ch.flag() {
                match i % 3 {
                    0 => a.alloc(NodeData::Comment(std::cell::RefCell::new(Some("c".into())))),
                    _ => a.alloc(text_data("t")),
                }
            } else {
                a.alloc(element_data())
            }
        })
        .collect();
    f.install(&nodes);
    (nodes, a)
}

fn step<C: Chooser>(ch: &mut C, f: &mut Forest, nodes: &mut Vec<R>, a: &'static A) -> bool {
    let n = f.len();
    let x = ch.below(n);
    let is_element = |i: usize| Element::new(nodes[i]).is_some();
    let what: String;
    match ch.below(7) {
        0 => {
            what = format!("empty {x}");
            nodes[x].empty();
            for c in f.children[x].clone() {
                f.detach(c);
            }
        }
        1 => {
            if !is_element(x) {
                return false;
            }
            what = format!("set text content of {x}");
            nodes[x].set_text_content("new".into(), a);
            for c in f.children[x].clone() {
                f.detach(c);
            }
            let Some(text) = nodes[x].first_child() else { panic!("{what}: there is no text") };
            assert!(text.node_value().as_deref() == Some("new"), "the text is the new one");
            assert!(nodes.iter().all(|n| !std::ptr::eq(*n, text)), "the text is a new node");
            nodes.push(text);
            f.parent.push(None);
            f.children.push(vec![]);
            f.place(x, 0, n);
        }
        2 => {
            let mask = ch.below(1 << f.children[x].len().min(6));
            what = format!("retain the children {mask:b} of {x}");
            let children = f.children[x].clone();
            let mut asked = vec![];
            nodes[x].retain_children(|child| {
                let at = asked.len();
                asked.push(child);
                mask >> at & 1 == 1
            });
            assert!(
                asked.len() == children.len() && asked.iter().zip(&children).all(|(a, b)| std::ptr::eq(*a, nodes[*b])),
                "every child is asked about once, in order"
            );
            for (at, c) in children.iter().enumerate() {
                if mask >> at & 1 == 0 {
                    f.detach(*c);
                }
            }
        }
        3 => {
            if !is_element(x) {
                return false;
            }
            // any selection of nodes that are not above x, in any rotation
            let mask = ch.below(1 << n.min(6));
            let mut list: Vec<usize> = (0..n.min(6)).filter(|i| mask >> i & 1 == 1).collect();
            if list.iter().any(|i| f.is_above(*i, x)) {
                return false;
            }
            if !list.is_empty() {
                let by = ch.below(list.len());
                list.rotate_left(by);
            }
            what = format!("replace the children of {x} by {list:?}");
            element(nodes[x]).replace_children(list.iter().map(|i| nodes[*i]));
            for c in f.children[x].clone() {
                f.detach(c);
            }
            for i in list {
                let len = f.children[x].len();
                f.detach(i);
                f.place(x, len.min(f.children[x].len()), i);
            }
        }
        4 => {
            if !is_element(x) || f.parent[x].is_none() {
                return false;
            }
            what = format!("flatten {x}");
            element(nodes[x]).flatten();
            let p = f.parent[x].unwrap();
            let at = f.position(x).unwrap();
            for (k, c) in f.children[x].clone().into_iter().enumerate() {
                f.detach(c);
                f.children[p].insert(at + k, c);
                f.parent[c] = Some(p);
            }
            f.detach(x);
        }
        5 => {
            if !is_element(x) {
                return false;
            }
            // element children sorted stably by key, other children first
            let keys: Vec<usize> = f.children[x].iter().map(|_| ch.below(3)).collect();
            let children = f.children[x].clone();
            what = format!("sort the children {children:?} of {x} by {keys:?}");
            let key = |e: &Element<'static, 'static>| {
                let at = children.iter().position(|c| std::ptr::eq(nodes[*c], e.0)).unwrap();
                keys[at]
            };
            element(nodes[x]).sort_child_elements(|a, b| key(&a).cmp(&key(&b)));
            let mut sorted: Vec<(usize, usize)> = children
                .iter()
                .zip(&keys)
                .map(|(c, k)| (if is_element(*c) { *k + 1 } else { 0 }, *c))
                .collect();
            sorted.sort_by_key(|(k, _)| *k);
            f.children[x] = sorted.into_iter().map(|(_, c)| c).collect();
        }
        _ => {
            if !is_element(x) {
                return false;
            }
            what = format!("rename {x}");
            let new = element(nodes[x]).set_local_name(ElementId::Path, a);
            assert!(*new.qual_name() == ElementId::Path, "the element has the new name");
            assert!(!std::ptr::eq(new.0, nodes[x]), "the element is replaced");
            // the replacement takes over place and children
            let place = f.parent[x].map(|p| (p, f.position(x).unwrap()));
            nodes.push(new.0);
            f.parent.push(None);
            f.children.push(vec![]);
            let y = n;
            for c in f.children[x].clone() {
                let len = f.children[y].len();
                f.place(y, len, c);
            }
            f.detach(x);
            if let Some((p, at)) = place {
                f.place(p, at, y);
            }
        }
    }
    vc::note!(ch, "{what}");
    f.check(nodes, &what);
    true
}

fn history<C: Chooser>(ch: &mut C, n: usize, steps: usize) -> bool {
    let mut f = Forest::any(ch, n);
    let (mut nodes, a) = populate(ch, &f, true);
    vc::note!(ch, "children of each node {:?}", f.children);
    let before = contents(&nodes);
    let mut applied = false;
    for _ in 0..steps {
        applied |= step(ch, &mut f, &mut nodes, a);
    }
    assert!(before == contents(&nodes[..n]), "no content changes");
    applied
}

pub fn forest_step<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(5);
    let applied = history(ch, n, 1);
    ch.require(applied);
    ch.reached();
}

pub fn forest_steps<C: Chooser>(ch: &mut C) {
    let n = 2 + ch.below(7);
    let steps = 1 + ch.below(8);
    let applied = history(ch, n, steps);
    ch.require(applied);
    ch.reached();
}

/// Sorting many children, of which several are not elements.
pub fn sort_many<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(60);
    let a = allocator(n + 1);
    let parent: R = a.alloc(element_data());
    let mut expected: Vec<(usize, R)> = vec![];
    for _ in 0..n {
        let key = ch.below(5);
        let node: R = if key == 0 { a.alloc(text_data("t")) } else { a.alloc(element_data()) };
        parent.append_child(node);
        expected.push((key, node));
    }
    let keys = expected.clone();
    let key = |e: &Element<'static, 'static>| keys.iter().find(|(_, n)| std::ptr::eq(*n, e.0)).unwrap().0;
    vc::note!(ch, "sort children with keys {:?} (0 is a text)", keys.iter().map(|k| k.0).collect::<Vec<_>>());
    element(parent).sort_child_elements(|a, b| key(&a).cmp(&key(&b)));
    expected.sort_by_key(|(k, _)| *k);
    let mut previous: Option<R> = None;
    let mut current = parent.first_child();
    for (_, node) in expected {
        assert!(current.is_some_and(|c| std::ptr::eq(c, node)), "the children are stably sorted, texts first");
        assert!(Node::previous_sibling(node).map(|p| p.id()) == previous.map(|p| p.id()), "siblings are linked both ways");
        previous = Some(node);
        current = node.next_sibling();
    }
    assert!(current.is_none() && parent.last_child().map(|l| l.id()) == previous.map(|l| l.id()), "the list ends at the last child");
    ch.reached();
}

/// Larger forests.
pub fn forest_large<C: Chooser>(ch: &mut C) {
    let n = 10 + ch.below(40);
    let applied = history(ch, n, 20);
    ch.require(applied);
    ch.reached();
}
