//! C03: reading the tree.
use crate::c01::attached;
use crate::world::*;
use oxvg_ast::element::Element;
use oxvg_ast::node::NodeData;
use oxvg_collections::element::ElementId;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use vc::Chooser;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Root,
    Group,
    Path,
    Text,
    Blank,
    Comment,
}

struct Tree {
    f: Forest,
    kinds: Vec<Kind>,
    nodes: Vec<R>,
}

impl Tree {
    fn any<C: Chooser>(ch: &mut C, n: usize, simple: bool) -> Tree {
        let f = Forest::any(ch, n);
        let a = allocator(n);
        let mut kinds = vec![];
        let nodes: Vec<R> = (0..n)
            .map(|i| -> R {
                let kind = if f.children[i].is_empty() {
                    if simple {
                        [Kind::Group, Kind::Text][ch.below(2)]
                    } else {
                        [Kind::Group, Kind::Path, Kind::Text, Kind::Blank, Kind::Comment][ch.below(5)]
                    }
                } else if i == 0 {
                    [Kind::Group, Kind::Root][ch.below(2)]
                } else {
                    [Kind::Group, Kind::Path][ch.below(2)]
                };
                kinds.push(kind);
                a.alloc(match kind {
                    Kind::Root => NodeData::Root,
                    Kind::Group => named(ElementId::G),
                    Kind::Path => named(ElementId::Path),
                    Kind::Text => NodeData::Text(RefCell::new(Some(format!("t{i}").into()))),
                    Kind::Blank => NodeData::Text(RefCell::new(Some(" \n".into()))),
                    Kind::Comment => NodeData::Comment(RefCell::new(Some(format!("c{i}").into()))),
                })
            })
            .collect();
        f.install(&nodes);
        vc::note!(ch, "children of each node {:?}, kinds {kinds:?}", f.children);
        Tree { f, kinds, nodes }
    }

    fn is_element(&self, i: usize) -> bool {
        matches!(self.kinds[i], Kind::Root | Kind::Group | Kind::Path)
    }
    fn element(&self, i: usize) -> Element<'static, 'static> {
        Element::new(self.nodes[i]).unwrap()
    }
    fn same(&self, got: Option<R>, expected: Option<usize>) -> bool {
        match (got, expected) {
            (None, None) => true,
            (Some(node), Some(i)) => std::ptr::eq(node, self.nodes[i]),
            _ => false,
        }
    }
    fn list(&self, got: &[R], expected: &[usize]) -> bool {
        got.len() == expected.len() && got.iter().zip(expected).all(|(g, e)| std::ptr::eq(*g, self.nodes[*e]))
    }
    /// The element children.
    fn elements(&self, i: usize) -> Vec<usize> {
        self.f.children[i].iter().copied().filter(|c| self.is_element(*c)).collect()
    }
}

fn named(name: ElementId<'static>) -> NodeData<'static> {
    NodeData::Element {
        name,
        attrs: RefCell::new(Vec::new()),
        selector_flags: Cell::new(None),
    }
}

/// Every query on every node of any small tree.
fn queries<C: Chooser>(ch: &mut C, n: usize, simple: bool) {
    let t = Tree::any(ch, n, simple);
    let f = &t.f;
    for i in 0..n {
        let node = t.nodes[i];
        let children = &f.children[i];
        let forwards: Vec<R> = node.child_nodes_iter().collect();
        assert!(t.list(&forwards, children), "children from the front");
        let mut backwards: Vec<R> = node.child_nodes_iter().rev().collect();
        backwards.reverse();
        assert!(t.list(&backwards, children), "children from the back");
        assert!(node.child_node_count() == children.len(), "number of children");
        assert!(node.has_child_nodes() != children.is_empty(), "whether there are children");
        for index in 0..=children.len() {
            assert!(t.same(node.item(index), children.get(index).copied()), "child at an index");
        }
        assert!(t.same(node.first_child(), children.first().copied()), "first child");
        assert!(t.same(node.last_child(), children.last().copied()), "last child");
        let (mut prev, mut next) = (None, None);
        if let Some(p) = f.parent[i] {
            let at = f.position(i).unwrap();
            prev = at.checked_sub(1).map(|at| f.children[p][at]);
            next = f.children[p].get(at + 1).copied();
        }
        assert!(t.same(node.previous_sibling(), prev), "previous sibling");
        assert!(t.same(node.next_sibling(), next), "next sibling");
        assert!(t.same(node.parent_node().map(|e| e.0), f.parent[i]), "parent");
        for j in 0..n {
            assert!(node.child_index(&t.nodes[j]) == children.iter().position(|c| *c == j), "index of a child");
            assert!(node.contains(t.nodes[j]) == (i != j && f.is_above(i, j)), "whether a node is a descendant");
        }
        let blank = children.iter().all(|c| t.kinds[*c] == Kind::Blank);
        assert!(node.is_empty() == blank, "whether there is content");
        // the first element in breadth-first order
        let mut queue = VecDeque::from([i]);
        let mut found = None;
        while let Some(c) = queue.pop_front() {
            if matches!(t.kinds[c], Kind::Group | Kind::Path) {
                found = Some(c);
                break;
            }
            queue.extend(&f.children[c]);
        }
        assert!(t.same(node.find_element().map(|e| e.0), found), "the first element below a node");
        assert!(node.element().is_some() == t.is_element(i), "whether a node is an element");
        if !t.is_element(i) {
            continue;
        }
        let element = t.element(i);
        let elements = t.elements(i);
        let got: Vec<R> = element.children().iter().map(|e| e.0).collect();
        assert!(t.list(&got, &elements), "element children");
        let mut got: Vec<R> = element.children_iter().rev().map(|e| e.0).collect();
        got.reverse();
        assert!(t.list(&got, &elements), "element children from the back");
        assert!(element.child_element_count() == elements.len(), "number of element children");
        assert!(element.has_child_elements() != elements.is_empty(), "whether there are element children");
        assert!(t.same(element.first_element_child().map(|e| e.0), elements.first().copied()), "first element child");
        assert!(t.same(element.last_element_child().map(|e| e.0), elements.last().copied()), "last element child");
        let parent = f.parent[i].filter(|p| t.kinds[*p] != Kind::Root);
        assert!(t.same(element.parent_element().map(|e| e.0), parent), "parent element");
        assert!(element.is_root() == (f.parent[i].is_none() || parent.is_none()), "whether this is the root element");
        if let Some(p) = parent {
            let siblings = t.elements(p);
            let at = siblings.iter().position(|s| *s == i).unwrap();
            assert!(t.same(element.next_element_sibling().map(|e| e.0), siblings.get(at + 1).copied()), "next element sibling");
            let before = at.checked_sub(1).map(|at| siblings[at]);
            assert!(t.same(element.previous_element_sibling().map(|e| e.0), before), "previous element sibling");
        }
        // the nearest ancestor of a name
        for (name, kind) in [(ElementId::G, Kind::Group), (ElementId::Path, Kind::Path), (ElementId::Rect, Kind::Blank)] {
            let mut above = f.parent[i];
            while above.is_some_and(|a| t.kinds[a] != kind) {
                above = f.parent[above.unwrap()];
            }
            assert!(t.same(element.closest(&name).map(|e| e.0), above), "the nearest ancestor of a name");
        }
        let mut top = i;
        while let Some(p) = f.parent[top] {
            top = p;
        }
        let document = element.document();
        assert!(document.is_some_and(|d| std::ptr::eq(d.0.0, t.nodes[top])), "the document");
        // all descendants, breadth first
        let mut expected = vec![];
        let mut queue: VecDeque<usize> = elements.iter().copied().collect();
        while let Some(c) = queue.pop_front() {
            expected.push(c);
            queue.extend(t.elements(c));
        }
        let got: Vec<R> = element.breadth_first().map(|e| e.0).collect();
        assert!(t.list(&got, &expected), "descendants, breadth first");
        // text of an element that has content
        if t.kinds[i] != Kind::Root && !blank {
            fn text(t: &Tree, i: usize, out: &mut String) {
                match t.kinds[i] {
                    Kind::Text => out.push_str(&format!("t{i}")),
                    Kind::Blank => out.push_str(" \n"),
                    Kind::Comment => out.push_str(&format!("c{i}")),
                    _ => t.f.children[i].iter().for_each(|c| text(t, *c, out)),
                }
            }
            let mut expected = String::new();
            text(&t, i, &mut expected);
            assert!(node.text_content().as_deref() == Some(expected.as_str()), "text of the descendants");
        }
    }
    f.check(&t.nodes, "reading");
    ch.reached();
}

pub fn tree_queries<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(5);
    queries(ch, n, true);
}

pub fn tree_queries_random<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(12);
    queries(ch, n, false);
}

pub fn tree_queries_large<C: Chooser>(ch: &mut C) {
    let n = 20 + ch.below(30);
    queries(ch, n, false);
}

pub fn interleaved_large<C: Chooser>(ch: &mut C) {
    interleaved(ch, 80);
}

/// Any order of taking children from the front and from the back.
pub fn interleaved<C: Chooser>(ch: &mut C, max: usize) {
    let n = ch.below(max + 1);
    let a = allocator(n + 1);
    let parent: R = a.alloc(element_data());
    let children: Vec<R> = (0..n)
        .map(|_| -> R {
            let child: R = a.alloc(element_data());
            parent.append_child(child);
            child
        })
        .collect();
    let mut left = VecDeque::from(children);
    let mut iter = parent.child_nodes_iter();
    for _ in 0..n + 2 {
        let front = ch.flag();
        let (got, expected) = if front { (iter.next(), left.pop_front()) } else { (iter.next_back(), left.pop_back()) };
        vc::note!(ch, "{}", if front { "front" } else { "back" });
        assert!(got.map(|n| n.id()) == expected.map(|n| n.id()), "children taken from both ends");
    }
    ch.reached();
}

pub fn interleaved_5<C: Chooser>(ch: &mut C) {
    interleaved(ch, 7);
}

// ------------------------------------------------------------- small families

const K: usize = 5;

/// A node with up to three children.
fn family<C: Chooser>(ch: &mut C) -> ([R; K], u8) {
    let a = allocator(K + 1);
    let nodes: [R; K] = std::array::from_fn(|_| separate(a.alloc(NodeData::Root)));
    let children = ch.below(4) as u8;
    let mut links = Links::<K>::empty();
    let mut c = 1;
    while c <= 3 {
        if c <= children {
            links = attached(&links, c, 0, if c == 1 { NONE } else { c - 1 }, NONE);
        }
        c += 1;
    }
    links.install(&nodes);
    (nodes, children)
}

pub fn family_interleaved<C: Chooser>(ch: &mut C) {
    let (nodes, children) = family(ch);
    let mut iter = nodes[0].child_nodes_iter();
    let (mut front, mut back) = (1u8, children);
    let mut step = 0;
    while step < 5 {
        let got = if ch.flag() {
            let got = iter.next();
            if front <= back {
                front += 1;
                assert!(got.is_some_and(|g| std::ptr::eq(g, nodes[front as usize - 1])), "the next child from the front");
                step += 1;
                continue;
            }
            got
        } else {
            let got = iter.next_back();
            if front <= back {
                back -= 1;
                assert!(got.is_some_and(|g| std::ptr::eq(g, nodes[back as usize + 1])), "the next child from the back");
                step += 1;
                continue;
            }
            got
        };
        assert!(got.is_none(), "no child is left");
        step += 1;
    }
    ch.reached();
}

pub fn family_queries<C: Chooser>(ch: &mut C) {
    let (nodes, children) = family(ch);
    let p = nodes[0];
    assert!(p.child_node_count() == children as usize, "number of children");
    let i = ch.below(5);
    let got = p.item(i);
    if i < children as usize {
        assert!(got.is_some_and(|g| std::ptr::eq(g, nodes[i + 1])), "child at an index");
    } else {
        assert!(got.is_none(), "no child at an index");
    }
    let j = ch.below(K);
    let index = p.child_index(&nodes[j]);
    if j >= 1 && j <= children as usize {
        assert!(index == Some(j - 1), "index of a child");
    } else {
        assert!(index.is_none(), "no index of another node");
    }
    ch.reached();
}
