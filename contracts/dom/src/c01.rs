//! C01: moving one node.
use crate::world::*;
use oxvg_ast::element::Element;
use oxvg_ast::node::{Node, NodeData};
use vc::Chooser;

/// A window on an arbitrary forest: `K` is the number of nodes an operation can
/// touch (the node, its old parent and siblings, the new parent, the neighbours
/// of the new place) plus one that stands for any other node.
pub struct Window<const K: usize> {
    pub nodes: [R; K],
    pub before: Links<K>,
}

fn window<const K: usize, C: Chooser>(ch: &mut C) -> Window<K> {
    let a = allocator(K + 1);
    let nodes: [R; K] = std::array::from_fn(|_| separate(a.alloc(NodeData::Root)));
    let before = any_links::<K, C>(ch);
    before.install(&nodes);
    Window { nodes, before }
}

/// What leaving a child list means for the links.
pub fn detached<const K: usize>(b: &Links<K>, x: u8) -> Links<K> {
    let mut after = *b;
    let (parent, prev, next) = (b.get(x, PARENT), b.get(x, PREV), b.get(x, NEXT));
    after.set(prev, NEXT, next);
    after.set(next, PREV, prev);
    if prev == NONE {
        after.set(parent, FIRST, next);
    }
    if next == NONE {
        after.set(parent, LAST, prev);
    }
    after.set(x, PARENT, NONE);
    after.set(x, PREV, NONE);
    after.set(x, NEXT, NONE);
    after
}

/// What entering the children of `parent` between `prev` and `next` means.
pub fn attached<const K: usize>(b: &Links<K>, x: u8, parent: u8, prev: u8, next: u8) -> Links<K> {
    let mut after = *b;
    after.set(x, PARENT, parent);
    after.set(x, PREV, prev);
    after.set(x, NEXT, next);
    after.set(prev, NEXT, x);
    after.set(next, PREV, x);
    if prev == NONE {
        after.set(parent, FIRST, x);
    }
    if next == NONE {
        after.set(parent, LAST, x);
    }
    after
}

/// Requires the consistency of a node, its parent and its siblings.
fn around<const K: usize, C: Chooser>(b: &Links<K>, ch: &mut C, n: u8) {
    ch.require(b.consistent(n));
    let (parent, prev, next) = (b.get(n, PARENT), b.get(n, PREV), b.get(n, NEXT));
    // sibling lists are not rings
    ch.require(next == NONE || next != prev);
    ch.require(parent == NONE || b.consistent(parent));
    ch.require(prev == NONE || b.consistent(prev));
    ch.require(next == NONE || b.consistent(next));
}

impl<const K: usize> Window<K> {
    /// Requires the consistency of a node that exists.
    fn consistent<C: Chooser>(&self, ch: &mut C, n: u8) {
        ch.require(n == NONE || self.before.consistent(n));
    }
    fn consistent_around<C: Chooser>(&self, ch: &mut C, n: u8) {
        around(&self.before, ch, n);
    }

    /// Asserts that the links are exactly the expected ones. That these are
    /// consistent is lemma_detached and lemma_attached.
    fn became(&self, expected: &Links<K>) {
        let after = Links::<K>::read(&self.nodes);
        let mut n = 0;
        while n < K as u8 {
            assert!(after.get(n, PARENT) == expected.get(n, PARENT), "the parent of every node");
            assert!(after.get(n, PREV) == expected.get(n, PREV), "the previous sibling of every node");
            assert!(after.get(n, NEXT) == expected.get(n, NEXT), "the next sibling of every node");
            assert!(after.get(n, FIRST) == expected.get(n, FIRST), "the first child of every node");
            assert!(after.get(n, LAST) == expected.get(n, LAST), "the last child of every node");
            n += 1;
        }
    }
}

/// Every node that was consistent stays so when a node leaves its place.
pub fn lemma_detached<C: Chooser>(ch: &mut C) {
    const K: usize = 5;
    let b = any_links::<K, C>(ch);
    around(&b, ch, 0);
    let after = detached(&b, 0);
    assert!(after.get(0, PARENT) == NONE && after.consistent(0), "the node is out");
    let mut n = 0;
    while n < K as u8 {
        assert!(!b.consistent(n) || after.consistent(n), "the links stay mutually consistent");
        n += 1;
    }
    ch.reached();
}

/// Every node that was consistent stays so when a parentless node enters a
/// child list between two neighbours.
pub fn lemma_attached<C: Chooser>(ch: &mut C) {
    const K: usize = 5;
    let b = any_links::<K, C>(ch);
    let (x, p) = (0, 1);
    let (prev, next) = (ch.below(K + 1) as u8, ch.below(K + 1) as u8);
    let (prev, next) = (if prev == K as u8 { NONE } else { prev }, if next == K as u8 { NONE } else { next });
    ch.require(b.get(x, PARENT) == NONE && b.consistent(x) && b.consistent(p));
    // neighbours in the children of p
    if prev == NONE {
        ch.require(b.get(p, FIRST) == next);
    } else {
        ch.require(b.get(prev, PARENT) == p && b.consistent(prev) && b.get(prev, NEXT) == next);
    }
    if next == NONE {
        ch.require(b.get(p, LAST) == prev);
    } else {
        ch.require(b.get(next, PARENT) == p && b.consistent(next) && b.get(next, PREV) == prev);
    }
    let after = attached(&b, x, p, prev, next);
    let mut n = 0;
    while n < K as u8 {
        assert!(!b.consistent(n) || after.consistent(n), "the links stay mutually consistent");
        n += 1;
    }
    ch.reached();
}

fn element(node: R) -> Element<'static, 'static> {
    Element::new(node).unwrap()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Remove,
    AppendChild,
    Append,
    Prepend,
    InsertBefore,
    InsertAfter,
    Before,
    After,
    Insert,
    ReplaceChild,
    ReplaceWith,
    RemoveChild,
    RemoveChildAt,
}

pub fn open_remove<C: Chooser>(ch: &mut C) {
    const K: usize = 5;
    let w = window::<K, C>(ch);
    // The nodes of a window are interchangeable: the roles get fixed places.
    let x = 0;
    w.consistent_around(ch, x);
    vc::note!(ch, "links [parent,next,previous,first,last] {:?}; remove node 0", w.before.0);
    w.nodes[x as usize].remove();
    w.became(&detached(&w.before, x));
    ch.reached();
}

/// `x` is moved into the children of `p`, next to `r` if the operation says so.
pub fn open_move<const K: usize, C: Chooser>(ch: &mut C, op: Op) {
    let w = window::<K, C>(ch);
    let (x, p, r) = (0, 1, 2);
    let (x_node, p_node, r_node) = (w.nodes[0], w.nodes[1], w.nodes[2]);
    w.consistent_around(ch, x);
    w.consistent(ch, p);
    vc::note!(ch, "links [parent,next,previous,first,last] {:?}; {op:?} node 0, parent 1, reference 2", w.before.0);
    let gone = detached(&w.before, x);
    match op {
        Op::AppendChild | Op::Append => {
            let last = w.before.get(p, LAST);
            w.consistent(ch, last);
            w.consistent(ch, w.before.get(last, PREV));
            if op == Op::Append {
                element(p_node).append(x_node);
            } else {
                p_node.append_child(x_node);
            }
            w.became(&attached(&gone, x, p, gone.get(p, LAST), NONE));
        }
        Op::Prepend => {
            let first = w.before.get(p, FIRST);
            w.consistent(ch, first);
            w.consistent(ch, w.before.get(first, NEXT));
            element(p_node).prepend(x_node);
            w.became(&attached(&gone, x, p, NONE, gone.get(p, FIRST)));
        }
        Op::InsertBefore | Op::Before => {
            ch.require(w.before.get(r, PARENT) == p);
            w.consistent_around(ch, r);
            if op == Op::InsertBefore {
                p_node.insert_before(x_node, r_node);
            } else {
                let done = element(r_node).before(x_node);
                assert!(done.is_some(), "the insertion is reported");
            }
            w.became(&attached(&gone, x, p, gone.get(r, PREV), r));
        }
        Op::InsertAfter | Op::After => {
            ch.require(w.before.get(r, PARENT) == p);
            w.consistent_around(ch, r);
            if op == Op::InsertAfter {
                p_node.insert_after(x_node, &r_node);
            } else {
                element(r_node).after(x_node);
            }
            w.became(&attached(&gone, x, p, r, gone.get(r, NEXT)));
        }
        Op::ReplaceWith => {
            ch.require(w.before.get(r, PARENT) == p);
            w.consistent_around(ch, r);
            element(r_node).replace_with(x_node);
            let gone_too = detached(&gone, r);
            w.became(&attached(&gone_too, x, p, gone.get(r, PREV), gone.get(r, NEXT)));
        }
        Op::ReplaceChild => {
            ch.require(w.before.get(r, PARENT) == p);
            w.consistent_around(ch, r);
            // one of the first children: the function looks for it in debug builds
            let first = w.before.get(p, FIRST);
            let second = w.before.get(first, NEXT);
            ch.require(first == r || second == r);
            let old = p_node.replace_child(x_node, &r_node);
            assert!(old.is_some_and(|o| std::ptr::eq(o, r_node)), "the replaced child is returned");
            let gone_too = detached(&gone, r);
            w.became(&attached(&gone_too, x, p, gone.get(r, PREV), gone.get(r, NEXT)));
        }
        _ => unreachable!(),
    }
    ch.reached();
}

/// The same node is both the moved one and the reference.
pub fn open_same<C: Chooser>(ch: &mut C) {
    const K: usize = 5;
    let w = window::<K, C>(ch);
    let (x_node, p_node) = (w.nodes[0], w.nodes[1]);
    w.consistent_around(ch, 0);
    ch.require(w.before.get(0, PARENT) == 1);
    match ch.below(5) {
        0 => p_node.insert_before(x_node, x_node),
        1 => p_node.insert_after(x_node, &x_node),
        2 => element(x_node).after(x_node),
        3 => {
            element(x_node).before(x_node);
        }
        _ => element(x_node).replace_with(x_node),
    }
    w.became(&w.before);
    ch.reached();
}

// ------------------------------------------------------------ whole forests

/// The nodes of a forest: elements, the first one possibly a document root, the
/// last one possibly a text.
pub fn populate<C: Chooser>(ch: &mut C, f: &Forest) -> Vec<R> {
    let a = allocator(f.len());
    let first_is_root = ch.flag();
    let last_is_text = ch.flag();
    let nodes: Vec<R> = (0..f.len())
        .map(|i| -> R {
            if i == 0 && first_is_root {
                a.alloc(NodeData::Root)
            } else if i > 0 && i + 1 == f.len() && last_is_text {
                a.alloc(text_data("t"))
            } else {
                a.alloc(element_data())
            }
        })
        .collect();
    f.install(&nodes);
    nodes
}

const OPS: &[Op] = &[
    Op::Remove,
    Op::AppendChild,
    Op::Append,
    Op::Prepend,
    Op::InsertBefore,
    Op::InsertAfter,
    Op::Before,
    Op::After,
    Op::Insert,
    Op::ReplaceChild,
    Op::ReplaceWith,
    Op::RemoveChild,
    Op::RemoveChildAt,
];

/// Performs one operation on the nodes and on the model, if it applies.
fn step<C: Chooser>(ch: &mut C, f: &mut Forest, nodes: &[R]) -> bool {
    let op = OPS[ch.below(OPS.len())];
    let n = f.len();
    let x = ch.below(n);
    let is_element = |i: usize| Element::new(nodes[i]).is_some();
    let what: String;
    match op {
        Op::Remove => {
            what = format!("remove {x}");
            nodes[x].remove();
            f.detach(x);
        }
        Op::AppendChild | Op::Append | Op::Prepend | Op::Insert => {
            let p = ch.below(n);
            if !(!f.is_above(x, p) && is_element(p)) {
                return false;
            }
            what = format!("{op:?} {x} to {p}");
            let mut model = f.clone();
            model.detach(x);
            let len = model.children[p].len();
            match op {
                Op::AppendChild => {
                    nodes[p].append_child(nodes[x]);
                    f.place(p, len, x);
                }
                Op::Append => {
                    element(nodes[p]).append(nodes[x]);
                    f.place(p, len, x);
                }
                Op::Prepend => {
                    element(nodes[p]).prepend(nodes[x]);
                    f.place(p, 0, x);
                }
                _ => {
                    let index = ch.below(n + 1);
                    nodes[p].insert(index, nodes[x]);
                    f.place(p, index.min(len), x);
                }
            }
        }
        Op::InsertBefore | Op::InsertAfter | Op::Before | Op::After | Op::ReplaceWith | Op::ReplaceChild => {
            let r = ch.below(n);
            let on_element = matches!(op, Op::Before | Op::After | Op::ReplaceWith);
            if !(!on_element || is_element(r)) {
                return false;
            }
            what = format!("{op:?} {x} at {r}");
            match f.parent[r] {
                None => {
                    if !(on_element) {
                        return false;
                    }
                    match op {
                        Op::Before => assert!(element(nodes[r]).before(nodes[x]).is_none(), "a refused insertion is reported"),
                        Op::After => element(nodes[r]).after(nodes[x]),
                        _ => element(nodes[r]).replace_with(nodes[x]),
                    }
                }
                Some(p) => {
                    if !(!f.is_above(x, p)) {
                        return false;
                    }
                    match op {
                        Op::InsertBefore => nodes[p].insert_before(nodes[x], nodes[r]),
                        Op::InsertAfter => nodes[p].insert_after(nodes[x], &nodes[r]),
                        Op::Before => assert!(element(nodes[r]).before(nodes[x]).is_some(), "the insertion is reported"),
                        Op::After => element(nodes[r]).after(nodes[x]),
                        Op::ReplaceWith => element(nodes[r]).replace_with(nodes[x]),
                        _ => {
                            let old = nodes[p].replace_child(nodes[x], &nodes[r]);
                            assert!(old.is_some_and(|o| std::ptr::eq(o, nodes[r])), "the replaced child is returned");
                        }
                    }
                    if x != r {
                        f.detach(x);
                        let at = f.position(r).unwrap();
                        match op {
                            Op::InsertBefore | Op::Before => f.place(p, at, x),
                            Op::InsertAfter | Op::After => f.place(p, at + 1, x),
                            _ => {
                                f.detach(r);
                                f.place(p, at, x);
                            }
                        }
                    }
                }
            }
        }
        Op::RemoveChild => {
            let p = ch.below(n);
            what = format!("remove child {x} of {p}");
            // The method needs an exclusive handle: a copy that shares the links.
            let mut handle = Node::clone(nodes[p]);
            let removed = handle.remove_child(nodes[x]);
            if f.parent[x] == Some(p) {
                assert!(removed.is_some_and(|r| std::ptr::eq(r, nodes[x])), "the removed child is returned");
                f.detach(x);
            } else {
                assert!(removed.is_none(), "a node that is no child is not removed");
            }
        }
        Op::RemoveChildAt => {
            let index = ch.below(n);
            what = format!("remove child number {index} of {x}");
            let mut handle = Node::clone(nodes[x]);
            let removed = handle.remove_child_at(index);
            match f.children[x].get(index).copied() {
                Some(c) => {
                    assert!(removed.is_some_and(|r| std::ptr::eq(r, nodes[c])), "the removed child is returned");
                    f.detach(c);
                }
                None => assert!(removed.is_none(), "there is no such child"),
            }
        }
    }
    vc::note!(ch, "{what}");
    f.check(nodes, &what);
    true
}

/// What a move must not change.
pub fn contents(nodes: &[R]) -> Vec<(usize, String)> {
    nodes
        .iter()
        .map(|n| {
            let value = n.node_value().map(|v| v.to_string());
            (n.id(), format!("{:?} {value:?} {}", n.node_type(), n.node_name()))
        })
        .collect()
}

fn forest_history<C: Chooser>(ch: &mut C, n: usize, steps: usize) -> bool {
    let mut f = Forest::any(ch, n);
    let nodes = populate(ch, &f);
    vc::note!(ch, "children of each node {:?}", f.children);
    let before = contents(&nodes);
    let mut applied = false;
    for _ in 0..steps {
        applied |= step(ch, &mut f, &nodes);
    }
    assert!(before == contents(&nodes), "a move changes no content");
    applied
}

pub fn forest_step<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(5);
    let applied = forest_history(ch, n, 1);
    ch.require(applied);
    ch.reached();
}

pub fn forest_steps<C: Chooser>(ch: &mut C) {
    let n = 2 + ch.below(7);
    let steps = 1 + ch.below(20);
    let applied = forest_history(ch, n, steps);
    ch.require(applied);
    ch.reached();
}

/// Larger forests.
pub fn forest_large<C: Chooser>(ch: &mut C) {
    let n = 10 + ch.below(40);
    let applied = forest_history(ch, n, 60);
    ch.require(applied);
    ch.reached();
}
