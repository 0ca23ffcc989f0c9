//! Nodes, their link tables, and the sequence model used as oracle.
use oxvg_ast::arena::Allocator;
use oxvg_ast::node::{NodeData, Ref};
use std::cell::{Cell, RefCell};
use vc::Chooser;

pub type R = Ref<'static, 'static>;
pub type A = Allocator<'static, 'static>;

/// A fresh allocator that lives as long as the run.
pub fn allocator(capacity: usize) -> &'static A {
    let arena = vc::keep(Allocator::new_arena_with_capacity(capacity));
    let values = vc::keep(Allocator::new_values());
    vc::keep(Allocator::new(arena, values))
}

pub fn element_data() -> NodeData<'static> {
    NodeData::Element {
        name: oxvg_collections::element::ElementId::G,
        attrs: RefCell::new(Vec::new()),
        selector_flags: Cell::new(None),
    }
}

pub fn text_data(s: &'static str) -> NodeData<'static> {
    NodeData::Text(RefCell::new(Some(s.into())))
}

/// Moves a node that owns no data out of the arena into an allocation of its
/// own, keeping its id: the links of separate objects are much cheaper to reason
/// about than those of one block.
pub fn separate(node: R) -> R {
    vc::keep(unsafe { std::ptr::read(node) })
}

pub const PARENT: usize = 0;
pub const NEXT: usize = 1;
pub const PREV: usize = 2;
pub const FIRST: usize = 3;
pub const LAST: usize = 4;

/// `NONE` stands for an absent link; otherwise an index into the node table.
pub const NONE: u8 = 255;
/// A link to a node that is not in the table.
pub const FOREIGN: u8 = 254;

/// The five links of every node of a table.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Links<const K: usize>(pub [[u8; 5]; K]);

pub fn index_of<const K: usize>(nodes: &[R; K], node: R) -> u8 {
    let mut i = 0;
    while i < K {
        if std::ptr::eq(nodes[i], node) {
            return i as u8;
        }
        i += 1;
    }
    FOREIGN
}

fn cell<'a>(node: R, link: usize) -> &'a Cell<Option<R>> {
    match link {
        PARENT => &node.parent,
        NEXT => &node.next_sibling,
        PREV => &node.previous_sibling,
        FIRST => &node.first_child,
        _ => &node.last_child,
    }
}

impl<const K: usize> Links<K> {
    pub fn empty() -> Self {
        Links([[NONE; 5]; K])
    }

    /// Reads the links of the nodes.
    pub fn read(nodes: &[R; K]) -> Self {
        let mut result = Self::empty();
        let mut i = 0;
        while i < K {
            let mut l = 0;
            while l < 5 {
                if let Some(node) = cell(nodes[i], l).get() {
                    result.0[i][l] = index_of(nodes, node);
                }
                l += 1;
            }
            i += 1;
        }
        result
    }

    /// Installs the links in the nodes.
    pub fn install(&self, nodes: &[R; K]) {
        let mut i = 0;
        while i < K {
            let mut l = 0;
            while l < 5 {
                let target = self.0[i][l];
                cell(nodes[i], l).set(if target == NONE {
                    None
                } else {
                    Some(nodes[target as usize])
                });
                l += 1;
            }
            i += 1;
        }
    }

    pub fn get(&self, node: u8, link: usize) -> u8 {
        if (node as usize) < K {
            self.0[node as usize][link]
        } else {
            NONE
        }
    }

    pub fn set(&mut self, node: u8, link: usize, value: u8) {
        if (node as usize) < K {
            self.0[node as usize][link] = value;
        }
    }

    /// The local consistency of one node's links with its neighbours' links.
    pub fn consistent(&self, n: u8) -> bool {
        let parent = self.get(n, PARENT);
        let next = self.get(n, NEXT);
        let prev = self.get(n, PREV);
        let first = self.get(n, FIRST);
        let last = self.get(n, LAST);
        // siblings point at each other and share the parent
        (next == NONE || (next < K as u8 && next != n && self.get(next, PREV) == n && self.get(next, PARENT) == parent))
            && (prev == NONE || (prev < K as u8 && prev != n && self.get(prev, NEXT) == n && self.get(prev, PARENT) == parent))
            // an end of a child list is known to the parent
            && (parent == NONE || prev != NONE || (parent < K as u8 && self.get(parent, FIRST) == n))
            && (parent == NONE || next != NONE || (parent < K as u8 && self.get(parent, LAST) == n))
            // the parent's ends are ends
            && (first == NONE || (first < K as u8 && self.get(first, PARENT) == n && self.get(first, PREV) == NONE))
            && (last == NONE || (last < K as u8 && self.get(last, PARENT) == n && self.get(last, NEXT) == NONE))
            && ((first == NONE) == (last == NONE))
            // a node without parent has no siblings
            && (parent != NONE || (next == NONE && prev == NONE))
            && parent != n
    }
}

/// Arbitrary links over K nodes: only what `consistent` is required of
/// constrains them, so they are a window on a forest of any size.
pub fn any_links<const K: usize, C: Chooser>(ch: &mut C) -> Links<K> {
    let mut links = Links::empty();
    let mut i = 0;
    while i < K {
        let mut l = 0;
        while l < 5 {
            let v = ch.below(K + 1);
            links.0[i][l] = if v == K { NONE } else { v as u8 };
            l += 1;
        }
        i += 1;
    }
    links
}

/// A forest on nodes `0..n`: the parent and the ordered children of each node.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Forest {
    pub parent: Vec<Option<usize>>,
    pub children: Vec<Vec<usize>>,
}

impl Forest {
    /// Any forest on `n` nodes in which a parent has a smaller index than its
    /// children, with any order of children. Up to renaming, this is any forest.
    pub fn any<C: Chooser>(ch: &mut C, n: usize) -> Forest {
        let mut f = Forest {
            parent: vec![None; n],
            children: vec![vec![]; n],
        };
        for i in 0..n {
            let p = ch.below(i + 1);
            if p < i {
                let at = ch.below(f.children[p].len() + 1);
                f.children[p].insert(at, i);
                f.parent[i] = Some(p);
            }
        }
        f
    }

    pub fn len(&self) -> usize {
        self.parent.len()
    }

    pub fn install(&self, nodes: &[R]) {
        for i in 0..self.len() {
            let node = nodes[i];
            node.parent.set(self.parent[i].map(|p| nodes[p]));
            let cs = &self.children[i];
            node.first_child.set(cs.first().map(|c| nodes[*c]));
            node.last_child.set(cs.last().map(|c| nodes[*c]));
            if self.parent[i].is_none() {
                node.next_sibling.set(None);
                node.previous_sibling.set(None);
            }
            for (k, c) in cs.iter().enumerate() {
                nodes[*c].previous_sibling.set(if k > 0 { Some(nodes[cs[k - 1]]) } else { None });
                nodes[*c].next_sibling.set(cs.get(k + 1).map(|c| nodes[*c]));
            }
        }
    }

    /// Asserts that the links of the nodes represent exactly this forest.
    pub fn check(&self, nodes: &[R], what: &str) {
        let same = |link: Option<R>, expected: Option<usize>| match (link, expected) {
            (None, None) => true,
            (Some(node), Some(i)) => std::ptr::eq(node, nodes[i]),
            _ => false,
        };
        for i in 0..self.len() {
            let node = nodes[i];
            assert!(same(node.parent.get(), self.parent[i]), "{what}: parent of node {i} is not {:?}", self.parent[i]);
            let cs = &self.children[i];
            assert!(same(node.first_child.get(), cs.first().copied()), "{what}: first child of node {i} is not {:?}", cs.first());
            assert!(same(node.last_child.get(), cs.last().copied()), "{what}: last child of node {i} is not {:?}", cs.last());
            let (prev, next) = match self.parent[i] {
                None => (None, None),
                Some(p) => {
                    let s = &self.children[p];
                    let k = s.iter().position(|c| *c == i).unwrap();
                    (if k > 0 { Some(s[k - 1]) } else { None }, s.get(k + 1).copied())
                }
            };
            assert!(same(node.previous_sibling.get(), prev), "{what}: previous sibling of node {i} is not {prev:?}");
            assert!(same(node.next_sibling.get(), next), "{what}: next sibling of node {i} is not {next:?}");
        }
    }

    pub fn detach(&mut self, x: usize) {
        if let Some(p) = self.parent[x].take() {
            self.children[p].retain(|c| *c != x);
        }
    }

    /// Makes `x` the child of `p` at position `at` (after detaching it).
    pub fn place(&mut self, p: usize, at: usize, x: usize) {
        self.detach(x);
        self.children[p].insert(at, x);
        self.parent[x] = Some(p);
    }

    pub fn position(&self, x: usize) -> Option<usize> {
        self.children[self.parent[x]?].iter().position(|c| *c == x)
    }

    /// Whether `x` is `y` or an ancestor of it.
    pub fn is_above(&self, x: usize, y: usize) -> bool {
        let mut current = Some(y);
        while let Some(c) = current {
            if c == x {
                return true;
            }
            current = self.parent[c];
        }
        false
    }

    pub fn descendants(&self, x: usize, out: &mut Vec<usize>) {
        for c in &self.children[x] {
            out.push(*c);
            self.descendants(*c, out);
        }
    }
}
