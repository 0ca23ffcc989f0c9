//! C04: node ids.
use crate::world::*;
use oxvg_ast::arena::Allocator;
use oxvg_ast::node::NodeData;
use vc::Chooser;

/// Ids are 0, 1, 2, ... in order of allocation and lead back to the node.
fn check_ids(a: &A, nodes: &[R], ids: &[usize]) {
    for (node, id) in nodes.iter().zip(ids) {
        assert!(node.id() == *id, "the id of every node");
        assert!(a.get(*id).is_some_and(|n| std::ptr::eq(n, *node)), "looking the id up gives the node");
    }
    assert!(a.get(nodes.len()).is_none(), "an id that was not given out leads nowhere");
    let mut by_id: Vec<(usize, R)> = ids.iter().copied().zip(nodes.iter().copied()).collect();
    by_id.sort_by_key(|(id, _)| *id);
    let listed: Vec<R> = a.iter().collect();
    let listed_too: Vec<R> = a.into_iter().collect();
    let same = |l: &[R]| l.len() == by_id.len() && l.iter().zip(&by_id).all(|(l, (_, n))| std::ptr::eq(*l, *n));
    assert!(same(&listed) && same(&listed_too), "all nodes are listed in order of their ids");
    for i in 0..nodes.len() {
        for j in 0..nodes.len() {
            assert!(nodes[i].id_eq(nodes[j]) == (i == j), "different nodes have different ids");
        }
    }
}

/// Renumbering any node of any forest, after allocating nodes in any order.
pub fn reorder_forest<C: Chooser>(ch: &mut C, n: usize) {
    let f = Forest::any(ch, n);
    let a = allocator(2);
    // nodes are allocated in another order than that of the tree
    let by = ch.below(n);
    let order: Vec<usize> = (0..n).map(|i| (i + by) % n).collect();
    let mut nodes: Vec<Option<R>> = vec![None; n];
    for i in &order {
        nodes[*i] = Some(a.alloc(element_data()));
    }
    let nodes: Vec<R> = nodes.into_iter().map(Option::unwrap).collect();
    f.install(&nodes);
    let mut ids = vec![0; n];
    for (id, i) in order.iter().enumerate() {
        ids[*i] = id;
    }
    check_ids(a, &nodes, &ids);
    let times = 1 + ch.below(2);
    for _ in 0..times {
        let root = ch.below(n);
        vc::note!(ch, "children of each node {:?}, ids {ids:?}; renumber from {root}", f.children);
        let len = a.reorder(nodes[root]);
        let mut tree = vec![root];
        f.descendants(root, &mut tree);
        assert!(len == tree.len(), "the size of the tree is reported");
        let mut others: Vec<usize> = (0..n).filter(|i| !tree.contains(i)).collect();
        others.sort_by_key(|i| ids[*i]);
        for (id, i) in tree.iter().chain(&others).enumerate() {
            ids[*i] = id;
        }
        check_ids(a, &nodes, &ids);
    }
    f.check(&nodes, "renumbering");
    // later allocations continue the numbering
    let extra: R = a.alloc(NodeData::Root);
    assert!(extra.id() == n && a.get(n).is_some_and(|e| std::ptr::eq(e, extra)), "a new node gets a new id");
    ch.reached();
}

pub fn reorder_small<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(5);
    reorder_forest(ch, n);
}

pub fn reorder_random<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(30);
    reorder_forest(ch, n);
}

/// A second allocator on the same arena finds the nodes of the first.
pub fn reopened<C: Chooser>(ch: &mut C) {
    let n = ch.below(5);
    let more = ch.below(4);
    let arena: *mut _ = vc::keep(Allocator::new_arena_with_capacity(1));
    let values = vc::keep(Allocator::new_values());
    // The first allocator is not used after the second exists.
    let first: &'static A = vc::keep(Allocator::new(unsafe { &mut *arena }, values));
    let mut nodes: Vec<R> = (0..n).map(|_| -> R { first.alloc(element_data()) }).collect();
    let f = {
        let mut f = Forest { parent: vec![None; n], children: vec![vec![]; n] };
        for i in 1..n {
            let p = ch.below(i);
            f.children[p].insert(0, i);
            f.parent[i] = Some(p);
        }
        f
    };
    f.install(&nodes);
    let mut ids: Vec<usize> = (0..n).collect();
    if n > 0 && ch.flag() {
        first.reorder(nodes[0]);
        let mut tree = vec![0];
        f.descendants(0, &mut tree);
        for (id, i) in tree.iter().enumerate() {
            ids[*i] = id;
        }
    }
    let second: &'static A = vc::keep(Allocator::new(unsafe { &mut *arena }, values));
    check_ids(second, &nodes, &ids);
    for _ in 0..more {
        ids.push(nodes.len());
        nodes.push(second.alloc(element_data()));
    }
    check_ids(second, &nodes, &ids);
    ch.reached();
}

/// Copied strings are equal to the original and stay so.
pub fn strings<C: Chooser>(ch: &mut C) {
    let a = allocator(1);
    let texts = ["", "a", "é", "id-7", "long enough to be stored out of line"];
    let (x, y) = (ch.one_of(&texts), ch.one_of(&texts));
    let first: &str = a.alloc_str(x);
    let second: &str = a.alloc_str(y);
    assert!(first == x && second == y, "copied strings keep their text");
    ch.reached();
}

// ------------------------------------------------------------------- symbolic

/// Allocation gives consecutive ids, and each leads to its node.
pub fn family_alloc<C: Chooser>(ch: &mut C) {
    let a = allocator(4);
    let x: R = a.alloc(NodeData::Root);
    let y: R = a.alloc(NodeData::Document);
    let z: R = a.alloc(NodeData::Root);
    let id = ch.below(4);
    let got = a.get(id);
    match id {
        0 => assert!(got.is_some_and(|n| std::ptr::eq(n, x)), "looking an id up gives its node"),
        1 => assert!(got.is_some_and(|n| std::ptr::eq(n, y)), "looking an id up gives its node"),
        2 => assert!(got.is_some_and(|n| std::ptr::eq(n, z)), "looking an id up gives its node"),
        _ => assert!(got.is_none(), "an id that was not given out leads nowhere"),
    }
    assert!(!x.id_eq(y) && !y.id_eq(z) && !x.id_eq(z), "different nodes have different ids");
    ch.reached();
}
