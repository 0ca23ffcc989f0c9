//! Contracts on the tree, its attributes and its serialisation.
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c27;
pub mod c28;
pub mod world;
pub mod xml;

#[cfg(kani)]
mod proofs {
    use crate::*;
    use c01::Op;
    use vc::Symbolic;

    macro_rules! proof {
        ($name:ident, $unwind:literal, $body:expr) => {
            #[kani::proof]
            #[kani::unwind($unwind)]
            fn $name() {
                let run: fn(&mut Symbolic) = $body;
                run(&mut Symbolic);
            }
        };
    }

    proof!(c01_lemma_detached, 12, c01::lemma_detached);
    proof!(c01_lemma_attached, 12, c01::lemma_attached);
    proof!(c01_open_remove, 12, c01::open_remove);
    proof!(c01_open_same, 12, c01::open_same);
    proof!(c01_open_append_child, 12, |ch| c01::open_move::<7, _>(ch, Op::AppendChild));
    proof!(c01_open_append, 12, |ch| c01::open_move::<7, _>(ch, Op::Append));
    proof!(c01_open_prepend, 12, |ch| c01::open_move::<7, _>(ch, Op::Prepend));
    proof!(c01_open_insert_before, 12, |ch| c01::open_move::<8, _>(ch, Op::InsertBefore));
    proof!(c01_open_insert_after, 12, |ch| c01::open_move::<8, _>(ch, Op::InsertAfter));
    proof!(c01_open_before, 12, |ch| c01::open_move::<8, _>(ch, Op::Before));
    proof!(c01_open_after, 12, |ch| c01::open_move::<8, _>(ch, Op::After));
    proof!(c01_open_replace_with, 12, |ch| c01::open_move::<9, _>(ch, Op::ReplaceWith));
    proof!(c01_open_replace_child, 12, |ch| c01::open_move::<9, _>(ch, Op::ReplaceChild));

    proof!(c02_family_empty, 10, c02::family_empty);
    proof!(c02_family_retain, 10, c02::family_retain);
    proof!(c02_family_flatten, 10, c02::family_flatten);
    proof!(c02_family_replace_children, 10, c02::family_replace_children);

    proof!(c03_family_interleaved, 7, c03::family_interleaved);
    proof!(c03_family_queries, 7, c03::family_queries);

    proof!(c07_bytes_text, 9, |ch| crate::c07::bytes::<_, 3>(ch, crate::c07::Place::Text));
    proof!(c07_bytes_attribute, 9, |ch| crate::c07::bytes::<_, 4>(ch, crate::c07::Place::AttributeRaw));
    proof!(c04_family_alloc, 6, c04::family_alloc);
}
