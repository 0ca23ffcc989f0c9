//! Contracts on path data and its geometry.
pub mod c14;
pub mod c15;
pub mod c17;
pub mod c18;
pub mod c31;
pub mod c32;
pub mod command;
pub mod trace;

#[cfg(kani)]
mod proofs {
    use crate::*;
    use vc::Symbolic;

    macro_rules! proof {
        ($name:ident, $unwind:literal, $solver:ident, $body:expr) => {
            #[kani::proof]
            #[kani::unwind($unwind)]
            #[kani::solver($solver)]
            fn $name() {
                let run: fn(&mut Symbolic) = $body;
                run(&mut Symbolic);
            }
        };
        ($name:ident, $unwind:literal, $body:expr) => {
            #[kani::proof]
            #[kani::unwind($unwind)]
            fn $name() {
                let run: fn(&mut Symbolic) = $body;
                run(&mut Symbolic);
            }
        };
    }


    proof!(c14_step_moves, 10, z3, |ch| c14::steps(ch, 0, 3, c14::any_number));
    proof!(c14_step_straight, 10, z3, |ch| c14::steps(ch, 3, 5, c14::any_number));
    proof!(c14_step_lines, 10, z3, |ch| c14::steps(ch, 5, 9, c14::any_number));
    proof!(c14_step_c, 8, |ch| c14::steps(ch, 9, 11, c14::whole_number));
    proof!(c14_step_s, 8, |ch| c14::steps(ch, 11, 13, c14::whole_number));
    proof!(c14_step_q, 8, |ch| c14::steps(ch, 13, 15, c14::whole_number));
    proof!(c14_step_t, 8, |ch| c14::steps(ch, 15, 17, c14::whole_number));

    proof!(c17_kinds, 21, c17::kinds);
    proof!(c17_letters, 21, c17::letters);
    proof!(c17_classification, 21, c17::classification);
    proof!(c17_construction, 21, c17::construction);
    proof!(c17_set_arg, 21, c17::set_arg);

    #[kani::proof]
    #[kani::unwind(21)]
    #[kani::stub(oxvg_path::geometry::TolerancePrecision::round, c17::rounded)]
    fn c17_round() {
        c17::round(&mut Symbolic, c17::rounded);
    }

    proof!(c18_making, 3, c18::making);
    proof!(c18_sums, 3, z3, c18::sums);
    proof!(c18_choices, 3, c18::choices);
    proof!(c18_reflection, 3, z3, c18::reflection);
    proof!(c18_rectangles, 3, c18::rectangles);
    proof!(c18_sizes, 3, z3, c18::sizes);
    proof!(c18_multiples, 3, z3, c18::multiples);
    proof!(c18_rounding_whole, 3, c18::rounding_whole);
}
