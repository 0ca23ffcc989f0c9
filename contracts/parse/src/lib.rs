//! Contracts on the primitives of the value parser.
pub mod c11;
pub mod c12;

#[cfg(kani)]
mod proofs {
    use crate::*;
    use c11::Op;
    use vc::Symbolic;

    macro_rules! proof {
        ($name:ident, $unwind:literal, $body:expr) => {
            #[kani::proof]
            #[kani::unwind($unwind)]
            fn $name() {
                let run: fn(&mut Symbolic) = $body;
                run(&mut Symbolic);
            }
        };
    }

    proof!(c11_name_chars, 18, c11::name_chars);
    proof!(c11_read, 10, |ch| c11::one::<2, _>(ch, Op::Read, 2));
    proof!(c11_advance, 10, |ch| c11::one::<2, _>(ch, Op::Advance, 2));
    proof!(c11_skip_char, 10, |ch| c11::one::<2, _>(ch, Op::SkipChar, 2));
    proof!(c11_take_matches, 10, |ch| c11::one::<2, _>(ch, Op::TakeMatches, 2));
    proof!(c11_expect_char, 10, |ch| c11::one::<2, _>(ch, Op::ExpectChar, 2));
    proof!(c11_expect_matches, 10, |ch| c11::one::<2, _>(ch, Op::ExpectMatches, 2));
    proof!(c11_expect_str, 10, |ch| c11::one::<2, _>(ch, Op::ExpectStr, 2));
    proof!(c11_expect_ident, 18, |ch| c11::one::<2, _>(ch, Op::ExpectIdent, 2));

    proof!(c12_integers, 5, c12::integers);

    #[kani::proof]
    #[kani::unwind(5)]
    #[kani::stub(<f64 as core::str::FromStr>::from_str, c12::any_value)]
    fn c12_consumed_3() {
        c12::consumed::<3, _>(&mut Symbolic);
    }
    #[kani::proof]
    #[kani::unwind(6)]
    #[kani::stub(<f64 as core::str::FromStr>::from_str, c12::any_value)]
    fn c12_consumed_4() {
        c12::consumed::<4, _>(&mut Symbolic);
    }
}
