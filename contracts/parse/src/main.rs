use parse::*;
use vc::native::Contract;

macro_rules! contracts {
    ($($name:literal, $bound:literal, $run:expr;)*) => {
        &[$(Contract { name: $name, bound: $bound, run: $run, random: true }),*]
    };
}

fn main() {
    use c11::Op;
    vc::native::main(contracts![
        "c11_primitives", "texts of at most 3 characters of 10 kinds, one primitive", c11::primitives;
        "c11_histories", "random: texts of at most 10 characters, at most 8 primitives", c11::histories;
        "c11_trials", "random: texts of at most 10 characters, at most 4 primitives in a trial", c11::trials;
        "c11_all_name_chars", "every character", c11::all_name_chars;
        "c11_name_chars", "every character", c11::name_chars;
        "c11_read", "", |ch| c11::one::<2, _>(ch, Op::Read, 2);
        "c11_advance", "", |ch| c11::one::<2, _>(ch, Op::Advance, 2);
        "c11_skip_char", "", |ch| c11::one::<2, _>(ch, Op::SkipChar, 2);
        "c11_take_matches", "", |ch| c11::one::<2, _>(ch, Op::TakeMatches, 2);
        "c11_expect_char", "", |ch| c11::one::<2, _>(ch, Op::ExpectChar, 2);
        "c11_expect_matches", "", |ch| c11::one::<2, _>(ch, Op::ExpectMatches, 2);
        "c11_expect_str", "", |ch| c11::one::<2, _>(ch, Op::ExpectStr, 2);
        "c11_expect_ident", "", |ch| c11::one::<2, _>(ch, Op::ExpectIdent, 2);
        "c12_short", "texts of at most 5 of 13 characters", c12::short;
        "c12_long", "random: texts of at most 14 characters", c12::long;
        "c12_edges", "numbers at the ends of the ranges", c12::edges;
        "c12_consumed_3", "texts of at most 3 of 7 characters", c12::consumed::<3, _>;
        "c12_consumed_4", "texts of at most 4 of 7 characters", c12::consumed::<4, _>;
        "c12_integers", "texts of at most 3 of 6 characters", c12::integers;
    ]);
}
