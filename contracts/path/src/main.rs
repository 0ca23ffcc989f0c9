use path::*;
use vc::native::Contract;

macro_rules! contracts {
    ($($name:literal, $bound:literal, $run:expr;)*) => {
        &[$(Contract { name: $name, bound: $bound, run: $run, random: true }),*]
    };
}

fn main() {
    vc::native::main(contracts![
        "c14_pairs", "any three commands after a move, three sets of coordinates", c14::pairs;
        "c14_paths", "random: at most 7 commands", c14::paths;
        "c14_long_paths", "random: at most 120 commands", c14::long_paths;
        "c14_empty", "the empty path", c14::empty;
        "c14_one_line", "", c14::one_line;
        "c14_cubic_pair", "", c14::cubic_pair;
        "c15_neighbours", "any two of 36 numbers in every pair of neighbouring places", c15::neighbours;
        "c15_paths", "random: at most 6 commands", c15::paths;
        "c15_long_paths", "random: at most 220 commands", c15::long_paths;
        "c15_single", "at most one command, any two of 36 numbers", c15::single;
        "c16_short_texts", "texts of at most 5 of 14 characters", c15::short_texts;
        "c16_endings", "at most 4 of 14 characters after each of 9 beginnings", c15::endings;
        "c16_long_texts", "random: at most 24 tokens", c15::long_texts;
        "c16_respaced", "random: printed paths with other separators", c15::respaced;
        "c16_one_more", "any ASCII character after a move", c15::one_more;
        "c17_kinds", "every kind of command", c17::kinds;
        "c17_letters", "", c17::letters;
        "c17_all_letters", "every character", c17::all_letters;
        "c17_classification", "", c17::classification;
        "c17_construction", "", c17::construction;
        "c17_set_arg", "", c17::set_arg;
        "c17_round", "", c17::round_native;
        "c17_round_path", "at most 3 commands", c17::round_path;
        "c18_making", "", c18::making;
        "c18_sums", "", c18::sums;
        "c18_choices", "", c18::choices;
        "c18_multiples", "", c18::multiples;
        "c18_sizes", "", c18::sizes;
        "c18_products", "", c18::products;
        "c18_reflection", "", c18::reflection;
        "c18_angles", "", c18::angles;
        "c18_rounding", "", c18::rounding;
        "c18_rectangles", "", c18::rectangles;
        "c18_bounding", "at most 4 points", c18::bounding;
        "c18_rounding_whole", "", c18::rounding_whole;
        "c31_pieces", "random: one segment of at most 3 pieces", c31::pieces;
        "c31_segments", "random: at most 4 segments of 6 pieces", c31::segments;
        "c31_again", "random: at most 9 commands", c31::again;
        "c32_small", "random: at most 2 sub-paths of one piece", c32::small;
        "c32_paths", "random: at most 2 sub-paths of 4 pieces", c32::paths;
    ]);
}
