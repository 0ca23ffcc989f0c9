use coll::*;
use oxvg_collections::attribute::list_of::{Comma, Semicolon, Space, SpaceOrComma};
use vc::native::Contract;

macro_rules! contracts {
    ($($name:literal, $bound:literal, $run:expr;)*) => {
        &[$(Contract { name: $name, bound: $bound, run: $run, random: true }),*]
    };
}

fn main() {
    vc::native::main(contracts![
        "c13_texts", "texts of at most 6 of 7 characters", c13::texts;
        "c13_long_texts", "random: at most 13 pieces", c13::long_texts;
        "c13_many", "random: at most 119 items", c13::many;
        "c13_round_trip", "at most 3 items of 7", c13::round_trip;
        "c13_round_trip_values", "at most 3 items", c13::round_trip_values;
        "c13_quoted", "at most 3 items of 8", c13::quoted;
        "c13_digits_space", "", |ch| c13::digits::<7, Space, _>(ch, 0);
        "c13_digits_comma", "", |ch| c13::digits::<7, Comma, _>(ch, 1);
        "c13_digits_space_or_comma", "", |ch| c13::digits::<7, SpaceOrComma, _>(ch, 2);
        "c13_digits_semicolon", "", |ch| c13::digits::<7, Semicolon, _>(ch, 3);
        "c13_between_space", "", |ch| c13::between::<Space, _>(ch, 0);
        "c13_between_comma", "", |ch| c13::between::<Comma, _>(ch, 1);
        "c13_between_space_or_comma", "", |ch| c13::between::<SpaceOrComma, _>(ch, 2);
        "c13_between_semicolon", "", |ch| c13::between::<Semicolon, _>(ch, 3);
        "c19_css_arguments", "", c19::css_arguments;
        "c19_svg_arguments", "", c19::svg_arguments;
        "c20_equality", "", |ch| c20::equality(ch, 0, 7, 0);
        "c21_short_names", "", c21::short_names;
        "c20_aliases_svg", "", |ch| c20::aliases::<6, _>(ch, 0, 1);
        "c20_aliases_html", "", |ch| c20::aliases::<6, _>(ch, 1, 2);
        "c20_aliases_xml", "", |ch| c20::aliases::<6, _>(ch, 2, 3);
        "c20_aliases_xmlns", "", |ch| c20::aliases::<6, _>(ch, 3, 4);
        "c20_aliases_xlink", "", |ch| c20::aliases::<6, _>(ch, 4, 5);
        "c20_aliases_mathml", "", |ch| c20::aliases::<6, _>(ch, 5, 6);
        "c20_aliases_other", "", |ch| c20::aliases::<6, _>(ch, 6, 7);
        "c19_single", "each function with some numbers", c19::single;
        "c19_list", "random: at most 4 functions", c19::list;
        "c19_from_css", "each CSS function with some numbers", c19::from_css;
        "c19_recognise", "random: matrices made of at most 3 functions", c19::recognise;
        "c19_round_trip", "random: at most 3 functions", c19::round_trip;
        "c19_read", "random: at most 3 functions", c19::read;
        "c19_many", "at most 5000 functions", c19::many;
        "c19_rounding", "each function with some numbers, precisions below 6", c19::rounding;
        "c20_construction", "10 namespaces with 9 aliases", c20::construction;
        "c20_pairs", "pairs of 10 namespaces with 9 aliases", c20::pairs;
        "c20_names", "random: pairs of names", c20::names;
        "c20_attribute_pairs", "all pairs of known attributes", c20::attribute_pairs;
        "c20_atoms", "pairs of 6 texts", c20::atoms;
        "c20_aliases", "random: aliases of at most 6 characters", |ch| c20::aliases::<6, _>(ch, 0, 10);
        "c21_elements", "all elements, nearby names, 8 namespaces", c21::elements;
        "c21_known", "all elements and attributes", c21::known;
        "c21_attributes", "every known attribute on every element, with its usual and an unusual prefix", |ch| c21::attributes(ch, false);
        "c21_nearby_attributes", "random: all elements, attributes, nearby names, 8 namespaces", |ch| c21::attributes(ch, true);
    ]);
}
