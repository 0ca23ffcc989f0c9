use dom::*;
use vc::native::Contract;

macro_rules! contracts {
    ($($name:literal, $bound:literal, $run:expr;)*) => {
        &[$(Contract { name: $name, bound: $bound, run: $run, random: true }),*]
    };
}

fn main() {
    use c01::Op;
    vc::native::main(contracts![
        "c01_forest_step", "forests of at most 5 nodes, one operation", c01::forest_step;
        "c01_forest_steps", "random histories: at most 8 nodes, at most 20 operations", c01::forest_steps;
        "c01_forest_large", "random histories: at most 49 nodes, 60 operations", c01::forest_large;
        "c01_open_remove", "", c01::open_remove;
        "c01_open_same", "", c01::open_same;
        "c01_open_append_child", "", |ch| c01::open_move::<7, _>(ch, Op::AppendChild);
        "c01_open_append", "", |ch| c01::open_move::<7, _>(ch, Op::Append);
        "c01_open_prepend", "", |ch| c01::open_move::<7, _>(ch, Op::Prepend);
        "c01_open_insert_before", "", |ch| c01::open_move::<8, _>(ch, Op::InsertBefore);
        "c01_open_insert_after", "", |ch| c01::open_move::<8, _>(ch, Op::InsertAfter);
        "c01_open_before", "", |ch| c01::open_move::<8, _>(ch, Op::Before);
        "c01_open_after", "", |ch| c01::open_move::<8, _>(ch, Op::After);
        "c01_open_replace_with", "", |ch| c01::open_move::<9, _>(ch, Op::ReplaceWith);
        "c01_open_replace_child", "", |ch| c01::open_move::<9, _>(ch, Op::ReplaceChild);
        "c02_forest_step", "forests of at most 5 nodes, one operation", c02::forest_step;
        "c02_forest_steps", "random histories: at most 8 nodes, at most 8 operations", c02::forest_steps;
        "c02_forest_large", "random histories: at most 49 nodes, 20 operations", c02::forest_large;
        "c02_sort_many", "at most 60 children", c02::sort_many;
        "c02_family_empty", "at most 3 children", c02::family_empty;
        "c02_family_retain", "at most 3 children", c02::family_retain;
        "c02_family_flatten", "at most 3 children", c02::family_flatten;
        "c02_family_replace_children", "at most 3 children", c02::family_replace_children;
        "c03_tree_queries", "trees of at most 5 nodes", c03::tree_queries;
        "c03_tree_queries_random", "random trees of at most 12 nodes", c03::tree_queries_random;
        "c03_interleaved", "at most 7 children", c03::interleaved_5;
        "c03_tree_queries_large", "random trees of at most 49 nodes", c03::tree_queries_large;
        "c03_interleaved_large", "random: at most 80 children", c03::interleaved_large;
        "c03_family_interleaved", "at most 3 children", c03::family_interleaved;
        "c03_family_queries", "at most 3 children", c03::family_queries;
        "c04_reorder_small", "forests of at most 5 nodes", c04::reorder_small;
        "c04_reorder_random", "random forests of at most 30 nodes", c04::reorder_random;
        "c04_reopened", "at most 4 nodes", c04::reopened;
        "c04_strings", "some strings", c04::strings;
        "c05_histories", "random: at most 13 operations, 20 names", c05::histories;
        "c05_short_histories", "at most 3 operations, 4 names", c05::short_histories;
        "c05_replaced", "random: at most 4 operations on each of two elements", c05::replaced;
        "c05_sorted", "random: at most 7 attributes", c05::sorted;
        "c05_sorted_many", "random: at most 79 attributes", c05::sorted_many;
        "c05_many", "random: at most 100 attributes, 4 operations", c05::many;
        "c06_short_histories", "at most 2 operations", c06::short_histories;
        "c06_histories", "random: at most 11 operations", c06::histories;
        "c06_repeated", "at most 6 tokens written, one operation", c06::repeated;
        "c06_many", "random: at most 40 tokens, 6 operations", c06::many;
        "c07_short", "values of at most 4 of 9 characters", c07::short;
        "c07_pieces", "random: at most 3 pieces of at most 6 characters", c07::pieces;
        "c07_long", "random: at most 399 characters", c07::long;
        "c07_bytes_text", "values of at most 3 ASCII characters", |ch| c07::bytes::<_, 3>(ch, c07::Place::Text);
        "c07_bytes_attribute", "values of at most 4 ASCII characters", |ch| c07::bytes::<_, 4>(ch, c07::Place::AttributeRaw);
        "c08_short_sequences", "at most 4 calls", c08::short_sequences;
        "c08_sequences", "random: at most 17 calls, all options", c08::sequences;
        "c08_long_sequences", "random: at most 139 calls, all options", c08::long_sequences;
        "c09_one_text", "texts of at most 5 of 7 characters", c09::one_text;
        "c09_documents", "random: text elements nested at most 2 deep", c09::documents;
        "c09_indented", "random: text elements nested at most 2 deep", c09::indented;
        "c10_small", "random: one level below the root", c10::small;
        "c10_documents", "random: at most 4 levels below the root", c10::documents;
        "c04_family_alloc", "3 nodes", c04::family_alloc;
        "c27_small", "random: at most 2 elements and 2 rules", c27::small;
        "c27_documents", "random: at most 8 elements and 5 rules", c27::documents;
        "c28_simples", "random: one or two simple selectors, at most 6 elements", c28::simples;
        "c28_lists", "random: at most 2 selectors of 3 compounds, at most 14 elements", c28::lists;
    ]);
}
