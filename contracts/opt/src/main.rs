use opt::*;
use vc::native::Contract;

macro_rules! contracts {
    ($($name:literal, $bound:literal, $run:expr;)*) => {
        &[$(Contract { name: $name, bound: $bound, run: $run, random: true }),*]
    };
}

fn main() {
    vc::native::main(contracts![
        "c22_counts", "0 to 2899 ids", c22::counts;
        "c22_preserved", "random: at most 60 ids, at most 12 preserved or dangling", c22::preserved;
        "c23_cleanup", "random: at most 9 elements and 8 references", c23::cleanup;
        "c23_prefix", "random: at most 9 elements and 8 references", c23::prefix;
        "c23_cleanup_many", "random: at most 120 elements and 50 references", c23::cleanup_many;
        "c23_prefix_many", "random: at most 120 elements and 50 references", c23::prefix_many;
        "c33_jobs", "random: at most 13 elements", c33::one;
        "c33_xlink", "random: at most 7 elements", c33::xlink;
        "c35_shapes", "random: at most 4 shapes, one job", c35::documents;
        "c36_transforms", "random: at most 3 transforms", c36::transforms;
        "c34_small", "random: at most 4 elements, one job", c34::small;
        "c34_documents", "random: at most 12 elements, at most 3 jobs", c34::documents;
    ]);
}
