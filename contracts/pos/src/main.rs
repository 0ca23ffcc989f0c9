use pos::*;
use vc::native::Contract;

macro_rules! contracts {
    ($($name:literal, $bound:literal, $run:expr;)*) => {
        &[$(Contract { name: $name, bound: $bound, run: $run, random: true }),*]
    };
}

fn main() {
    vc::native::main(contracts![
        "c24_lines", "at most 16 bytes", c24::lines::<16, _>;
        "c24_small", "at most 9 bytes, newlines and others", c24::small;
        "c24_long", "random: at most 4000 bytes", c24::long;
        "c24_ranges", "random: at most 3 levels below the root", c24::ranges;
    ]);
}
