//! Contracts on positions in the source.
pub mod c24;

#[cfg(kani)]
mod proofs {
    use crate::*;
    use vc::Symbolic;

    macro_rules! proof {
        ($name:ident, $unwind:literal, $body:expr) => {
            #[kani::proof]
            #[kani::unwind($unwind)]
            fn $name() {
                let run: fn(&mut Symbolic) = $body;
                run(&mut Symbolic);
            }
        };
    }

    proof!(c24_lines, 18, c24::lines::<16, _>);
}
