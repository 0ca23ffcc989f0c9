//! Contracts on lists, transforms and names.
pub mod c13;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod names;

#[cfg(kani)]
mod proofs {
    use crate::*;
    use vc::Symbolic;

    macro_rules! proof {
        ($name:ident, $unwind:literal, $body:expr) => {
            #[kani::proof]
            #[kani::unwind($unwind)]
            fn $name() {
                let run: fn(&mut Symbolic) = $body;
                run(&mut Symbolic);
            }
        };
    }

    proof!(c19_css_arguments, 7, c19::css_arguments);
    proof!(c19_svg_arguments, 7, c19::svg_arguments);

    proof!(c20_equality, 17, |ch| c20::equality(ch, 6, 7, 6));
    proof!(c21_short_names, 6, c21::short_names);
    proof!(c20_aliases_svg, 38, |ch| c20::aliases::<6, _>(ch, 0, 1));
    proof!(c20_aliases_html, 38, |ch| c20::aliases::<6, _>(ch, 1, 2));
    proof!(c20_aliases_xml, 38, |ch| c20::aliases::<6, _>(ch, 2, 3));
    proof!(c20_aliases_xmlns, 38, |ch| c20::aliases::<6, _>(ch, 3, 4));
    proof!(c20_aliases_xlink, 38, |ch| c20::aliases::<6, _>(ch, 4, 5));
    proof!(c20_aliases_mathml, 38, |ch| c20::aliases::<6, _>(ch, 5, 6));
    proof!(c20_aliases_other, 38, |ch| c20::aliases::<6, _>(ch, 6, 7));
}
