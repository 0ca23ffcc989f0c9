//! C17: what the commands are called and made of.
use crate::command::*;
use oxvg_path::command::{Data, ID};
use oxvg_path::geometry::TolerancePrecision;
use vc::Chooser;

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}

/// Runs a contract for every kind of command, explicit and implicit.
fn every<C: Chooser>(ch: &mut C, run: impl Fn(&mut C, usize, bool)) {
    if ch.symbolic() {
        let mut kind = 0;
        while kind < KINDS {
            run(ch, kind, false);
            run(ch, kind, true);
            kind += 1;
        }
    } else {
        let kind = ch.below(KINDS);
        let implicit = ch.flag();
        run(ch, kind, implicit);
    }
    ch.reached();
}

fn any<C: Chooser>(ch: &mut C, kind: usize) -> [f64; 7] {
    let mut args = [0.0; 7];
    let mut i = 0;
    while i < 7 {
        if i < count(kind) {
            args[i] = ch.float();
        }
        i += 1;
    }
    args
}

fn wrap(kind: usize, args: [f64; 7], implicit: bool) -> Data {
    if implicit { Data::Implicit(Box::new(data(kind, args))) } else { data(kind, args) }
}

fn is(d: &Data, kind: usize, args: &[f64; 7]) -> bool {
    let (k, a) = parts(d);
    let mut equal = k == kind;
    let mut i = 0;
    while i < 7 {
        if i < count(kind) {
            equal = equal && same(a[i], args[i]);
        }
        i += 1;
    }
    equal
}

/// The kind an explicit id names.
fn kind_of(it: &ID) -> usize {
    match it {
        ID::MoveTo => 0,
        ID::MoveBy => 1,
        ID::ClosePath => 2,
        ID::LineTo => 3,
        ID::LineBy => 4,
        ID::HorizontalLineTo => 5,
        ID::HorizontalLineBy => 6,
        ID::VerticalLineTo => 7,
        ID::VerticalLineBy => 8,
        ID::CubicBezierTo => 9,
        ID::CubicBezierBy => 10,
        ID::SmoothBezierTo => 11,
        ID::SmoothBezierBy => 12,
        ID::QuadraticBezierTo => 13,
        ID::QuadraticBezierBy => 14,
        ID::SmoothQuadraticBezierTo => 15,
        ID::SmoothQuadraticBezierBy => 16,
        ID::ArcTo => 17,
        ID::ArcBy => 18,
        ID::None | ID::Implicit(_) => KINDS,
    }
}

/// Kinds and letters agree with the table.
pub fn kinds<C: Chooser>(ch: &mut C) {
    every(ch, |ch, kind, implicit| {
        vc::note!(ch, "{}{}", letter(kind), if implicit { " implicit" } else { "" });
        let plain = id(kind);
        let wrapped = ID::Implicit(Box::new(id(kind)));
        assert!(char::from(&plain) == letter(kind), "the letter of a command");
        let back = ID::try_from(letter(kind));
        assert!(back.is_ok_and(|it| kind_of(&it) == kind), "the command of a letter");
        let it = if implicit { wrapped } else { plain };
        assert!(it.args() == count(kind), "the number of arguments");
        assert!(it.is_implicit() == implicit && !it.is_none(), "whether a command is implicit");
        assert!(kind_of(it.as_explicit()) == kind, "the explicit form of a command");
        assert!(kind_of(&it.next_implicit()) == follow(kind), "the command that follows without a letter");
    });
}

/// Every character is the letter of exactly its command or of none.
pub fn letters<C: Chooser>(ch: &mut C) {
    let c = ch.char();
    vc::note!(ch, "{c:?}");
    match kind_of_letter(c) {
        Some(kind) => assert!(ID::try_from(c).is_ok_and(|it| kind_of(&it) == kind), "the command of a letter"),
        None => assert!(ID::try_from(c).is_err(), "other characters are no commands"),
    }
    ch.reached();
}

pub fn all_letters<C: Chooser>(ch: &mut C) {
    for c in (0..=0x10_FFFF).filter_map(char::from_u32) {
        match kind_of_letter(c) {
            Some(kind) => assert!(ID::try_from(c) == Ok(id(kind)), "the command of the letter {c:?}"),
            None => assert!(ID::try_from(c) == Err(()), "{c:?} is no command"),
        }
    }
    assert!(ID::None.is_none() && ID::None.args() == 0 && !ID::None.is_implicit(), "no command");
    ch.reached();
}

/// Data has the kind and arguments it was made of, and reports them.
pub fn classification<C: Chooser>(ch: &mut C) {
    every(ch, |ch, kind, implicit| {
        let args = any(ch, kind);
        vc::note!(ch, "{} {args:?} {}", letter(kind), if implicit { "implicit" } else { "" });
        let mut d = wrap(kind, args, implicit);
        match d.id() {
            ID::Implicit(inner) => assert!(implicit && kind_of(&inner) == kind, "the id of a command"),
            plain => assert!(!implicit && kind_of(&plain) == kind, "the id of a command"),
        }
        assert!(d.is_implicit() == implicit, "whether a command is implicit");
        assert!(is(d.as_explicit(), kind, &args) && !d.as_explicit().is_implicit(), "the explicit form of a command");
        let to = letter(kind).is_ascii_uppercase();
        assert!(d.is_to() == to, "absolute commands have upper case letters");
        // closing is the same in both forms
        assert!(d.is_by() == (!to || (kind == CLOSE && !implicit)) || kind == CLOSE, "relative commands have lower case letters");
        assert!(kind != CLOSE || d.as_explicit().is_by(), "closing is absolute and relative");
        match d.args() {
            None => assert!(count(kind) == 0, "only closing has no arguments"),
            Some(list) => {
                assert!(list.len() == count(kind), "the number of arguments");
                let mut i = 0;
                while i < 7 {
                    if i < count(kind) {
                        assert!(same(list[i], args[i]), "the arguments in order");
                    }
                    i += 1;
                }
            }
        }
        assert!(d.args_mut().len() == count(kind), "the number of arguments");
        let explicit = d.as_explicit_mut();
        assert!(is(explicit, kind, &args), "the explicit form of a command");
    });
}

/// Building a command from its id and arguments.
pub fn construction<C: Chooser>(ch: &mut C) {
    every(ch, |ch, kind, implicit| {
        let mut args = [0.0; 7];
        let mut i = 0;
        while i < 7 {
            args[i] = ch.float();
            i += 1;
        }
        vc::note!(ch, "{} {args:?}", letter(kind));
        let id = if implicit { ID::Implicit(Box::new(id(kind))) } else { id(kind) };
        let d = Data::from((&id, args));
        assert!(d.is_implicit() == implicit && is(d.as_explicit(), kind, &args), "a command built of its id and arguments");
    });
}

/// Writing one argument changes that argument only.
pub fn set_arg<C: Chooser>(ch: &mut C) {
    every(ch, |ch, kind, implicit| {
        if count(kind) == 0 {
            return;
        }
        if ch.symbolic() {
            let mut i = 0;
            while i < count(kind) {
                set_one(ch, kind, implicit, i);
                i += 1;
            }
        } else {
            let i = ch.below(count(kind));
            set_one(ch, kind, implicit, i);
        }
    });
}

fn set_one<C: Chooser>(ch: &mut C, kind: usize, implicit: bool, i: usize) {
    let mut args = any(ch, kind);
    let v = ch.float();
    vc::note!(ch, "{} {args:?}: argument {i} = {v:?}", letter(kind));
    let mut d = wrap(kind, args, implicit);
    d.set_arg(i, v);
    args[i] = v;
    assert!(d.is_implicit() == implicit && is(d.as_explicit(), kind, &args), "writing one argument changes that one only");
}

/// Rounding replaces every argument by its rounded value, except that it keeps
/// the end point of an arc (which is rounded against the point before it) and
/// its flags.
pub fn round<C: Chooser>(ch: &mut C, marker: fn(&TolerancePrecision, f64) -> f64) {
    every(ch, |ch, kind, implicit| {
        let mut args = any(ch, kind);
        if is_arc(kind) {
            args[3] = ch.below(2) as f64;
            args[4] = ch.below(2) as f64;
        }
        let precision = TolerancePrecision(ch.one_of(&[1.0, 10.0, 100.0, 1000.0, 1e6]));
        vc::note!(ch, "{} {args:?} rounded to {}", letter(kind), precision.0);
        let mut d = wrap(kind, args, implicit);
        d.round(precision);
        let (k, after) = parts(&d);
        assert!(k == kind && d.is_implicit() == implicit, "rounding keeps the command");
        let mut i = 0;
        while i < 7 {
            if i < count(kind) {
                if is_arc(kind) && i >= 5 {
                    assert!(same(after[i], args[i]), "rounding keeps the end point of an arc");
                } else if is_arc(kind) && i >= 3 {
                    assert!(cfg!(kani) || after[i] == args[i], "rounding keeps flags");
                } else {
                    let expected = marker(&precision, args[i]);
                    assert!(same(after[i], expected) || (after[i].is_nan() && expected.is_nan()), "every argument is rounded");
                }
            }
            i += 1;
        }
    });
}

pub fn round_native<C: Chooser>(ch: &mut C) {
    round(ch, TolerancePrecision::round);
}

/// Stands for rounding one number in the symbolic layer.
#[cfg(kani)]
pub fn rounded(_: &TolerancePrecision, value: f64) -> f64 {
    f64::from_bits(value.to_bits() ^ 1)
}

/// Rounding all commands of a path rounds each of them.
pub fn round_path<C: Chooser>(ch: &mut C) {
    let n = ch.below(4);
    let path: Vec<Data> = (0..n)
        .map(|_| {
            let kind = ch.below(KINDS);
            let implicit = ch.flag();
            let args = any(ch, kind);
            wrap(kind, args, implicit)
        })
        .collect();
    let precision = TolerancePrecision(ch.one_of(&[1.0, 1000.0]));
    vc::note!(ch, "{path:?}");
    let mut rounded = oxvg_path::Path(path.clone());
    rounded.round(precision);
    assert!(rounded.0.len() == n, "rounding keeps the commands");
    for (mut before, after) in path.into_iter().zip(rounded.0) {
        before.round(precision);
        assert!(format!("{before:?}") == format!("{after:?}"), "every command is rounded");
    }
    ch.reached();
}
