//! C12: numbers.
use crate::c11::Text;
use oxvg_parse::{Parse, Parser};
use vc::Chooser;

/// The characters numbers and their surroundings are made of.
const ALPHABET: [char; 13] = ['0', '1', '9', '.', '-', '+', 'e', 'E', 'x', 'm', ' ', 'a', '\u{E9}'];

fn alphabet<C: Chooser>(ch: &mut C) -> char {
    ch.one_of(&ALPHABET)
}

fn digits(s: &[char], mut i: usize) -> usize {
    while i < s.len() && s[i].is_ascii_digit() {
        i += 1;
    }
    i
}

fn sign(s: &[char], i: usize) -> usize {
    if i < s.len() && (s[i] == '-' || s[i] == '+') { i + 1 } else { i }
}

/// Start and end of the integer the text begins with, after white space.
pub fn integer(s: &[char]) -> Option<(usize, usize)> {
    let mut start = 0;
    while start < s.len() && s[start].is_whitespace() {
        start += 1;
    }
    let from = sign(s, start);
    let end = digits(s, from);
    if end == from { None } else { Some((start, end)) }
}

/// Start and end of the number the text begins with, after white space: an
/// optional sign, digits with an optional point among, before or after them, and
/// an optional exponent. An `e` that begins neither an exponent nor the unit `em`
/// or `ex` makes the text no number.
pub fn number(s: &[char]) -> Option<(usize, usize)> {
    let mut start = 0;
    while start < s.len() && s[start].is_whitespace() {
        start += 1;
    }
    let from = sign(s, start);
    let mut end = digits(s, from);
    let mut count = end - from;
    if end < s.len() && s[end] == '.' {
        let after = digits(s, end + 1);
        count += after - end - 1;
        end = after;
    }
    if count == 0 {
        return None;
    }
    if end < s.len() && (s[end] == 'e' || s[end] == 'E') {
        if end + 1 < s.len() && (s[end + 1] == 'x' || s[end + 1] == 'm') {
            return Some((start, end));
        }
        let from = sign(s, end + 1);
        let after = digits(s, from);
        if after == from {
            return None;
        }
        end = after;
    }
    Some((start, end))
}

/// Reads any of the number types from the text and compares with what is written there.
fn check<const N: usize, C: Chooser>(ch: &mut C, t: &Text<N>) {
    let chars = &t.chars[..t.n];
    vc::note!(ch, "text {:?}", t.text);

    let mut p = Parser::new(t.text);
    let value = f64::parse(&mut p);
    let expected = number(chars).and_then(|(a, b)| {
        // the nearest value of a number in decimal notation comes from the standard library
        let v: f64 = t.text[t.at[a]..t.at[b]].parse().ok()?;
        v.is_finite().then_some((v, t.at[b]))
    });
    match expected {
        Some((v, end)) => {
            assert!(value.as_ref().is_ok_and(|w| w.to_bits() == v.to_bits()), "the value of the number");
            assert!(p.cursor() == end, "exactly the number is consumed");
        }
        None => assert!(value.is_err(), "text that is no number, or out of range, is an error"),
    }

    let mut p = Parser::new(t.text);
    let value = f32::parse(&mut p);
    // rounded once from the text or twice by way of the wider type
    let exact: Option<f32> = number(chars).and_then(|(a, b)| t.text[t.at[a]..t.at[b]].parse().ok());
    match (expected, exact) {
        (Some((v, end)), Some(exact)) if (v as f32).is_finite() || exact.is_finite() => {
            let both = (v as f32).is_finite() && exact.is_finite();
            assert!(!both || value.is_ok(), "a number in range is read");
            if let Ok(w) = value {
                assert!(w.to_bits() == (v as f32).to_bits() || w.to_bits() == exact.to_bits(), "the single-precision value of the number");
                assert!(p.cursor() == end, "exactly the number is consumed");
            }
        }
        _ => assert!(value.is_err(), "text that is no number, or out of range, is an error"),
    }

    let expected = integer(chars).and_then(|(a, b)| value_of(&t.text[t.at[a]..t.at[b]]).map(|v| (v, t.at[b])));
    let mut p = Parser::new(t.text);
    let value = i64::parse(&mut p);
    match expected {
        Some((v, end)) if i64::try_from(v).is_ok() => {
            assert!(value.is_ok_and(|w| i128::from(w) == v), "the value of the integer");
            assert!(p.cursor() == end, "exactly the integer is consumed");
        }
        _ => assert!(value.is_err(), "text that is no integer, or out of range, is an error"),
    }
    let mut p = Parser::new(t.text);
    let value = i32::parse(&mut p);
    match expected {
        Some((v, end)) if i32::try_from(v).is_ok() => {
            assert!(value.is_ok_and(|w| i128::from(w) == v), "the value of the integer");
            assert!(p.cursor() == end, "exactly the integer is consumed");
        }
        _ => assert!(value.is_err(), "text that is no integer, or out of range, is an error"),
    }

    let whole = f64::parse_string(t.text);
    let all = number(chars).and_then(|(a, b)| {
        let v: f64 = t.text[t.at[a]..t.at[b]].parse().ok()?;
        (v.is_finite() && chars[b..].iter().all(|c| c.is_whitespace())).then_some(v)
    });
    assert!(whole.ok().map(f64::to_bits) == all.map(f64::to_bits), "a text is a number only as a whole");
}

/// Exact value of a signed run of digits (saturating far outside of every type).
fn value_of(s: &str) -> Option<i128> {
    let negative = s.starts_with('-');
    let mut v: i128 = 0;
    for d in s.trim_start_matches(['-', '+']).chars() {
        v = (v * 10 + i128::from(d.to_digit(10)?)).min(1 << 100);
    }
    Some(if negative { -v } else { v })
}

/// All texts of a few characters.
pub fn short<C: Chooser>(ch: &mut C) {
    let n = ch.below(6);
    let t = Text::<5>::of(ch, n, alphabet);
    check(ch, &t);
    ch.reached();
}

/// Longer texts.
pub fn long<C: Chooser>(ch: &mut C) {
    let n = ch.below(15);
    let t = Text::<15>::of(ch, n, |ch| {
        if ch.below(3) == 0 { alphabet(ch) } else { ch.one_of(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9']) }
    });
    check(ch, &t);
    ch.reached();
}

/// Numbers near the ends of the ranges.
pub fn edges<C: Chooser>(ch: &mut C) {
    const EDGES: [&str; 22] = [
        "9223372036854775807",
        "-9223372036854775808",
        "9223372036854775808",
        "-9223372036854775809",
        "2147483647",
        "2147483648",
        "-2147483648",
        "-2147483649",
        "4294967296",
        "4294967297",
        "1.7976931348623157e308",
        "1.7976931348623159e308",
        "1e309",
        "-1e309",
        "3.4028235e38",
        "3.4028236e38",
        "1e39",
        "4.9e-324",
        "1e-400",
        "0.1",
        "1e300",
        "00000000000000000001",
    ];
    let s = ch.one_of(&EDGES);
    let after = ch.below(ALPHABET.len() + 1);
    let mut text = s.to_string();
    if after > 0 {
        text.push(ALPHABET[after - 1]);
    }
    let mut p = Parser::new(&text);
    let chars: Vec<char> = text.chars().collect();
    vc::note!(ch, "text {text:?}");
    let w = f64::parse(&mut p);
    let end = number(&chars);
    let v: Option<f64> = end.and_then(|(a, b)| chars[a..b].iter().collect::<String>().parse().ok()).filter(|v: &f64| v.is_finite());
    assert!(w.ok().map(f64::to_bits) == v.map(f64::to_bits), "the value of the number");
    let w = f32::parse(&mut Parser::new(&text));
    match v.map(|v| v as f32).filter(|v| v.is_finite()) {
        Some(v) => assert!(w.is_ok_and(|w| w.to_bits() == v.to_bits() || s.parse::<f32>().is_ok_and(|x| x == w)), "the single-precision value"),
        None => assert!(w.is_err() || w.is_ok_and(f32::is_finite), "out of range is an error"),
    }
    let i = integer(&chars).and_then(|(a, b)| value_of(&chars[a..b].iter().collect::<String>()));
    assert!(i64::parse(&mut Parser::new(&text)).ok() == i.and_then(|i| i64::try_from(i).ok()), "the value of the integer, or an error out of range");
    assert!(i32::parse(&mut Parser::new(&text)).ok() == i.and_then(|i| i32::try_from(i).ok()), "the value of the integer, or an error out of range");
    ch.reached();
}

/// Integers for the symbolic layer: texts of at most three characters of a small alphabet.
pub fn integers<C: Chooser>(ch: &mut C) {
    let n = ch.below(4);
    let t = Text::<3>::ascii(ch, n, b"07-+ a");
    let expected = integer(&t.chars[..t.n]).and_then(|(a, b)| value_of(&t.text[t.at[a]..t.at[b]]).map(|v| (v as i64, t.at[b])));
    let mut p = Parser::new(t.text);
    let value = i64::parse(&mut p);
    match expected {
        Some((v, end)) => {
            assert!(value == Ok(v), "the value of the integer");
            assert!(p.cursor() == end, "exactly the integer is consumed");
        }
        None => assert!(value.is_err(), "text that is no integer is an error"),
    }
    ch.reached();
}

/// Assumed of the standard library's conversion: it succeeds exactly on numbers.
#[cfg(kani)]
pub fn any_value(text: &str) -> Result<f64, std::num::ParseFloatError> {
    let mut chars = [' '; 4];
    let mut n = 0;
    for c in text.chars() {
        chars[n] = c;
        n += 1;
    }
    if number(&chars[..n]) == Some((0, n)) {
        let value: f64 = kani::any();
        kani::assume(value.is_finite());
        Ok(value)
    } else {
        // any error value: its content is not looked at
        Err(unsafe { std::mem::zeroed() })
    }
}

/// What reading a number consumes, for texts of at most `N` characters.
pub fn consumed<const N: usize, C: Chooser>(ch: &mut C) {
    let n = ch.below(N + 1);
    let t = Text::<N>::ascii(ch, n, b"0.-ex a");
    let mut p = Parser::new(t.text);
    let value = f64::parse(&mut p);
    match number(&t.chars[..t.n]) {
        Some((_, end)) => {
            assert!(value.is_ok(), "a number is read");
            assert!(p.cursor() == t.at[end], "exactly the number is consumed");
        }
        None => assert!(value.is_err(), "text that is no number is an error"),
    }
    ch.reached();
}
