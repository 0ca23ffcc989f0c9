//! C15 and C16: path data as text.
use crate::command::*;
use oxvg_parse::Parse;
use oxvg_path::Path;
use oxvg_path::command::Data;
use vc::Chooser;

/// Numbers of every form they are written in.
const NUMBERS: [f64; 36] = [
    0.0,
    -0.0,
    1.0,
    -1.0,
    0.5,
    -0.5,
    10.0,
    1.5,
    -1.5,
    0.1,
    0.25,
    100.25,
    0.0001,
    0.00012,
    0.00009,
    0.00001,
    -0.00001,
    1e-7,
    1.5e-7,
    -1.5e-7,
    1e16,
    1e15,
    123456789012345680.0,
    1e21,
    1.5e300,
    -1.5e300,
    5e-324,
    0.3333333333333333,
    0.999,
    9.0,
    12.0,
    0.05,
    -0.05,
    20.0,
    1e20,
    0.1e-3,
];

/// Any sequence that starts with a move; a command is implicit only where it repeats the one before.
fn any_path<C: Chooser>(ch: &mut C, n: usize, mut number: impl FnMut(&mut C) -> f64) -> Vec<Command> {
    let first = ch.below(2);
    let mut path = vec![Command::any(ch, first, &mut number)];
    for _ in 1..n {
        let last = path[path.len() - 1].kind;
        let implicit = last != CLOSE && ch.flag();
        let kind = if implicit { follow(last) } else { ch.below(KINDS) };
        let mut c = Command::any(ch, kind, &mut number);
        c.implicit = implicit;
        path.push(c);
    }
    path
}

fn round_trip<C: Chooser>(ch: &mut C, path: &[Command]) {
    let p = Path(path.iter().map(Command::data).collect());
    let text = p.to_string();
    vc::note!(ch, "{} printed as {text:?}", show(path));
    assert!(String::from(&p) == text && String::from(p) == text, "one text whichever way it is asked for");
    let again = Path::parse_string(&text);
    assert!(again.is_ok(), "printed path data can be read");
    let again = again.unwrap();
    assert!(again.0.len() == path.len(), "as many commands are read as were printed");
    for (c, d) in path.iter().zip(&again.0) {
        let (kind, args) = parts(d);
        assert!(kind == c.kind, "the same commands are read");
        assert!(args == c.args, "the same arguments are read");
    }
    // reading marks the commands implicit that can be, and printing them again is stable
    assert!(Path::parse_string(&again.to_string()).is_ok_and(|third| third == again), "printing what was read is read the same");
}

/// Two commands with any two of the numbers next to each other.
pub fn neighbours<C: Chooser>(ch: &mut C) {
    let a = ch.one_of(&NUMBERS);
    let b = ch.one_of(&NUMBERS);
    let kind = ch.below(KINDS);
    let implicit = ch.flag();
    let mut second = Command { kind, implicit: false, args: [0.0; 7] };
    // the two numbers in every pair of neighbouring places
    let place = ch.below(8);
    ch.require(place <= count(kind));
    let mut first = Command { kind: ch.below(2), implicit: false, args: [3.0, 4.0, 0.0, 0.0, 0.0, 0.0, 0.0] };
    let filler = ch.one_of(&[2.0, 0.5]);
    for i in 0..count(kind) {
        second.args[i] = filler;
    }
    if is_arc(kind) {
        second.args[3] = 1.0;
        second.args[4] = 0.0;
    }
    let mut path = vec![];
    let number = |i: usize| !(is_arc(kind) && (i == 3 || i == 4));
    if place == 0 {
        first.args[0] = a;
        first.args[1] = b;
        path.push(first);
        path.push(second);
    } else if place < count(kind) {
        if number(place - 1) {
            second.args[place - 1] = a;
        }
        if number(place) {
            second.args[place] = b;
        }
        path.push(first);
        path.push(second);
    } else {
        // last argument and first of the next command
        if count(kind) > 0 {
            second.args[count(kind) - 1] = a;
        }
        path.push(first);
        path.push(second);
        let next = if implicit && kind != CLOSE { follow(kind) } else { ch.below(KINDS) };
        let mut third = Command { kind: next, implicit: implicit && kind != CLOSE, args: [0.0; 7] };
        for i in 0..count(next) {
            third.args[i] = filler;
        }
        if is_arc(next) {
            third.args[3] = 1.0;
            third.args[4] = 0.0;
        }
        third.args[0] = if count(next) > 0 { b } else { 0.0 };
        path.push(third);
    }
    round_trip(ch, &path);
    ch.reached();
}

/// Random paths.
pub fn paths<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(6);
    let path = any_path(ch, n, |ch| if ch.flag() { ch.one_of(&NUMBERS) } else { ch.finite() });
    round_trip(ch, &path);
    ch.reached();
}

/// Long paths.
pub fn long_paths<C: Chooser>(ch: &mut C) {
    let n = 20 + ch.below(200);
    let path = any_path(ch, n, |ch| if ch.below(3) > 0 { ch.one_of(&NUMBERS) } else { ch.finite() });
    round_trip(ch, &path);
    ch.reached();
}

/// The empty path and paths of one command.
pub fn single<C: Chooser>(ch: &mut C) {
    if ch.flag() {
        round_trip(ch, &[]);
    } else {
        let path = any_path(ch, 1, |ch| ch.one_of(&NUMBERS));
        round_trip(ch, &path);
    }
    ch.reached();
}

// ------------------------------------------------------------------ C16

/// The commands a text denotes: the SVG path grammar, relaxed in that white space
/// and commas may be mixed freely after an argument and before a command.
pub fn denoted(s: &[char]) -> Option<Vec<(usize, Vec<f64>)>> {
    let space = |mut i: usize| {
        while i < s.len() && s[i].is_whitespace() {
            i += 1;
        }
        i
    };
    let separators = |mut i: usize| {
        i = space(i);
        while i < s.len() && s[i] == ',' {
            i += 1;
        }
        space(i)
    };
    let mut commands: Vec<(usize, Vec<f64>)> = vec![];
    let mut i = 0;
    loop {
        i = space(i);
        if i == s.len() {
            return Some(commands);
        }
        if !commands.is_empty() {
            i = separators(i);
        }
        let kind = match s.get(i).and_then(|c| kind_of_letter(*c)) {
            Some(kind) => {
                i += 1;
                kind
            }
            None => match commands.last() {
                Some((last, _)) if count(*last) > 0 => follow(*last),
                _ => return None,
            },
        };
        if commands.is_empty() && kind > 1 {
            return None;
        }
        let mut args = vec![];
        for a in 0..count(kind) {
            if is_arc(kind) && (a == 3 || a == 4) {
                match s.get(i) {
                    Some('0') => args.push(0.0),
                    Some('1') => args.push(1.0),
                    _ => return None,
                }
                i += 1;
            } else {
                let (start, end) = parse::c12::number(&s[i..])?;
                let value: f64 = s[i + start..i + end].iter().collect::<String>().parse().ok()?;
                if !value.is_finite() {
                    return None;
                }
                args.push(value);
                i += end;
            }
            i = separators(i);
        }
        commands.push((kind, args));
    }
}

fn read<C: Chooser>(ch: &mut C, text: &str) {
    vc::note!(ch, "text {text:?}");
    let chars: Vec<char> = text.chars().collect();
    let path = Path::parse_string(text);
    match denoted(&chars) {
        None => assert!(path.is_err(), "text that is no path data is rejected"),
        Some(commands) => {
            assert!(path.is_ok(), "path data is accepted");
            let path = path.unwrap();
            assert!(path.0.len() == commands.len(), "one command per group of arguments");
            for (d, (kind, args)) in path.0.iter().zip(&commands) {
                let (k, a) = parts(d);
                assert!(k == *kind, "the command that is written or repeated");
                assert!(a[..count(k)] == args[..], "its arguments in order");
                assert!(matches!(d, Data::Implicit(inner) if !inner.is_implicit()) || !d.is_implicit(), "at most one mark of being implicit");
            }
        }
    }
}

const ALPHABET: [char; 14] = ['M', '0', ' ', 'z', '1', ',', 'l', '.', '-', 'a', 'e', 'H', 'x', '\u{E9}'];

/// All texts of a few characters.
pub fn short_texts<C: Chooser>(ch: &mut C) {
    let n = ch.below(6);
    let text: String = (0..n).map(|_| ch.one_of(&ALPHABET)).collect();
    read(ch, &text);
    ch.reached();
}

/// All endings of a path that has begun.
pub fn endings<C: Chooser>(ch: &mut C) {
    let start = ch.one_of(&["M0 0", "m1,1", "M0 0z", "M0 0h1", "M1 1l2 3", "M0 0a1 2 3 0 1 4 5", "M0 0a1 2 3 ", "M0 0c1 2 3 4 5", " M 0 0 , Q"]);
    let n = ch.below(5);
    let mut text = start.to_string();
    for _ in 0..n {
        text.push(ch.one_of(&ALPHABET));
    }
    read(ch, &text);
    ch.reached();
}

/// Longer texts that are nearly path data.
pub fn long_texts<C: Chooser>(ch: &mut C) {
    let mut text = String::from(ch.one_of(&["M", "m", " M", "M0 0", "", "L"]));
    for _ in 0..ch.below(24) {
        match ch.below(8) {
            0 => text.push(ch.one_of(&ALPHABET)),
            1 => text.push(TABLE[ch.below(KINDS)].0),
            2 => text.push(ch.one_of(&['z', ',', '\u{2003}', '\n', '\t'])),
            3 | 4 => text.push(' '),
            _ => text.push_str(ch.one_of(&["0", "1", "-1", ".5", "1e-3", "12.25", "01", "+4", "1e999"])),
        }
    }
    read(ch, &text);
    ch.reached();
}

/// Texts printed from paths, with separators widened: accepted and read as written.
pub fn respaced<C: Chooser>(ch: &mut C) {
    let n = 1 + ch.below(4);
    let path = any_path(ch, n, |ch| ch.one_of(&NUMBERS));
    let mut text = String::new();
    for c in &path {
        if !c.implicit {
            text.push(if c.kind == CLOSE && ch.flag() { 'z' } else { letter(c.kind) });
        }
        for a in c.args() {
            text.push_str(ch.one_of(&["", " ", "\n "]));
            text.push_str(&format!("{a:?}"));
            text.push_str(ch.one_of(&[" ", ",", " , ", "\t"]));
        }
    }
    read(ch, &text);
    ch.reached();
}

/// After a complete move, any one character: what may follow, and what each letter needs.
pub fn one_more<C: Chooser>(ch: &mut C) {
    let c = ch.byte();
    ch.require(c < 128);
    let text = [b'M', b'0', b' ', b'0', c];
    let text = unsafe { std::str::from_utf8_unchecked(&text) };
    vc::note!(ch, "text {text:?}");
    let path = Path::parse_string(text);
    let c = c as char;
    let expected = if c == 'z' || c == 'Z' {
        2
    } else if c.is_ascii_digit() || c.is_whitespace() || c == ',' || c == '.' {
        1
    } else {
        0
    };
    match &path {
        Ok(path) => {
            assert!(path.0.len() == expected, "one command per group of arguments");
            assert!(parts(&path.0[0]).0 == MOVE && (expected < 2 || parts(&path.0[1]).0 == CLOSE), "the commands that are written");
        }
        Err(_) => assert!(expected == 0, "path data is accepted"),
    }
    std::mem::forget(path);
    ch.reached();
}
