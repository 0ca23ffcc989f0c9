//! C11: the primitives of the value parser.
use oxvg_parse::Parser;
use vc::Chooser;

/// A text with the byte position of each of its characters.
pub struct Text<const N: usize> {
    pub text: &'static str,
    pub chars: [char; N],
    pub at: [usize; 16],
    pub n: usize,
}

impl<const N: usize> Text<N> {
    pub fn of<C: Chooser>(ch: &mut C, n: usize, mut char: impl FnMut(&mut C) -> char) -> Self {
        let bytes: &'static mut [u8] = vc::keep(vec![0; 4 * N]);
        let mut t = Text { text: "", chars: [' '; N], at: [0; 16], n };
        let mut end = 0;
        let mut i = 0;
        while i < n {
            let c = char(ch);
            t.chars[i] = c;
            t.at[i] = end;
            end += c.encode_utf8(&mut bytes[end..]).len();
            i += 1;
        }
        t.at[n] = end;
        // SAFETY: the bytes up to `end` were written by `encode_utf8`
        t.text = unsafe { std::str::from_utf8_unchecked(&bytes[..end]) };
        t
    }

    /// A text of one-byte characters.
    pub fn ascii<C: Chooser>(ch: &mut C, n: usize, options: &[u8]) -> Self {
        let bytes: &'static mut [u8; N] = vc::keep([0; N]);
        let mut t = Text { text: "", chars: [' '; N], at: [0; 16], n };
        let mut i = 0;
        while i < N {
            t.at[i] = i;
            if i < n {
                bytes[i] = options[ch.below(options.len())];
                t.chars[i] = bytes[i] as char;
            }
            i += 1;
        }
        t.at[n] = n;
        // SAFETY: the options are ASCII
        t.text = unsafe { std::str::from_utf8_unchecked(&bytes[..n]) };
        t
    }

    pub fn any<C: Chooser>(ch: &mut C, n: usize) -> Self {
        Self::of(ch, n, C::char)
    }

    fn from(&self, i: usize, j: usize) -> &'static str {
        &self.text[self.at[i]..self.at[j]]
    }
}

/// The name characters of the XML grammar.
fn within(c: char, ranges: &[(u32, u32)]) -> bool {
    let c = c as u32;
    let mut i = 0;
    while i < ranges.len() {
        if ranges[i].0 <= c && c <= ranges[i].1 {
            return true;
        }
        i += 1;
    }
    false
}
const NAME_START: &[(u32, u32)] = &[
    (0x3A, 0x3A),
    (0x41, 0x5A),
    (0x5F, 0x5F),
    (0x61, 0x7A),
    (0xC0, 0xD6),
    (0xD8, 0xF6),
    (0xF8, 0x2FF),
    (0x370, 0x37D),
    (0x37F, 0x1FFF),
    (0x200C, 0x200D),
    (0x2070, 0x218F),
    (0x2C00, 0x2FEF),
    (0x3001, 0xD7FF),
    (0xF900, 0xFDCF),
    (0xFDF0, 0xFFFD),
    (0x10000, 0xEFFFF),
];
const NAME_MORE: &[(u32, u32)] = &[(0x2D, 0x2E), (0x30, 0x39), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)];

pub fn name_start(c: char) -> bool {
    within(c, NAME_START)
}
pub fn name_char(c: char) -> bool {
    name_start(c) || within(c, NAME_MORE)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Read,
    Advance,
    Rewind,
    Done,
    TakeSlice,
    TakeMatches,
    SkipMatches,
    SkipChar,
    SkipWhitespace,
    ExpectDone,
    ExpectChar,
    ExpectMatches,
    ExpectWhitespace,
    ExpectStr,
    ExpectIdent,
    ExpectIdentMatching,
}
use Op::*;
pub const OPS: [Op; 16] = [
    Read,
    Advance,
    Rewind,
    Done,
    TakeSlice,
    TakeMatches,
    SkipMatches,
    SkipChar,
    SkipWhitespace,
    ExpectDone,
    ExpectChar,
    ExpectMatches,
    ExpectWhitespace,
    ExpectStr,
    ExpectIdent,
    ExpectIdentMatching,
];

/// What a primitive gives: nothing, a character, a piece of the input.
#[derive(Clone, Copy, Debug)]
enum Given {
    Nothing,
    Char(char),
    Piece(&'static str),
}

/// Equality of pieces of one input. The symbolic layer compares places, which is stronger.
fn same(a: &'static str, b: &'static str) -> bool {
    if cfg!(kani) {
        a.len() == b.len() && (a.is_empty() || a.as_ptr() == b.as_ptr())
    } else {
        a == b
    }
}

fn agree(a: Result<Given, ()>, b: Given) -> bool {
    match (a, b) {
        (Ok(Given::Nothing), Given::Nothing) => true,
        (Ok(Given::Char(a)), Given::Char(b)) => a == b,
        (Ok(Given::Piece(a)), Given::Piece(b)) => same(a, b),
        _ => false,
    }
}

/// Which characters a predicate accepts.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    Space,
    Only(char),
    Not(char),
    Any,
    Never,
}
impl Class {
    fn any<C: Chooser>(ch: &mut C) -> Self {
        match ch.below(5) {
            0 => Class::Space,
            1 => Class::Only(ch.char()),
            2 => Class::Not(ch.char()),
            3 => Class::Any,
            _ => Class::Never,
        }
    }
    fn has(self, c: char) -> bool {
        match self {
            Class::Space => c.is_whitespace(),
            Class::Only(d) => c == d,
            Class::Not(d) => c != d,
            Class::Any => true,
            Class::Never => false,
        }
    }
}

/// The parameters of a primitive.
struct Params {
    char: char,
    class: Class,
    refused: Option<char>,
    expected: &'static str,
    back: usize,
}

fn call(p: &mut Parser<'static>, op: Op, x: &Params) -> Result<Given, ()> {
    fn no<E>(_: E) {}
    Ok(match op {
        Read => Given::Char(p.read().map_err(no)?),
        Advance => {
            p.advance();
            Given::Nothing
        }
        Rewind => {
            p.rewind(x.back);
            Given::Nothing
        }
        Done => {
            p.done();
            Given::Nothing
        }
        TakeSlice => Given::Piece(p.take_slice()),
        TakeMatches => Given::Piece(p.take_matches(|c| x.class.has(c))),
        SkipMatches => {
            p.skip_matches(|c| x.class.has(c));
            Given::Nothing
        }
        SkipChar => {
            p.skip_char(x.char);
            Given::Nothing
        }
        SkipWhitespace => {
            p.skip_whitespace();
            Given::Nothing
        }
        ExpectDone => {
            p.expect_done().map_err(no)?;
            Given::Nothing
        }
        ExpectChar => {
            p.expect_char(x.char).map_err(no)?;
            Given::Nothing
        }
        ExpectMatches => Given::Piece(
            p.expect_matches("something", |c| if Some(c) == x.refused { Err("something else") } else { Ok(x.class.has(c)) })
                .map_err(no)?,
        ),
        ExpectWhitespace => {
            p.expect_whitespace().map_err(no)?;
            Given::Nothing
        }
        ExpectStr => {
            p.expect_str(x.expected).map_err(no)?;
            Given::Nothing
        }
        ExpectIdent => Given::Piece(p.expect_ident().map_err(no)?),
        ExpectIdentMatching => {
            p.expect_ident_matching(x.expected).map_err(no)?;
            Given::Nothing
        }
    })
}

/// What the primitive must do at character `i`: the new position and what it gives.
fn prescribed<const N: usize>(t: &Text<N>, i: usize, op: Op, x: &Params) -> Result<(usize, Given), ()> {
    let run = |accepts: &dyn Fn(char) -> bool| {
        let mut j = i;
        while j < t.n && accepts(t.chars[j]) {
            j += 1;
        }
        j
    };
    let ident = || {
        if i == t.n || !name_start(t.chars[i]) {
            return Err(());
        }
        Ok(run(&name_char))
    };
    Ok(match op {
        Read if i < t.n => (i + 1, Given::Char(t.chars[i])),
        Read => return Err(()),
        Advance => (if i < t.n { i + 1 } else { i }, Given::Nothing),
        Rewind => {
            let mut j = 0;
            while t.at[j] != t.at[i] - x.back {
                j += 1;
            }
            (j, Given::Nothing)
        }
        Done => (t.n, Given::Nothing),
        TakeSlice => (t.n, Given::Piece(t.from(i, t.n))),
        TakeMatches => {
            let j = run(&|c| x.class.has(c));
            (j, Given::Piece(t.from(i, j)))
        }
        SkipMatches => (run(&|c| x.class.has(c)), Given::Nothing),
        SkipChar => (run(&|c| c == x.char), Given::Nothing),
        SkipWhitespace => (run(&char::is_whitespace), Given::Nothing),
        ExpectDone if i == t.n => (i, Given::Nothing),
        ExpectChar if i < t.n && t.chars[i] == x.char => (i + 1, Given::Nothing),
        ExpectDone | ExpectChar => return Err(()),
        ExpectMatches => {
            let j = run(&|c| Some(c) != x.refused && x.class.has(c));
            if j == i || (j < t.n && Some(t.chars[j]) == x.refused) {
                return Err(());
            }
            (j, Given::Piece(t.from(i, j)))
        }
        ExpectWhitespace => {
            let j = run(&char::is_whitespace);
            if j == i {
                return Err(());
            }
            (j, Given::Nothing)
        }
        ExpectStr => {
            let mut j = i;
            while j < t.n && t.at[j] - t.at[i] < x.expected.len() {
                j += 1;
            }
            if t.from(i, j) != x.expected {
                return Err(());
            }
            (j, Given::Nothing)
        }
        ExpectIdent => {
            let j = ident()?;
            (j, Given::Piece(t.from(i, j)))
        }
        ExpectIdentMatching => {
            let j = ident()?;
            if t.from(i, j) != x.expected {
                return Err(());
            }
            (j, Given::Nothing)
        }
    })
}

/// The position is character `i` and everything that can be asked agrees.
fn check_position<const N: usize>(p: &Parser<'static>, t: &Text<N>, i: usize) {
    assert!(p.cursor() == t.at[i], "the position is after what was matched");
    assert!(p.len() == t.at[t.n] - t.at[i] && p.is_empty() == (i == t.n), "the length of the rest");
    assert!(same(p.slice(), t.from(i, t.n)), "the rest of the input");
    assert!(p.current().ok() == if i < t.n { Some(t.chars[i]) } else { None }, "the current character");
    assert!(p.expect_done().is_ok() == (i == t.n), "the end of the input is seen");
}

fn index_of<const N: usize>(t: &Text<N>, cursor: usize) -> Option<usize> {
    let mut i = 0;
    while i <= t.n {
        if t.at[i] == cursor {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// One primitive at character `i`, inside a trial or not. Gives the new position.
fn step<const N: usize, C: Chooser>(ch: &mut C, p: &mut Parser<'static>, t: &Text<N>, i: usize, op: Op) -> usize {
    let mut x = Params { char: ' ', class: Class::Any, refused: None, expected: "", back: 0 };
    match op {
        SkipChar | ExpectChar => x.char = ch.char(),
        TakeMatches | SkipMatches => x.class = Class::any(ch),
        ExpectMatches => {
            x.class = Class::any(ch);
            if ch.flag() {
                x.refused = Some(ch.char());
            }
        }
        ExpectStr | ExpectIdentMatching => {
            let n = ch.below(3);
            x.expected = Text::<2>::any(ch, n).text;
        }
        Rewind => {
            let to = ch.below(i + 1);
            x.back = t.at[i] - t.at[to];
        }
        _ => {}
    }
    let trial = ch.flag();
    vc::note!(ch, "text {:?} at byte {}: {op:?} (character {:?}, class {:?}, refused {:?}, expected {:?}, back {}){}", t.text, t.at[i], x.char, x.class, x.refused, x.expected, x.back, if trial { " as a trial" } else { "" });
    let result = if trial { p.try_parse(|p| call(p, op, &x)) } else { call(p, op, &x) };
    match prescribed(t, i, op, &x) {
        Ok((j, given)) => {
            assert!(agree(result, given), "the primitive gives what it matched");
            check_position(p, t, j);
            assert!(same(p.slice_from(t.at[i.min(j)]), t.from(i.min(j), j)), "the piece from an earlier position");
            j
        }
        Err(()) => {
            assert!(result.is_err(), "the primitive reports that nothing matched");
            if trial || op == ExpectDone {
                check_position(p, t, i);
                return i;
            }
            // where a failed expectation stops is its own business
            let j = index_of(t, p.cursor());
            assert!(j.is_some(), "the position is on a character of the input");
            check_position(p, t, j.unwrap_or(0));
            j.unwrap_or(0)
        }
    }
}

/// One primitive anywhere in a text of at most `n` characters.
pub fn one<const N: usize, C: Chooser>(ch: &mut C, op: Op, n: usize) {
    let n = ch.below(n + 1);
    let t = Text::<N>::any(ch, n);
    let i = ch.below(n + 1);
    let mut p = Parser::new(t.text);
    assert!(p.cursor() == 0, "a new parser is at the start");
    p.set_cursor(t.at[i]);
    check_position(&p, &t, i);
    step(ch, &mut p, &t, i, op);
    ch.reached();
}

pub fn primitives<C: Chooser>(ch: &mut C) {
    let op = ch.one_of(&OPS);
    one::<3, C>(ch, op, 3);
}

/// Primitives in a row.
pub fn histories<C: Chooser>(ch: &mut C) {
    let n = ch.below(11);
    let t = Text::<10>::any(ch, n);
    let mut p = Parser::new(t.text);
    let mut i = 0;
    for _ in 0..1 + ch.below(8) {
        let op = ch.one_of(&OPS);
        i = step(ch, &mut p, &t, i, op);
    }
    ch.reached();
}

/// A trial that matches some primitives and then fails leaves the position unchanged.
pub fn trials<C: Chooser>(ch: &mut C) {
    let n = ch.below(11);
    let t = Text::<10>::any(ch, n);
    let i = ch.below(n + 1);
    let mut p = Parser::new(t.text);
    p.set_cursor(t.at[i]);
    let fails = ch.flag();
    let mut j = i;
    let result = p.try_parse(|p| {
        for _ in 0..1 + ch.below(4) {
            let op = ch.one_of(&OPS);
            j = step(ch, p, &t, j, op);
        }
        if fails { Err(1) } else { Ok(2) }
    });
    assert!(result == if fails { Err(1) } else { Ok(2) }, "the result of a trial");
    check_position(&p, &t, if fails { i } else { j });
    ch.reached();
}

/// Which characters names start with and consist of, for every character.
pub fn name_chars<C: Chooser>(ch: &mut C) {
    let c = ch.char();
    let t = Text::<1>::of(ch, 1, |_| c);
    let mut p = Parser::new(t.text);
    assert!(p.expect_ident().is_ok() == name_start(c), "a name starts with a name start character");
    let t = Text::<3>::of(ch, 3, |_| 'a');
    let mut chars = ['a', c, 'a'].into_iter();
    let t = Text::<3>::of(ch, t.n, |_| chars.next().unwrap_or('a'));
    let mut p = Parser::new(t.text);
    let len = if name_char(c) { 2 + c.len_utf8() } else { 1 };
    assert!(p.expect_ident() == Ok(&t.text[..len]), "a name is the longest run of name characters");
    assert!(p.cursor() == len, "the position is after the name");
    ch.reached();
}

/// `name_chars` for every character there is.
pub fn all_name_chars<C: Chooser>(ch: &mut C) {
    for block in 0..=0x10FFu32 {
        let _ = block;
        for c in (block << 8..(block + 1) << 8).filter_map(char::from_u32) {
            let mut buffer = [0; 4];
            let text: &str = c.encode_utf8(&mut buffer);
            assert!(Parser::new(text).expect_ident().is_ok() == name_start(c), "a name starts with a name start character: U+{:04X}", c as u32);
            let text = format!("a{c}");
            let len = if name_char(c) { text.len() } else { 1 };
            assert!(Parser::new(&text).expect_ident() == Ok(&text[..len]), "a name consists of name characters: U+{:04X}", c as u32);
        }
    }
    ch.reached();
}
