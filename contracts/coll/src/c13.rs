//! C13: lists of values.
use oxvg_collections::attribute::list_of::{Comma, ListOf, Semicolon, Separator, Space, SpaceOrComma};
use oxvg_parse::{Parse, Parser, error::Error};
use oxvg_serialize::{Printer, PrinterOptions, ToValue, error::PrinterError};
use vc::Chooser;

/// An item for lists: a whole number, read by the library and written in decimal notation.
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Item(i64);

impl<'i> Parse<'i> for Item {
    fn parse(input: &mut Parser<'i>) -> Result<Self, Error<'i>> {
        i64::parse(input).map(Item)
    }
}

impl ToValue for Item {
    fn write_value<W: std::fmt::Write>(&self, dest: &mut Printer<W>) -> Result<(), PrinterError> {
        dest.write_str(&self.0.to_string())
    }
}

/// Which of the separators stands at `at`, and where it ends. The grammar:
/// space: white space; comma and semicolon: that character, white space around it;
/// space or comma: white space or one comma, white space around it.
fn separator(kind: usize, s: &[char], at: usize) -> Option<usize> {
    let mut i = at;
    while i < s.len() && s[i].is_whitespace() {
        i += 1;
    }
    let mark = match kind {
        0 => return if i > at { Some(i) } else { None },
        1 | 2 => ',',
        _ => ';',
    };
    if i < s.len() && s[i] == mark {
        i += 1;
        while i < s.len() && s[i].is_whitespace() {
            i += 1;
        }
        return Some(i);
    }
    if kind == 2 && i > at { Some(i) } else { None }
}

/// The list the text denotes.
fn denoted(kind: usize, text: &str) -> Option<Vec<Item>> {
    let chars: Vec<char> = text.trim().chars().collect();
    let mut list = vec![];
    let mut i = 0;
    if chars.is_empty() {
        return Some(list);
    }
    loop {
        let start = i;
        if i < chars.len() && (chars[i] == '-' || chars[i] == '+') {
            i += 1;
        }
        let digits = i;
        while i < chars.len() && chars[i].is_ascii_digit() {
            i += 1;
        }
        if i == digits {
            return None;
        }
        let value: String = chars[start..i].iter().collect();
        list.push(Item(value.parse().ok()?));
        if i == chars.len() {
            return Some(list);
        }
        i = separator(kind, &chars, i)?;
    }
}

fn read<S: Separator>(text: &str) -> Option<Vec<Item>> {
    ListOf::<Item, S>::parse_string(text).ok().map(|l| l.list)
}

fn read_as(kind: usize, text: &str) -> Option<Vec<Item>> {
    match kind {
        0 => read::<Space>(text),
        1 => read::<Comma>(text),
        2 => read::<SpaceOrComma>(text),
        _ => read::<Semicolon>(text),
    }
}

fn check<C: Chooser>(ch: &mut C, text: &str) {
    vc::note!(ch, "text {text:?}");
    for kind in 0..4 {
        let expected = denoted(kind, text);
        let got = read_as(kind, text);
        vc::note!(ch, "separator kind {kind}: expected {expected:?}, got {got:?}");
        assert!(got.is_some() == expected.is_some(), "exactly the lists with the separators of the kind are accepted");
        assert!(got == expected, "the items are read in order and none is dropped");
    }
    ch.reached();
}

const ALPHABET: [char; 7] = ['1', '2', ' ', ',', ';', '-', '\n'];

pub fn texts<C: Chooser>(ch: &mut C) {
    let n = ch.below(7);
    let mut text = String::new();
    for _ in 0..n {
        text.push(ch.one_of(&ALPHABET));
    }
    check(ch, &text);
}

pub fn long_texts<C: Chooser>(ch: &mut C) {
    const PIECES: [&str; 20] = ["1", "23", "-4", "+5", "1", "7", " ", ",", ";", ", ", " , ", " ;", "; ", "  ", "\t", "\u{a0}", ",,", "9223372036854775807", "9223372036854775808", "x"];
    let n = ch.below(14);
    let mut text = String::new();
    for i in 0..n {
        // mostly items and separators in turn
        let piece = if ch.below(8) == 0 { ch.below(20) } else if i % 2 == 0 { ch.below(6) } else { 6 + ch.below(9) };
        text.push_str(PIECES[piece]);
    }
    check(ch, &text);
}

/// Many items with the same separator, with at most one other.
pub fn many<C: Chooser>(ch: &mut C) {
    const BETWEEN: [&str; 9] = [" ", ",", ";", ", ", " , ", "; ", "  ", "\t", ",,"];
    let n = ch.below(120);
    let usual = ch.one_of(&BETWEEN);
    let other = ch.below(240);
    let mut text = String::new();
    for i in 0..n {
        if i > 0 {
            text.push_str(if i == other { ch.one_of(&BETWEEN) } else { usual });
        }
        text.push_str(&i.to_string());
    }
    check(ch, &text);
}

fn printed<T: ToValue + std::fmt::Debug + PartialEq, S: Separator + Default>(list: Vec<T>) -> String {
    ListOf::<T, S>::from(list).to_value_string(PrinterOptions::default()).unwrap_or_else(|_| "error".to_string())
}

/// Printing and reading again gives the same list.
pub fn round_trip<C: Chooser>(ch: &mut C) {
    let n = ch.below(4);
    let mut list = vec![];
    for _ in 0..n {
        list.push(Item(ch.one_of(&[0, 1, -1, 42, -307, i64::MAX, i64::MIN])));
    }
    for kind in 0..4 {
        let text = match kind {
            0 => printed::<Item, Space>(list.clone()),
            1 => printed::<Item, Comma>(list.clone()),
            2 => printed::<Item, SpaceOrComma>(list.clone()),
            _ => printed::<Item, Semicolon>(list.clone()),
        };
        vc::note!(ch, "{list:?} printed as {text:?}");
        assert!(read_as(kind, &text).as_ref() == Some(&list), "a printed list is read back as the same list");
    }
    ch.reached();
}

/// The same for lists of the library's own numbers, lengths and words.
pub fn round_trip_values<C: Chooser>(ch: &mut C) {
    use oxvg_collections::attribute::core_attrs::{NonWhitespace, NumberOptionalNumber};
    let n = ch.below(4);
    let mut numbers: Vec<f32> = vec![];
    let mut words: Vec<NonWhitespace> = vec![];
    let mut pairs: Vec<NumberOptionalNumber> = vec![];
    for _ in 0..n {
        numbers.push(ch.one_of(&[0.0, 1.0, -1.5, 0.25, -0.125, 1e6, 100.0]));
        words.push(ch.one_of(&["a", "b-c", "x,y", "1;2", "d:e"]).into());
        let second = ch.one_of(&[None, Some(2.0), Some(-0.5)]);
        pairs.push(NumberOptionalNumber(*numbers.last().unwrap_or(&0.0), second));
    }
    vc::note!(ch, "{numbers:?} {words:?} {pairs:?}");
    fn same<'a, T, S>(ch: &mut impl Chooser, text: &'a str, list: &[T])
    where
        T: Parse<'a> + ToValue + std::fmt::Debug + PartialEq,
        S: Separator + Default + std::fmt::Debug,
    {
        let read = ListOf::<T, S>::parse_string(text);
        vc::note!(ch, "{text:?} read as {read:?}");
        assert!(read.is_ok_and(|l| l.list == list), "a printed list is read back as the same list");
    }
    let text = printed::<f32, Space>(numbers.clone());
    same::<f32, Space>(ch, &text, &numbers);
    let text = printed::<f32, Comma>(numbers.clone());
    same::<f32, Comma>(ch, &text, &numbers);
    let text = printed::<f32, SpaceOrComma>(numbers.clone());
    same::<f32, SpaceOrComma>(ch, &text, &numbers);
    let text = printed::<f32, Semicolon>(numbers.clone());
    same::<f32, Semicolon>(ch, &text, &numbers);
    let text = printed::<NonWhitespace, Space>(words.clone());
    same::<NonWhitespace, Space>(ch, &text, &words);
    let text = printed::<NumberOptionalNumber, Semicolon>(pairs.clone());
    same::<NumberOptionalNumber, Semicolon>(ch, &text, &pairs);
    ch.reached();
}

/// An item that is any text.
#[derive(Debug, PartialEq, Clone)]
pub struct Word(String);

impl<'i> Parse<'i> for Word {
    fn parse(input: &mut Parser<'i>) -> Result<Self, Error<'i>> {
        Ok(Word(input.take_slice().to_string()))
    }
}

/// Separators between quotes are part of the item.
pub fn quoted<C: Chooser>(ch: &mut C) {
    const ITEMS: [&str; 8] = ["a", "b1", "'c'", "'d,e'", "\"f;g\"", "\"h i\"", "'j\"k, l'", "\"'\""];
    const BETWEEN: [&[&str]; 4] = [&[" ", "  "], &[",", ", "], &[" ", ",", " , "], &[";", "; "]];
    let kind = ch.below(4);
    let n = ch.below(4);
    let mut items = vec![];
    let mut text = String::new();
    for i in 0..n {
        if i > 0 {
            text.push_str(ch.one_of(BETWEEN[kind]));
        }
        let item = ch.one_of(&ITEMS);
        items.push(Word(item.to_string()));
        text.push_str(item);
    }
    fn read<S: Separator>(text: &str) -> Option<Vec<Word>> {
        ListOf::<Word, S>::parse_string(text).ok().map(|l| l.list)
    }
    let got = match kind {
        0 => read::<Space>(&text),
        1 => read::<Comma>(&text),
        2 => read::<SpaceOrComma>(&text),
        _ => read::<Semicolon>(&text),
    };
    vc::note!(ch, "text {text:?} separator kind {kind} read as {got:?}");
    if n > 0 {
        assert!(got == Some(items), "a quoted item is one item, and none is dropped");
    }
    ch.reached();
}

/// An item of one character: a digit.
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Digit(u8);

impl<'i> Parse<'i> for Digit {
    fn parse(input: &mut Parser<'i>) -> Result<Self, Error<'i>> {
        let c = input.read()?;
        if c.is_ascii_digit() { Ok(Digit(c as u8)) } else { Err(Error::InvalidNumber) }
    }
    fn parse_string(input: &'i str) -> Result<Self, Error<'i>> {
        // white space at either end is no part of the item
        let b = input.as_bytes();
        let (mut i, mut j) = (0, b.len());
        while i < j && b[i] == b' ' {
            i += 1;
        }
        while i < j && b[j - 1] == b' ' {
            j -= 1;
        }
        if j == i + 1 && b[i].is_ascii_digit() { Ok(Digit(b[i])) } else { Err(Error::InvalidNumber) }
    }
}

/// Lists of digits in a text of at most `N` characters that begins with one: the longest
/// list is consumed, and a list that is broken off is an error.
pub fn digits<const N: usize, S: Separator, C: Chooser>(ch: &mut C, kind: usize) {
    const CHARS: [u8; 4] = [b'1', b' ', b',', b';'];
    let n = 1 + ch.below(N);
    let mut bytes = [b'7'; N];
    for b in bytes.iter_mut().take(n).skip(1) {
        *b = CHARS[ch.below(4)];
    }
    let bytes: &'static [u8; N] = vc::keep(bytes);
    // SAFETY: the bytes are ASCII
    let text = unsafe { std::str::from_utf8_unchecked(&bytes[..n]) };
    // the text ends with no white space
    ch.require(bytes[n - 1] != b' ');
    vc::note!(ch, "text {text:?} separator kind {kind}");
    let mut p = Parser::new(text);
    let got = std::mem::ManuallyDrop::new(ListOf::<Digit, S>::parse(&mut p));
    let end = p.cursor();

    // digits in turn with separators
    let mut count = 1;
    let mut i = 1;
    let mut whole = true;
    while i < n {
        let mut j = i;
        while j < n && bytes[j] == b' ' {
            j += 1;
        }
        let mark = if kind == 3 { b';' } else { b',' };
        let blank = j > i;
        let mut separated = blank && (kind == 0 || kind == 2);
        if kind != 0 && j < n && bytes[j] == mark {
            separated = true;
            j += 1;
            while j < n && bytes[j] == b' ' {
                j += 1;
            }
        }
        if !separated || j >= n || bytes[j] != b'1' {
            whole = false;
            break;
        }
        count += 1;
        i = j + 1;
    }
    let ok = match &*got {
        Ok(list) => end == n && list.list.len() == count,
        Err(_) => false,
    };
    assert!(ok == whole, "exactly the lists with the separators of the kind are accepted, none of their items dropped");
    if let Ok(list) = &*got {
        assert!(!list.list.is_empty() && list.list[0] == Digit(b'7'), "the first item comes first");
    }
    ch.reached();
}

/// Two digits with any one character between them are a list exactly when it is the separator.
pub fn between<S: Separator, C: Chooser>(ch: &mut C, kind: usize) {
    let c = ch.byte() & 127;
    let bytes: &'static [u8; 3] = vc::keep([b'7', c, b'1']);
    // SAFETY: the bytes are ASCII
    let text = unsafe { std::str::from_utf8_unchecked(bytes) };
    vc::note!(ch, "text {text:?} separator kind {kind}");
    let mut p = Parser::new(text);
    let got = std::mem::ManuallyDrop::new(ListOf::<Digit, S>::parse(&mut p));
    let blank = c == b' ' || (9..=13).contains(&c);
    let separated = match kind {
        0 => blank,
        1 => c == b',',
        2 => blank || c == b',',
        _ => c == b';',
    };
    let two = match &*got {
        Ok(list) => p.cursor() == 3 && list.list.len() == 2 && list.list[0] == Digit(b'7') && list.list[1] == Digit(b'1'),
        Err(_) => false,
    };
    assert!(two == separated, "two items exactly when the separator is between them");
    if !separated {
        assert!(got.is_err() || p.cursor() < 3, "without the separator it is no list");
    }
    ch.reached();
}
