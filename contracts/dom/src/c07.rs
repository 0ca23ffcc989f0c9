//! C07: escaping.
use crate::xml::decode;
use oxvg_ast::error::XmlWriterError;
use oxvg_ast::xmlwriter::{Options, Space, XmlWriter};
use oxvg_collections::{attribute::{Attr, AttrId}, element::ElementId};
use std::fmt::Write as _;
use std::io::Write;
use vc::Chooser;

const CHARS: [char; 9] = ['<', '&', '"', '\'', '>', ';', 'a', 'é', ']'];

/// Where the characters are written.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    Text,
    TextFormatted,
    AttributeFormatted,
    AttributeRaw,
    Attribute,
}
const PLACES: [Place; 5] = [Place::Text, Place::TextFormatted, Place::AttributeFormatted, Place::AttributeRaw, Place::Attribute];

/// A sink that takes at most `step` bytes in one call.
struct Sink(Vec<u8>, usize);
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.1);
        self.0.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// The bytes written for the pieces of a value.
fn written(place: Place, single: bool, pieces: &[String], step: usize) -> String {
    let whole = pieces.concat();
    let options = Options { use_single_quote: single, trim_whitespace: Space::Never, ..Options::default() };
    let mut w = XmlWriter::new(Sink(vec![], step), options);
    w.start_element(&ElementId::G).expect("start");
    let pieces3: [&str; 3] = std::array::from_fn(|i| pieces.get(i).map_or("", String::as_str));
    match place {
        Place::Text => {
            for piece in pieces {
                w.write_text(piece, true, true).expect("text");
            }
        }
        Place::TextFormatted => w.write_text_fmt(format_args!("{}{}{}", pieces3[0], pieces3[1], pieces3[2])).expect("text"),
        Place::AttributeFormatted => w.write_attribute_fmt(format_args!("x"), format_args!("{}{}{}", pieces3[0], pieces3[1], pieces3[2])).expect("attribute"),
        Place::AttributeRaw => w
            .write_attribute_raw(format_args!("x"), |w| {
                for piece in pieces {
                    if piece.chars().count() == 1 {
                        w.write_char(piece.chars().next().unwrap()).map_err(XmlWriterError::FMT)?;
                    } else {
                        w.write_str(piece).map_err(XmlWriterError::FMT)?;
                    }
                }
                Ok(())
            })
            .expect("attribute"),
        Place::Attribute => w
            .write_attribute(&Attr::Unparsed { attr_id: AttrId::Unknown(oxvg_collections::name::QualName { prefix: oxvg_collections::name::Prefix::SVG, local: "x".into() }), value: whole.into() })
            .expect("attribute"),
    }
    let sink = w.end_document().expect("end");
    String::from_utf8(sink.0).expect("text")
}

fn check(place: Place, single: bool, pieces: &[String], step: usize) {
    let whole = pieces.concat();
    let out = written(place, single, pieces, step);
    let text = matches!(place, Place::Text | Place::TextFormatted);
    let quote = if single { '\'' } else { '"' };
    if text {
        if whole.is_empty() {
            assert!(out == "<g/>" || out == "<g></g>", "nothing is written for no text");
            return;
        }
        let inner = out.strip_prefix("<g>").and_then(|r| r.strip_suffix("</g>"));
        assert!(inner.is_some(), "the text is between the tags");
        let inner = inner.unwrap();
        assert!(decode(inner).as_deref() == Some(whole.as_str()), "the text decodes to the characters written");
        assert!(!inner.contains("]]>"), "no end of a CDATA section in text");
    } else {
        let inner = out.strip_prefix(&format!("<g x={quote}")).and_then(|r| r.strip_suffix(&format!("{quote}/>")));
        assert!(inner.is_some(), "the value is between the quotes");
        let inner = inner.unwrap();
        assert!(!inner.contains(quote), "no quote inside the value");
        assert!(decode(inner).as_deref() == Some(whole.as_str()), "the value decodes to the characters written");
    }
}

fn text<C: Chooser>(ch: &mut C, n: usize, any: bool) -> String {
    (0..n).map(|_| if any && ch.below(4) == 0 { ch.char() } else { CHARS[ch.below(CHARS.len())] }).collect()
}

/// Short values in every place.
pub fn short<C: Chooser>(ch: &mut C) {
    let place = ch.one_of(&PLACES);
    let single = ch.flag();
    let n = ch.below(5);
    let value = text(ch, n, false);
    vc::note!(ch, "{value:?} as {place:?}, single quotes: {single}");
    check(place, single, &[value], 1000);
    ch.reached();
}

/// Values in at most three pieces, with a sink that takes few bytes at once.
pub fn pieces<C: Chooser>(ch: &mut C) {
    let place = ch.one_of(&PLACES);
    let single = ch.flag();
    let mut all = vec![];
    for _ in 0..1 + ch.below(3) {
        let n = ch.below(7);
        all.push(text(ch, n, true));
    }
    let step = 1 + ch.below(5);
    vc::note!(ch, "{all:?} as {place:?}, single quotes: {single}, {step} bytes at once");
    check(place, single, &all, step);
    ch.reached();
}

/// Long values.
pub fn long<C: Chooser>(ch: &mut C) {
    let place = ch.one_of(&PLACES);
    let single = ch.flag();
    let plain = 1 + ch.below(12);
    let n = ch.below(400);
    let value: String = (0..n).map(|_| if ch.below(plain) > 0 { 'x' } else { CHARS[ch.below(CHARS.len())] }).collect();
    vc::note!(ch, "{value:?} as {place:?}, single quotes: {single}");
    check(place, single, &[value], 1000);
    ch.reached();
}

/// A sink of fixed size.
pub struct Fixed<'a, const M: usize>(pub &'a mut [u8; M], pub &'a mut usize);
impl<const M: usize> Write for Fixed<'_, M> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.write_all(buf)?;
        Ok(buf.len())
    }
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        let mut i = 0;
        while i < buf.len() {
            self.0[*self.1] = buf[i];
            *self.1 += 1;
            i += 1;
        }
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// The length of the entity at `at` if it stands for `byte`.
fn entity(out: &[u8; 32], at: usize, byte: u8) -> Option<usize> {
    let is = |text: &[u8]| {
        let mut i = 0;
        while i < text.len() {
            if out[at + i] != text[i] {
                return false;
            }
            i += 1;
        }
        true
    };
    let text: &[u8] = match byte {
        b'&' => b"&amp;",
        b'<' => b"&lt;",
        b'>' => b"&gt;",
        b'"' => b"&quot;",
        b'\'' => b"&apos;",
        _ => return None,
    };
    is(text).then_some(text.len())
}

/// Every value of a few bytes.
pub fn bytes<C: Chooser, const N: usize>(ch: &mut C, place: Place) {
    let single = ch.flag();
    let n = ch.below(N + 1);
    let mut bytes = [b'a'; N];
    let mut i = 0;
    while i < N {
        bytes[i] = ch.byte();
        ch.require(bytes[i] < 128);
        i += 1;
    }
    let value = unsafe { std::str::from_utf8_unchecked(&bytes[..n]) };
    vc::note!(ch, "{value:?} as {place:?}, single quotes: {single}");
    let mut out = [0; 32];
    let mut len = 0;
    let options = Options { use_single_quote: single, trim_whitespace: Space::Never, ..Options::default() };
    let mut w = std::mem::ManuallyDrop::new(XmlWriter::new(Fixed(&mut out, &mut len), options));
    let started = w.start_element(&ElementId::G).is_ok();
    let written = match place {
        Place::Text => w.write_text(value, true, true).is_ok(),
        _ => w.write_attribute_raw(format_args!("x"), |w| w.write_str(value).map_err(XmlWriterError::FMT)).is_ok(),
    };
    assert!(started && written, "the value is written");
    let mut at = if place == Place::Text { 3 } else { 6 };
    let mut i = 0;
    while i < n {
        let byte = bytes[i];
        match entity(&out, at, byte) {
            Some(length) => at += length,
            None => {
                let quote = if single { b'\'' } else { b'"' };
                assert!(byte != b'<' && byte != b'&' && (place == Place::Text || byte != quote), "no raw markup character");
                assert!(byte != b'>' || i < 2 || bytes[i - 1] != b']' || bytes[i - 2] != b']', "no end of a CDATA section");
                assert!(out[at] == byte, "other characters are written as they are");
                at += 1;
            }
        }
        i += 1;
    }
    if place == Place::Text {
        assert!(len == at || n == 0 && len == 2, "nothing else is written");
    } else {
        assert!(len == at + 1 && out[at] == if single { b'\'' } else { b'"' }, "the value ends with the quote");
    }
    ch.reached();
}
