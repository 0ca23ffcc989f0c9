//! C06: class lists as ordered token sets.
use crate::world::{allocator, element_data};
use oxvg_ast::element::Element;
use oxvg_collections::attribute::{Attr, AttrId};
use oxvg_serialize::{PrinterOptions, ToValue as _};
use vc::Chooser;

const TOKENS: [&str; 3] = ["a", "b", "ab"];

fn text(attr: &Attr) -> (String, String) {
    (attr.local_name().to_string(), attr.to_value_string(PrinterOptions::default()).expect("printable"))
}

/// The class tokens and the other attributes of an element.
fn observe(element: &Element) -> (Vec<String>, Vec<(String, String)>) {
    let attributes: Vec<_> = element.attributes().as_slice().iter().map(text).collect();
    let mut classes = attributes.iter().filter(|a| a.0 == "class");
    let tokens = classes.next().map(|a| a.1.split_ascii_whitespace().map(ToString::to_string).collect()).unwrap_or_default();
    assert!(classes.next().is_none(), "at most one class attribute");
    (tokens, attributes.into_iter().filter(|a| a.0 != "class").collect())
}

/// Any element: other attributes around a class attribute of at most three tokens.
fn element<C: Chooser>(ch: &mut C) -> (Element<'static, 'static>, Vec<String>, Vec<(String, String)>) {
    let element = Element::new(allocator(1).alloc(element_data())).expect("element");
    let mut others = vec![];
    let place = ch.below(4);
    let mut tokens: Vec<&'static str> = vec![];
    for i in 0..3 {
        if place == i && ch.flag() {
            let n = ch.below(4);
            for _ in 0..n {
                let t = ch.one_of(&TOKENS);
                ch.require(!tokens.contains(&t));
                tokens.push(t);
            }
            if !tokens.is_empty() {
                let attr = Attr::new(AttrId::Class, vc::keep(tokens.join(" ")));
                assert!(matches!(attr, Attr::Class(_)), "a list of tokens is a class attribute");
                element.set_attribute(attr);
            }
        }
        if i < 2 && ch.flag() {
            let attr = Attr::new([AttrId::Id, AttrId::Href][i].clone(), ["x", "y"][i]);
            others.push(text(&attr));
            element.set_attribute(attr);
        }
    }
    (element, tokens.iter().map(|t| t.to_string()).collect(), others)
}

fn edits<C: Chooser>(ch: &mut C, steps: usize) {
    let (element, mut tokens, mut others) = element(ch);
    vc::note!(ch, "classes {tokens:?} among {others:?}");
    let mut list = element.class_list();
    for _ in 0..steps {
        let token = ch.one_of(&TOKENS);
        match ch.below(12) {
            0 => {
                vc::note!(ch, "add {token}");
                if !tokens.iter().any(|t| t == token) {
                    tokens.push(token.to_string());
                }
                list.add(token.into());
            }
            1 => {
                vc::note!(ch, "remove {token}");
                tokens.retain(|t| t != token);
                list.remove(token);
            }
            2 => {
                let new = ch.one_of(&TOKENS);
                vc::note!(ch, "replace {token} by {new}");
                let had = tokens.iter().any(|t| t == token);
                if had {
                    // the first of both becomes the new token, the other goes
                    let place = tokens.iter().position(|t| t == token || t == new).unwrap();
                    tokens[place] = new.to_string();
                    let mut i = 0;
                    tokens.retain(|t| {
                        i += 1;
                        i - 1 == place || (t != token && t != new)
                    });
                }
                assert!(list.replace(token, new.into()) == had, "replacing tells whether the token was there");
            }
            3 => {
                vc::note!(ch, "toggle {token}");
                let had = tokens.iter().any(|t| t == token);
                if had {
                    tokens.retain(|t| t != token);
                } else {
                    tokens.push(token.to_string());
                }
                assert!(list.toggle(token.into()) != had, "toggling tells whether the token is there now");
            }
            4 => {
                let keep: Vec<bool> = tokens.iter().map(|_| ch.flag()).collect();
                vc::note!(ch, "keep {keep:?}");
                let mut seen = vec![];
                list.retain(|t| {
                    seen.push(t.0.to_string());
                    keep[seen.len() - 1]
                });
                assert!(seen == tokens, "filtering asks once about each token, in order");
                let mut i = 0;
                tokens.retain(|_| {
                    i += 1;
                    keep[i - 1]
                });
            }
            5 => {
                vc::note!(ch, "another view is used");
                list = element.class_list();
            }
            6 | 7 => {
                let i = ch.below(3);
                let (id, value) = ([AttrId::Id, AttrId::Href, AttrId::Lang][i].clone(), ["v", "w", "en"][i]);
                vc::note!(ch, "set {id:?}");
                let attr = Attr::new(id, value);
                let new = text(&attr);
                match others.iter().position(|o| o.0 == new.0) {
                    Some(p) => others[p] = new,
                    None => others.push(new),
                }
                element.set_attribute(attr);
            }
            8 | 9 => {
                let id = [AttrId::Id, AttrId::Href, AttrId::Lang][ch.below(3)].clone();
                vc::note!(ch, "remove {id:?}");
                others.retain(|o| o.0 != id.local_name().to_string());
                element.remove_attribute(&id);
            }
            10 => {
                vc::note!(ch, "remove the class attribute");
                element.remove_attribute(&AttrId::Class);
                tokens.clear();
            }
            _ => {
                vc::note!(ch, "set the class attribute to {token}");
                element.set_attribute(Attr::new(AttrId::Class, token));
                tokens = vec![token.to_string()];
            }
        }
        let (is, around) = observe(&element);
        assert!(is == tokens, "the class tokens are the prescribed ones, in order");
        assert!(around == others, "the other attributes are untouched");
        assert!(list.length() == tokens.len(), "number of tokens");
        assert!(list.keys().collect::<Vec<_>>() == (0..tokens.len()).collect::<Vec<_>>(), "indices of tokens");
        for t in TOKENS.iter().chain(&["", "c", "A"]) {
            assert!(list.contains(t) == tokens.iter().any(|x| x == t), "membership");
            assert!(element.has_class(t) == tokens.iter().any(|x| x == t), "membership asked of the element");
        }
        for i in 0..tokens.len() + 1 {
            assert!(list.item(i).map(|t| t.0.to_string()).as_ref() == tokens.get(i), "token by index");
        }
        let mut listed = vec![];
        list.for_each(|t| listed.push(t.0.to_string()));
        assert!(listed == tokens, "each token once, in order");
        let listed: Vec<String> = list.with_iter(|iter| iter.map(|t| t.0.to_string()).collect()).unwrap_or_default();
        assert!(listed == tokens, "iteration over the tokens");
        assert!(list.value() == tokens.join(" "), "the text of the list");
    }
    ch.reached();
}

/// All histories of at most two steps.
pub fn short_histories<C: Chooser>(ch: &mut C) {
    let steps = ch.below(3);
    edits(ch, steps);
}

pub fn histories<C: Chooser>(ch: &mut C) {
    let steps = ch.below(12);
    edits(ch, steps);
}

/// Edits of many tokens.
pub fn many<C: Chooser>(ch: &mut C) {
    let element = Element::new(allocator(2).alloc(element_data())).expect("element");
    let name = |i: usize| format!("t{i}");
    let mut tokens: Vec<String> = vec![];
    let mut list = element.class_list();
    for i in 0..ch.below(40) {
        list.add(name(i).into());
        tokens.push(name(i));
    }
    for _ in 0..6 {
        let token = name(ch.below(44));
        match ch.below(4) {
            0 => {
                vc::note!(ch, "add {token}");
                list.add(token.clone().into());
                if !tokens.contains(&token) {
                    tokens.push(token);
                }
            }
            1 => {
                vc::note!(ch, "remove {token}");
                list.remove(&token);
                tokens.retain(|t| *t != token);
            }
            2 => {
                vc::note!(ch, "toggle {token}");
                let has = tokens.contains(&token);
                assert!(list.toggle(token.clone().into()) != has, "toggling says whether the token is in the list now");
                if has {
                    tokens.retain(|t| *t != token);
                } else {
                    tokens.push(token);
                }
            }
            _ => {
                let new = name(50 + ch.below(100));
                vc::note!(ch, "replace {token} by {new}");
                let place = tokens.iter().position(|t| *t == token).filter(|_| !tokens.contains(&new));
                if tokens.contains(&new) {
                    continue;
                }
                assert!(list.replace(&token, new.clone().into()) == place.is_some(), "replacing says whether the token was there");
                if let Some(place) = place {
                    tokens[place] = new;
                }
            }
        }
        let (is, _) = observe(&element);
        assert!(is == tokens, "the class tokens are the prescribed ones, in order");
        assert!(list.length() == tokens.len(), "number of tokens");
        assert!(tokens.iter().all(|t| list.contains(t)), "membership");
        assert!(list.value() == tokens.join(" "), "the text of the list");
    }
    ch.reached();
}

/// One edit where tokens are written several times: what is in the set, and the order of what stays.
pub fn repeated<C: Chooser>(ch: &mut C) {
    let element = Element::new(allocator(1).alloc(element_data())).expect("element");
    let n = 1 + ch.below(6);
    let written: Vec<&str> = (0..n).map(|_| ch.one_of(&TOKENS)).collect();
    vc::note!(ch, "classes {written:?}");
    element.set_attribute(Attr::new(AttrId::Class, vc::keep(written.join(" "))));
    let mut set: Vec<&str> = vec![];
    for t in &written {
        if !set.contains(t) {
            set.push(t);
        }
    }
    let mut list = element.class_list();
    let (token, new) = (ch.one_of(&["a", "b", "ab", "c"]), ch.one_of(&["a", "b", "ab", "c"]));
    let had = set.contains(&token);
    match ch.below(4) {
        0 => {
            vc::note!(ch, "add {token}");
            list.add(token.into());
            if !had {
                set.push(token);
            }
        }
        1 => {
            vc::note!(ch, "remove {token}");
            list.remove(token);
            set.retain(|t| *t != token);
        }
        2 => {
            vc::note!(ch, "toggle {token}");
            assert!(list.toggle(token.into()) != had, "toggling tells whether the token is there now");
            if had {
                set.retain(|t| *t != token);
            } else {
                set.push(token);
            }
        }
        _ => {
            vc::note!(ch, "replace {token} by {new}");
            assert!(list.replace(token, new.into()) == had, "replacing tells whether the token was there");
            if had {
                let place = set.iter().position(|t| *t == token || *t == new).unwrap();
                set[place] = new;
                let mut i = 0;
                set.retain(|t| {
                    i += 1;
                    i - 1 == place || *t != token && *t != new
                });
            }
        }
    }
    for t in ["a", "b", "ab", "c"] {
        assert!(list.contains(t) == set.contains(&t), "a token is in the set exactly if it should be");
    }
    let (tokens, _) = observe(&element);
    let mut first: Vec<String> = vec![];
    for t in tokens {
        if !first.contains(&t) {
            first.push(t);
        }
    }
    assert!(first == set, "the tokens are in the order they were");
    ch.reached();
}
