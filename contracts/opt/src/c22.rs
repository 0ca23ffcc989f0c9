//! C22: generated ids, as they appear in minified documents.
use crate::c23::{HEAD, run, view};
use oxvg_optimiser::{CleanupIds, Jobs};
use vc::Chooser;

/// The number of an identifier among all of at most its length, shorter ones first.
fn number(id: &str) -> Option<usize> {
    let mut n = 0;
    for c in id.bytes() {
        let digit = match c {
            b'a'..=b'z' => c - b'a',
            b'A'..=b'Z' => c - b'A' + 26,
            _ => return None,
        };
        n = n * 52 + digit as usize + 1;
    }
    Some(n)
}

/// `n` ids that are used, some that must be preserved, and references that lead nowhere.
fn minified(n: usize, preserve: &[String], dangling: &[String]) -> Vec<Option<String>> {
    let mut text = String::from(HEAD);
    for p in preserve {
        text.push_str(&format!("<g id=\"{p}\"/>"));
    }
    for i in 0..n {
        text.push_str(&format!("<g id=\"id-{i}\"/>"));
    }
    for i in 0..n {
        text.push_str(&format!("<use href=\"#id-{i}\"/>"));
    }
    for d in dangling {
        text.push_str(&format!("<use href=\"#{d}\"/>"));
    }
    text.push_str("</svg>");
    let job = CleanupIds { preserve: Some(preserve.to_vec()), ..CleanupIds::default() };
    let (_, after) = run(&text, &Jobs { cleanup_ids: Some(job), ..Jobs::none() });
    view(&after).ids.split_off(1 + preserve.len())[..n].to_vec()
}

fn check(ids: &[Option<String>], taken: &[String]) {
    let mut longest = 0;
    let mut numbers: Vec<usize> = ids
        .iter()
        .map(|id| {
            assert!(id.is_some(), "an id that is used is kept");
            let id = id.as_ref().unwrap();
            let number = number(id);
            assert!(!id.is_empty() && number.is_some(), "an id is made of letters");
            assert!(!taken.contains(id), "an id that must be preserved is not used again");
            longest = longest.max(id.len());
            number.unwrap()
        })
        .collect();
    numbers.sort_unstable();
    assert!(numbers.windows(2).all(|n| n[0] < n[1]), "ids are different");
    // all shorter ids are used
    let shorter = (1..longest).fold(0, |n, _| n * 52 + 52);
    let used = numbers.iter().filter(|n| **n <= shorter).count();
    let excluded = taken.iter().filter(|id| id.len() < longest && number(id).is_some()).count();
    assert!(used + excluded == shorter, "ids grow only when all shorter ones are used");
}

pub fn counts<C: Chooser>(ch: &mut C) {
    let n = if ch.flag() { ch.below(2900) } else { 2899 };
    vc::note!(ch, "{n} ids");
    check(&minified(n, &[], &[]), &[]);
    ch.reached();
}

pub fn preserved<C: Chooser>(ch: &mut C) {
    let n = ch.below(60);
    let mut taken: Vec<String> = vec![];
    for _ in 0..ch.below(13) {
        let letter = |n: usize| char::from(if n < 26 { b'a' + n as u8 } else { b'A' + (n - 26) as u8 });
        let mut id = letter(ch.below(52)).to_string();
        if ch.below(3) == 0 {
            id = format!("{}{id}", ch.one_of(&['a', 'b']));
        }
        if !taken.contains(&id) {
            taken.push(id);
        }
    }
    let split = ch.below(taken.len() + 1);
    let (preserve, dangling) = taken.split_at(split);
    vc::note!(ch, "{n} ids, {preserve:?} to be preserved, references to {dangling:?}");
    check(&minified(n, preserve, dangling), &taken);
    ch.reached();
}
