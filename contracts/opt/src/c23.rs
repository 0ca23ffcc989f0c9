//! C23: references keep pointing at their elements.
use oxvg_ast::{parse::roxmltree::parse, serialize::Node as _, visitor::Info, xmlwriter::Options};
use oxvg_optimiser::{CleanupIds, Jobs, PrefixIds};
use vc::Chooser;

pub const HEAD: &str = "<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\">";

/// The text before and after the jobs.
pub fn run(source: &str, jobs: &Jobs) -> (String, String) {
    parse(source, |dom, allocator| {
        let before = dom.serialize_with_options(Options::original()).expect("written");
        assert!(jobs.run(dom, &Info::new(allocator)).is_ok(), "the jobs succeed");
        let after = dom.serialize_with_options(Options::original()).expect("written");
        (before, after)
    })
    .expect("read")
}

/// What of an attribute's value refers to ids.
fn references(name: &str, value: &str) -> Vec<String> {
    let mut result = vec![];
    let mut rest = value;
    while let Some(at) = rest.find("url(") {
        rest = &rest[at + 4..];
        let Some(end) = rest.find(')') else { break };
        let inner = rest[..end].trim().trim_matches(['"', '\'']);
        if let Some(id) = inner.strip_prefix('#') {
            result.push(percent(&id.replace('\\', "")));
        }
    }
    match name {
        "href" => {
            if let Some(id) = value.strip_prefix('#') {
                result.push(percent(id));
            }
        }
        "begin" | "end" => {
            for part in value.split(';') {
                if let Some((id, _)) = part.trim().split_once('.')
                    && !id.is_empty()
                    && id.chars().all(|c| c.is_alphanumeric() || c == '_')
                    && !id.starts_with(|c: char| c.is_ascii_digit())
                {
                    result.push(id.into());
                }
            }
        }
        "aria-labelledby" | "aria-describedby" => result.extend(value.split_ascii_whitespace().map(String::from)),
        _ => {}
    }
    result
}

fn percent(text: &str) -> String {
    let bytes = text.as_bytes();
    let mut result = vec![];
    let mut i = 0;
    while i < bytes.len() {
        if bytes[i] == b'%'
            && let Some(hex) = text.get(i + 1..i + 3)
            && let Ok(byte) = u8::from_str_radix(hex, 16)
        {
            result.push(byte);
            i += 3;
        } else {
            result.push(bytes[i]);
            i += 1;
        }
    }
    String::from_utf8(result).unwrap_or_else(|_| text.into())
}

/// For each element its id, and where the references of each attribute lead.
pub struct View {
    pub ids: Vec<Option<String>>,
    pub targets: Vec<Vec<(String, Vec<Option<usize>>)>>,
}

pub fn view(text: &str) -> View {
    let document = roxmltree::Document::parse(text);
    assert!(document.is_ok(), "the document is well-formed");
    let document = document.unwrap();
    let elements: Vec<_> = document.descendants().filter(roxmltree::Node::is_element).collect();
    let ids: Vec<Option<String>> = elements.iter().map(|e| e.attribute("id").map(String::from)).collect();
    let targets = elements
        .iter()
        .map(|e| {
            let mut targets: Vec<_> = e
                .attributes()
                .filter(|a| a.name() != "id")
                .map(|a| {
                    let targets = references(a.name(), a.value()).into_iter().map(|r| ids.iter().position(|id| id.as_ref() == Some(&r))).collect();
                    (a.name().to_string(), targets)
                })
                .collect();
            targets.sort();
            targets
        })
        .collect();
    View { ids, targets }
}

const IDS: [&str; 16] = ["gradient", "b", "a", "aa", "é", "x-y", "7", "12", "keep1", "C", "c", "keep2", "x.y", "é%", "B", "_z"];
/// `#` stands for the id.
const REFERENCES: [(&str, &str); 30] = [
    ("rect", "fill=\"url(#)\""),
    ("rect", "stroke=\"url('#')\""),
    ("rect", "fill=\"url(#) red\""),
    ("g", "clip-path=\"url(#)\""),
    ("g", "mask=\"url(#)\""),
    ("g", "filter=\"url(#)\""),
    ("g", "filter=\"url(#) blur(2px)\""),
    ("path", "marker-start=\"url(#)\""),
    ("path", "marker-mid=\"url(#)\""),
    ("path", "marker-end=\"url(#)\""),
    ("use", "href=\"#\""),
    ("use", "xlink:href=\"#\""),
    ("a", "href=\"#\""),
    ("textPath", "href=\"#\""),
    ("linearGradient", "xlink:href=\"#\""),
    ("pattern", "href=\"#\""),
    ("image", "href=\"#\""),
    ("animate", "href=\"#\""),
    ("animateMotion", "xlink:href=\"#\""),
    ("set", "href=\"#\""),
    ("mpath", "href=\"#\""),
    ("feImage", "href=\"#\""),
    ("rect", "style=\"fill:url(#)\""),
    ("rect", "style=\"stroke:url(#) red;fill:red\""),
    ("g", "style=\"clip-path:url(#);mask:url(#)\""),
    ("g", "style=\"filter:url(#)\""),
    ("path", "style=\"marker:url(#);marker-end:url(#)\""),
    ("animate", "begin=\"#.click\""),
    ("set", "begin=\"1s; #.begin + 2s\" end=\"#.end\""),
    ("g", "aria-labelledby=\"#\""),
];

/// A document and the ids of its elements.
fn source<C: Chooser>(ch: &mut C, ids: &[&'static str], elements: usize, references_: usize, twice: bool) -> String {
    let mut text = String::from(HEAD);
    let mut pool: Vec<&str> = ids.to_vec();
    let mut open: Vec<&str> = vec![];
    let mut left = ch.below(references_ + 1);
    for _ in 0..1 + ch.below(elements) {
        let id = if pool.is_empty() || ch.below(3) == 0 {
            String::new()
        } else {
            let at = ch.below(pool.len());
            let id = if twice && ch.below(6) == 0 { pool[at] } else { pool.swap_remove(at) };
            format!(" id=\"{id}\"")
        };
        let mut name = ch.one_of(&["g", "rect", "linearGradient", "defs", "clipPath"]);
        let mut attributes = String::new();
        if left > 0 && ch.below(3) != 0 {
            left -= 1;
            let (element, attribute) = ch.one_of(&REFERENCES);
            name = element;
            // mostly to an element of the document
            let id = ch.one_of(ids);
            let simple = id.chars().all(|c| c.is_alphabetic());
            if simple || !attribute.contains("#.") {
                let encode = attribute.contains('(') || attribute.contains("href");
                let spelled = match id {
                    "é" if encode && ch.flag() => "%C3%A9",
                    "é%" if encode => "%C3%A9%25",
                    "x.y" if encode && attribute.contains("url(#") => "x.y",
                    id => id,
                };
                let with = if encode { format!("#{spelled}") } else { spelled.to_string() };
                attributes = format!(" {}", attribute.replace('#', &with));
            }
        }
        text.push_str(&format!("<{name}{id}{attributes}"));
        if ch.flag() {
            text.push('>');
            open.push(name);
        } else {
            text.push_str("/>");
        }
        while !open.is_empty() && ch.below(3) == 0 {
            text.push_str(&format!("</{}>", open.pop().unwrap()));
        }
    }
    while let Some(name) = open.pop() {
        text.push_str(&format!("</{name}>"));
    }
    text.push_str("</svg>");
    text
}

pub fn check(before: &View, after: &View) {
    assert!(before.ids.len() == after.ids.len(), "no element is added or removed");
    for i in 0..before.ids.len() {
        assert!(before.targets[i].len() == after.targets[i].len(), "no attribute is added or removed");
        for (b, a) in before.targets[i].iter().zip(&after.targets[i]) {
            assert!(b.0 == a.0 && b.1.len() == a.1.len(), "no reference is added or removed");
            for (b, a) in b.1.iter().zip(&a.1) {
                match b {
                    Some(_) => assert!(a == b, "a reference still leads to its element"),
                    None => assert!(a.is_none(), "a reference that led nowhere still does"),
                }
            }
        }
        for j in 0..i {
            if before.ids[i] != before.ids[j] {
                assert!(after.ids[i].is_none() || after.ids[i] != after.ids[j], "different ids stay different");
            }
        }
        assert!(before.ids[i].is_some() || after.ids[i].is_none(), "no id is added");
    }
}

pub fn cleanup<C: Chooser>(ch: &mut C) {
    clean(ch, &IDS, 9, 8);
}

static MANY: std::sync::LazyLock<Vec<&'static str>> =
    std::sync::LazyLock::new(|| (0..90).map(|i| &*["a", "b", "c", "n", "keep"][i % 5].repeat(1 + i / 60).chars().chain(i.to_string().chars()).collect::<String>().leak()).chain(IDS).collect());

/// More ids than there are letters.
pub fn cleanup_many<C: Chooser>(ch: &mut C) {
    clean(ch, &MANY, 120, 50);
}

pub fn prefix_many<C: Chooser>(ch: &mut C) {
    prefixed(ch, &MANY, 120, 50);
}

fn clean<C: Chooser>(ch: &mut C, ids: &[&'static str], elements: usize, references: usize) {
    let mut text = source(ch, ids, elements, references, true);
    // what can use ids in ways that cannot be followed
    let active = ch.one_of(&["", "", "", "<script>f()</script>", "<g onclick=\"f()\"/>", "<a href=\"javascript:f()\"/>", "<style>#a{fill:red}</style>", "<g><g><style>#a{fill:red}</style></g></g>"]);
    let at = text.rfind("</svg>").unwrap();
    text.insert_str(at, active);
    let preserve: Option<Vec<String>> = ch.flag().then(|| (0..ch.below(3)).map(|_| ch.one_of(ids).to_string()).collect());
    let prefixes: Option<Vec<String>> = ch.flag().then(|| vec![ch.one_of(&["keep", "a", "x", "zz"]).to_string()]);
    let job = CleanupIds { remove: ch.flag(), minify: ch.flag(), preserve: preserve.clone(), preserve_prefixes: prefixes.clone(), force: ch.flag() };
    vc::note!(ch, "{job:?}");
    vc::note!(ch, "{text}");
    let (minify, remove) = (job.minify, job.remove);
    let ignored = !job.force && !active.is_empty();
    let (before, after) = run(&text, &Jobs { cleanup_ids: Some(job), ..Jobs::none() });
    vc::note!(ch, "after {after}");
    if ignored {
        assert!(before == after, "a document with scripts or style sheets is left alone unless forced");
    }
    let (before, after) = (view(&before), view(&after));
    check(&before, &after);
    for i in 0..before.ids.len() {
        let Some(id) = &before.ids[i] else { continue };
        // later elements with an id of an earlier one can lose it
        if before.ids.iter().filter(|other| *other == &before.ids[i]).count() > 1 {
            continue;
        }
        let preserved = preserve.as_ref().is_some_and(|p| p.contains(id)) || prefixes.as_ref().is_some_and(|p| p.iter().any(|p| id.starts_with(p)));
        if preserved {
            assert!(after.ids[i].as_ref() == Some(id), "an id to preserve is kept");
        } else if !minify && after.ids[i].is_some() {
            assert!(after.ids[i].as_ref() == Some(id), "an id is kept as it is unless ids are to be minified");
        }
        if !remove {
            assert!(after.ids[i].is_some() || id.chars().all(char::is_numeric), "no id is removed unless asked to");
        }
    }
    ch.reached();
}

pub fn prefix<C: Chooser>(ch: &mut C) {
    prefixed(ch, &IDS, 9, 8);
}

/// Which elements the rules of style sheets apply to, what they refer to, and the classes of elements.
fn sheets(text: &str) -> (Vec<(Vec<usize>, Vec<Option<usize>>)>, Vec<Vec<String>>) {
    let document = roxmltree::Document::parse(text).expect("well-formed");
    let elements: Vec<_> = document.descendants().filter(roxmltree::Node::is_element).collect();
    let classes: Vec<Vec<String>> = elements.iter().map(|e| e.attribute("class").unwrap_or("").split_ascii_whitespace().map(String::from).collect()).collect();
    let mut rules = vec![];
    for style in elements.iter().filter(|e| e.has_tag_name((crate::tree::SVG, "style"))) {
        let css: String = style.children().filter_map(|c| c.text()).collect();
        for rule in css.split('}') {
            let Some((selector, body)) = rule.split_once('{') else { continue };
            let selector = selector.trim();
            let chosen = |e: usize| match selector.split_at(1) {
                ("#", id) => elements[e].attribute("id") == Some(id),
                (".", class) => classes[e].iter().any(|c| c == class),
                _ => false,
            };
            let applies = (0..elements.len()).filter(|e| chosen(*e)).collect();
            let leads = references("style", body).iter().map(|r| elements.iter().position(|e| e.attribute("id") == Some(r))).collect();
            rules.push((applies, leads));
        }
    }
    (rules, classes)
}

fn prefixed<C: Chooser>(ch: &mut C, ids: &[&'static str], elements: usize, references: usize) {
    let mut text = source(ch, ids, elements, references, true);
    if ch.flag() {
        // A style sheet, and elements with classes.
        const NAMES: [&str; 6] = ["a", "b", "aa", "gradient", "C", "k"];
        let mut more = String::from("<style>");
        for _ in 0..ch.below(4) {
            let (kind, chosen, property, name) = (ch.one_of(&["#", "."]), ch.one_of(&NAMES), ch.one_of(&["fill", "stroke", "mask"]), ch.one_of(&NAMES));
            more.push_str(&format!("{kind}{chosen}{{{property}:url(#{name})}}"));
        }
        more.push_str("</style>");
        for _ in 0..ch.below(3) {
            more.push_str(&format!("<g class=\"{} {}\"/>", ch.one_of(&NAMES), ch.one_of(&NAMES)));
        }
        let root = text.find("<svg").unwrap();
        let at = root + text[root..].find('>').unwrap() + 1;
        text.insert_str(at, &more);
    }
    let (name, prefix) = match ch.below(4) {
        0 => (String::new(), "false".to_string()),
        1 => ("prefix__".to_string(), "true".to_string()),
        _ => {
            let p = ch.one_of(&["p", "q_", "long"]);
            (format!("{p}__"), format!("{p:?}"))
        }
    };
    let (prefix_ids, classes) = (ch.flag(), ch.flag());
    let job = format!("{{\"delim\":\"__\",\"prefix\":{prefix},\"prefixIds\":{prefix_ids},\"prefixClassNames\":{classes}}}");
    let job: PrefixIds = serde_json::from_str(&job).expect("options");
    let all = job.prefix_ids;
    vc::note!(ch, "{job:?}");
    vc::note!(ch, "{text}");
    let (before, after) = run(&text, &Jobs { prefix_ids: Some(job), ..Jobs::none() });
    vc::note!(ch, "after {after}");
    let (rules, mut named) = sheets(&before);
    let (rules_after, named_after) = sheets(&after);
    if classes {
        for class in named.iter_mut().flatten() {
            *class = format!("{name}{class}");
        }
    }
    assert!(named == named_after, "classes are prefixed exactly if asked to");
    assert!(rules == rules_after, "the rules of a style sheet apply to the same elements and refer to the same");
    let (before, after) = (view(&before), view(&after));
    check(&before, &after);
    for i in 0..before.ids.len() {
        if let Some(id) = &before.ids[i] {
            let expected = if all { format!("{name}{id}") } else { id.clone() };
            assert!(after.ids[i].as_ref() == Some(&expected), "an id is prefixed exactly if asked to");
        }
    }
    ch.reached();
}
