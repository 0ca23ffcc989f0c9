//! A small strict reader of markup, the oracle for written documents.

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Item {
    Element { name: String, attributes: Vec<(String, String)>, children: Vec<Item> },
    Text(String),
    Comment(String),
    Instruction(String),
}

/// Replaces the predefined entities. `None` if a markup character is left bare.
pub fn decode(text: &str) -> Option<String> {
    let mut result = String::new();
    let mut rest = text;
    while let Some(c) = rest.chars().next() {
        match c {
            '<' => return None,
            '&' => {
                let end = rest.find(';')?;
                result.push(match &rest[1..end] {
                    "amp" => '&',
                    "lt" => '<',
                    "gt" => '>',
                    "quot" => '"',
                    "apos" => '\'',
                    other => {
                        let code = other.strip_prefix('#')?;
                        let code = match code.strip_prefix('x') {
                            Some(hex) => u32::from_str_radix(hex, 16).ok()?,
                            None => code.parse().ok()?,
                        };
                        char::from_u32(code)?
                    }
                });
                rest = &rest[end + 1..];
            }
            _ => {
                result.push(c);
                rest = &rest[c.len_utf8()..];
            }
        }
    }
    Some(result)
}

fn name_end(text: &str) -> usize {
    text.find(|c: char| c.is_ascii_whitespace() || matches!(c, '=' | '>' | '/' | '<' | '&' | '"' | '\'')).unwrap_or(text.len())
}

fn push_text(items: &mut Vec<Item>, text: String) {
    if text.is_empty() {
        return;
    }
    if let Some(Item::Text(t)) = items.last_mut() {
        t.push_str(&text);
    } else {
        items.push(Item::Text(text));
    }
}

/// Reads items up to the end tag of the innermost element (or the end). Returns the rest.
fn items<'a>(mut rest: &'a str, result: &mut Vec<Item>, top: bool) -> Result<&'a str, String> {
    loop {
        if rest.is_empty() {
            return if top { Ok(rest) } else { Err("an element is not closed".into()) };
        }
        if let Some(after) = rest.strip_prefix("<!--") {
            let end = after.find("--").ok_or("a comment is not closed")?;
            if !after[end..].starts_with("-->") {
                return Err("two hyphens in a comment".into());
            }
            result.push(Item::Comment(after[..end].into()));
            rest = &after[end + 3..];
        } else if let Some(after) = rest.strip_prefix("<![CDATA[") {
            let end = after.find("]]>").ok_or("a CDATA section is not closed")?;
            if top {
                return Err("text outside the elements".into());
            }
            push_text(result, after[..end].into());
            rest = &after[end + 3..];
        } else if let Some(after) = rest.strip_prefix("<?") {
            let end = after.find("?>").ok_or("an instruction is not closed")?;
            result.push(Item::Instruction(after[..end].into()));
            rest = &after[end + 2..];
        } else if rest.starts_with("</") {
            return if top { Err("an end tag without start tag".into()) } else { Ok(rest) };
        } else if let Some(after) = rest.strip_prefix('<') {
            let end = name_end(after);
            if end == 0 {
                return Err("a bare less-than".into());
            }
            let name = &after[..end];
            rest = &after[end..];
            let mut attributes: Vec<(String, String)> = vec![];
            loop {
                let trimmed = rest.trim_start_matches([' ', '\n', '\t', '\r']);
                let spaced = trimmed.len() < rest.len();
                rest = trimmed;
                if let Some(after) = rest.strip_prefix("/>") {
                    result.push(Item::Element { name: name.into(), attributes, children: vec![] });
                    rest = after;
                    break;
                }
                if let Some(after) = rest.strip_prefix('>') {
                    let mut children = vec![];
                    let after = items(after, &mut children, false)?;
                    let after = after.strip_prefix("</").and_then(|r| r.strip_prefix(name)).ok_or("an end tag of another element")?;
                    rest = after.trim_start_matches([' ', '\n', '\t', '\r']).strip_prefix('>').ok_or("an end tag is not closed")?;
                    result.push(Item::Element { name: name.into(), attributes, children });
                    break;
                }
                if !spaced {
                    return Err("no space before an attribute".into());
                }
                let end = name_end(rest);
                let attribute = &rest[..end];
                if attribute.is_empty() {
                    return Err("an attribute without name".into());
                }
                rest = rest[end..].strip_prefix('=').ok_or("an attribute without value")?;
                let quote = rest.chars().next().filter(|q| matches!(q, '"' | '\'')).ok_or("an attribute without quote")?;
                rest = &rest[1..];
                let end = rest.find(quote).ok_or("an attribute is not closed")?;
                let value = decode(&rest[..end]).ok_or("a bare markup character in an attribute")?;
                if attributes.iter().any(|a| a.0 == attribute) {
                    return Err("an attribute is there twice".into());
                }
                attributes.push((attribute.into(), value));
                rest = &rest[end + 1..];
            }
        } else {
            let end = rest.find('<').unwrap_or(rest.len());
            let text = decode(&rest[..end]).ok_or("a bare markup character in text")?;
            if rest[..end].contains("]]>") {
                return Err("the end of a CDATA section in text".into());
            }
            if !top {
                push_text(result, text);
            } else if !text.trim_matches([' ', '\n', '\t', '\r']).is_empty() {
                return Err("text outside the elements".into());
            }
            rest = &rest[end..];
        }
    }
}

pub fn read(text: &str) -> Result<Vec<Item>, String> {
    let mut result = vec![];
    items(text, &mut result, true)?;
    Ok(result)
}
