//! A document as its elements, attributes and text, read from its text.

#[derive(Clone, Debug, PartialEq)]
pub struct Element {
    pub ns: String,
    pub prefix: String,
    pub name: String,
    /// Namespace, prefix, name and value, in the order written.
    pub attributes: Vec<(String, String, String, String)>,
    /// Prefixes in scope.
    pub scope: Vec<(String, String)>,
    pub children: Vec<Tree>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Element(Element),
    Comment(String),
    Instruction(String, String),
    Text(String),
}

pub const SVG: &str = "http://www.w3.org/2000/svg";
pub const XLINK: &str = "http://www.w3.org/1999/xlink";

impl Element {
    pub fn is(&self, name: &str) -> bool {
        self.ns == SVG && self.name == name
    }

    pub fn get(&self, name: &str) -> Option<&str> {
        self.attributes.iter().find(|a| a.0.is_empty() && a.2 == name).map(|a| a.3.as_str())
    }

    pub fn get_ns(&self, ns: &str, name: &str) -> Option<&str> {
        self.attributes.iter().find(|a| a.0 == ns && a.2 == name).map(|a| a.3.as_str())
    }

    /// Without children other than white space.
    pub fn is_empty(&self) -> bool {
        self.children.iter().all(|c| matches!(c, Tree::Text(t) if t.trim().is_empty()))
    }

    pub fn elements(&self) -> impl Iterator<Item = &Element> {
        self.children.iter().filter_map(|c| if let Tree::Element(e) = c { Some(e) } else { None })
    }

    /// The name as it is written.
    pub fn written(&self) -> String {
        if self.prefix.is_empty() { self.name.clone() } else { format!("{}:{}", self.prefix, self.name) }
    }

    /// Runs `f` for this element and all in it.
    pub fn each(&mut self, f: &mut impl FnMut(&mut Element)) {
        f(self);
        for c in &mut self.children {
            if let Tree::Element(e) = c {
                e.each(f);
            }
        }
    }

    /// Drops what `f` selects from the children of this element and of all that remain in it.
    pub fn drop_if(&mut self, f: &mut impl FnMut(&Element, &Tree) -> bool) {
        let mut children = std::mem::take(&mut self.children);
        children.retain(|c| !f(self, c));
        for c in &mut children {
            if let Tree::Element(e) = c {
                e.drop_if(f);
            }
        }
        self.children = children;
    }
}

/// The name of an attribute as it is written.
pub fn attribute_name(a: &(String, String, String, String)) -> String {
    if a.1.is_empty() { a.2.clone() } else { format!("{}:{}", a.1, a.2) }
}

fn node(n: roxmltree::Node) -> Option<Tree> {
    let text = |t: Option<&str>| t.unwrap_or("").to_string();
    Some(match n.node_type() {
        roxmltree::NodeType::Root => return None,
        roxmltree::NodeType::Element => {
            let source = n.document().input_text();
            let prefix = |range: std::ops::Range<usize>| source[range].split_once(':').map_or("", |p| p.0).to_string();
            let start = n.range().start + 1;
            let length = source[start..].find([' ', '>', '/', '\n']).unwrap();
            let mut scope: Vec<_> = n.namespaces().map(|n| (text(n.name()), n.uri().to_string())).collect();
            scope.sort();
            scope.dedup_by(|a, b| a.0 == b.0);
            Tree::Element(Element {
                ns: text(n.tag_name().namespace()),
                prefix: prefix(start..start + length),
                name: n.tag_name().name().into(),
                attributes: n
                    .attributes()
                    .map(|a| (text(a.namespace()), prefix(a.range_qname()), a.name().to_string(), a.value().to_string()))
                    .collect(),
                scope,
                children: children(n),
            })
        }
        roxmltree::NodeType::PI => Tree::Instruction(n.pi().unwrap().target.into(), text(n.pi().unwrap().value)),
        roxmltree::NodeType::Comment => Tree::Comment(text(n.text())),
        roxmltree::NodeType::Text => Tree::Text(text(n.text())),
    })
}

fn children(n: roxmltree::Node) -> Vec<Tree> {
    n.children().filter_map(node).collect()
}

/// The nodes of a document.
pub fn read(text: &str) -> Vec<Tree> {
    let document = roxmltree::Document::parse(text);
    assert!(document.is_ok(), "the document is well-formed");
    children(document.unwrap().root())
}

pub fn root(document: &mut [Tree]) -> &mut Element {
    document.iter_mut().find_map(|t| if let Tree::Element(e) = t { Some(e) } else { None }).unwrap()
}

/// Joins neighbouring texts and drops empty ones.
pub fn join(children: &mut Vec<Tree>) {
    let mut result: Vec<Tree> = vec![];
    for mut c in children.drain(..) {
        if let Tree::Element(e) = &mut c {
            join(&mut e.children);
        }
        match (result.last_mut(), c) {
            (Some(Tree::Text(a)), Tree::Text(b)) => a.push_str(&b),
            (_, Tree::Text(b)) if b.is_empty() => {}
            (_, c) => result.push(c),
        }
    }
    *children = result;
}
