//! The neutral tree that models produce and that implementation results are converted to.

use std::collections::BTreeMap;

use soupy::{
    parser::{HTMLNode, XMLElement, XMLNode},
    Node, Queryable, Soup,
};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum T {
    El { name: String, attrs: BTreeMap<String, String>, kids: Vec<T> },
    Raw { name: String, attrs: BTreeMap<String, String>, content: String },
    Void { name: String, attrs: BTreeMap<String, String> },
    Text(String),
    Comment(String),
    Doctype(String),
    CData(String),
    Pi(String, Option<String>),
    /// XML element with prefix and namespace
    Xml { prefix: Option<String>, ns: Option<String>, name: String, attrs: BTreeMap<String, String>, kids: Vec<T> },
}

pub fn el(name: &str, kids: Vec<T>) -> T {
    T::El { name: name.into(), attrs: BTreeMap::new(), kids }
}

pub fn text(s: &str) -> T {
    T::Text(s.into())
}

impl T {
    pub fn kids(&self) -> &[T] {
        match self {
            T::El { kids, .. } | T::Xml { kids, .. } => kids,
            _ => &[],
        }
    }
    pub fn name(&self) -> Option<&String> {
        match self {
            T::El { name, .. } | T::Raw { name, .. } | T::Void { name, .. } | T::Xml { name, .. } => Some(name),
            _ => None,
        }
    }
    pub fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        match self {
            T::El { attrs, .. } | T::Raw { attrs, .. } | T::Void { attrs, .. } | T::Xml { attrs, .. } => Some(attrs),
            _ => None,
        }
    }
    pub fn text(&self) -> Option<&String> {
        match self {
            T::Text(t) => Some(t),
            _ => None,
        }
    }
}

pub trait ToT {
    fn to_t(&self) -> T;
}

impl<S: AsRef<str>> ToT for HTMLNode<S> {
    fn to_t(&self) -> T {
        let s = |s: &S| s.as_ref().to_string();
        let m = |m: &BTreeMap<S, S>| m.iter().map(|(k, v)| (k.as_ref().to_string(), v.as_ref().to_string())).collect();
        match self {
            HTMLNode::Comment(c) => T::Comment(s(c)),
            HTMLNode::Doctype(d) => T::Doctype(s(d)),
            HTMLNode::Element { name, attrs, children } => {
                T::El { name: s(name), attrs: m(attrs), kids: children.iter().map(ToT::to_t).collect() }
            }
            HTMLNode::RawElement { name, attrs, content } => {
                T::Raw { name: s(name), attrs: m(attrs), content: s(content) }
            }
            HTMLNode::Void { name, attrs } => T::Void { name: s(name), attrs: m(attrs) },
            HTMLNode::Text(t) => T::Text(s(t)),
        }
    }
}

impl ToT for XMLNode {
    fn to_t(&self) -> T {
        match self {
            XMLNode::Element(XMLElement { prefix, namespace, name, attributes, children, .. }) => T::Xml {
                prefix: prefix.clone(),
                ns: namespace.clone(),
                name: name.clone(),
                attrs: attributes.clone(),
                kids: children.iter().map(ToT::to_t).collect(),
            },
            XMLNode::Comment(c) => T::Comment(c.clone()),
            XMLNode::CData(c) => T::CData(c.clone()),
            XMLNode::Text(t) => T::Text(t.clone()),
            XMLNode::ProcessingInstruction(a, b) => T::Pi(a.clone(), b.clone()),
        }
    }
}

/// The top-level nodes of a soup, as a user sees them: through a strict query.
pub fn tops<N: Node + ToT>(soup: &Soup<N>) -> Vec<T> {
    soup.strict().all().map(|i| i.to_t()).collect()
}

pub fn strict(doc: &str) -> Result<Vec<T>, String> {
    match Soup::html_strict(doc) {
        Ok(s) => Ok(tops(&s)),
        Err(e) => Err(format!("{e:?}").chars().take(120).collect()),
    }
}

pub fn lenient(doc: &str) -> Vec<T> {
    tops(&Soup::html(doc))
}

pub fn xml(doc: &[u8]) -> Result<Vec<T>, String> {
    match Soup::xml(doc) {
        Ok(s) => Ok(tops(&s)),
        Err(e) => Err(format!("{e:?}").chars().take(160).collect()),
    }
}

/// `class` asks for nodes whose text can be made from a `&'static str`, so strict HTML has to borrow
/// from a static document. `f` must not let the borrow escape.
pub fn with_static<R: 'static>(doc: &str, f: impl FnOnce(&'static str) -> R) -> R {
    f(unsafe { std::mem::transmute::<&str, &'static str>(doc) })
}
