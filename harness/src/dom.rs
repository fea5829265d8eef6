//! A plain DOM that the HTML standard's parsing algorithm (html5ever's tokenizer and tree builder)
//! builds through a tree sink of our own, independent of scraper's.

use std::{
    borrow::Cow,
    cell::{Ref, RefCell},
    collections::BTreeMap,
};

use html5ever::{
    driver,
    interface::{ElementFlags, NodeOrText, QuirksMode, TreeSink},
    tendril::{StrTendril, TendrilSink},
    Attribute, LocalName, QualName,
};

use crate::{model::VOID, tree::T};

enum Data {
    Document,
    Fragment,
    Doctype(String),
    Comment(String),
    Text(String),
    Pi,
    Element { name: QualName, attrs: Vec<(QualName, String)>, template: Option<usize>, integration: bool },
}

struct Node {
    parent: Option<usize>,
    kids: Vec<usize>,
    data: Data,
}

#[derive(Default)]
struct Sink {
    /// forget that annotation-xml elements can be HTML integration points
    forget: bool,
    nodes: RefCell<Vec<Node>>,
}

impl Sink {
    fn add(&self, data: Data) -> usize {
        let mut n = self.nodes.borrow_mut();
        n.push(Node { parent: None, kids: vec![], data });
        n.len() - 1
    }
    fn detach(&self, id: usize) {
        let mut n = self.nodes.borrow_mut();
        if let Some(p) = n[id].parent.take() {
            n[p].kids.retain(|k| *k != id);
        }
    }
    fn insert(&self, parent: usize, at: usize, child: NodeOrText<usize>) {
        match child {
            NodeOrText::AppendNode(id) => {
                let mut n = self.nodes.borrow_mut();
                n[id].parent = Some(parent);
                n[parent].kids.insert(at, id);
            }
            NodeOrText::AppendText(t) => {
                let prev = at.checked_sub(1).map(|i| self.nodes.borrow()[parent].kids[i]);
                if let Some(prev) = prev {
                    if let Data::Text(s) = &mut self.nodes.borrow_mut()[prev].data {
                        s.push_str(&t);
                        return;
                    }
                }
                let id = self.add(Data::Text(t.to_string()));
                let mut n = self.nodes.borrow_mut();
                n[id].parent = Some(parent);
                n[parent].kids.insert(at, id);
            }
        }
    }
}

impl TreeSink for Sink {
    type Handle = usize;
    type Output = Self;
    type ElemName<'a> = Ref<'a, QualName>;

    fn finish(self) -> Self {
        self
    }
    fn parse_error(&self, _: Cow<'static, str>) {}
    fn get_document(&self) -> usize {
        0
    }
    fn elem_name<'a>(&'a self, t: &'a usize) -> Ref<'a, QualName> {
        Ref::map(self.nodes.borrow(), |n| match &n[*t].data {
            Data::Element { name, .. } => name,
            _ => unreachable!(),
        })
    }
    fn create_element(&self, name: QualName, attrs: Vec<Attribute>, flags: ElementFlags) -> usize {
        let template = flags.template.then(|| self.add(Data::Fragment));
        self.add(Data::Element {
            name,
            attrs: attrs.into_iter().map(|a| (a.name, a.value.to_string())).collect(),
            template,
            integration: flags.mathml_annotation_xml_integration_point,
        })
    }
    fn create_comment(&self, t: StrTendril) -> usize {
        self.add(Data::Comment(t.to_string()))
    }
    fn create_pi(&self, _: StrTendril, _: StrTendril) -> usize {
        self.add(Data::Pi)
    }
    fn append(&self, parent: &usize, child: NodeOrText<usize>) {
        let at = self.nodes.borrow()[*parent].kids.len();
        self.insert(*parent, at, child);
    }
    fn append_based_on_parent_node(&self, el: &usize, prev: &usize, child: NodeOrText<usize>) {
        if self.nodes.borrow()[*el].parent.is_some() {
            self.append_before_sibling(el, child);
        } else {
            self.append(prev, child);
        }
    }
    fn append_doctype_to_document(&self, name: StrTendril, _: StrTendril, _: StrTendril) {
        let id = self.add(Data::Doctype(name.to_string()));
        self.append(&0, NodeOrText::AppendNode(id));
    }
    fn get_template_contents(&self, t: &usize) -> usize {
        match &self.nodes.borrow()[*t].data {
            Data::Element { template: Some(t), .. } => *t,
            _ => unreachable!(),
        }
    }
    fn same_node(&self, x: &usize, y: &usize) -> bool {
        x == y
    }
    fn set_quirks_mode(&self, _: QuirksMode) {}
    fn append_before_sibling(&self, sib: &usize, new: NodeOrText<usize>) {
        if let NodeOrText::AppendNode(id) = &new {
            self.detach(*id);
        }
        let Some(p) = self.nodes.borrow()[*sib].parent else { return };
        let at = self.nodes.borrow()[p].kids.iter().position(|k| k == sib).unwrap();
        self.insert(p, at, new);
    }
    fn add_attrs_if_missing(&self, t: &usize, attrs: Vec<Attribute>) {
        if let Data::Element { attrs: have, .. } = &mut self.nodes.borrow_mut()[*t].data {
            for a in attrs {
                if !have.iter().any(|h| h.0 == a.name) {
                    have.push((a.name, a.value.to_string()));
                }
            }
        }
    }
    fn remove_from_parent(&self, t: &usize) {
        self.detach(*t);
    }
    fn reparent_children(&self, node: &usize, new: &usize) {
        let mut n = self.nodes.borrow_mut();
        let kids = std::mem::take(&mut n[*node].kids);
        for k in &kids {
            n[*k].parent = Some(*new);
        }
        n[*new].kids.extend(kids);
    }
    fn is_mathml_annotation_xml_integration_point(&self, t: &usize) -> bool {
        !self.forget && matches!(&self.nodes.borrow()[*t].data, Data::Element { integration: true, .. })
    }
}

/// The standard's document, or `None` where two attributes of an element share their local name
/// (`href` and `xlink:href`), which the property says nothing about.
pub fn parse(doc: &str) -> Option<Vec<T>> {
    build(doc, false)
}

/// What comes out if annotation-xml elements are never treated as HTML integration points.
pub fn parse_without_integration(doc: &str) -> Option<Vec<T>> {
    build(doc, true)
}

fn build(doc: &str, forget: bool) -> Option<Vec<T>> {
    let sink = Sink { forget, ..Sink::default() };
    sink.add(Data::Document);
    let sink = driver::parse_document(sink, driver::ParseOpts::default()).one(StrTendril::from(doc));
    let nodes = sink.nodes.borrow();
    conv(&nodes, 0)
}

fn conv(nodes: &[Node], at: usize) -> Option<Vec<T>> {
    let mut out = vec![];
    for k in &nodes[at].kids {
        match &nodes[*k].data {
            Data::Document | Data::Fragment | Data::Pi => {}
            Data::Doctype(s) => out.push(T::Doctype(s.clone())),
            Data::Comment(s) => out.push(T::Comment(s.clone())),
            Data::Text(s) => out.push(T::Text(s.clone())),
            Data::Element { name, attrs: list, template, .. } => {
                let mut attrs = BTreeMap::new();
                for (n, v) in list {
                    let n: &LocalName = &n.local;
                    if attrs.insert(n.to_string(), v.clone()).is_some() {
                        return None;
                    }
                }
                let mut kids = vec![];
                if let Some(t) = template {
                    kids.extend(conv(nodes, *t)?);
                }
                kids.extend(conv(nodes, *k)?);
                let name = name.local.to_string();
                out.push(if kids.is_empty() && VOID.contains(&&*name) {
                    T::Void { name, attrs }
                } else {
                    T::El { name, attrs, kids }
                });
            }
        }
    }
    Some(out)
}
