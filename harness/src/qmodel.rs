//! Queries: trees of every node type, patterns, chains of calls on the real `Queryable` API, and the
//! naive reference evaluation on the neutral tree.

use std::{
    borrow::Cow,
    collections::BTreeMap,
    fmt,
    marker::PhantomData,
};

use soupy::{
    filter::Filter,
    parser::{HTMLNode, Parser, XMLElement, XMLNode},
    query::{Query, QueryItem},
    Node, Pattern, Queryable, Soup,
};

use crate::tree::{ToT, T};

// ---------------------------------------------------------------- node types

/// A user-defined node type: what it reports is simply what it holds.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Uni<S: Ord> {
    pub id: usize,
    pub name: Option<S>,
    pub text: Option<S>,
    pub attrs: Option<BTreeMap<S, S>>,
    pub kids: Vec<Uni<S>>,
    /// what kind of `T` it was made from, to convert it back
    pub kind: u8,
    pub other: String,
}

/// Without recursion, so that trees may be of any depth.
impl<S: Ord> Drop for Uni<S> {
    fn drop(&mut self) {
        if self.kids.iter().any(|k| !k.kids.is_empty()) {
            let mut v = std::mem::take(&mut self.kids);
            while let Some(mut n) = v.pop() {
                v.append(&mut n.kids);
            }
        }
    }
}

impl<S: Ord> Node for Uni<S> {
    type Text = S;
    fn name(&self) -> Option<&S> {
        self.name.as_ref()
    }
    fn text(&self) -> Option<&S> {
        self.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<S, S>> {
        self.attrs.as_ref()
    }
    fn children(&self) -> &[Self] {
        &self.kids
    }
}

/// A user-defined text type.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Own(pub Box<[u8]>);

impl AsRef<str> for Own {
    fn as_ref(&self) -> &str {
        std::str::from_utf8(&self.0).unwrap()
    }
}
impl From<&str> for Own {
    fn from(s: &str) -> Self {
        Own(s.as_bytes().into())
    }
}
impl fmt::Display for Own {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // what is asked for with flags shows
        if f.alternate() || f.sign_plus() || f.sign_minus() || f.sign_aware_zero_pad() || f.width().is_some() || f.precision().is_some() || f.fill() != ' ' {
            f.write_str("flags:")?;
        }
        // in pieces
        for c in self.as_ref().split_inclusive('a') {
            f.write_str(c)?;
        }
        Ok(())
    }
}

/// Text types that can be made from a neutral string.
pub trait Txt: Ord + AsRef<str> + Clone + fmt::Display + 'static {
    fn mk(s: &str) -> Self;
}
macro_rules! txt { ($($t:ty),*) => { $(impl Txt for $t { fn mk(s: &str) -> Self { s.into() } })* } }
pub type Tendril = scraper::StrTendril;
txt!(String, Own, Box<str>, std::rc::Rc<str>, std::sync::Arc<str>, Tendril);

/// Interned strings, for text types that borrow. Bounded by the distinct strings of a check.
pub fn intern(s: &str) -> &'static str {
    use std::{cell::RefCell, collections::HashSet};
    thread_local!(static I: RefCell<HashSet<&'static str>> = RefCell::default());
    I.with_borrow_mut(|i| {
        if let Some(x) = i.get(s) {
            return *x;
        }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        i.insert(x);
        x
    })
}
impl Txt for Cow<'static, str> {
    fn mk(s: &str) -> Self {
        // both variants occur, depending on the length
        if s.len() % 2 == 0 { Cow::Owned(s.to_string()) } else { Cow::Borrowed(intern(s)) }
    }
}
impl Txt for &'static str {
    fn mk(s: &str) -> Self {
        intern(s)
    }
}

pub trait Build: Node + ToT + Clone + 'static {
    const NAME: &'static str;
    /// `id` counts the nodes in document order
    fn build(t: &T, id: &mut usize) -> Self;
}

fn map<S: Txt>(m: &BTreeMap<String, String>) -> BTreeMap<S, S> {
    m.iter().map(|(k, v)| (S::mk(k), S::mk(v))).collect()
}

pub trait UniName {
    const N: &'static str;
}
impl UniName for String {
    const N: &'static str = "user node";
}
impl UniName for Own {
    const N: &'static str = "user node, user text";
}
impl UniName for Box<str> {
    const N: &'static str = "user node, Box<str>";
}
impl UniName for std::rc::Rc<str> {
    const N: &'static str = "user node, Rc<str>";
}
impl UniName for std::sync::Arc<str> {
    const N: &'static str = "user node, Arc<str>";
}
impl UniName for &'static str {
    const N: &'static str = "user node, &str";
}
impl UniName for Cow<'static, str> {
    const N: &'static str = "user node, Cow<str>";
}

impl<S: Txt + UniName> Build for Uni<S> {
    const NAME: &'static str = S::N;
    fn build(t: &T, id: &mut usize) -> Self {
        let n = *id;
        *id += 1;
        let (kind, other) = match t {
            T::El { .. } => (0, ""),
            T::Raw { content, .. } => (1, content.as_str()),
            T::Void { .. } => (2, ""),
            T::Text(_) => (3, ""),
            T::Comment(c) => (4, c.as_str()),
            T::Doctype(c) => (5, c.as_str()),
            T::CData(c) => (6, c.as_str()),
            T::Pi(a, _) => (7, a.as_str()),
            T::Xml { .. } => (8, ""),
        };
        Uni {
            id: n,
            name: t.name().map(|s| S::mk(s)),
            text: t.text().map(|s| S::mk(s)),
            attrs: t.attrs().map(map),
            kids: t.kids().iter().map(|k| Self::build(k, id)).collect(),
            kind,
            other: other.into(),
        }
    }
}
impl<S: Ord + AsRef<str>> ToT for Uni<S> {
    fn to_t(&self) -> T {
        let s = |s: &Option<S>| s.as_ref().unwrap().as_ref().to_string();
        let m = || {
            self.attrs.as_ref().unwrap().iter().map(|(k, v)| (k.as_ref().to_string(), v.as_ref().to_string())).collect()
        };
        let kids = || self.kids.iter().map(ToT::to_t).collect();
        let o = || self.other.clone();
        match self.kind {
            0 => T::El { name: s(&self.name), attrs: m(), kids: kids() },
            1 => T::Raw { name: s(&self.name), attrs: m(), content: o() },
            2 => T::Void { name: s(&self.name), attrs: m() },
            3 => T::Text(s(&self.text)),
            4 => T::Comment(o()),
            5 => T::Doctype(o()),
            6 => T::CData(o()),
            7 => T::Pi(o(), None),
            _ => T::Xml { prefix: None, ns: None, name: s(&self.name), attrs: m(), kids: kids() },
        }
    }
}

pub trait HtmlName {
    const N: &'static str;
}
impl HtmlName for Tendril {
    const N: &'static str = "HTMLNode<StrTendril>";
}
impl HtmlName for Cow<'static, str> {
    const N: &'static str = "HTMLNode<Cow<str>>";
}
impl HtmlName for String {
    const N: &'static str = "HTMLNode<String>";
}

impl<S: Txt + HtmlName> Build for HTMLNode<S> {
    const NAME: &'static str = S::N;
    fn build(t: &T, id: &mut usize) -> Self {
        *id += 1;
        match t {
            T::El { name, attrs, kids } | T::Xml { name, attrs, kids, .. } => HTMLNode::Element {
                name: S::mk(name),
                attrs: map(attrs),
                children: kids.iter().map(|k| Self::build(k, id)).collect(),
            },
            T::Raw { name, attrs, content } => {
                HTMLNode::RawElement { name: S::mk(name), attrs: map(attrs), content: S::mk(content) }
            }
            T::Void { name, attrs } => HTMLNode::Void { name: S::mk(name), attrs: map(attrs) },
            T::Text(t) => HTMLNode::Text(S::mk(t)),
            T::Comment(t) => HTMLNode::Comment(S::mk(t)),
            T::Doctype(t) | T::CData(t) | T::Pi(t, _) => HTMLNode::Doctype(S::mk(t)),
        }
    }
}

impl Build for XMLNode {
    const NAME: &'static str = "XMLNode";
    fn build(t: &T, id: &mut usize) -> Self {
        *id += 1;
        match t {
            T::El { name, attrs, kids } => XMLNode::Element(XMLElement {
                name: name.clone(),
                attributes: attrs.clone(),
                children: kids.iter().map(|k| Self::build(k, id)).collect(),
                ..XMLElement::default()
            }),
            T::Xml { prefix, ns, name, attrs, kids } => XMLNode::Element(XMLElement {
                prefix: prefix.clone(),
                namespace: ns.clone(),
                namespaces: None,
                name: name.clone(),
                attributes: attrs.clone(),
                children: kids.iter().map(|k| Self::build(k, id)).collect(),
            }),
            T::Raw { name, attrs, .. } | T::Void { name, attrs } => XMLNode::Element(XMLElement {
                name: name.clone(),
                attributes: attrs.clone(),
                ..XMLElement::default()
            }),
            T::Text(t) => XMLNode::Text(t.clone()),
            T::Comment(t) => XMLNode::Comment(t.clone()),
            T::CData(t) => XMLNode::CData(t.clone()),
            T::Doctype(t) => XMLNode::ProcessingInstruction(t.clone(), None),
            T::Pi(a, b) => XMLNode::ProcessingInstruction(a.clone(), b.clone()),
        }
    }
}

/// A user's parser that "parses" nodes into themselves.
pub struct Given<N>(PhantomData<N>);

impl<N: Node> Parser for Given<N> {
    type Input = Vec<N>;
    type Node = N;
    type Error = ();
    fn parse(input: Vec<N>) -> Result<Vec<N>, ()> {
        Ok(input)
    }
}

pub fn soup_of<N: Node>(nodes: Vec<N>) -> Soup<N> {
    Soup::new::<Given<N>>(nodes).unwrap()
}

pub fn soup<N: Build>(ts: &[T]) -> Soup<N> {
    let mut id = 0;
    soup_of(ts.iter().map(|t| N::build(t, &mut id)).collect())
}

/// The nodes of a soup in document order, found by walking `children()` from the top-level nodes.
/// Checks on the way that they are what `ts` says and all different.
pub fn nodes<N: Node + ToT>(s: &Soup<N>, ts: &[T]) -> Result<Vec<*const N>, String> {
    fn walk<N: Node>(n: &N, out: &mut Vec<*const N>) {
        out.push(n);
        for c in n.children() {
            walk(c, out);
        }
    }
    let mut out = vec![];
    let mut tops = vec![];
    for i in s.strict().all() {
        tops.push(i.to_t());
        walk(&*i, &mut out);
    }
    if tops != ts {
        return Err(format!("the soup's top-level nodes are {tops:?}, expected {ts:?}"));
    }
    if out.len() <= 64 {
        for (i, a) in out.iter().enumerate() {
            if out[..i].contains(a) {
                return Err("a node is there twice".into());
            }
        }
    } else {
        let mut v = out.clone();
        v.sort();
        v.dedup();
        if v.len() != out.len() {
            return Err("a node is there twice".into());
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- patterns

/// A pattern of every kind the crate offers, and the user-defined ones of this harness.
#[derive(Clone, Debug)]
pub enum P {
    True,
    False,
    Str(&'static str),
    Own(String),
    CowB(&'static str),
    CowO(String),
    /// a regular expression and what it is to match
    Re(regex::Regex, fn(&str) -> bool),
    /// user-defined: exact, without the shortcut
    Exact(&'static str),
    /// user-defined: exact, with the shortcut
    Short(&'static str),
    /// user-defined: any other predicate
    Pred(&'static str, fn(&str) -> bool),
}

impl P {
    /// The definition of the pattern.
    pub fn hit(&self, s: &str) -> bool {
        match self {
            P::True => true,
            P::False => false,
            P::Str(x) | P::CowB(x) | P::Exact(x) | P::Short(x) => s.as_bytes() == x.as_bytes(),
            P::Own(x) | P::CowO(x) => s.as_bytes() == x.as_bytes(),
            P::Re(_, f) | P::Pred(_, f) => f(s),
        }
    }
}

impl fmt::Display for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            P::True => write!(f, "true"),
            P::False => write!(f, "false"),
            P::Str(x) => write!(f, "{x:?}"),
            P::Own(x) => write!(f, "String({x:?})"),
            P::CowB(x) => write!(f, "Cow::Borrowed({x:?})"),
            P::CowO(x) => write!(f, "Cow::Owned({x:?})"),
            P::Re(x, _) => write!(f, "Regex({:?})", x.as_str()),
            P::Exact(x) => write!(f, "Exact({x:?})"),
            P::Short(x) => write!(f, "Short({x:?})"),
            P::Pred(x, _) => write!(f, "Pred({x})"),
        }
    }
}

/// Carries a `P` to the real pattern implementations. `Any` serves text types that can be made from
/// every string slice; `Stat` those that can be made from static ones only, for which the crate
/// implements no `String` and `Cow` pattern.
#[derive(Clone, Debug)]
pub struct Any(pub P);
#[derive(Clone, Debug)]
pub struct Stat(pub P);

pub trait Wrap {
    fn wrap(p: &P) -> Option<Self>
    where
        Self: Sized;
}
impl Wrap for Any {
    fn wrap(p: &P) -> Option<Self> {
        Some(Any(p.clone()))
    }
}
impl Wrap for Stat {
    fn wrap(p: &P) -> Option<Self> {
        (!matches!(p, P::Own(_) | P::CowB(_) | P::CowO(_))).then(|| Stat(p.clone()))
    }
}

impl<S> Pattern<S> for Any
where
    S: AsRef<str> + for<'a> From<&'a str>,
{
    fn matches(&self, h: &S) -> bool {
        match &self.0 {
            P::True => Pattern::<S>::matches(&true, h),
            P::False => Pattern::<S>::matches(&false, h),
            P::Str(x) => Pattern::<S>::matches(x, h),
            P::Own(x) => Pattern::<S>::matches(x, h),
            P::CowB(x) => Pattern::<S>::matches(&Cow::Borrowed(*x), h),
            P::CowO(x) => Pattern::<S>::matches(&Cow::<str>::Owned(x.clone()), h),
            P::Re(x, _) => Pattern::<S>::matches(x, h),
            P::Exact(x) | P::Short(x) => h.as_ref() == *x,
            P::Pred(_, f) => f(h.as_ref()),
        }
    }
    fn value(&self) -> Option<S> {
        match &self.0 {
            P::True => Pattern::<S>::value(&true),
            P::False => Pattern::<S>::value(&false),
            P::Str(x) => Pattern::<S>::value(x),
            P::Own(x) => Pattern::<S>::value(x),
            P::CowB(x) => Pattern::<S>::value(&Cow::Borrowed(*x)),
            P::CowO(x) => Pattern::<S>::value(&Cow::<str>::Owned(x.clone())),
            P::Re(x, _) => Pattern::<S>::value(x),
            P::Exact(_) | P::Pred(..) => None,
            P::Short(x) => Some(S::from(x)),
        }
    }
}

impl<S> Pattern<S> for Stat
where
    S: AsRef<str> + From<&'static str>,
{
    fn matches(&self, h: &S) -> bool {
        match &self.0 {
            P::True => Pattern::<S>::matches(&true, h),
            P::False => Pattern::<S>::matches(&false, h),
            P::Str(x) => Pattern::<S>::matches(x, h),
            P::Re(x, _) => Pattern::<S>::matches(x, h),
            P::Exact(x) | P::Short(x) => h.as_ref() == *x,
            P::Pred(_, f) => f(h.as_ref()),
            _ => unreachable!("not offered for this text type"),
        }
    }
    fn value(&self) -> Option<S> {
        match &self.0 {
            P::True => Pattern::<S>::value(&true),
            P::False => Pattern::<S>::value(&false),
            P::Str(x) => Pattern::<S>::value(x),
            P::Re(x, _) => Pattern::<S>::value(x),
            P::Short(x) => Some(S::from(x)),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- chains

#[derive(Clone, Debug)]
pub enum Op {
    Tag(P),
    Attr(P, P),
    Name(P),
    Value(P),
    Class(P),
    Strict,
    Recursive,
}

impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Op::Tag(p) => write!(f, ".tag({p})"),
            Op::Attr(n, v) => write!(f, ".attr({n}, {v})"),
            Op::Name(p) => write!(f, ".attr_name({p})"),
            Op::Value(p) => write!(f, ".attr_value({p})"),
            Op::Class(p) => write!(f, ".class({p})"),
            Op::Strict => write!(f, ".strict()"),
            Op::Recursive => write!(f, ".recursive()"),
        }
    }
}

pub fn show(ops: &[Op]) -> String {
    ops.iter().map(ToString::to_string).collect::<String>()
}

impl Op {
    pub fn scope(&self) -> bool {
        matches!(self, Op::Strict | Op::Recursive)
    }
    /// Whether the condition holds for a node, by its definition.
    pub fn holds(&self, t: &T) -> bool {
        let attr = |f: &dyn Fn(&str, &str) -> bool| t.attrs().is_some_and(|a| a.iter().any(|(k, v)| f(k, v)));
        match self {
            Op::Tag(p) => t.name().is_some_and(|n| p.hit(n)),
            Op::Attr(n, v) => attr(&|k, w| n.hit(k) && v.hit(w)),
            Op::Name(n) => attr(&|k, _| n.hit(k)),
            Op::Value(v) => attr(&|_, w| v.hit(w)),
            Op::Class(v) => attr(&|k, w| k == "class" && v.hit(w)),
            Op::Strict | Op::Recursive => true,
        }
    }
}

/// All nodes of a forest in document order with their depths.
pub fn preorder(ts: &[T]) -> Vec<(&T, usize)> {
    let mut out = vec![];
    let mut stack: Vec<(&T, usize)> = ts.iter().rev().map(|t| (t, 0)).collect();
    while let Some((t, d)) = stack.pop() {
        out.push((t, d));
        stack.extend(t.kids().iter().rev().map(|k| (k, d + 1)));
    }
    out
}

/// The reference: indices (in document order) of what a chain of calls returns.
pub fn expect(pre: &[(&T, usize)], ops: &[Op]) -> Vec<usize> {
    let strict = matches!(ops.iter().rev().find(|o| o.scope()), Some(Op::Strict));
    (0..pre.len())
        .filter(|i| (!strict || pre[*i].1 == 0) && ops.iter().all(|o| o.holds(pre[*i].0)))
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    All,
    First,
    For,
}
pub const HOWS: [How; 3] = [How::All, How::First, How::For];

pub fn end<'x, N: Node + 'x, Q>(q: Q, how: How) -> Vec<*const N>
where
    Q: Queryable<'x> + IntoIterator<Item = QueryItem<'x, N>>,
{
    let p = |i: QueryItem<'x, N>| &*i as *const N;
    match how {
        How::All => q.all().map(p).collect(),
        How::First => q.first().map(p).into_iter().collect(),
        How::For => {
            let mut v = vec![];
            for i in q {
                v.push(p(i));
            }
            v
        }
    }
}

/// Runs a chain of up to three (`Kind::User`) or two conditions, and any number of scope calls, on the
/// real API.
pub struct Zero;
pub struct Succ<D>(PhantomData<D>);
/// Conditions that may follow the first one.
pub type One = Succ<Zero>;
pub type Two = Succ<Succ<Zero>>;

pub trait Chain<'x, N: Node, W> {
    fn go<F: Filter<N>>(q: Query<'x, N, F>, ops: &[Op], how: How) -> Vec<*const N>;
}

impl<'x, N: Node + 'x, W> Chain<'x, N, W> for Zero {
    fn go<F: Filter<N>>(mut q: Query<'x, N, F>, ops: &[Op], how: How) -> Vec<*const N> {
        for o in ops {
            q = match o {
                Op::Strict => q.strict(),
                Op::Recursive => q.recursive(),
                _ => panic!("chain too long"),
            };
        }
        end(q, how)
    }
}

macro_rules! step {
    ($q:expr, $rest:expr, $how:expr, $op:expr, $next:ty, $same:ty) => {{
        let w = |p: &P| W::wrap(p).expect("pattern not offered for this text type");
        match $op {
            Op::Strict => <$same as Chain<'x, N, W>>::go($q.strict(), $rest, $how),
            Op::Recursive => <$same as Chain<'x, N, W>>::go($q.recursive(), $rest, $how),
            Op::Tag(p) => <$next as Chain<'x, N, W>>::go($q.tag(w(p)), $rest, $how),
            Op::Attr(n, v) => <$next as Chain<'x, N, W>>::go($q.attr(w(n), w(v)), $rest, $how),
            Op::Name(p) => <$next as Chain<'x, N, W>>::go($q.attr_name(w(p)), $rest, $how),
            Op::Value(p) => <$next as Chain<'x, N, W>>::go($q.attr_value(w(p)), $rest, $how),
            Op::Class(p) => <$next as Chain<'x, N, W>>::go($q.class(w(p)), $rest, $how),
        }
    }};
}

impl<'x, N, W, D> Chain<'x, N, W> for Succ<D>
where
    N: Node + 'x,
    N::Text: Ord + AsRef<str> + From<&'static str>,
    W: Wrap + Pattern<N::Text>,
    D: Chain<'x, N, W>,
{
    fn go<F: Filter<N>>(q: Query<'x, N, F>, ops: &[Op], how: How) -> Vec<*const N> {
        match ops.split_first() {
            None => end(q, how),
            Some((o, rest)) => step!(q, rest, how, o, D, Self),
        }
    }
}

pub fn run<'x, N, W, D>(s: &'x Soup<N>, ops: &[Op], how: How) -> Vec<*const N>
where
    N: Node + 'x,
    N::Text: Ord + AsRef<str> + From<&'static str>,
    W: Wrap + Pattern<N::Text>,
    D: Chain<'x, N, W>,
{
    match ops.split_first() {
        // no call at all: the soup itself
        None if how == How::All => s.iter().map(|i| &*i as *const N).collect(),
        None => end(s, how),
        Some((o, rest)) => {
            step!(s, rest, how, o, D, Succ<D>)
        }
    }
}

// The same with the pattern types themselves rather than the enum of this harness, where a chain has
// only `&str`, `bool` and, as its only condition, regular expressions.

pub trait PlainChain<'x, N: Node> {
    fn go<F: Filter<N>>(q: Query<'x, N, F>, ops: &[Op], how: How) -> Option<Vec<*const N>>;
}

fn flag(p: &P) -> Option<bool> {
    match p {
        P::True => Some(true),
        P::False => Some(false),
        _ => None,
    }
}

macro_rules! plain {
    ($q:expr, $rest:expr, $how:expr, $op:expr, $next:ty, $same:ty) => {{
        let (q, rest, how) = ($q, $rest, $how);
        macro_rules! next {
            ($r:expr) => {
                <$next as PlainChain<'x, N>>::go($r, rest, how)
            };
        }
        match $op {
            Op::Strict => <$same as PlainChain<'x, N>>::go(q.strict(), rest, how),
            Op::Recursive => <$same as PlainChain<'x, N>>::go(q.recursive(), rest, how),
            Op::Tag(P::Str(x)) => next!(q.tag(*x)),
            Op::Tag(p) => next!(q.tag(flag(p)?)),
            Op::Attr(P::Str(n), P::Str(v)) => next!(q.attr(*n, *v)),
            Op::Attr(P::Str(n), v) => next!(q.attr(*n, flag(v)?)),
            Op::Attr(n, P::Str(v)) => next!(q.attr(flag(n)?, *v)),
            Op::Attr(n, v) => next!(q.attr(flag(n)?, flag(v)?)),
            Op::Name(P::Str(x)) => next!(q.attr_name(*x)),
            Op::Name(p) => next!(q.attr_name(flag(p)?)),
            Op::Value(P::Str(x)) => next!(q.attr_value(*x)),
            Op::Value(p) => next!(q.attr_value(flag(p)?)),
            Op::Class(P::Str(x)) => next!(q.class(*x)),
            Op::Class(p) => next!(q.class(flag(p)?)),
        }
    }};
}

fn plain_end<'x, N: Node + 'x, F: Filter<N>>(q: Query<'x, N, F>, how: How) -> Vec<*const N> {
    if how == How::First {
        return q.first().map(|i| &*i as *const N).into_iter().collect();
    }
    q.into_iter().map(|i| &*i as *const N).collect()
}

impl<'x, N: Node + 'x> PlainChain<'x, N> for Zero {
    fn go<F: Filter<N>>(mut q: Query<'x, N, F>, ops: &[Op], how: How) -> Option<Vec<*const N>> {
        for o in ops {
            q = match o {
                Op::Strict => q.strict(),
                Op::Recursive => q.recursive(),
                _ => return None,
            };
        }
        Some(plain_end(q, how))
    }
}

impl<'x, N, D> PlainChain<'x, N> for Succ<D>
where
    N: Node + 'x,
    N::Text: Ord + AsRef<str> + From<&'static str>,
    D: PlainChain<'x, N>,
{
    fn go<F: Filter<N>>(q: Query<'x, N, F>, ops: &[Op], how: How) -> Option<Vec<*const N>> {
        match ops.split_first() {
            None => Some(plain_end(q, how)),
            Some((o, rest)) => plain!(q, rest, how, o, D, Self),
        }
    }
}

/// `None`: not a chain of plain patterns, or too long.
pub fn run_plain<'x, N>(s: &'x Soup<N>, ops: &[Op], how: How) -> Option<Vec<*const N>>
where
    N: Node + 'x,
    N::Text: Ord + AsRef<str> + From<&'static str>,
{
    match ops.split_first()? {
        (Op::Tag(P::Re(r, _)), rest) => <Zero as PlainChain<N>>::go(s.tag(r.clone()), rest, how),
        (Op::Attr(P::Re(r, _), P::Re(t, _)), rest) => <Zero as PlainChain<N>>::go(s.attr(r.clone(), t.clone()), rest, how),
        (Op::Attr(P::Re(r, _), P::Str(v)), rest) => <Zero as PlainChain<N>>::go(s.attr(r.clone(), *v), rest, how),
        (Op::Attr(P::Re(r, _), P::True), rest) => <Zero as PlainChain<N>>::go(s.attr(r.clone(), true), rest, how),
        (Op::Attr(P::Str(n), P::Re(r, _)), rest) => <Zero as PlainChain<N>>::go(s.attr(*n, r.clone()), rest, how),
        (Op::Attr(P::True, P::Re(r, _)), rest) => <Zero as PlainChain<N>>::go(s.attr(true, r.clone()), rest, how),
        (Op::Name(P::Re(r, _)), rest) => <Zero as PlainChain<N>>::go(s.attr_name(r.clone()), rest, how),
        (Op::Value(P::Re(r, _)), rest) => <Zero as PlainChain<N>>::go(s.attr_value(r.clone()), rest, how),
        (Op::Class(P::Re(r, _)), rest) => <Zero as PlainChain<N>>::go(s.class(r.clone()), rest, how),
        (o, rest) => plain!(s, rest, how, o, One, Two),
    }
}

/// A soup of one of the node types, queried through a uniform interface.
pub trait Queried {
    fn run(&self, ops: &[Op], how: How) -> Vec<usize>;
    /// with the pattern types themselves
    fn plain(&self, ops: &[Op], how: How) -> Option<Vec<usize>>;
    fn offered(&self, p: &P) -> bool;
}

pub struct Q<N, W, D = One> {
    pub soup: Soup<N>,
    pub nodes: Vec<*const N>,
    index: std::collections::HashMap<*const N, usize>,
    w: PhantomData<(W, D)>,
}

impl<N: Node + ToT + 'static, W, D> Q<N, W, D> {
    pub fn new(soup: Soup<N>, ts: &[T]) -> Result<Self, String> {
        let nodes = nodes(&soup, ts)?;
        let index = if nodes.len() > 16 { nodes.iter().enumerate().map(|(i, p)| (*p, i)).collect() } else { Default::default() };
        Ok(Q { soup, nodes, index, w: PhantomData })
    }
    pub fn pos(&self, p: *const N) -> usize {
        if self.nodes.len() > 16 {
            self.index.get(&p).copied().unwrap_or(usize::MAX)
        } else {
            self.nodes.iter().position(|n| *n == p).unwrap_or(usize::MAX)
        }
    }
}

impl<N, W, D> Queried for Q<N, W, D>
where
    N: Node + ToT + 'static,
    N::Text: Ord + AsRef<str> + From<&'static str>,
    W: Wrap + Pattern<N::Text>,
    D: for<'x> Chain<'x, N, W>,
{
    fn run(&self, ops: &[Op], how: How) -> Vec<usize> {
        run::<N, W, D>(&self.soup, ops, how).into_iter().map(|p| self.pos(p)).collect()
    }
    fn plain(&self, ops: &[Op], how: How) -> Option<Vec<usize>> {
        Some(run_plain(&self.soup, ops, how)?.into_iter().map(|p| self.pos(p)).collect())
    }
    fn offered(&self, p: &P) -> bool {
        W::wrap(p).is_some()
    }
}

/// The node types every query family runs on.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    User,
    UserText,
    Tendril,
    Cow,
    Xml,
}
pub const KINDS: [Kind; 5] = [Kind::User, Kind::UserText, Kind::Tendril, Kind::Cow, Kind::Xml];

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::User => <Uni<String>>::NAME,
            Kind::UserText => <Uni<Own>>::NAME,
            Kind::Tendril => <HTMLNode<Tendril>>::NAME,
            Kind::Cow => <HTMLNode<Cow<'static, str>>>::NAME,
            Kind::Xml => XMLNode::NAME,
        }
    }
    /// The forest as this node type represents it.
    pub fn view(self, ts: &[T]) -> Vec<T> {
        fn x(t: &T) -> T {
            match t {
                T::El { name, attrs, kids } => T::Xml {
                    prefix: None,
                    ns: None,
                    name: name.clone(),
                    attrs: attrs.clone(),
                    kids: kids.iter().map(x).collect(),
                },
                T::Raw { name, attrs, .. } | T::Void { name, attrs } => {
                    T::Xml { prefix: None, ns: None, name: name.clone(), attrs: attrs.clone(), kids: vec![] }
                }
                T::Doctype(d) => T::Pi(d.clone(), None),
                t => t.clone(),
            }
        }
        if self == Kind::Xml { ts.iter().map(x).collect() } else { ts.to_vec() }
    }
    pub fn make(self, ts: &[T]) -> Result<Box<dyn Queried>, String> {
        let v = self.view(ts);
        Ok(match self {
            Kind::User => Box::new(Q::<Uni<String>, Any, Two>::new(soup(ts), &v)?),
            Kind::UserText => Box::new(Q::<Uni<Own>, Any, One>::new(soup(ts), &v)?),
            Kind::Tendril => Box::new(Q::<HTMLNode<Tendril>, Any, One>::new(soup(ts), &v)?),
            Kind::Cow => Box::new(Q::<HTMLNode<Cow<'static, str>>, Stat, One>::new(soup(ts), &v)?),
            Kind::Xml => Box::new(Q::<XMLNode, Any, One>::new(soup(ts), &v)?),
        })
    }
}

/// Soups made by the real parsers from a document.
pub fn parse_strict(doc: &'static str, ts: &[T]) -> Result<Box<dyn Queried>, String> {
    let s = Soup::html_strict(doc).map_err(|e| format!("{e:?}"))?;
    Ok(Box::new(Q::<HTMLNode<Cow<'static, str>>, Stat, One>::new(s, ts)?))
}
pub fn parse_lenient(doc: &str, ts: &[T]) -> Result<Box<dyn Queried>, String> {
    Ok(Box::new(Q::<HTMLNode<Tendril>, Any, One>::new(Soup::html(doc), ts)?))
}
pub fn parse_xml(doc: &str, ts: &[T]) -> Result<Box<dyn Queried>, String> {
    let s = Soup::xml(doc.as_bytes()).map_err(|e| format!("{e:?}"))?;
    Ok(Box::new(Q::<XMLNode, Any, One>::new(s, ts)?))
}

// ---------------------------------------------------------------- trees

pub fn attrs(list: &[(&str, &str)]) -> BTreeMap<String, String> {
    list.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn elem(name: &str, list: &[(&str, &str)]) -> T {
    T::El { name: name.into(), attrs: attrs(list), kids: vec![] }
}

/// Labels: the first ones are elements and may have children.
pub fn labels() -> (Vec<T>, usize) {
    (
        vec![
            elem("a", &[]),
            elem("b", &[]),
            elem("a", &[("x", "1")]),
            elem("b", &[("class", "c"), ("x", "2")]),
            T::Text("a".into()),
            T::Comment("b".into()),
            T::Void { name: "a".into(), attrs: attrs(&[("x", "1")]) },
            T::Raw { name: "b".into(), attrs: attrs(&[("class", "x")]), content: "a".into() },
        ],
        4,
    )
}

/// The forest with the given shape (depths in document order) and labels.
pub fn forest(shape: &[usize], lab: &mut impl FnMut(usize) -> T) -> Vec<T> {
    fn level(shape: &[usize], i: &mut usize, d: usize, lab: &mut dyn FnMut(usize) -> T) -> Vec<T> {
        let mut out = vec![];
        while *i < shape.len() && shape[*i] == d {
            let mut t = lab(*i);
            *i += 1;
            let k = level(shape, i, d + 1, lab);
            if let T::El { kids, .. } | T::Xml { kids, .. } = &mut t {
                *kids = k;
            } else {
                assert!(k.is_empty());
            }
            out.push(t);
        }
        out
    }
    level(shape, &mut 0, 0, lab)
}

/// Calls `f` with every forest of the shape over the labels (`inner` of which may have children).
pub fn labelled(shape: &[usize], labs: &[T], inner: usize, f: &mut dyn FnMut(&[usize], Vec<T>)) {
    let n = shape.len();
    let ks: Vec<usize> =
        (0..n).map(|i| if shape.get(i + 1).is_some_and(|d| *d > shape[i]) { inner } else { labs.len() }).collect();
    let mut w = vec![0; n];
    loop {
        let t = forest(shape, &mut |i| labs[w[i]].clone());
        f(&w, t);
        let mut i = n;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            w[i] += 1;
            if w[i] < ks[i] {
                break;
            }
            w[i] = 0;
        }
    }
}

/// A short description of a forest, as markup.
pub fn desc(ts: &[T]) -> String {
    fn a(m: &BTreeMap<String, String>) -> String {
        m.iter().map(|(k, v)| format!(" {k}={v}")).collect()
    }
    ts.iter()
        .map(|t| match t {
            T::El { name, attrs, kids } | T::Xml { name, attrs, kids, .. } => {
                format!("<{name}{}>{}</>", a(attrs), desc(kids))
            }
            T::Raw { name, attrs, content } => format!("<raw:{name}{}>{content}</>", a(attrs)),
            T::Void { name, attrs } => format!("<{name}{}/>", a(attrs)),
            T::Text(t) => format!("[{t}]"),
            T::Comment(t) => format!("<!--{t}-->"),
            T::Doctype(t) => format!("<!{t}>"),
            T::CData(t) => format!("<![{t}]>"),
            T::Pi(t, _) => format!("<?{t}>"),
        })
        .collect()
}

// ---------------------------------------------------------------- conditions

pub fn re(s: &str, f: fn(&str) -> bool) -> P {
    P::Re(regex::Regex::new(s).unwrap(), f)
}

/// Conditions of every kind with every kind of pattern, over the labels' vocabulary.
pub fn conditions() -> Vec<Op> {
    let mut v = vec![];
    for p in [
        P::Str("a"),
        P::Own("b".into()),
        P::True,
        P::False,
        re("^[ab]$", |s| s == "a" || s == "b"),
        P::Exact("a"),
        P::Str(""),
        P::Str("x"),
    ] {
        v.push(Op::Tag(p));
    }
    let names = [P::Str("x"), P::CowO("class".into()), P::True, P::Pred("len>1", |s| s.len() > 1), P::Short("y")];
    let values = [P::Str("1"), P::True, re("c|2", |s| s.contains('c') || s.contains('2')), P::False];
    for n in &names {
        for w in &values {
            v.push(Op::Attr(n.clone(), w.clone()));
        }
        v.push(Op::Name(n.clone()));
    }
    for w in [P::Str("1"), P::True, P::Own("2".into()), P::Exact("c"), P::CowB("x"), P::Str("")] {
        v.push(Op::Value(w));
    }
    for w in [P::Str("c"), P::True, P::False, P::Own("x".into()), P::Pred("any", |_| true)] {
        v.push(Op::Class(w));
    }
    v
}

/// Whether all patterns of the chain exist for the node type.
pub fn offered(q: &dyn Queried, ops: &[Op]) -> bool {
    ops.iter().all(|o| match o {
        Op::Tag(p) | Op::Name(p) | Op::Value(p) | Op::Class(p) => q.offered(p),
        Op::Attr(n, v) => q.offered(n) && q.offered(v),
        _ => true,
    })
}

/// Runs a chain in all ways and compares with the reference.
pub fn compare(q: &dyn Queried, pre: &[(&T, usize)], ops: &[Op]) -> Result<Vec<usize>, String> {
    let want = expect(pre, ops);
    compare_with(q, &want, ops)?;
    Ok(want)
}

pub fn compare_with(q: &dyn Queried, want: &[usize], ops: &[Op]) -> Result<(), String> {
    for how in HOWS {
        let got = q.run(ops, how);
        let w = if how == How::First { &want[..want.len().min(1)] } else { want };
        if got != w {
            return Err(format!("soup{} ({how:?}) returned the nodes {got:?}, expected {w:?}", show(ops)));
        }
        if how != How::For {
            if let Some(got) = q.plain(ops, how).filter(|got| got != w) {
                return Err(format!("soup{} ({how:?}, plain pattern types) returned the nodes {got:?}, expected {w:?}", show(ops)));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- dictionary

/// A forest with two strings in every place of nodes of every kind.
pub fn pair_forest(a: &str, b: &str) -> Vec<T> {
    let e = |name: &str, list: &[(&str, &str)], kids: Vec<T>| T::El { name: name.into(), attrs: attrs(list), kids };
    vec![
        e(
            a,
            &[],
            vec![
                T::Text(b.into()),
                e(b, &[(a, b)], vec![T::Comment(a.into())]),
                T::Void { name: a.into(), attrs: attrs(&[(b, a)]) },
            ],
        ),
        e(
            b,
            &[("-", b), (a, "-")],
            vec![
                e(a, &[("class", b)], vec![T::Text(a.into())]),
                T::Raw { name: b.into(), attrs: attrs(&[("class", a), (a, a)]), content: a.into() },
            ],
        ),
        T::Text(a.into()),
        T::Comment(b.into()),
        e("-", &[("~", "~"), (b, a), (a, b)], vec![e(a, &[("-", a)], vec![])]),
    ]
}

/// Asks `ops(a, b)` of the forest of every pair of similar strings.
fn similar(ctx: &crate::engine::Ctx, ops: &(impl Fn(&'static str, &'static str) -> Vec<Vec<Op>> + Sync)) {
    let fam = ctx.family(
        "similar-strings",
        "pairs of strings of every length up to 130 (thorough: 600) and around round numbers up to 2500 (20000) that differ in a single letter, its case or its last byte, at the ends, in the middle and next to each power of two, or in length by one: in every place of a forest, and in the conditions; one node type for each pair (thorough: every node type)",
    );
    if !fam.active() {
        return;
    }
    let d = crate::lits::similar(ctx.bound(130, 600), ctx.bound(2500, 20_000));
    ctx.par(d.len(), |i| {
        let (a, b) = (&d[d.len() - 1 - i].0, &d[d.len() - 1 - i].1);
        let cases: Vec<_> = KINDS.iter().enumerate().filter(|(n, _)| ctx.thorough() || i % KINDS.len() == *n).collect();
        for (_, kind) in cases {
            fam.case(&format!("{}: {} {a:?} {b:?}", kind.name(), a.len()), || {
                let (a, b) = (intern(a), intern(b));
                let ts = pair_forest(a, b);
                let v = kind.view(&ts);
                let q = kind.make(&ts)?;
                let pre = preorder(&v);
                let mut all = String::new();
                for o in &ops(a, b) {
                    if offered(&*q, o) {
                        all += &format!("{:?}", compare(&*q, &pre, o)?);
                    }
                }
                crate::engine::seen(true, &format!("{} {all}", a.len()))
            });
        }
    });
}

/// Asks `ops(a, b)` of the forest of every pair of strings out of the dictionary, each node type.
pub fn dictionary(ctx: &crate::engine::Ctx, ops: impl Fn(&'static str, &'static str) -> Vec<Vec<Op>> + Sync) {
    similar(ctx, &ops);
    let fam = ctx.family(
        "dictionary",
        "every pair of strings out of a dictionary (the literals of the code under test, and well-known names and values) as names, attribute names, values, classes, texts and comments of a forest, and in the conditions; one node type for each pair (thorough: every node type)",
    );
    if !fam.active() {
        return;
    }
    let d = crate::lits::dictionary();
    let k = d.len();
    ctx.par(k * k, |i| {
        let (a, b) = (intern(&d[i / k]), intern(&d[i % k]));
        let ts = pair_forest(a, b);
        let ops = ops(a, b);
        for (n, kind) in KINDS.iter().enumerate() {
            if !ctx.thorough() && i / k != i % k && n != (i / k + i % k) % KINDS.len() {
                continue;
            }
            ctx.traces.fetch_add(ops.len() as u64 * 3, std::sync::atomic::Ordering::Relaxed);
            fam.case(&format!("{}: {a:?} {b:?}", kind.name()), || {
                let v = kind.view(&ts);
                let q = kind.make(&ts)?;
                let pre = preorder(&v);
                let (mut some, mut all) = (false, String::new());
                for o in &ops {
                    if offered(&*q, o) {
                        let r = compare(&*q, &pre, o)?;
                        some |= !r.is_empty() && r.len() < pre.len();
                        all += &format!("{r:?}");
                    }
                }
                crate::engine::seen(some, &all)
            });
        }
    });
}
