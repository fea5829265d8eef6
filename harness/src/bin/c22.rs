//! C22: user-defined parsers, nodes, patterns and filters are served like built-in ones.

use std::{
    borrow::Cow,
    cell::{Cell, OnceCell, RefCell},
    collections::BTreeMap,
    fmt,
    marker::PhantomData,
    rc::Rc,
    sync::atomic::Ordering::Relaxed,
};

use mc::{
    engine::{fnv, seen, Ctx, Seen},
    gen,
    qmodel::*,
    tree::{ToT, T},
};
use soupy::{
    filter::{And, Attr, Filter, Or, Tag},
    parser::{HTMLNode, LenientHTMLParser, Parser, StrictHTMLParser, XMLNode, XMLParser},
    query::{Query, QueryItem, QueryIter},
    Node, Pattern, Queryable, Soup,
};

// ---------------------------------------------------------------- parsers

/// What happens to a node, an input or an error, for the one case that runs on this thread.
#[derive(Default)]
struct Log {
    calls: Cell<u32>,
    made: Cell<usize>,
    dropped: RefCell<Vec<usize>>,
    input_dropped: Cell<u32>,
    error_dropped: Cell<u32>,
}

/// Cannot be cloned; says when it goes.
struct Token<'l> {
    id: usize,
    log: &'l Log,
    name: String,
    kids: Vec<Token<'l>>,
}
impl Drop for Token<'_> {
    fn drop(&mut self) {
        self.log.dropped.borrow_mut().push(self.id);
    }
}
impl Node for Token<'_> {
    type Text = String;
    fn name(&self) -> Option<&String> {
        Some(&self.name)
    }
    fn text(&self) -> Option<&String> {
        None
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        None
    }
    fn children(&self) -> &[Self] {
        &self.kids
    }
}

/// The input of `Scripted`: what is to happen.
struct Script<'l> {
    log: &'l Log,
    shape: Vec<usize>,
    fail: Option<u32>,
    secret: Box<u64>,
    at: *const u64,
    spare: usize,
}
impl Drop for Script<'_> {
    fn drop(&mut self) {
        self.log.input_dropped.set(self.log.input_dropped.get() + 1);
    }
}
struct Failure<'l> {
    code: u32,
    secret: u64,
    log: &'l Log,
}
impl Drop for Failure<'_> {
    fn drop(&mut self) {
        self.log.error_dropped.set(self.log.error_dropped.get() + 1);
    }
}
struct Scripted<'l>(PhantomData<&'l ()>);

impl<'l> Parser for Scripted<'l> {
    type Input = Script<'l>;
    type Node = Token<'l>;
    type Error = Failure<'l>;
    fn parse(input: Script<'l>) -> Result<Vec<Token<'l>>, Failure<'l>> {
        fn level<'l>(s: &Script<'l>, i: &mut usize, d: usize) -> Vec<Token<'l>> {
            let mut out = vec![];
            while *i < s.shape.len() && s.shape[*i] == d {
                let id = *i;
                *i += 1;
                let name = if id % 2 == 0 { "even" } else { "odd" };
                let kids = level(s, i, d + 1);
                out.push(Token { id, log: s.log, name: name.into(), kids });
            }
            out
        }
        input.log.calls.set(input.log.calls.get() + 1);
        assert!(input.log.input_dropped.get() == 0, "the input was dropped before parse()");
        assert!(std::ptr::eq(&*input.secret, input.at), "the input is not the one given");
        match input.fail {
            Some(code) => Err(Failure { code, secret: *input.secret, log: input.log }),
            None => {
                let mut v = level(&input, &mut 0, 0);
                // spare capacity: the soup holds the nodes, not the space
                v.reserve(input.spare);
                input.log.made.set(input.shape.len());
                Ok(v)
            }
        }
    }
}

fn scripted(shape: &[usize], fail: Option<u32>, spare: usize) -> Result<Seen, String> {
    let log = Log::default();
    let secret = Box::new(0xfeed_0000 + shape.len() as u64);
    let at: *const u64 = &*secret;
    let want_secret = *secret;
    let r = Soup::new::<Scripted>(Script { log: &log, shape: shape.to_vec(), fail, secret, at, spare });
    if log.calls.get() != 1 {
        return Err(format!("parse() was called {} times", log.calls.get()));
    }
    if log.input_dropped.get() != 1 {
        return Err("the input was not handed over".into());
    }
    match (r, fail) {
        (Err(e), Some(c)) => {
            if e.code != c || e.secret != want_secret {
                return Err(format!("the error {c} became {}", e.code));
            }
            if log.error_dropped.get() != 0 {
                return Err("the error was dropped and another one made".into());
            }
        }
        (Ok(s), None) => {
            let n = shape.len();
            let all: Vec<usize> = s.iter().map(|i| i.id).collect();
            if all != (0..n).collect::<Vec<_>>() {
                return Err(format!("the nodes are {all:?} of {n}"));
            }
            let tops: Vec<usize> = s.strict().all().map(|i| i.id).collect();
            if tops != (0..n).filter(|i| shape[*i] == 0).collect::<Vec<_>>() {
                return Err(format!("the top-level nodes are {tops:?}"));
            }
            let odd: Vec<usize> = s.tag("odd").all().map(|i| i.id).collect();
            if odd != (0..n).filter(|i| i % 2 == 1).collect::<Vec<_>>() {
                return Err(format!("the odd nodes are {odd:?}"));
            }
            for i in &s {
                let got: Vec<usize> = i.descendants().map(|d| d.id).collect();
                let len = shape[i.id + 1..].iter().take_while(|d| **d > shape[i.id]).count();
                if got != (i.id..=i.id + len).collect::<Vec<_>>() {
                    return Err(format!("the descendants of {} are {got:?}", i.id));
                }
            }
            if !log.dropped.borrow().is_empty() {
                return Err("nodes were dropped while the soup lives".into());
            }
            drop(s);
            let mut d = log.dropped.borrow().clone();
            d.sort_unstable();
            if d != (0..n).collect::<Vec<_>>() {
                return Err(format!("dropping the soup dropped the nodes {d:?} of {n}"));
            }
        }
        (Ok(_), Some(c)) => return Err(format!("the error {c} became a soup")),
        (Err(e), None) => return Err(format!("the nodes became an error {}", e.code)),
    }
    seen(fail.is_some() || shape.len() > 1, &format!("{shape:?}{fail:?}"))
}

/// A parser that returns its input as the text of a node, or as the error.
struct Echo<I, const FAIL: bool>(PhantomData<I>);
#[derive(Debug, PartialEq, Clone)]
struct Held<I>(I, String);
impl<I> Node for Held<I> {
    type Text = String;
    fn name(&self) -> Option<&String> {
        Some(&self.1)
    }
    fn text(&self) -> Option<&String> {
        Some(&self.1)
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        None
    }
    fn children(&self) -> &[Self] {
        &[]
    }
}
thread_local!(static CALLS: Cell<u32> = const { Cell::new(0) });
impl<I, const FAIL: bool> Parser for Echo<I, FAIL> {
    type Input = I;
    type Node = Held<I>;
    type Error = I;
    fn parse(i: I) -> Result<Vec<Held<I>>, I> {
        CALLS.set(CALLS.get() + 1);
        if FAIL { Err(i) } else { Ok(vec![Held(i, "echo".into())]) }
    }
}

/// The input comes back as a node and as an error, as `same` sees it.
fn echo<I>(what: &str, mut make: impl FnMut() -> I, same: impl Fn(&I) -> bool) -> Result<(), String> {
    CALLS.set(0);
    let s = Soup::new::<Echo<I, false>>(make()).map_err(|_| format!("{what}: an error"))?;
    let all: Vec<QueryItem<Held<I>>> = s.iter().collect();
    if all.len() != 1 || !same(&all[0].0) || CALLS.get() != 1 {
        return Err(format!("{what}: parse() did not get the input, or more than once"));
    }
    CALLS.set(0);
    match Soup::new::<Echo<I, true>>(make()) {
        Ok(_) => Err(format!("{what}: the error is gone")),
        Err(e) if !same(&e) || CALLS.get() != 1 => Err(format!("{what}: the error has changed")),
        Err(_) => Ok(()),
    }
}

fn echoes(s: &str) -> Result<Seen, String> {
    let p = s.as_ptr();
    echo("&str", || s, |x| x.as_ptr() == p && x.len() == s.len())?;
    echo("&[u8]", || s.as_bytes(), |x| x.as_ptr() == p && x.len() == s.len())?;
    // owned: the very same buffer arrives
    let at = Cell::new(std::ptr::null());
    echo(
        "String",
        || {
            let mut o = String::with_capacity(s.len() + 3);
            o.push_str(s);
            at.set(o.as_ptr());
            o
        },
        |x| x == s && x.as_ptr() == at.get() && x.capacity() >= s.len() + 3,
    )?;
    echo("Vec<u8>", || s.as_bytes().to_vec(), |x| x == s.as_bytes())?;
    echo("Cow<str>", || Cow::Borrowed(s), |x| matches!(x, Cow::Borrowed(y) if y.as_ptr() == p))?;
    echo("Cow<str>, owned", || Cow::<str>::Owned(s.to_string()), |x| matches!(x, Cow::Owned(y) if y == s))?;
    let rc: Rc<str> = s.into();
    echo("Rc<str>", || rc.clone(), |x| Rc::ptr_eq(x, &rc))?;
    if Rc::strong_count(&rc) != 1 {
        return Err("Rc<str>: a copy was kept".into());
    }
    let cell = RefCell::new(s.to_string());
    echo("&RefCell", || &cell, |x| std::ptr::eq(*x, &cell))?;
    let mut buf = s.to_string();
    {
        let m = RefCell::new(Some(&mut buf));
        let r = Soup::new::<Echo<&mut String, true>>(m.borrow_mut().take().unwrap());
        match r {
            Err(b) => b.push('!'),
            Ok(_) => return Err("&mut String: the error is gone".into()),
        }
    }
    if buf != format!("{s}!") {
        return Err("&mut String: it is not the one given".into());
    }
    echo("Box<dyn Error>", || Box::<dyn std::error::Error>::from(s), |x| x.to_string() == s)?;
    echo("io::Error", || std::io::Error::other(s), |x| x.kind() == std::io::ErrorKind::Other && x.to_string() == s)?;
    echo("tuple", || (s.len(), s.chars().next(), s), |x| *x == (s.len(), s.chars().next(), s))?;
    echo("array", || [s; 3], |x| x.iter().all(|y| *y == s))?;
    echo("Option", || (!s.is_empty()).then_some(s), |x| *x == (!s.is_empty()).then_some(s))?;
    echo("Result", || if s.len() % 2 == 0 { Ok(s) } else { Err(s) }, |x| x.is_ok() == (s.len() % 2 == 0))?;
    echo("closure", || || s.len(), |f| f() == s.len())?;
    echo("()", || (), |_| true)?;
    echo("big", || [7u8; 3000], |x| x.iter().all(|b| *b == 7))?;
    echo("bytes", || s.bytes(), |x| x.clone().eq(s.bytes()))?;
    seen(!s.is_empty(), s)
}

/// User parsers made of the crate's own ones.
struct Several;
impl Parser for Several {
    type Input = Vec<String>;
    type Node = XMLNode;
    type Error = (usize, String);
    fn parse(docs: Vec<String>) -> Result<Vec<XMLNode>, (usize, String)> {
        let mut out = vec![];
        for (i, d) in docs.iter().enumerate() {
            out.extend(<XMLParser<&[u8]> as Parser>::parse(d.as_bytes()).map_err(|e| (i, e.to_string()))?);
        }
        Ok(out)
    }
}
struct OwnStrict<'a>(PhantomData<&'a ()>);
impl<'a> Parser for OwnStrict<'a> {
    type Input = &'a str;
    type Node = HTMLNode<Cow<'a, str>>;
    type Error = String;
    fn parse(i: &'a str) -> Result<Vec<Self::Node>, String> {
        <StrictHTMLParser as Parser>::parse(i).map_err(|e| format!("{e:?}"))
    }
}
struct OwnLenient;
impl Parser for OwnLenient {
    type Input = String;
    type Node = HTMLNode<Tendril>;
    type Error = ();
    fn parse(i: String) -> Result<Vec<Self::Node>, ()> {
        <LenientHTMLParser<String> as Parser>::parse(i).map_err(|_| ())
    }
}

fn delegating(parts: &[&str]) -> Result<Seen, String> {
    let doc = parts.concat();
    let tops = |e: &mut dyn Iterator<Item = T>| e.collect::<Vec<T>>();
    // strict
    let a = Soup::new::<OwnStrict>(&doc).map(|s| tops(&mut s.strict().all().map(|i| i.to_t())));
    let b = Soup::html_strict(&doc).map(|s| tops(&mut s.strict().all().map(|i| i.to_t()))).map_err(|e| format!("{e:?}"));
    if a != b {
        return Err(format!("a user's parser around the strict one gives {a:?}, it gives {b:?}"));
    }
    let a = Soup::new::<OwnLenient>(doc.clone()).map(|s| tops(&mut s.strict().all().map(|i| i.to_t())));
    let b = Ok(tops(&mut Soup::html(doc.as_str()).strict().all().map(|i| i.to_t())));
    if a != b {
        return Err(format!("a user's parser around the lenient one gives {a:?}, it gives {b:?}"));
    }
    let docs: Vec<String> = parts.iter().map(ToString::to_string).collect();
    let a = Soup::new::<Several>(docs.clone()).map(|s| tops(&mut s.strict().all().map(|i| i.to_t())));
    let mut b: Result<Vec<T>, (usize, String)> = Ok(vec![]);
    for (i, d) in docs.iter().enumerate() {
        match (&mut b, Soup::xml(d.as_bytes())) {
            (Ok(v), Ok(s)) => v.extend(s.strict().all().map(|x| x.to_t())),
            (Ok(_), Err(e)) => b = Err((i, e.to_string())),
            _ => {}
        }
    }
    if a != b {
        return Err(format!("a user's parser around the XML one gives {a:?}, it gives {b:?}"));
    }
    seen(a.is_ok() && !parts.is_empty(), &doc)
}

// ---------------------------------------------------------------- node types

/// Children shared through a reference; the node itself is two words and `Copy`.
#[derive(Clone, Copy)]
struct Ref<'a> {
    data: &'a Data<'a>,
    kids: &'a [Ref<'a>],
}
struct Data<'a> {
    name: Option<&'a str>,
    text: Option<&'a str>,
    attrs: Option<BTreeMap<&'a str, &'a str>>,
}
impl<'a> Node for Ref<'a> {
    type Text = &'a str;
    fn name(&self) -> Option<&&'a str> {
        self.data.name.as_ref()
    }
    fn text(&self) -> Option<&&'a str> {
        self.data.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<&'a str, &'a str>> {
        self.data.attrs.as_ref()
    }
    fn children(&self) -> &[Self] {
        self.kids
    }
}
fn leak_ref(t: &T) -> Ref<'static> {
    let kids: Vec<Ref> = t.kids().iter().map(leak_ref).collect();
    Ref {
        data: Box::leak(Box::new(Data {
            name: t.name().map(|s| intern(s)),
            text: t.text().map(|s| intern(s)),
            attrs: t.attrs().map(|m| m.iter().map(|(a, b)| (intern(a), intern(b))).collect()),
        })),
        kids: Box::leak(kids.into_boxed_slice()),
    }
}
fn free_ref(n: Ref<'static>) {
    for k in n.kids {
        free_ref(*k);
    }
    unsafe {
        drop(Box::from_raw(std::ptr::from_ref(n.data).cast_mut()));
        drop(Box::from_raw(std::ptr::from_ref(n.kids).cast_mut()));
    }
}

/// Computes everything when it is first asked, from a description.
struct Lazy {
    of: Rc<T>,
    path: Vec<usize>,
    name: OnceCell<Option<Own>>,
    text: OnceCell<Option<Own>>,
    attrs: OnceCell<Option<BTreeMap<Own, Own>>>,
    kids: OnceCell<Vec<Lazy>>,
}
impl Lazy {
    fn new(of: Rc<T>, path: Vec<usize>) -> Self {
        let (name, text, attrs, kids) = Default::default();
        Lazy { of, path, name, text, attrs, kids }
    }
    fn t(&self) -> &T {
        self.path.iter().fold(&*self.of, |t, i| &t.kids()[*i])
    }
}
impl Node for Lazy {
    type Text = Own;
    fn name(&self) -> Option<&Own> {
        self.name.get_or_init(|| self.t().name().map(|s| Own::mk(s))).as_ref()
    }
    fn text(&self) -> Option<&Own> {
        self.text.get_or_init(|| self.t().text().map(|s| Own::mk(s))).as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<Own, Own>> {
        self.attrs
            .get_or_init(|| self.t().attrs().map(|m| m.iter().map(|(a, b)| (Own::mk(a), Own::mk(b))).collect()))
            .as_ref()
    }
    fn children(&self) -> &[Self] {
        self.kids.get_or_init(|| {
            (0..self.t().kids().len())
                .map(|i| Lazy::new(self.of.clone(), self.path.iter().copied().chain([i]).collect()))
                .collect()
        })
    }
}

/// Wraps a node of another type; the children are shared by all copies.
#[derive(Clone)]
struct Wrapped<N> {
    inner: Rc<N>,
    kids: Rc<[Wrapped<N>]>,
}
impl<N: Node> Node for Wrapped<N> {
    type Text = N::Text;
    fn name(&self) -> Option<&N::Text> {
        self.inner.name()
    }
    fn text(&self) -> Option<&N::Text> {
        self.inner.text()
    }
    fn attrs(&self) -> Option<&BTreeMap<N::Text, N::Text>> {
        self.inner.attrs()
    }
    fn children(&self) -> &[Self] {
        &self.kids
    }
}
fn wrapped<N: Build>(t: &T) -> Wrapped<N> {
    let bare = match t {
        T::El { name, attrs, .. } => T::El { name: name.clone(), attrs: attrs.clone(), kids: vec![] },
        t => t.clone(),
    };
    Wrapped { inner: Rc::new(N::build(&bare, &mut 0)), kids: t.kids().iter().map(wrapped).collect() }
}

/// Holds much more than it shows: only the methods count.
struct Decoy {
    shown: Uni<String>,
    _hidden: [u64; 40],
}
impl Node for Decoy {
    type Text = String;
    fn name(&self) -> Option<&String> {
        self.shown.name()
    }
    fn text(&self) -> Option<&String> {
        self.shown.text()
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        self.shown.attrs()
    }
    fn children(&self) -> &[Self] {
        self.kids()
    }
}
impl Decoy {
    fn kids(&self) -> &[Decoy] {
        DECOYS.with(|d| {
            let d = d.borrow();
            d.get(self.shown.id).map_or(&[][..], |k| *k)
        })
    }
}
thread_local!(static DECOYS: RefCell<Vec<&'static [Decoy]>> = const { RefCell::new(vec![]) });
fn decoys(ts: &[T]) -> Vec<Decoy> {
    fn go(t: &T, id: &mut usize, out: &mut Vec<&'static [Decoy]>) -> Decoy {
        let me = *id;
        let bare = match t {
            T::El { name, attrs, .. } => T::El { name: name.clone(), attrs: attrs.clone(), kids: vec![] },
            t => t.clone(),
        };
        let shown = Uni::<String>::build(&bare, id);
        out.push(&[]);
        let kids: Vec<Decoy> = t.kids().iter().map(|k| go(k, id, out)).collect();
        out[me] = Box::leak(kids.into_boxed_slice());
        Decoy { shown, _hidden: [me as u64; 40] }
    }
    let mut all = vec![];
    let mut id = 0;
    let v = ts.iter().map(|t| go(t, &mut id, &mut all)).collect();
    DECOYS.set(all);
    v
}
fn free_decoys() {
    for k in DECOYS.take() {
        unsafe { drop(Box::from_raw(std::ptr::from_ref(k).cast_mut())) }
    }
}

/// The reference walk over what `children()` reports.
fn walk<'a, N: Node>(n: &'a N, out: &mut Vec<&'a N>) {
    out.push(n);
    for c in n.children() {
        walk(c, out);
    }
}

/// Queries and traversals of a soup see what the methods of its nodes report, which has to be `ts`.
fn agrees<'s, N, W>(what: &str, s: &'s Soup<N>, ts: &[T], conds: &[Op]) -> Result<bool, String>
where
    N: Node + 's,
    N::Text: Ord + AsRef<str> + From<&'static str> + fmt::Display,
    W: Wrap + Pattern<N::Text>,
    One: Chain<'s, N, W>,
    Zero: Chain<'s, N, W>,
{
    let pre = preorder(ts);
    let tops: Vec<&N> = s.strict().all().map(|i| unsafe { &*std::ptr::from_ref(&*i) }).collect();
    if tops.len() != ts.len() {
        return Err(format!("{what}: {} top-level nodes of {}", tops.len(), ts.len()));
    }
    let mut all = vec![];
    for t in &tops {
        walk(*t, &mut all);
    }
    if all.len() != pre.len() {
        return Err(format!("{what}: {} nodes of {}", all.len(), pre.len()));
    }
    let ptrs: Vec<*const N> = all.iter().map(|n| std::ptr::from_ref(*n)).collect();
    let mut some = false;
    for c in conds {
        for ops in [vec![c.clone()], vec![c.clone(), Op::Strict]] {
            let want: Vec<*const N> = expect(&pre, &ops).into_iter().map(|i| ptrs[i]).collect();
            for how in HOWS {
                let got = run::<N, W, One>(s, &ops, how);
                let w = if how == How::First { &want[..want.len().min(1)] } else { &want[..] };
                if got != w {
                    return Err(format!("{what}: soup{} ({how:?}) found {} nodes, expected {}, or others", show(&ops), got.len(), w.len()));
                }
            }
            some |= !want.is_empty();
        }
    }
    let every: Vec<*const N> = s.iter().map(|i| std::ptr::from_ref(&*i)).collect();
    if every != ptrs {
        return Err(format!("{what}: iter() does not give every node in order"));
    }
    let eq = |a: Option<&N::Text>, b: Option<&String>| a.map(AsRef::as_ref) == b.map(String::as_str);
    for (i, item) in s.iter().enumerate() {
        let t = pre[i].0;
        if !eq(item.name(), t.name()) || !eq(item.text(), t.text()) {
            return Err(format!("{what}: node {i}: another name or text"));
        }
        for k in ["x", "class", "a", ""] {
            if !eq(item.get(k), t.attrs().and_then(|a| a.get(k))) {
                return Err(format!("{what}: node {i}: get({k:?})"));
            }
        }
        let below = preorder(std::slice::from_ref(t));
        let got: Vec<*const N> = item.descendants().map(std::ptr::from_ref).collect();
        if got != ptrs[i..i + below.len()] {
            return Err(format!("{what}: node {i}: {} descendants of {}, or others", got.len(), below.len()));
        }
        let want = below.iter().filter_map(|p| p.0.text().cloned()).collect::<Vec<_>>().join("\n");
        if item.all_text() != want {
            return Err(format!("{what}: node {i}: all_text() is {:?}, expected {want:?}", item.all_text()));
        }
    }
    Ok(some)
}

const NODE_TYPES: usize = 12;

fn node_type(k: usize, ts: &[T], conds: &[Op]) -> Result<Seen, String> {
    let stat: Vec<Op> = conds
        .iter()
        .filter(|o| match o {
            Op::Tag(p) | Op::Name(p) | Op::Value(p) | Op::Class(p) => Stat::wrap(p).is_some(),
            Op::Attr(n, v) => Stat::wrap(n).is_some() && Stat::wrap(v).is_some(),
            _ => true,
        })
        .cloned()
        .collect();
    let some = match k {
        0 => agrees::<_, Any>("String", &soup::<Uni<String>>(ts), ts, conds)?,
        1 => agrees::<_, Any>("user text", &soup::<Uni<Own>>(ts), ts, conds)?,
        2 => agrees::<_, Any>("Box<str>", &soup::<Uni<Box<str>>>(ts), ts, conds)?,
        3 => agrees::<_, Any>("Rc<str>", &soup::<Uni<Rc<str>>>(ts), ts, conds)?,
        4 => agrees::<_, Any>("Arc<str>", &soup::<Uni<std::sync::Arc<str>>>(ts), ts, conds)?,
        5 => agrees::<_, Stat>("&'static str", &soup::<Uni<&'static str>>(ts), ts, &stat)?,
        6 => agrees::<_, Stat>("Cow<'static, str>", &soup::<Uni<Cow<'static, str>>>(ts), ts, &stat)?,
        7 => {
            let v: Vec<Ref> = ts.iter().map(leak_ref).collect();
            let r = agrees::<_, Stat>("Copy node", &soup_of(v.clone()), ts, &stat);
            v.into_iter().for_each(free_ref);
            r?
        }
        8 => {
            let v = ts.iter().map(|t| Lazy::new(Rc::new(t.clone()), vec![])).collect();
            agrees::<_, Any>("lazy node", &soup_of(v), ts, conds)?
        }
        9 => {
            let v = ts.iter().map(wrapped::<HTMLNode<Tendril>>).collect();
            agrees::<_, Any>("wrapped HTML node", &soup_of(v), ts, conds)?
        }
        10 => {
            let v = ts.iter().map(wrapped::<Uni<String>>).collect();
            agrees::<_, Any>("wrapped user node", &soup_of(v), ts, conds)?
        }
        _ => {
            let r = agrees::<_, Any>("big node", &soup_of(decoys(ts)), ts, conds);
            free_decoys();
            r?
        }
    };
    seen(some, &format!("{}", ts.len()))
}

/// A forest in which the children of some nodes are the very same slice in memory.
fn shared(shape: &[usize], conds: &[Op]) -> Result<Seen, String> {
    // every node of the shape holds the same two sub-trees below its own children
    let leaf = [T::Text("t".into()), elem("a", &[("x", "1")])];
    let pair = vec![T::El { name: "b".into(), attrs: attrs(&[]), kids: leaf.to_vec() }, leaf[0].clone()];
    let low: Vec<Ref> = pair.iter().map(leak_ref).collect();
    let low: &'static [Ref<'static>] = Box::leak(low.into_boxed_slice());
    fn level(shape: &[usize], i: &mut usize, d: usize, low: &'static [Ref<'static>], pair: &[T], made: &mut Vec<Ref<'static>>) -> (Vec<Ref<'static>>, Vec<T>) {
        let (mut a, mut b) = (vec![], vec![]);
        while *i < shape.len() && shape[*i] == d {
            *i += 1;
            let (ka, kb) = level(shape, i, d + 1, low, pair, made);
            let data: &'static Data<'static> = Box::leak(Box::new(Data { name: Some("a"), text: None, attrs: Some(BTreeMap::new()) }));
            // a leaf shares its children with all other leaves
            let (kids, tk): (&'static [Ref], Vec<T>) =
                if ka.is_empty() { (low, pair.to_vec()) } else { (Box::leak(ka.into_boxed_slice()), kb) };
            let n = Ref { data, kids };
            made.push(n);
            a.push(n);
            b.push(T::El { name: "a".into(), attrs: BTreeMap::new(), kids: tk });
        }
        (a, b)
    }
    let mut made = vec![];
    let (nodes, ts) = level(shape, &mut 0, 0, low, &pair, &mut made);
    let r = agrees::<_, Stat>("shared children", &soup_of(nodes), &ts, conds);
    for n in made {
        unsafe {
            drop(Box::from_raw(std::ptr::from_ref(n.data).cast_mut()));
            if !std::ptr::eq(n.kids, low) {
                drop(Box::from_raw(std::ptr::from_ref(n.kids).cast_mut()));
            }
        }
    }
    for n in low {
        free_ref(*n);
    }
    unsafe { drop(Box::from_raw(std::ptr::from_ref(low).cast_mut())) };
    r?;
    seen(shape.len() > 1, &format!("{shape:?}"))
}

/// Nodes without any data.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Nil<const KIDS: usize>;
static NIL: [Nil<0>; 0] = [];
impl Node for Nil<0> {
    type Text = String;
    fn name(&self) -> Option<&String> {
        None
    }
    fn text(&self) -> Option<&String> {
        None
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        None
    }
    fn children(&self) -> &[Self] {
        &NIL
    }
}

// ---------------------------------------------------------------- nodes with texts that are no strings

#[derive(Clone, Debug, PartialEq)]
struct Any2<S> {
    name: Option<S>,
    text: Option<S>,
    attrs: Option<BTreeMap<S, S>>,
    kids: Vec<Any2<S>>,
}
impl<S> Node for Any2<S> {
    type Text = S;
    fn name(&self) -> Option<&S> {
        self.name.as_ref()
    }
    fn text(&self) -> Option<&S> {
        self.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<S, S>> {
        self.attrs.as_ref()
    }
    fn children(&self) -> &[Self] {
        &self.kids
    }
}
fn free_forest<S: Clone>(shape: &[usize], i: &mut usize, d: usize, lab: &dyn Fn(usize) -> Any2<S>) -> Vec<Any2<S>> {
    let mut out = vec![];
    while *i < shape.len() && shape[*i] == d {
        let mut n = lab(*i);
        *i += 1;
        n.kids = free_forest(shape, i, d + 1, lab);
        out.push(n);
    }
    out
}

/// Matches the values of a set; with or without the shortcut if there is just one.
#[derive(Clone, Debug)]
struct In<S>(Vec<S>, bool);
impl<S: PartialEq + Clone> Pattern<S> for In<S> {
    fn matches(&self, h: &S) -> bool {
        self.0.contains(h)
    }
    fn value(&self) -> Option<S> {
        (self.1 && self.0.len() == 1).then(|| self.0[0].clone())
    }
}

/// What the definition says about a node that reports anything at all.
fn def<S: PartialEq>(n: &Any2<S>, tag: Option<&dyn Fn(&S) -> bool>, attr: Option<&dyn Fn(&S, &S) -> bool>) -> bool {
    tag.is_none_or(|f| n.name.as_ref().is_some_and(f))
        && attr.is_none_or(|f| n.attrs.as_ref().is_some_and(|a| a.iter().any(|(k, v)| f(k, v))))
}

fn no_strings<S: Ord + Clone + fmt::Debug>(nodes: Vec<Any2<S>>, vocab: &[S]) -> Result<bool, String> {
    let s = soup_of(nodes);
    let tops: Vec<&Any2<S>> = s.strict().all().map(|i| unsafe { &*std::ptr::from_ref(&*i) }).collect();
    let mut all = vec![];
    for t in &tops {
        walk(*t, &mut all);
    }
    let mut some = false;
    let mut check = |what: String, got: Vec<QueryItem<Any2<S>>>, hit: &dyn Fn(&Any2<S>) -> bool, strict: bool| {
        let of = if strict { &tops } else { &all };
        let want: Vec<&Any2<S>> = of.iter().copied().filter(|n| hit(n)).collect();
        some |= !want.is_empty() && want.len() < of.len();
        if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| !std::ptr::eq(&**a, *b)) {
            return Err(format!("{what} found {} nodes, expected {}, or others", got.len(), want.len()));
        }
        Ok(())
    };
    let k = vocab.len();
    for m in 0..1usize << k {
        let set: Vec<S> = (0..k).filter(|i| m >> i & 1 == 1).map(|i| vocab[i].clone()).collect();
        for short in [false, true] {
            let p = In(set.clone(), short);
            let hit = |x: &S| set.contains(x);
            check(format!("tag({p:?})"), s.tag(p.clone()).all().collect(), &|n| def(n, Some(&hit), None), false)?;
            check(format!("strict tag({p:?})"), s.tag(p.clone()).strict().all().collect(), &|n| def(n, Some(&hit), None), true)?;
            check(format!("attr_name({p:?})"), s.attr_name(p.clone()).all().collect(), &|n| def(n, None, Some(&|a, _| hit(a))), false)?;
            check(format!("attr_value({p:?})"), s.attr_value(p.clone()).all().collect(), &|n| def(n, None, Some(&|_, b| hit(b))), false)?;
            for v in 0..1usize << k {
                let vs: Vec<S> = (0..k).filter(|i| v >> i & 1 == 1).map(|i| vocab[i].clone()).collect();
                let q = In(vs.clone(), short);
                let f = |a: &S, b: &S| hit(a) && vs.contains(b);
                check(format!("attr({p:?}, {q:?})"), s.attr(p.clone(), q.clone()).all().collect(), &|n| def(n, None, Some(&f)), false)?;
                check(
                    format!("tag({q:?}).attr({p:?}, true)"),
                    s.tag(q.clone()).attr(p.clone(), true).all().collect(),
                    &|n| def(n, Some(&|x| vs.contains(x)), Some(&|a, _| hit(a))),
                    false,
                )?;
            }
        }
    }
    for b in [true, false] {
        check(format!("tag({b})"), s.tag(b).all().collect(), &|n| b && n.name.is_some(), false)?;
        check(format!("attr({b}, true)"), s.attr(b, true).all().collect(), &|n| b && n.attrs.as_ref().is_some_and(|a| !a.is_empty()), false)?;
        check(format!("attr(true, {b})"), s.attr(true, b).all().collect(), &|n| b && n.attrs.as_ref().is_some_and(|a| !a.is_empty()), false)?;
    }
    check("iter()".into(), s.iter().collect(), &|_| true, false)?;
    for (i, item) in s.iter().enumerate() {
        let n = all[i];
        let p = |a: Option<&S>, b: &Option<S>| a.map(std::ptr::from_ref) == b.as_ref().map(std::ptr::from_ref);
        if !p(item.name(), &n.name) || !p(item.text(), &n.text) || item.attrs().map(std::ptr::from_ref) != n.attrs.as_ref().map(std::ptr::from_ref) {
            return Err(format!("node {i}: another name, text or attributes"));
        }
        let mut below = vec![];
        walk(n, &mut below);
        if item.descendants().map(std::ptr::from_ref).ne(below.iter().map(|n| std::ptr::from_ref(*n))) {
            return Err(format!("node {i}: other descendants"));
        }
    }
    // the filters themselves
    for n in all.iter().copied() {
        let x = Or(Tag { tag: In(vocab[..1].to_vec(), true) }, Attr { name: In(vocab[..1].to_vec(), true), value: true });
        let want = def(n, Some(&|t| *t == vocab[0]), None) || def(n, None, Some(&|a, _| *a == vocab[0]));
        if x.matches(n) != want || And(x, Not(())).matches(n) {
            return Err(format!("the filters on {n:?} themselves"));
        }
    }
    Ok(some)
}

struct Not<F>(F);
impl<N, F: Filter<N>> Filter<N> for Not<F> {
    fn matches(&self, n: &N) -> bool {
        !self.0.matches(n)
    }
}

/// Every combination of what a node may report: bits of name, text, attributes (none, empty, one, two).
fn odd<S: Clone + Ord>(k: usize, vocab: &[S]) -> Any2<S> {
    let pick = |b: usize| (k >> b & 1 == 1).then(|| vocab[k / 16 % vocab.len()].clone());
    Any2 {
        name: pick(0),
        text: pick(1),
        attrs: match k >> 2 & 3 {
            0 => None,
            1 => Some(BTreeMap::new()),
            2 => Some([(vocab[0].clone(), vocab[1].clone())].into()),
            _ => Some([(vocab[1].clone(), vocab[0].clone()), (vocab[2].clone(), vocab[1].clone())].into()),
        },
        kids: vec![],
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Word {
    Third,
    Second,
    First,
}

/// The text of nodes that report anything at all is that of each that has one, whatever else it has.
fn display_texts(k: usize, shape: &[usize], labs: &[usize]) -> Result<Seen, String> {
    fn f<S: Clone + Ord + fmt::Display>(shape: &[usize], labs: &[usize], vocab: &[S]) -> Result<(), String> {
        let s = soup_of(free_forest(shape, &mut 0, 0, &|i| odd(labs[i], vocab)));
        for (i, item) in s.iter().enumerate() {
            let mut below = vec![];
            walk(&*item, &mut below);
            let want: Vec<String> = below.iter().filter_map(|n| n.text.as_ref()).map(|t| format!("{t}")).collect();
            if item.all_text() != want.join("\n") {
                return Err(format!("node {i}: all_text() is {:?}, expected {want:?} joined", item.all_text()));
            }
        }
        Ok(())
    }
    match k {
        0 => f(shape, labs, &[1u32, 0, 7])?,
        1 => f(shape, labs, &["a".to_string(), String::new(), " b\n".into()])?,
        2 => f(shape, labs, &['a', '\n', ' '])?,
        3 => f::<Rc<str>>(shape, labs, &["\n".into(), "".into(), "é".into()])?,
        _ => f::<&str>(shape, labs, &["", "a b", "\t"])?,
    }
    seen(shape.iter().zip(labs).filter(|(_, l)| **l & 2 == 2).count() > 1, &format!("{k} {shape:?}"))
}

/// A text that has no order and cannot be made from anything: only tags can be asked for.
#[derive(Clone, Debug, PartialEq)]
struct Float(f64);

fn odd_texts(k: usize, shape: &[usize], labs: &[usize]) -> Result<Seen, String> {
    fn f<S: Clone + Ord + fmt::Debug>(shape: &[usize], labs: &[usize], vocab: &[S]) -> Result<bool, String> {
        no_strings(free_forest(shape, &mut 0, 0, &|i| odd(labs[i], vocab)), vocab)
    }
    let some = match k {
        0 => f(shape, labs, &[1u32, 0, 7])?,
        1 => f(shape, labs, &[Word::First, Word::Second, Word::Third])?,
        2 => f(shape, labs, &["a".to_string(), String::new(), "A".into()])?,
        3 => f(shape, labs, &[Some('a'), None, Some('b')])?,
        4 => f(shape, labs, &[vec![1u8, 255], vec![], vec![1]])?,
        5 => f(shape, labs, &[(0i8, "x"), (0, "y"), (-1, "x")])?,
        6 => f(shape, labs, &[Rc::new(RefCell::new(3)), Rc::new(RefCell::new(1)), Rc::new(RefCell::new(2))])?,
        7 => f(shape, labs, &[(), (), ()]).map(|_| true)?,
        _ => {
            let vocab = [Float(0.5), Float(-1.0), Float(f64::INFINITY)];
            let nodes = free_forest(shape, &mut 0, 0, &|i| Any2 {
                name: (labs[i] & 1 == 1).then(|| vocab[labs[i] / 16 % 3].clone()),
                text: (labs[i] & 2 == 2).then(|| vocab[labs[i] / 16 % 3].clone()),
                attrs: None,
                kids: vec![],
            });
            let s = soup_of(nodes);
            for v in &vocab {
                let got = s.tag(In(vec![v.clone()], false)).all().count();
                let want = labs[..shape.len()].iter().filter(|l| **l & 1 == 1 && vocab[**l / 16 % 3] == *v).count();
                if got != want {
                    return Err(format!("tag({v:?}) found {got} nodes, expected {want}"));
                }
            }
            true
        }
    };
    seen(some, &format!("{k}"))
}

// ---------------------------------------------------------------- own queryables and filters

/// A user's document that can be queried like a soup.
struct Doc<N> {
    soup: Soup<N>,
    asked: Cell<u32>,
}
struct Asked<'x, N>(&'x Doc<N>);
impl<N> Clone for Asked<'_, N> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<N> Copy for Asked<'_, N> {}
impl<'x, N: Node> Queryable<'x> for Asked<'x, N> {
    type Node = N;
    type Filter = ();
    fn recursive(self) -> Query<'x, N, ()> {
        (&self.0.soup).recursive()
    }
    fn strict(self) -> Query<'x, N, ()> {
        (&self.0.soup).strict()
    }
    fn tag<P>(self, tag: P) -> Query<'x, N, And<(), Tag<P>>>
    where
        P: Pattern<N::Text>,
        Tag<P>: Filter<N>,
    {
        self.0.asked.set(self.0.asked.get() + 1);
        (&self.0.soup).tag(tag)
    }
    fn attr<Q, V>(self, name: Q, value: V) -> Query<'x, N, And<(), Attr<Q, V>>>
    where
        Q: Pattern<N::Text>,
        V: Pattern<N::Text>,
        Attr<Q, V>: Filter<N>,
    {
        self.0.asked.set(self.0.asked.get() + 1);
        (&self.0.soup).attr(name, value)
    }
}
impl<'x, N: Node> IntoIterator for Asked<'x, N> {
    type Item = QueryItem<'x, N>;
    type IntoIter = QueryIter<'x, N, ()>;
    fn into_iter(self) -> QueryIter<'x, N, ()> {
        self.0.soup.iter()
    }
}

fn own_queryable(ts: &[T], conds: &[Op]) -> Result<Seen, String> {
    let d = Doc { soup: soup::<Uni<String>>(ts), asked: Cell::new(0) };
    let q = Asked(&d);
    let pre = preorder(ts);
    let mut some = false;
    let ids = |v: Vec<QueryItem<Uni<String>>>| v.iter().map(|i| i.id).collect::<Vec<_>>();
    for c in conds {
        let want = expect(&pre, std::slice::from_ref(c));
        let top = expect(&pre, &[c.clone(), Op::Strict]);
        d.asked.set(0);
        let w = |p: &P| Any(p.clone());
        let (all, first, strict) = match c {
            Op::Tag(p) => (q.tag(w(p)).all().collect(), q.tag(w(p)).first(), q.tag(w(p)).strict().all().collect()),
            Op::Attr(n, v) => (q.attr(w(n), w(v)).all().collect(), q.attr(w(n), w(v)).first(), q.attr(w(n), w(v)).strict().all().collect()),
            Op::Name(p) => (q.attr_name(w(p)).all().collect(), q.attr_name(w(p)).first(), q.attr_name(w(p)).strict().all().collect()),
            Op::Value(p) => (q.attr_value(w(p)).all().collect(), q.attr_value(w(p)).first(), q.attr_value(w(p)).strict().all().collect()),
            Op::Class(p) => (q.class(w(p)).all().collect(), q.class(w(p)).first(), q.class(w(p)).strict().all().collect()),
            _ => continue,
        };
        let all: Vec<QueryItem<Uni<String>>> = all;
        if ids(all) != want || first.map(|i| i.id) != want.first().copied() || ids(strict) != top {
            return Err(format!("{c} on a user's Queryable differs from the definition"));
        }
        if d.asked.get() != 3 {
            return Err(format!("{c} did not go through the user's own tag() and attr() but {} times", d.asked.get()));
        }
        some |= !want.is_empty();
    }
    if ids(q.all().collect()) != (0..pre.len()).collect::<Vec<_>>() || q.first().map(|i| i.id) != (!pre.is_empty()).then_some(0) {
        return Err("all() and first() of a user's Queryable".into());
    }
    seen(some, &format!("{}", ts.len()))
}

/// A pattern that answers by a table over the values `a`, `b`, `c`, and counts.
struct Table<'c>(u8, &'c Cell<u32>);
impl<S: AsRef<str>> Pattern<S> for Table<'_> {
    fn matches(&self, h: &S) -> bool {
        self.1.set(self.1.get() + 1);
        match h.as_ref() {
            "a" => self.0 & 1 == 1,
            "b" => self.0 & 2 == 2,
            "c" => self.0 & 4 == 4,
            _ => self.0 & 8 == 8,
        }
    }
}
fn tab(t: u8, s: &str) -> bool {
    match s {
        "a" => t & 1 == 1,
        "b" => t & 2 == 2,
        "c" => t & 4 == 4,
        _ => t & 8 == 8,
    }
}

fn tables<N: Build>(ts: &[T]) -> Result<Seen, String>
where
    N::Text: Ord + AsRef<str> + From<&'static str>,
{
    let s = soup::<N>(ts);
    let pre = preorder(ts);
    let c = Cell::new(0);
    let at = |v: Vec<QueryItem<N>>| -> Vec<*const N> { v.iter().map(|i| std::ptr::from_ref(&**i)).collect() };
    let all = at(s.iter().collect());
    let want = |f: &dyn Fn(&T) -> bool| -> Vec<*const N> { (0..pre.len()).filter(|i| f(pre[*i].0)).map(|i| all[i]).collect() };
    let attr = |t: &T, f: &dyn Fn(&str, &str) -> bool| t.attrs().is_some_and(|a| a.iter().any(|(k, v)| f(k, v)));
    let mut h = 0u64;
    for n in 0..16u8 {
        let got = at(s.tag(Table(n, &c)).all().collect());
        if got != want(&|t| t.name().is_some_and(|x| tab(n, x))) {
            return Err(format!("tag of table {n:04b}"));
        }
        h = fnv(h, &[got.len() as u8]);
        if at(s.attr_name(Table(n, &c)).all().collect()) != want(&|t| attr(t, &|k, _| tab(n, k))) {
            return Err(format!("attr_name of table {n:04b}"));
        }
        if at(s.class(Table(n, &c)).all().collect()) != want(&|t| attr(t, &|k, v| k == "class" && tab(n, v))) {
            return Err(format!("class of table {n:04b}"));
        }
        for v in 0..16u8 {
            let got = at(s.attr(Table(n, &c), Table(v, &c)).all().collect());
            if got != want(&|t| attr(t, &|k, w| tab(n, k) && tab(v, w))) {
                return Err(format!("attr of tables {n:04b}, {v:04b}"));
            }
            h = fnv(h, &[got.len() as u8]);
            let got = at(s.tag(Table(n, &c)).attr_value(Table(v, &c)).all().collect());
            if got != want(&|t| t.name().is_some_and(|x| tab(n, x)) && attr(t, &|_, w| tab(v, w))) {
                return Err(format!("tag and attr_value of tables {n:04b}, {v:04b}"));
            }
        }
    }
    seen(c.get() > 0, &format!("{h:x}"))
}

/// A user's filter by any predicate on the user's own node: truth tables over positions.
struct Positions(u32);
impl Filter<Uni<String>> for Positions {
    fn matches(&self, n: &Uni<String>) -> bool {
        self.0 >> n.id & 1 == 1
    }
}
/// A user's filter for every node type.
struct HasKids;
impl<N: Node> Filter<N> for HasKids {
    fn matches(&self, n: &N) -> bool {
        !n.children().is_empty()
    }
}

fn filters(shape: &[usize]) -> Result<Seen, String> {
    let ts = forest(shape, &mut |i| elem(if i % 2 == 0 { "a" } else { "b" }, &[]));
    let s = soup::<Uni<String>>(&ts);
    let n = shape.len();
    for m in 0..1u32 << n {
        for i in &s {
            let hit = m >> i.id & 1 == 1;
            let kids = !i.children().is_empty();
            let a = i.id % 2 == 0;
            let tag = || Tag { tag: "a" };
            for (k, (got, want)) in [
                (Positions(m).matches(&i), hit),
                (And(Positions(m), tag()).matches(&i), hit && a),
                (And(tag(), Positions(m)).matches(&i), hit && a),
                (Or(Positions(m), tag()).matches(&i), hit || a),
                (Or(HasKids, Positions(m)).matches(&i), kids || hit),
                (And(HasKids, Or(tag(), Positions(m))).matches(&i), kids && (a || hit)),
                (Not(And(Positions(m), ())).matches(&i), !hit),
                (And(Not(Positions(m)), Not(HasKids)).matches(&i), !hit && !kids),
            ]
            .into_iter()
            .enumerate()
            {
                if got != want {
                    return Err(format!("formula {k} with the set {m:b} on node {} is {got}", i.id));
                }
            }
        }
        // as the condition of an iterator's own filter
        let got: Vec<usize> = s.tag("a").all().filter(|i| Positions(m).matches(i)).map(|i| i.id).collect();
        let want: Vec<usize> = (0..n).filter(|i| i % 2 == 0 && m >> i & 1 == 1).collect();
        if got != want {
            return Err(format!("filter() with the set {m:b} gives {got:?}"));
        }
    }
    seen(n > 1, &format!("{shape:?}"))
}

fn run_all(ctx: &Ctx) {
    let fam = ctx.family(
        "parser-results",
        "every forest of up to 7 (thorough: 9) nodes that cannot be cloned, and wide ones of every number of nodes up to 130 (600) and around round numbers up to 1100000 (2200000), with and without spare capacity, and 40 different errors: parse() is called once with the very input, the soup holds the very nodes in order until it is dropped, the very error comes back",
    );
    if fam.active() {
        for n in 0..=ctx.bound(7, 9) {
            let shapes = gen::forests(n);
            ctx.par(shapes.len(), |j| {
                for spare in [0, 1, 100] {
                    fam.case(&format!("{:?} spare {spare}", shapes[j]), || scripted(&shapes[j], None, spare));
                }
            });
        }
        // many nodes
        let sizes = gen::sizes(ctx.bound(130, 600), ctx.bound(1_100_000, 2_200_000));
        ctx.par(sizes.len(), |j| {
            let n = sizes[sizes.len() - 1 - j];
            fam.case(&format!("{n} nodes"), || scripted(&vec![0; n], None, 0));
            fam.case(&format!("{n} nodes with a child each"), || scripted(&[0, 1].repeat(n), None, 0));
            if n <= 70_000 {
                fam.case(&format!("a node with {n} children"), || scripted(&std::iter::once(0).chain(std::iter::repeat_n(1, n)).collect::<Vec<_>>(), None, 0));
            }
        });
        for code in 0..40u32 {
            fam.case(&format!("error {code}"), || scripted(&[], Some(code.wrapping_mul(0x0100_0193)), 0));
        }
    }

    let fam = ctx.family(
        "input-types",
        "every text of up to 4 (thorough: 5) letters out of 6 as 19 types of input and of error: it arrives and comes back as it is (the same buffer, the same address), once",
    );
    if fam.active() {
        let letters = ["a", "<", "\0", "é", "\u{1f600}", "\n"];
        for n in 0..=ctx.bound(4usize, 5) {
            ctx.par(gen::pow(6, n), |i| {
                let s: String = gen::word(6, n, i).iter().map(|l| letters[*l]).collect();
                fam.case(&format!("{s:?}"), || echoes(&s));
            });
        }
    }

    let fam = ctx.family(
        "delegating-parsers",
        "user parsers made of the crate's three parsers, on every sequence of up to 3 (thorough: 4) of 12 documents, whole and broken: the same nodes and errors as from the parsers themselves",
    );
    if fam.active() {
        let docs = ["<a/>", "<a>x</a>", "<a><b/></a>", "<p>x</p>", "x", "<!--c-->", "<br>", "<a>", "</a>", "<a b='1'>&amp;</a>", "", "<"];
        for n in 0..=ctx.bound(3usize, 4) {
            ctx.par(gen::pow(docs.len(), n), |i| {
                let p: Vec<&str> = gen::word(docs.len(), n, i).iter().map(|l| docs[*l]).collect();
                fam.case(&format!("{p:?}"), || delegating(&p));
            });
        }
    }

    let fam = ctx.family(
        "node-types",
        "every forest of up to 3 (thorough: 4) nodes over 8 labels as 12 user-defined node types (8 text types, borrowed, copied, shared, computed on demand, wrapping built-in nodes, children kept elsewhere): every condition, traversal and text as on the content they report",
    );
    if fam.active() {
        let (labs, inner) = labels();
        let conds = conditions();
        for n in 0..=ctx.bound(3usize, 4) {
            let shapes = gen::forests(n);
            ctx.par(shapes.len() * NODE_TYPES, |j| {
                let k = j % NODE_TYPES;
                labelled(&shapes[j / NODE_TYPES], &labs, inner, &mut |_, ts| {
                    fam.case(&format!("type {k}: {}", desc(&ts)), || node_type(k, &ts, &conds));
                    // the model's outcome of a condition on a forest is one state, its replay on a type one trace
                    if k == 0 {
                        ctx.states.fetch_add(1, Relaxed);
                        ctx.transitions.fetch_add(2 * conds.len() as u64, Relaxed);
                    }
                    ctx.traces.fetch_add(6 * conds.len() as u64, Relaxed);
                });
            });
        }
    }

    let fam = ctx.family(
        "shared-children",
        "nodes whose children are one and the same slice in memory, in every forest of up to 6 (thorough: 8) nodes: every occurrence is found in its place",
    );
    if fam.active() {
        let conds: Vec<Op> = vec![Op::Tag(P::Str("a")), Op::Tag(P::True), Op::Name(P::Str("x")), Op::Tag(P::Str("b"))];
        for n in 1..=ctx.bound(6, 8) {
            let shapes = gen::forests(n);
            ctx.par(shapes.len(), |j| fam.case(&format!("{:?}", shapes[j]), || shared(&shapes[j], &conds)));
        }
    }

    let fam = ctx.family(
        "empty-nodes",
        "soups of up to 3000 (thorough: 20000) nodes of a type without any data: each is counted once, and none matches any condition",
    );
    if fam.active() {
        let max = ctx.bound(3000, 20000);
        ctx.par(max + 1, |n| {
            fam.case(&format!("{n}"), || {
                let s = soup_of(vec![Nil::<0>; n]);
                let (a, b) = (s.iter().count(), s.strict().all().count());
                if a != n || b != n || s.recursive().all().last().is_some() != (n > 0) {
                    return Err(format!("{a} nodes by default, {b} strictly"));
                }
                if s.tag(true).first().is_some() || s.attr(true, true).first().is_some() || s.tag("a").first().is_some() {
                    return Err("a node without a name or attributes matches".into());
                }
                if let Some(i) = s.iter().next() {
                    if i.descendants().count() != 1 || !i.all_text().is_empty() || i.query().iter().next().is_some() || i.get("a").is_some() {
                        return Err("the node's own traversals".into());
                    }
                }
                seen(n > 1, "n")
            });
        });
    }

    let fam = ctx.family(
        "odd-nodes",
        "nodes that report any combination of name, text, attributes (none, empty, one, two) and children, with 9 text types most of which are no strings: every forest of up to 2 nodes with every combination, 3 (thorough: 4) with some, and every set of values as a user-defined pattern, with and without shortcut, in every position",
    );
    if fam.active() {
        for n in 0..=ctx.bound(3usize, 4) {
            let shapes = gen::forests(n);
            // all 48 combinations on up to two nodes, on more a few telling ones
            let labs: Vec<usize> = if n <= 2 { (0..48).collect() } else { vec![0, 9, 13, 19, 25, 31, 38, 44] };
            ctx.par(shapes.len() * 9, |j| {
                let (shape, k) = (&shapes[j / 9], j % 9);
                for i in 0..gen::pow(labs.len(), n) {
                    let w: Vec<usize> = gen::word(labs.len(), n, i).iter().map(|l| labs[*l]).collect();
                    fam.case(&format!("type {k}: {shape:?} {w:?}"), || odd_texts(k, shape, &w));
                    if k < 5 {
                        fam.case(&format!("texts of type {k}: {shape:?} {w:?}"), || display_texts(k, shape, &w));
                    }
                }
            });
        }
    }

    let fam = ctx.family(
        "own-queryable",
        "a user's own Queryable around a soup: every condition on every forest of up to 3 (thorough: 4) nodes over 8 labels goes through its tag() and attr() and finds the same",
    );
    if fam.active() {
        let (labs, inner) = labels();
        let conds = conditions();
        for n in 0..=ctx.bound(3usize, 4) {
            let shapes = gen::forests(n);
            ctx.par(shapes.len(), |j| {
                labelled(&shapes[j], &labs, inner, &mut |_, ts| {
                    fam.case(&desc(&ts), || own_queryable(&ts, &conds));
                    ctx.traces.fetch_add(3 * conds.len() as u64, Relaxed);
                });
            });
        }
    }

    let fam = ctx.family(
        "pattern-tables",
        "user-defined patterns that answer by any truth table over four values, alone and all pairs of tables, on every forest of up to 3 (thorough: 4) nodes over 7 labels of built-in and user-defined nodes",
    );
    if fam.active() {
        let labs = [
            elem("a", &[("a", "b")]),
            elem("b", &[("b", "c"), ("c", "a")]),
            elem("c", &[("class", "a"), ("a", "d")]),
            elem("d", &[]),
            T::Text("a".into()),
            T::Void { name: "a".into(), attrs: attrs(&[("class", "b"), ("d", "d")]) },
            T::Comment("c".into()),
        ];
        for n in 0..=ctx.bound(3usize, 4) {
            let shapes = gen::forests(n);
            ctx.par(shapes.len(), |j| {
                labelled(&shapes[j], &labs, 4, &mut |_, ts| {
                    fam.case(&format!("user node: {}", desc(&ts)), || tables::<Uni<String>>(&ts));
                    fam.case(&format!("user text: {}", desc(&ts)), || tables::<Uni<Own>>(&ts));
                    fam.case(&format!("HTML: {}", desc(&ts)), || tables::<HTMLNode<Cow<'static, str>>>(&ts));
                    fam.case(&format!("XML: {}", desc(&ts)), || tables::<XMLNode>(&ts));
                });
            });
        }
    }

    let fam = ctx.family(
        "own-filters",
        "user-defined filters that hold on any set of nodes, in eight formulas with the crate's own filters, on every forest of up to 7 (thorough: 8) nodes",
    );
    if fam.active() {
        for n in 0..=ctx.bound(7, 8) {
            let shapes = gen::forests(n);
            ctx.par(shapes.len(), |j| fam.case(&format!("{:?}", shapes[j]), || filters(&shapes[j])));
        }
    }
}

fn main() {
    mc::runner::main("C22", "model_checking", run_all)
}
