//! C20: parses and queries do not influence each other, in any interleaving or history.

use std::{
    borrow::Cow,
    cell::{Cell, RefCell},
    collections::BTreeMap,
    fmt,
    io::{self, Read},
    process::Command,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst},
        Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

use mc::{
    engine::{clip, seen, Ctx, Seen},
    gen,
    qmodel::{attrs, elem, forest, intern, soup, soup_of, Given, Tendril, Uni},
    tree::{ToT, T},
};
use soupy::{
    parser::{HTMLNode, Parser, XMLNode},
    query::{QueryItem, QueryIter},
    Node, Pattern, Queryable, Soup,
};

// ---------------------------------------------------------------- operations

/// A parse or query, named by an index into `ops()`.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Strict(&'static str),
    Lenient(&'static str),
    Xml(&'static [u8]),
    /// queries on a soup that lives as long as the process
    Query(u8),
}

impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Op::Strict(d) => write!(f, "html_strict({d:?})"),
            Op::Lenient(d) => write!(f, "html({d:?})"),
            Op::Xml(d) => write!(f, "xml({:?})", String::from_utf8_lossy(d)),
            Op::Query(k) => write!(f, "query {k}"),
        }
    }
}

/// A result that lives on.
enum Live {
    Strict(Soup<HTMLNode<Cow<'static, str>>>),
    Lenient(Soup<HTMLNode<Tendril>>),
    Xml(Soup<XMLNode>),
    Text(String),
}

fn tree<N: Node + ToT>(s: &Soup<N>) -> String
where
    N::Text: AsRef<str> + Ord + From<&'static str>,
{
    use fmt::Write;
    let mut o = String::new();
    for t in s.strict().all() {
        let _ = write!(o, "{:?};", t.to_t());
    }
    let _ = write!(o, " {} nodes, a {}, b {}", s.iter().count(), s.tag("a").all().count(), s.attr_name("b").all().count());
    o
}

impl Live {
    fn digest(&self) -> String {
        match self {
            Live::Strict(s) => tree(s),
            Live::Lenient(s) => tree(s),
            Live::Xml(s) => tree(s),
            Live::Text(s) => s.clone(),
        }
    }
}

impl Live {
    /// A cheap check of the result.
    fn brief(&self) -> usize {
        match self {
            Live::Strict(s) => s.iter().count(),
            Live::Lenient(s) => s.iter().count(),
            Live::Xml(s) => s.iter().count(),
            Live::Text(s) => usize::MAX - s.len(),
        }
    }
}

struct Shared(Soup<Uni<String>>);
// user nodes without interior mutability
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
fn shared() -> &'static Soup<Uni<String>> {
    static S: OnceLock<Shared> = OnceLock::new();
    &S.get_or_init(|| {
        let shape = [0, 1, 2, 1, 0, 1, 1, 2, 3];
        Shared(soup(&forest(&shape, &mut |i| {
            if i % 3 == 2 { elem("b", &[("b", "c"), ("x", "1")]) } else { elem("a", if i % 2 == 0 { &[("class", "c")] } else { &[] }) }
        })))
    })
    .0
}

fn ids<'x>(i: impl Iterator<Item = QueryItem<'x, Uni<String>>>) -> Live {
    Live::Text(format!("{:?}", i.map(|n| n.id).collect::<Vec<_>>()))
}

impl Op {
    fn run(self) -> Live {
        let s = shared();
        match self {
            Op::Strict(d) => Soup::html_strict(d).map_or_else(|e| Live::Text(format!("{e:?}")), Live::Strict),
            Op::Lenient(d) => Live::Lenient(Soup::html(d)),
            Op::Xml(d) => Soup::xml(d).map_or_else(|e| Live::Text(format!("{e:?}")), Live::Xml),
            Op::Query(0) => ids(s.tag("a").all()),
            Op::Query(1) => ids(s.attr("b", "c").all()),
            Op::Query(2) => ids(s.class("c").strict().all()),
            Op::Query(3) => ids(s.tag("b").first().into_iter()),
            Op::Query(4) => {
                let q = s.tag("a").first().map(|i| i.query());
                Live::Text(q.map_or("-".into(), |q| tree(&q)))
            }
            Op::Query(_) => Live::Text(s.iter().map(|i| i.descendants().count().to_string()).collect()),
        }
    }
}

const HTML: [&str; 20] = [
    "<a>x</a>",
    "<b>y</b>",
    "<a b=c>x</a>",
    "<a b='d'>x</a>",
    "&amp;&lt;",
    "&#65;&copy;",
    "<p>&notit;</p>",
    "<script>a<b</script>",
    "<style>x</STYLE >",
    "<br><hr/>",
    "<!DOCTYPE html><p>z</p>",
    "<!--c--><i></i>",
    "<a",
    "<a></b>",
    "",
    "<table><td>q",
    "<svg><br/></svg>",
    "<a b=1 b=2 c=3></a>",
    " x ",
    "<a><a><a><b><b>x</b></b></a></a></a>",
];
const XML: [&[u8]; 18] = [
    b"<a>x</a>",
    b"<b>y</b>",
    b"<p:a xmlns:p='u'><p:b/></p:a>",
    b"<p:a xmlns:p='v'/>",
    b"<p:a/>",
    b"<!DOCTYPE r [<!ENTITY e 'x'>]><r>&e;</r>",
    b"<r>&e;</r>",
    b"<a b='1'/>",
    b"<a b='2'/>",
    b"<a xmlns='u'/>",
    b"<a",
    b"",
    b"<?xml version='1.0' encoding='utf-8'?><a/>",
    b"<!--c--><a/><?p q?>",
    b"<a><![CDATA[<]]></a>",
    b"<?xml version='1.0' encoding='iso-8859-1'?><a>\xe9</a>",
    b"<a>\xff</a>",
    b"\xef\xbb\xbf<a>&amp;</a>",
];

fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = HTML.iter().map(|d| Op::Strict(d)).collect();
    v.extend(HTML.iter().map(|d| Op::Lenient(d)));
    v.extend(XML.iter().map(|d| Op::Xml(d)));
    v.extend((0..6).map(Op::Query));
    v
}

/// What each operation returns in a process of its own, as the first thing it does.
fn alone() -> Result<Vec<String>, String> {
    let n = ops().len();
    let out: Vec<Mutex<Option<Result<String, String>>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= n {
                    break;
                }
                *out[i].lock().unwrap() = Some(fresh(&[i]).map(|mut v| v.pop().unwrap_or_default()));
            });
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}

/// Runs operations in a new process, the first on its main thread, each other one on a new thread.
fn fresh(i: &[usize]) -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let list: Vec<String> = i.iter().map(ToString::to_string).collect();
    let o = Command::new(exe).arg("--fresh").arg(list.join(",")).env_remove("MC_SLOTS").output().map_err(|e| e.to_string())?;
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    let v: Vec<String> = t.split('\u{1}').map(ToString::to_string).collect();
    // the machinery itself always prints as many results as it was asked for
    if !o.status.success() || v.len() != i.len() + 1 {
        return Err(format!("the process ended with {:?}: {}", o.status, clip(&String::from_utf8_lossy(&o.stderr), 300)));
    }
    Ok(v[..i.len()].to_vec())
}

fn fresh_main(list: &str) {
    let all = ops();
    for (n, i) in list.split(',').enumerate() {
        let op = all[i.parse::<usize>().unwrap()];
        let run = move || op.run().digest();
        let d = if n == 0 { run() } else { std::thread::spawn(run).join().unwrap() };
        print!("{d}\u{1}");
    }
}

/// Runs a history and compares each result right away and again at the end.
fn history(all: &[Op], want: &[String], h: &[usize]) -> Result<Seen, String> {
    let mut live = vec![];
    for (k, i) in h.iter().enumerate() {
        let l = all[*i].run();
        let d = l.digest();
        if d != want[*i] {
            return Err(format!("call {k}: {} returned {d}, expected {}", all[*i], want[*i]));
        }
        live.push(l);
    }
    for (k, (l, i)) in live.iter().zip(h).enumerate() {
        if l.digest() != want[*i] {
            return Err(format!("the result of call {k}, {}, has changed to {}", all[*i], l.digest()));
        }
    }
    seen(h.len() > 1, &want[*h.last().unwrap_or(&0)])
}

// ---------------------------------------------------------------- one buffer

/// Parses with the given parser whatever the buffer holds now.
fn in_buffer(kind: usize, text: &str) -> String {
    match kind {
        0 => Soup::html_strict(text).map_or_else(|e| format!("{e:?}"), |s| s.strict().all().map(|i| format!("{:?}", i.to_t())).collect()),
        1 => tree(&Soup::html(text)),
        _ => Soup::xml(text.as_bytes()).map_or_else(|e| format!("{e:?}"), |s| tree(&s)),
    }
}

// ---------------------------------------------------------------- iterators

#[derive(Clone, Copy, Debug)]
enum It {
    Iter,
    Tag,
    TagB,
    Strict,
    Attr,
    Below,
    Sub,
}
const ITS: [It; 7] = [It::Iter, It::Tag, It::TagB, It::Strict, It::Attr, It::Below, It::Sub];

type Boxed<'x> = Box<dyn Iterator<Item = usize> + 'x>;
fn iter<'x>(k: It, s: &'x Soup<Uni<String>>, sub: &'x Soup<Uni<String>>, first: Option<&'x Uni<String>>) -> Boxed<'x> {
    let id = |i: QueryItem<'x, Uni<String>>| i.id;
    match k {
        It::Iter => Box::new(s.iter().map(id)),
        It::Tag => Box::new(s.tag("a").all().map(id)),
        It::TagB => Box::new(s.tag("b").all().map(id)),
        It::Strict => Box::new(s.strict().all().map(id)),
        It::Attr => Box::new(s.attr("x", "1").all().map(id)),
        It::Below => match first {
            Some(f) => Box::new(f.descendants().map(|n| n.id)),
            None => Box::new(std::iter::empty()),
        },
        It::Sub => Box::new(sub.iter().map(id)),
    }
}

/// All merges of the `next()` calls of several iterators, each called until it ended and once more.
fn merges(ts: &[T], kinds: &[It], parse: bool) -> Result<Seen, String> {
    let s = soup::<Uni<String>>(ts);
    let first = s.strict().first().map(|i| unsafe { &*std::ptr::from_ref(&*i) });
    let sub = s.strict().first().map_or_else(|| soup(&[]), |i| i.query());
    // what each gives on its own, from the tree itself
    let pre = mc::qmodel::preorder(ts);
    let want: Vec<Vec<usize>> = kinds
        .iter()
        .map(|k| {
            let below = ts.first().map_or(0, |t| mc::qmodel::preorder(std::slice::from_ref(t)).len());
            (0..pre.len())
                .filter(|i| match k {
                    It::Iter => true,
                    It::Tag => pre[*i].0.name().is_some_and(|n| n == "a"),
                    It::TagB => pre[*i].0.name().is_some_and(|n| n == "b"),
                    It::Strict => pre[*i].1 == 0,
                    It::Attr => pre[*i].0.attrs().is_some_and(|a| a.get("x").is_some_and(|v| v == "1")),
                    It::Below => *i < below,
                    It::Sub => *i > 0 && *i < below,
                })
                .collect()
        })
        .collect();
    let calls: Vec<usize> = want.iter().map(|w| w.len() + 2).collect();
    let mut word = vec![];
    let mut n = 0u64;
    fn go(
        word: &mut Vec<usize>,
        left: &mut Vec<usize>,
        run: &mut dyn FnMut(&[usize]) -> Result<(), String>,
    ) -> Result<(), String> {
        if left.iter().all(|l| *l == 0) {
            return run(word);
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                word.push(i);
                go(word, left, run)?;
                word.pop();
                left[i] += 1;
            }
        }
        Ok(())
    }
    go(&mut word, &mut calls.clone(), &mut |w| {
        n += 1;
        let mut its: Vec<Boxed> = kinds.iter().map(|k| iter(*k, &s, &sub, first)).collect();
        let mut at = vec![0; kinds.len()];
        for (step, i) in w.iter().enumerate() {
            let got = its[*i].next();
            if got != want[*i].get(at[*i]).copied() {
                return Err(format!("in the order {w:?} call {step} of {:?} gave {got:?}", kinds[*i]));
            }
            at[*i] += 1;
            if parse && step % 2 == 0 {
                let x = in_buffer(step / 2 % 3, "<a>x<b/></a>");
                if x.len() < 3 {
                    return Err(format!("a parse in between gave {x}"));
                }
            }
        }
        Ok(())
    })?;
    seen(want.iter().filter(|w| !w.is_empty()).count() > 1, &n.to_string())
}

// ---------------------------------------------------------------- callbacks

thread_local! {
    /// the callbacks yet to come before `ACT`, and what is done then
    static WHEN: Cell<isize> = const { Cell::new(-1) };
    static SEEN: Cell<usize> = const { Cell::new(0) };
    static ACT: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}

/// Called from every method of user code.
fn callback() {
    SEEN.set(SEEN.get() + 1);
    point();
    let w = WHEN.get();
    if w >= 0 {
        WHEN.set(w - 1);
        if w == 0 {
            let a = ACT.with_borrow_mut(Option::take);
            if let Some(mut a) = a {
                a();
            }
        }
    }
}

#[derive(Clone)]
struct Pat(&'static str, bool);
impl<S: AsRef<str> + From<&'static str>> Pattern<S> for Pat {
    fn matches(&self, h: &S) -> bool {
        callback();
        h.as_ref() == self.0
    }
    fn value(&self) -> Option<S> {
        callback();
        self.1.then(|| S::from(self.0))
    }
}

/// Delivers a byte or a few at a time.
struct Slow<'a>(&'a [u8], usize);
impl Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        callback();
        let n = self.1.min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

struct Text(&'static str);
impl AsRef<str> for Text {
    fn as_ref(&self) -> &str {
        callback();
        self.0
    }
}

/// A text every use of which is user code.
#[derive(Debug)]
struct Word(Box<str>);
impl AsRef<str> for Word {
    fn as_ref(&self) -> &str {
        callback();
        &self.0
    }
}
impl From<&str> for Word {
    fn from(s: &str) -> Self {
        callback();
        Word(s.into())
    }
}
impl fmt::Display for Word {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        callback();
        f.write_str(&self.0)
    }
}
impl PartialEq for Word {
    fn eq(&self, o: &Self) -> bool {
        callback();
        self.0 == o.0
    }
}
impl Eq for Word {}
impl PartialOrd for Word {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Word {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        callback();
        self.0.cmp(&o.0)
    }
}
impl Clone for Word {
    fn clone(&self) -> Self {
        callback();
        Word(self.0.clone())
    }
}

#[derive(Clone)]
struct Busy {
    id: usize,
    name: Option<Word>,
    text: Option<Word>,
    attrs: Option<BTreeMap<Word, Word>>,
    kids: Vec<Busy>,
}
impl Node for Busy {
    type Text = Word;
    fn name(&self) -> Option<&Word> {
        callback();
        self.name.as_ref()
    }
    fn text(&self) -> Option<&Word> {
        callback();
        self.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<Word, Word>> {
        callback();
        self.attrs.as_ref()
    }
    fn children(&self) -> &[Self] {
        callback();
        &self.kids
    }
}
fn busy(t: &T, id: &mut usize) -> Busy {
    let w = |s: &String| Word(s.as_str().into());
    *id += 1;
    Busy {
        id: *id - 1,
        name: t.name().map(w),
        text: t.text().map(w),
        attrs: t.attrs().map(|m| m.iter().map(|(a, b)| (w(a), w(b))).collect()),
        kids: t.kids().iter().map(|k| busy(k, id)).collect(),
    }
}
fn busy_soup() -> Soup<Busy> {
    let mut id = 0;
    let ts = [
        T::El { name: "a".into(), attrs: attrs(&[("x", "1")]), kids: vec![T::Text("t".into()), elem("b", &[("class", "c"), ("x", "2")])] },
        T::Text("u".into()),
        elem("a", &[]),
    ];
    soup_of(ts.iter().map(|t| busy(t, &mut id)).collect())
}

/// Operations that call user code.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    Tag,
    Attr,
    AttrShort,
    Class,
    Xml,
    XmlTwo,
    XmlBad,
    AsRef,
    Nodes,
    NodesAttr,
    Text,
    Get,
    Query,
    Own,
    Strict,
    Steps,
}
const CALLS: [Call; 16] = [
    Call::Tag,
    Call::Attr,
    Call::AttrShort,
    Call::Class,
    Call::Xml,
    Call::XmlTwo,
    Call::XmlBad,
    Call::AsRef,
    Call::Nodes,
    Call::NodesAttr,
    Call::Text,
    Call::Get,
    Call::Query,
    Call::Own,
    Call::Strict,
    Call::Steps,
];

struct OwnParser;
impl Parser for OwnParser {
    type Input = Text;
    type Node = Uni<String>;
    type Error = ();
    fn parse(i: Text) -> Result<Vec<Uni<String>>, ()> {
        callback();
        let n = i.as_ref().len();
        let ts = forest(&vec![0; n], &mut |_| elem("a", &[]));
        callback();
        <Given<_> as Parser>::parse(ts.iter().enumerate().map(|(i, t)| <Uni<String> as mc::qmodel::Build>::build(t, &mut (i + 0))).collect())
    }
}

impl Call {
    fn run(self) -> String {
        let s = shared();
        let show = |v: Vec<usize>| format!("{v:?}");
        match self {
            Call::Tag => show(s.tag(Pat("b", false)).all().map(|i| i.id).collect()),
            Call::Attr => show(s.attr(Pat("x", false), Pat("1", false)).all().map(|i| i.id).collect()),
            Call::AttrShort => show(s.attr(Pat("b", true), Pat("c", true)).all().map(|i| i.id).collect()),
            Call::Class => show(s.class(Pat("c", false)).tag(Pat("a", true)).all().map(|i| i.id).collect()),
            Call::Xml => Soup::xml(Slow(b"<a b='1'>x</a>", 1)).map_or_else(|e| e.to_string(), |s| tree(&s)),
            Call::XmlTwo => Soup::xml(Slow(b"<p:a xmlns:p='u'>&lt;<p:b/></p:a>", 5)).map_or_else(|e| e.to_string(), |s| tree(&s)),
            Call::XmlBad => Soup::xml(Slow(b"<a><b></a>", 1)).map_or_else(|e| e.to_string(), |s| tree(&s)),
            Call::AsRef => tree(&Soup::html(Text("<a b=c>x<br></a>"))),
            Call::Nodes => show(busy_soup().tag("a").all().map(|i| i.id).collect()),
            Call::NodesAttr => show(busy_soup().attr("x", true).class("c").all().map(|i| i.id).collect()),
            Call::Text => busy_soup().iter().map(|i| i.all_text() + ";").collect(),
            Call::Get => busy_soup().iter().map(|i| i.get("x").map_or("-".into(), |w| w.0.to_string())).collect(),
            Call::Query => busy_soup().iter().map(|i| i.query().iter().map(|k| k.id.to_string()).collect::<String>() + ";").collect(),
            Call::Own => format!("{:?}", Soup::new::<OwnParser>(Text("four")).map(|s| s.tag(Pat("a", false)).all().count())),
            Call::Strict => {
                let mut o = String::new();
                for d in ["<a b='&lt;'>x</a>", "&notin;<br>", "<script>x</script>"] {
                    callback();
                    o += &Soup::html_strict(d).map_or_else(|e| format!("{e:?}"), |s| tree(&s));
                }
                callback();
                o
            }
            Call::Steps => {
                let mut v = vec![];
                let mut i: QueryIter<_, _> = s.tag("a").all();
                callback();
                while let Some(n) = i.next() {
                    v.push(n.id);
                    callback();
                }
                show(v)
            }
        }
    }
}

/// Number of callbacks an operation makes.
fn callbacks(c: Call) -> usize {
    SEEN.set(0);
    c.run();
    SEEN.get()
}

fn reentered(outer: Call, at: usize, inner: Inner, want: &str, inner_want: &str) -> Result<Seen, String> {
    use std::rc::Rc;
    let got = Rc::new(RefCell::new(None));
    let g = got.clone();
    ACT.set(Some(Box::new(move || *g.borrow_mut() = Some(inner.run()))));
    WHEN.set(at as isize);
    let r = outer.run();
    WHEN.set(-1);
    ACT.set(None);
    if r != want {
        return Err(format!("the outer call returned {r}, expected {want}"));
    }
    let got = got.take();
    match got.as_deref() {
        None => Err("the callback was not made".into()),
        Some(i) if i != inner_want => Err(format!("the inner call returned {i}, expected {inner_want}")),
        Some(_) => seen(true, want),
    }
}

/// Runs the call up to the given callback, where the user code panics; whether it got there.
fn gives_up(c: Call, at: usize) -> bool {
    ACT.set(Some(Box::new(|| std::panic::resume_unwind(Box::new(0u8)))));
    WHEN.set(at as isize);
    let r = std::panic::catch_unwind(|| c.run());
    WHEN.set(-1);
    ACT.set(None);
    r.is_err()
}

/// Runs the calls in turn, each from within the one before, `depth` of them, and an operation in the
/// last; whether all callbacks were made.
fn nest(calls: &[(Call, usize, String)], depth: usize, op: Op, op_want: &str) -> (Result<(), String>, bool) {
    use std::rc::Rc;
    if depth == 0 {
        let d = op.run().digest();
        return (if d == op_want { Ok(()) } else { Err(format!("{op} returned {d}, expected {op_want}")) }, true);
    }
    let (c, at, want) = &calls[0];
    let got = Rc::new(RefCell::new(None));
    let (g, w) = (got.clone(), op_want.to_string());
    let mut inner = calls.to_vec();
    inner.rotate_left(1);
    ACT.set(Some(Box::new(move || {
        let r = nest(&inner, depth - 1, op, &w);
        // what is left of the call goes on without
        WHEN.set(-1);
        *g.borrow_mut() = Some(r);
    })));
    WHEN.set(*at as isize);
    let r = c.run();
    WHEN.set(-1);
    ACT.set(None);
    if r != *want {
        return (Err(format!("{c:?} at level {depth} returned {r}, expected {want}")), true);
    }
    got.take().unwrap_or((Ok(()), false))
}

#[derive(Clone, Copy, Debug)]
enum Inner {
    Op(Op),
    Call(Call),
    /// a call in which at the given callback another one is made
    Nested(Call, usize, Call),
}
impl Inner {
    fn run(self) -> String {
        match self {
            Inner::Op(o) => o.run().digest(),
            Inner::Call(c) => c.run(),
            Inner::Nested(c, at, d) => {
                ACT.set(Some(Box::new(move || {
                    d.run();
                })));
                WHEN.set(at as isize);
                let r = c.run();
                WHEN.set(-1);
                ACT.set(None);
                r
            }
        }
    }
}

// ---------------------------------------------------------------- threads under a scheduler

/// Lets one thread run at a time; at every callback the schedule says who is next.
struct Sched {
    turn: AtomicUsize,
    moves: AtomicU64,
    done: Vec<AtomicBool>,
    plan: Mutex<Plan>,
}
#[derive(Default)]
struct Plan {
    prefix: Vec<usize>,
    taken: Vec<(usize, usize)>,
    forced: bool,
}
thread_local!(static ME: Cell<Option<(*const Sched, usize)>> = const { Cell::new(None) });

impl Sched {
    fn pick(&self, me: usize, done: bool) {
        let mut p = self.plan.lock().unwrap();
        if done {
            self.done[me].store(true, SeqCst);
        }
        let on: Vec<usize> = (0..self.done.len()).filter(|i| !self.done[*i].load(SeqCst)).collect();
        if on.is_empty() {
            return;
        }
        let k = p.prefix.get(p.taken.len()).copied().unwrap_or(0).min(on.len() - 1);
        p.taken.push((k, on.len()));
        self.moves.fetch_add(1, SeqCst);
        self.turn.store(on[k], SeqCst);
    }
    fn wait(&self, me: usize) {
        let mut last = (self.moves.load(SeqCst), Instant::now());
        let mut spins = 0u32;
        while self.turn.load(SeqCst) != me {
            spins += 1;
            std::hint::spin_loop();
            if spins % 4096 == 0 {
                std::thread::yield_now();
                let m = self.moves.load(SeqCst);
                if m != last.0 {
                    last = (m, Instant::now());
                } else if last.1.elapsed() > Duration::from_millis(200) {
                    // whoever has the turn waits for something one of us holds: go on
                    let mut p = self.plan.lock().unwrap();
                    if self.moves.load(SeqCst) == m {
                        p.forced = true;
                        self.moves.fetch_add(1, SeqCst);
                        self.turn.store(me, SeqCst);
                    }
                }
            }
        }
    }
}

fn point() {
    if let Some((s, me)) = ME.get() {
        let s = unsafe { &*s };
        // one that was passed over while it was blocked just waits
        if s.turn.load(SeqCst) == me {
            s.pick(me, false);
        }
        s.wait(me);
    }
}

/// All schedules of some calls on threads of their own.
fn schedules(calls: &[Call], want: &[String], max: usize) -> Result<Seen, String> {
    let mut prefix: Vec<usize> = vec![];
    let mut n = 0;
    loop {
        let s = Sched {
            turn: AtomicUsize::new(usize::MAX),
            moves: AtomicU64::new(0),
            done: calls.iter().map(|_| AtomicBool::new(false)).collect(),
            plan: Mutex::new(Plan { prefix: prefix.clone(), ..Plan::default() }),
        };
        let outs: Vec<_> = std::thread::scope(|sc| {
            let hs: Vec<_> = calls
                .iter()
                .enumerate()
                .map(|(i, c)| {
                    let s = &s;
                    sc.spawn(move || {
                        ME.set(Some((s, i)));
                        s.wait(i);
                        let r = std::panic::catch_unwind(|| c.run());
                        ME.set(None);
                        if s.turn.load(SeqCst) != i {
                            // was passed over while blocked
                            s.wait(i);
                        }
                        s.pick(i, true);
                        r
                    })
                })
                .collect();
            s.pick(0, false);
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let p = s.plan.into_inner().unwrap();
        let sched: Vec<usize> = p.taken.iter().map(|t| t.0).collect();
        for (i, o) in outs.into_iter().enumerate() {
            match o {
                Err(_) => return Err(format!("{:?} panicked in the schedule {sched:?}", calls[i])),
                Ok(r) if r != want[i] => {
                    return Err(format!("{:?} returned {r}, expected {}, in the schedule {sched:?}", calls[i], want[i]))
                }
                _ => {}
            }
        }
        n += 1;
        // the next schedule
        let mut t = p.taken;
        while t.last().is_some_and(|x| x.0 + 1 >= x.1) {
            t.pop();
        }
        let Some(l) = t.last_mut() else { break };
        l.0 += 1;
        prefix = t.into_iter().map(|x| x.0).collect();
        if n > max {
            return Err(format!("the machinery: more than {max} schedules"));
        }
    }
    COUNT.fetch_add(n as u64, Relaxed);
    seen(n > 1, &n.to_string())
}
static COUNT: AtomicU64 = AtomicU64::new(0);

// ---------------------------------------------------------------- preemption after any instruction

/// What the trap handler of a stepped thread needs.
struct Step {
    n: u64,
    /// preempt after the instructions whose number leaves `rest` when divided by `every`
    every: u64,
    rest: u64,
    inside: u64,
    req: AtomicU64,
    ack: AtomicU64,
    late: u64,
}
thread_local!(static STEP: Cell<*mut Step> = const { Cell::new(std::ptr::null_mut()) });

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let st = STEP.get();
    let regs = unsafe { &mut (*uc.cast::<libc::ucontext_t>()).uc_mcontext.gregs };
    if st.is_null() {
        regs[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    let st = unsafe { &mut *st };
    let rip = regs[libc::REG_RIP as usize] as usize;
    let code = (&raw const __executable_start) as usize..(&raw const etext) as usize;
    if !code.contains(&rip) {
        // in the allocator or the C library
        return;
    }
    st.n += 1;
    if st.n % st.every != st.rest {
        return;
    }
    // the other thread runs its whole operation now, unless it is still blocked in the last one
    let r = st.req.load(SeqCst);
    if st.ack.load(SeqCst) != r {
        return;
    }
    st.req.store(r + 1, SeqCst);
    st.inside += 1;
    let mut spins = 0u64;
    while st.ack.load(SeqCst) != r + 1 {
        std::hint::spin_loop();
        spins += 1;
        if spins > 300_000 {
            // blocked by something this thread holds
            st.late += 1;
            return;
        }
    }
}

fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = trap as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &raw const a, std::ptr::null_mut());
    });
}

#[inline(never)]
fn stepping(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

/// Runs `a` one instruction at a time on this thread; after each instruction (or each whose number leaves
/// `rest` when divided by `every`) another thread runs `b` from beginning to end. Returns the results, the number of instructions and
/// of runs of `b`.
fn stepped(a: Op, b: Op, (every, rest): (u64, u64), b_want: &str) -> (String, Result<(), String>, u64, u64) {
    install();
    let mut st = Step { n: 0, every, rest, inside: 0, req: AtomicU64::new(0), ack: AtomicU64::new(0), late: 0 };
    let (req, ack) = (&raw const st.req, &raw const st.ack);
    let stop = AtomicBool::new(false);
    let (req, ack) = unsafe { (&*req, &*ack) };
    let (out, bad) = std::thread::scope(|s| {
        let stop = &stop;
        let h = s.spawn(move || {
            let mut bad = Ok(());
            loop {
                let r = req.load(SeqCst);
                if r != ack.load(SeqCst) {
                    let d = std::panic::catch_unwind(|| b.run().digest());
                    match d {
                        Err(_) => bad = Err(format!("{b} panicked while {a} was at instruction {r}")),
                        Ok(d) if d != b_want => bad = Err(format!("{b} returned {d}, expected {b_want}, while {a} was at instruction {r}")),
                        _ => {}
                    }
                    ack.store(r, SeqCst);
                } else if stop.load(SeqCst) {
                    return bad;
                } else {
                    std::hint::spin_loop();
                }
            }
        });
        STEP.set(&raw mut st);
        stepping(true);
        let l = std::panic::catch_unwind(|| a.run());
        stepping(false);
        STEP.set(std::ptr::null_mut());
        stop.store(true, SeqCst);
        let bad = h.join().unwrap();
        (l.map_or_else(|_| "a panic".to_string(), |l| l.digest()), bad)
    });
    (out, bad, st.n, st.inside)
}

/// Whether this machine reports single steps at all.
fn can_step() -> bool {
    let (d, _, n, k) = stepped(Op::Query(0), Op::Query(3), (1, 0), &Op::Query(3).run().digest());
    d == Op::Query(0).run().digest() && n > 50 && k > 50
}

fn run_all(ctx: &Ctx) {
    let all = ops();
    let want = match alone() {
        Ok(w) => w,
        Err(e) => {
            let fam = ctx.family("alone", "every operation in a process of its own");
            fam.case("each operation in a new process", || Err(e.clone()));
            return;
        }
    };
    let n = all.len();

    let fam = ctx.family(
        "fresh-processes",
        "every pair of 64 parses and queries in a process that has done nothing before, the second on a new thread: each as in a process of its own (quick: the pairs of indices that add up to a multiple of 4, and each operation twice)",
    );
    if fam.active() {
        ctx.par(n * n, |j| {
            let (a, b) = (j / n, j % n);
            if !ctx.thorough() && (a + b) % 4 != 0 && a != b {
                return;
            }
            fam.case(&format!("{} then {}", all[a], all[b]), || {
                let r = fresh(&[a, b])?;
                if r[0] != want[a] || r[1] != want[b] {
                    return Err(format!("returned {r:?}, expected {:?}", [&want[a], &want[b]]));
                }
                seen(a != b, &want[b])
            });
        });
    }

    let fam = ctx.family(
        "histories",
        "every history of up to 3 of 64 parses and queries on a new thread, with all results kept: each as in a process of its own, at once and at the end",
    );
    if fam.active() {
        ctx.par(n * n, |j| {
            for k in if ctx.release() { n..=n } else { 0..=n } {
                let h: Vec<usize> = if k == n { vec![j / n, j % n] } else { vec![j / n, j % n, k] };
                fam.case(&h.iter().map(|i| all[*i].to_string()).collect::<Vec<_>>().join(", "), || {
                    std::thread::scope(|s| s.spawn(|| history(&all, &want, &h)).join()).unwrap_or_else(|_| Err("panicked".into()))
                });
                ctx.states.fetch_add(1, Relaxed);
                ctx.transitions.fetch_add(h.len() as u64, Relaxed);
                ctx.traces.fetch_add(1, Relaxed);
            }
        });
    }

    let fam = ctx.family(
        "long-histories",
        "one thread that does every operation after every pair of others (all 64^3 triples in one history), and every operation 110000 (thorough: 1100000) times in a row with another after each power of two (the number of nodes compared each time, all of them around powers of two and every 64th time)",
    );
    if fam.active() {
        ctx.par(n, |first| {
            fam.case(&format!("all pairs after {}", all[first]), || {
                for b in 0..n {
                    for c in 0..n {
                        for i in [first, b, c] {
                            let d = all[i].run().digest();
                            if d != want[i] {
                                return Err(format!("{} returned {d}, expected {}, in {first}, {b}, {c}", all[i], want[i]));
                            }
                        }
                    }
                }
                seen(true, &want[first])
            });
        });
        let times = ctx.bound(110_000usize, 1_100_000);
        ctx.par(n, |i| {
            fam.case(&format!("{} {times} times", all[i]), || {
                let brief = all[i].run().brief();
                for k in 2..=times {
                    let l = all[i].run();
                    if l.brief() != brief {
                        return Err(format!("the result {} of the {k}-th time", l.digest()));
                    }
                    if k % 64 == 0 || k < 300 || (k + 2 & k + 1) == 0 || (k & k - 1) == 0 || (k & k + 1) == 0 || k > times - 5 {
                        if l.digest() != want[i] {
                            return Err(format!("the result {} of the {k}-th time", l.digest()));
                        }
                    }
                    if k.is_power_of_two() {
                        let o = (i + k.trailing_zeros() as usize) % n;
                        if all[o].run().digest() != want[o] {
                            return Err(format!("{} after {k} times", all[o]));
                        }
                    }
                }
                seen(true, &want[i])
            });
        });
    }

    let fam = ctx.family(
        "one-buffer",
        "texts parsed at one and the same address: every history of up to 3 of 3 parsers and 14 texts of the same length, and every pair of parts (any start, any end) of six documents: as at an address of its own",
    );
    if fam.active() {
        let docs = [
            "<a>xy</a>", "<b>xy</b>", "<a>xz</a>", "<a b=cd/>", "<a b='d'>", "&amp;&lt;", "&#65;&#6;", "<!--cc-->", "<br>xxxxx", "<a>&l</a>", "<a/><b/>x",
            "<p:a/>xxx", "<a>\u{e9}</a>", "xxxxxxxxx",
        ];
        assert!(docs.iter().all(|d| d.len() == 9));
        let k = docs.len() * 3;
        let solo: Vec<String> = (0..k).map(|i| in_buffer(i % 3, intern(&format!("{}", docs[i / 3])))).collect();
        ctx.par(k * k, |j| {
            for c in 0..k {
                let h = [j / k, j % k, c];
                fam.case(&format!("{h:?}"), || {
                    let mut buf = String::from("         ");
                    let at = buf.as_ptr();
                    for (step, i) in h.iter().enumerate() {
                        buf.clear();
                        buf.push_str(docs[i / 3]);
                        let d = in_buffer(i % 3, &buf);
                        if d != solo[*i] || !std::ptr::eq(at, buf.as_ptr()) {
                            return Err(format!("step {step}: {:?} gave {d}, expected {}", docs[i / 3], solo[*i]));
                        }
                    }
                    seen(h[0] != h[1], &solo[c])
                });
            }
        });
        let docs = ["<a b='c'>x</a><br>", "<a>&amp;x</a>", "<!--a--><a/>", "<script>x</script>", "<a><a/></a> <b/>", "&lt;&#x41;&copy"];
        for d in docs {
            let parts: Vec<(usize, usize)> = (0..=d.len()).flat_map(|i| (i..=d.len()).map(move |j| (i, j))).collect();
            for kind in 0..3 {
                let solo: Vec<String> = parts.iter().map(|(i, j)| in_buffer(kind, &d[*i..*j].to_string())).collect();
                ctx.par(parts.len(), |p| {
                    fam.case(&format!("{d:?} parser {kind}: {:?} then every other part", parts[p]), || {
                        for q in 0..parts.len() {
                            for x in [p, q] {
                                let (i, j) = parts[x];
                                let r = in_buffer(kind, &d[i..j]);
                                if r != solo[x] {
                                    return Err(format!("{:?} after the part {:?} gave {r}, expected {}", &d[i..j], parts[p], solo[x]));
                                }
                            }
                        }
                        seen(true, &solo[p])
                    });
                });
            }
        }
    }

    let fam = ctx.family(
        "similar-documents",
        "documents of one parser after the other that differ in one letter only (at any place, in every length up to 130 (thorough: 600) and around round numbers up to 2500 (20000)), the order of two letters or their length: each has its own texts and values",
    );
    if fam.active() {
        let mut pairs = mc::lits::similar(ctx.bound(130, 600), ctx.bound(2500, 20_000));
        // XML has no NUL, and a text that is all white space is left out
        pairs.retain(|(a, b)| !a.contains('\0') && !b.is_empty());
        let get = |kind: usize, d: &str| -> Option<(String, Option<String>)> {
            fn look<N: Node>(s: &Soup<N>) -> Option<(String, Option<String>)>
            where
                N::Text: AsRef<str> + fmt::Display,
            {
                let p = s.iter().find(|i| i.name().is_some_and(|n| n.as_ref() == "p"))?;
                let a = p.attrs()?.values().next().map(|v| v.as_ref().to_string());
                Some((p.all_text(), a))
            }
            match kind {
                0 => look(&Soup::html_strict(d).ok()?),
                1 => look(&Soup::html(d)),
                _ => look(&Soup::xml(d.as_bytes()).ok()?),
            }
        };
        ctx.par(pairs.len(), |i| {
            let (a, b) = &pairs[i];
            for kind in 0..3 {
                for f in 0..3 {
                    let doc = |s: &str| match f {
                        0 => format!("<p>{s}</p>"),
                        1 => format!("<p a='{s}'></p>"),
                        _ => format!("<p><!--{s}-->x{s}<b c='d'/></p>"),
                    };
                    fam.case(&format!("{kind} {} after {}", doc(b), doc(a)), || {
                        for s in [a, b, a] {
                            let want = match f {
                                0 => (s.clone(), None),
                                1 => (String::new(), Some(s.clone())),
                                _ => (format!("x{s}"), None),
                            };
                            let got = get(kind, &doc(s));
                            if got.as_ref() != Some(&want) {
                                return Err(format!("{} came out as {got:?}", doc(s)));
                            }
                        }
                        seen(true, "each its own")
                    });
                }
            }
        });
    }

    let fam = ctx.family(
        "unusual-times",
        "every operation from a destructor while a panic unwinds, after a panic caught in there, and from the destructor of a thread-local value that is older or younger than every other operation on its thread: as in a process of its own",
    );
    if fam.active() {
        ctx.par(n, |i| {
            for (what, name) in ["unwinding", "unwinding, after a caught panic", "twice unwinding"].into_iter().enumerate() {
                fam.case(&format!("{} while {name}", all[i]), || {
                    let out = Mutex::new(None);
                    struct Late<F: Fn()>(F);
                    impl<F: Fn()> Drop for Late<F> {
                        fn drop(&mut self) {
                            (self.0)();
                        }
                    }
                    let run = || *out.lock().unwrap() = Some(std::panic::catch_unwind(|| all[i].run().digest()).unwrap_or_else(|_| "a panic".into()));
                    let unwind = |f: &dyn Fn()| {
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let _late = Late(f);
                            std::panic::resume_unwind(Box::new(0u8));
                        }));
                    };
                    match what {
                        0 => unwind(&run),
                        1 => unwind(&|| {
                            let _ = std::panic::catch_unwind(|| std::panic::resume_unwind(Box::new(1u8)));
                            run();
                        }),
                        _ => unwind(&|| unwind(&run)),
                    }
                    let d = out.into_inner().unwrap_or_else(|e| e.into_inner()).unwrap_or_default();
                    if d != want[i] {
                        return Err(format!("returned {d}, expected {}", want[i]));
                    }
                    seen(true, &want[i])
                });
            }
            for j in 0..n {
                for old in [true, false] {
                    fam.case(&format!("{} from a thread-local destructor {} than {}", all[i], if old { "older" } else { "younger" }, all[j]), || {
                        struct Last(Op, std::sync::mpsc::Sender<String>);
                        impl Drop for Last {
                            fn drop(&mut self) {
                                let op = self.0;
                                let d = std::panic::catch_unwind(|| op.run().digest()).unwrap_or_else(|_| "a panic".into());
                                let _ = self.1.send(d);
                            }
                        }
                        thread_local!(static LAST: RefCell<Option<Last>> = const { RefCell::new(None) });
                        let (tx, rx) = std::sync::mpsc::channel();
                        let (a, b) = (all[i], all[j]);
                        let h = std::thread::spawn(move || {
                            if !old {
                                b.run();
                            }
                            LAST.with(|l| *l.borrow_mut() = Some(Last(a, tx)));
                            if old {
                                b.run();
                            }
                        });
                        h.join().map_err(|_| "panicked".to_string())?;
                        let d = rx.recv().unwrap_or_default();
                        if d != want[i] {
                            return Err(format!("returned {d}, expected {}", want[i]));
                        }
                        seen(true, &want[i])
                    });
                }
            }
        });
    }

    let fam = ctx.family(
        "open-iterators",
        "every forest of up to 3 (thorough: 4) nodes over 2 labels, every pair of 7 iterators, every merge of their next() calls, two beyond the end included; triples on forests of up to 2 (3) nodes; with parses in between on the forests of up to 2",
    );
    if fam.active() {
        let labs = [elem("a", &[("x", "1")]), elem("b", &[])];
        for n in 1..=ctx.bound(3usize, 4) {
            let shapes = gen::forests(n);
            ctx.par(shapes.len() * 1 << n, |j| {
                let sh = &shapes[j >> n];
                let ts = forest(sh, &mut |i| labs[j >> i & 1].clone());
                for a in ITS {
                    for b in ITS {
                        fam.case(&format!("{sh:?} {:b}: {a:?} {b:?}", j & ((1 << n) - 1)), || merges(&ts, &[a, b], false));
                        if n <= 2 {
                            fam.case(&format!("{sh:?} {:b}: {a:?} {b:?} and parses", j & ((1 << n) - 1)), || merges(&ts, &[a, b], true));
                        }
                        if n <= ctx.bound(1, 2) {
                            for c in ITS {
                                fam.case(&format!("{sh:?} {:b}: {a:?} {b:?} {c:?}", j & ((1 << n) - 1)), || merges(&ts, &[a, b, c], false));
                            }
                        }
                    }
                }
            });
        }
    }

    let call_want: Vec<String> = CALLS.iter().map(|c| c.run()).collect();
    let idx = |c: Call| CALLS.iter().position(|x| *x == c).unwrap();

    let fam = ctx.family(
        "callbacks",
        "16 parses and queries that call user code (patterns, readers, inputs, nodes, texts, parsers): at every single call every one of 64 parses and queries and of these 16 is made from within, and (thorough: at every call of) these again with one more within",
    );
    if fam.active() {
        let counts: Vec<usize> = CALLS.iter().map(|c| callbacks(*c)).collect();
        ctx.note(format!("callbacks of the 16 calls: {counts:?}"));
        let jobs: Vec<(usize, usize)> = (0..CALLS.len()).flat_map(|c| (0..counts[c]).map(move |a| (c, a))).collect();
        ctx.par(jobs.len(), |j| {
            let (c, at) = jobs[j];
            let outer = CALLS[c];
            for (k, o) in all.iter().enumerate() {
                fam.case(&format!("{outer:?} at {at}: {o}"), || reentered(outer, at, Inner::Op(*o), &call_want[c], &want[k]));
            }
            for (k, o) in CALLS.iter().enumerate() {
                fam.case(&format!("{outer:?} at {at}: {o:?}"), || reentered(outer, at, Inner::Call(*o), &call_want[c], &call_want[k]));
                let places: Vec<usize> =
                    if ctx.thorough() { (0..counts[k]).collect() } else { vec![0, counts[k] / 2] };
                for p in places {
                    for d in CALLS {
                        if ctx.thorough() || d == outer || d == *o {
                            fam.case(&format!("{outer:?} at {at}: {o:?} at {p}: {d:?}"), || {
                                reentered(outer, at, Inner::Nested(*o, p, d), &call_want[c], &call_want[k])
                            });
                        }
                    }
                }
            }
        });
    }

    let fam = ctx.family(
        "nested",
        "each of the 16 calls made from within itself, and from within another in turn (all pairs), n levels deep, at the first, second, middle and last callback, for n up to 12 (thorough: 40) and around powers of two and ten up to 270 (1100; of two different calls up to 40), one of 64 operations innermost: each as in a process of its own",
    );
    if fam.active() {
        let counts: Vec<usize> = CALLS.iter().map(|c| callbacks(*c)).collect();
        let depths = gen::sizes(ctx.bound(12, 40), ctx.bound(270, 1100));
        let m = CALLS.len();
        ctx.par(m * m * depths.len(), |j| {
            let (c, d, depth) = (j % m, j / m % m, depths[j / m / m]);
            if c != d && depth > ctx.bound(20, 40) {
                return;
            }
            let places = |c: usize| {
                let mut p = vec![0, 1, counts[c] / 2, counts[c] - 1];
                p.sort_unstable();
                p.dedup();
                p.retain(|p| *p < counts[c]);
                p
            };
            for at in places(c) {
                let at_d = if c == d { at } else { counts[d] / 2 };
                let op = (j + at) % n;
                fam.case(&format!("{:?} at {at} and {:?} at {at_d}, {depth} deep, then {}", CALLS[c], CALLS[d], all[op]), || {
                    let (r, reached) = nest(&[(CALLS[c], at, call_want[c].clone()), (CALLS[d], at_d, call_want[d].clone())], depth, all[op], &want[op]);
                    r?;
                    if reached { seen(depth > 0, &want[op]) } else { Err("a callback was not made".into()) }
                });
            }
        });
    }

    let fam = ctx.family(
        "at-once",
        "n threads that are all in the midst of a call of user code (each of the 16 calls, and all different ones) at once, for n up to 12 (thorough: 40) and around powers of two and ten up to 130 (520), and while they are one of 64 operations on a thread of its own: each as in a process of its own",
    );
    if fam.active() {
        let counts: Vec<usize> = CALLS.iter().map(|c| callbacks(*c)).collect();
        let sizes = gen::sizes(ctx.bound(12, 40), ctx.bound(130, 520));
        let m = CALLS.len() + 1;
        let jobs = AtomicUsize::new(0);
        ctx.par(2, |_| loop {
            let j = jobs.fetch_add(1, Relaxed);
            if j >= (sizes.len() - 1) * m {
                break;
            }
            let (k, c) = (sizes[j / m + 1], j % m);
            let op = j % n;
            let what = CALLS.get(c).map_or("all the calls".to_string(), |c| format!("{c:?}"));
            fam.case(&format!("{k} threads in {what}, then {}", all[op]), || {
                let barrier = std::sync::Arc::new(std::sync::Barrier::new(k + 1));
                std::thread::scope(|s| {
                    let hs: Vec<_> = (0..k)
                        .map(|t| {
                            let (b, c) = (barrier.clone(), if c < CALLS.len() { c } else { t % CALLS.len() });
                            let at = (t / 2) % counts[c];
                            s.spawn(move || {
                                ACT.set(Some(Box::new(move || {
                                    b.wait();
                                    b.wait();
                                })));
                                WHEN.set(at as isize);
                                let r = std::panic::catch_unwind(|| CALLS[c].run()).unwrap_or_else(|_| "a panic".into());
                                // if it did not get there
                                if let Some(mut a) = ACT.take() {
                                    a();
                                }
                                (c, r)
                            })
                        })
                        .collect();
                    barrier.wait();
                    let d = s.spawn(|| all[op].run().digest()).join().unwrap_or_else(|_| "a panic".into());
                    barrier.wait();
                    for h in hs {
                        let (c, r) = h.join().map_err(|_| "a thread panicked".to_string())?;
                        if r != call_want[c] {
                            return Err(format!("{:?} returned {r}, expected {}", CALLS[c], call_want[c]));
                        }
                    }
                    if d != want[op] {
                        return Err(format!("{} returned {d}, expected {}", all[op], want[op]));
                    }
                    seen(true, &want[op])
                })
            });
        });
    }

    let fam = ctx.family(
        "many-threads",
        "300 (thorough: 3000) threads one after the other, and as many that live on at the same time, that do one operation each, every of 64: each as in a process of its own",
    );
    if fam.active() {
        let k = ctx.bound(300, 3000);
        for (o, w) in all.iter().zip(&want) {
            fam.case(&format!("{k} threads one after the other: {o}"), || {
                for t in 0..k {
                    let d = std::thread::spawn({ let o = *o; move || o.run().digest() }).join().unwrap_or_else(|_| "a panic".into());
                    if d != *w {
                        return Err(format!("thread {t} got {d}, expected {w}"));
                    }
                }
                seen(true, w)
            });
        }
        fam.case(&format!("{k} threads that live on"), || {
            let turns: Vec<_> = (0..k)
                .map(|_| {
                    let (go, start) = std::sync::mpsc::channel::<usize>();
                    let (done, result) = std::sync::mpsc::channel::<String>();
                    let h = std::thread::Builder::new()
                        .stack_size(1 << 20)
                        .spawn({
                            let all = all.clone();
                            move || {
                                for i in start {
                                    let _ = done.send(all[i].run().digest());
                                }
                            }
                        })
                        .map_err(|e| e.to_string());
                    h.map(|h| (go, result, h))
                })
                .collect::<Result<_, _>>()?;
            for round in 0..n {
                for (t, (go, result, _)) in turns.iter().enumerate() {
                    let i = (t + round) % n;
                    let _ = go.send(i);
                    match result.recv() {
                        Ok(d) if d == want[i] => {}
                        r => return Err(format!("{} on thread {t} in round {round} gave {r:?}, expected {}", all[i], want[i])),
                    }
                }
            }
            seen(true, "as alone")
        });
    }

    let fam = ctx.family(
        "interrupted",
        "calls that never return: each of the 16 calls given up by a panic (caught) of the user code at every single callback, and 7 kinds of iterators left (dropped, forgotten, or dropped by an unwinding) after any number of items, 1, 2, 3, 300 (iterators 5000, the first, middle and last callback 20000) times in a row, on the same thread and on one that is over; then every operation and call, as in a process of its own",
    );
    if fam.active() {
        let counts: Vec<usize> = CALLS.iter().map(|c| callbacks(*c)).collect();
        let jobs: Vec<(usize, usize, usize)> =
            (0..CALLS.len()).flat_map(|c| {
                let n = counts[c];
                (0..n).flat_map(move |a| [1, 2, 3, 300, 20_000].map(|t| (c, a, t))).filter(move |(_, a, t)| *t < 1000 || *a == 0 || *a == n / 2 || *a == n - 1)
            }).collect();
        let after = |what: &str| -> Result<(), String> {
            for (k, o) in all.iter().enumerate() {
                let d = o.run().digest();
                if d != want[k] {
                    return Err(format!("{what}: {o} returned {d}, expected {}", want[k]));
                }
            }
            for (k, o) in CALLS.iter().enumerate() {
                let d = o.run();
                if d != call_want[k] {
                    return Err(format!("{what}: {o:?} returned {d}, expected {}", call_want[k]));
                }
            }
            Ok(())
        };
        ctx.par(jobs.len(), |j| {
            let (c, at, times) = jobs[j];
            fam.case(&format!("{:?} given up {times} times at callback {at}", CALLS[c]), || {
                let give_up = || {
                    for _ in 0..times {
                        if !gives_up(CALLS[c], at) {
                            return Err("the callback was not made".to_string());
                        }
                    }
                    Ok(())
                };
                std::thread::scope(|s| {
                    // the same thread
                    let r = s.spawn(|| give_up().and_then(|()| after("on the same thread"))).join();
                    r.unwrap_or_else(|_| Err("panicked".into()))?;
                    // a thread after another
                    let r = s.spawn(|| after("on the next thread")).join();
                    r.unwrap_or_else(|_| Err("panicked".into()))
                })?;
                seen(true, &call_want[c])
            });
        });
        let ts = forest(&[0, 1, 2, 1, 0, 1], &mut |i| if i % 2 == 0 { elem("a", &[("x", "1")]) } else { elem("b", &[]) });
        let jobs: Vec<(usize, usize, usize)> =
            (0..ITS.len()).flat_map(|c| (0..5).flat_map(move |a| (0..3).map(move |t| (c, a, t)))).collect();
        ctx.par(jobs.len(), |j| {
            let (k, items, how) = jobs[j];
            let hows = ["dropped", "forgotten", "unwound"];
            fam.case(&format!("{:?} {} after {items} items", ITS[k], hows[how]), || {
                let s = soup::<Uni<String>>(&ts);
                let first = s.strict().first().map(|i| unsafe { &*std::ptr::from_ref(&*i) });
                let sub = s.strict().first().map_or_else(|| soup(&[]), |i| i.query());
                std::thread::scope(|t| {
                    t.spawn(|| {
                        let mut held = vec![];
                        for n in [1usize, 2, 3, 300, 5000] {
                            for _ in 0..n {
                                let mut it = iter(ITS[k], &s, &sub, first);
                                let got: Vec<usize> = it.by_ref().take(items).collect();
                                match how {
                                    0 => drop(it),
                                    1 => std::mem::forget(it),
                                    _ => {
                                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                                            let _it = it;
                                            std::panic::resume_unwind(Box::new(0u8));
                                        }));
                                        assert!(r.is_err());
                                    }
                                }
                                held.push(got);
                            }
                            if held.iter().any(|h| *h != held[0]) {
                                return Err(format!("the iterators gave {held:?}"));
                            }
                            after(&format!("after {n}"))?;
                        }
                        Ok(())
                    })
                    .join()
                    .unwrap_or_else(|_| Err("panicked".into()))
                })?;
                seen(true, &format!("{items}"))
            });
        });
    }

    let fam = ctx.family(
        "threads",
        "pairs (and small triples) of calls on threads of their own, one running at a time: every schedule that may switch at every call of user code (at most 13000 schedules per pair, thorough: 200000)",
    );
    if fam.active() {
        let counts: Vec<usize> = CALLS.iter().map(|c| callbacks(*c)).collect();
        let max = ctx.bound(13_000usize, 200_000);
        // number of schedules of a group: the multinomial of the segments between callbacks
        let number = |g: &[Call]| {
            let (mut n, mut sum) = (1f64, 0usize);
            for c in g {
                for i in 1..=counts[idx(*c)] + 1 {
                    sum += 1;
                    n = n * sum as f64 / i as f64;
                }
            }
            n
        };
        let mut groups: Vec<Vec<Call>> = vec![];
        for a in CALLS {
            for b in CALLS {
                if idx(a) <= idx(b) {
                    groups.push(vec![a, b]);
                    for c in CALLS {
                        if idx(b) <= idx(c) {
                            groups.push(vec![a, b, c]);
                        }
                    }
                }
            }
        }
        groups.retain(|g| number(g) <= max as f64);
        ctx.note(format!("threads: {} groups of calls", groups.len()));
        let next = AtomicUsize::new(0);
        // three at a time: each has up to three threads of its own that spin
        ctx.par(3, |_| loop {
            let i = next.fetch_add(1, Relaxed);
            let Some(g) = groups.get(i) else { break };
            let w: Vec<String> = g.iter().map(|c| call_want[idx(*c)].clone()).collect();
            fam.case(&format!("{g:?}"), || schedules(g, &w, 400_000));
        });
        ctx.transitions.fetch_add(COUNT.load(Relaxed), Relaxed);
        ctx.traces.fetch_add(COUNT.load(Relaxed), Relaxed);
        ctx.note(format!("threads: {} schedules", COUNT.load(Relaxed)));
    }

    let fam = ctx.family(
        "preemptions",
        "a parse or query that is stopped after every single machine instruction while another thread runs a whole one (all pairs of 12 by 6 (thorough: 20 by 12)), and after every 61st (thorough: also every 1009th) instruction only, from every one of the first 61 (1009) on, for four pairs",
    );
    if fam.active() {
        if !can_step() {
            ctx.note("preemptions: this machine does not report single steps; not explored");
        } else {
            let find = |o: Op| all.iter().position(|x| *x == o).unwrap();
            let a: Vec<Op> = vec![
                Op::Strict("<a b=c>x</a>"),
                Op::Xml(b"<a b='1'/>"),
                Op::Strict("<script>a<b</script>"),
                Op::Strict("&#65;&copy;"),
                Op::Strict("<a></b>"),
                Op::Query(0),
                Op::Query(1),
                Op::Query(4),
                Op::Lenient("<a>x</a>"),
                Op::Strict("<br><hr/>"),
                Op::Strict("<!DOCTYPE html><p>z</p>"),
                Op::Xml(b"<a>x</a>"),
                Op::Xml(b"<p:a xmlns:p='u'><p:b/></p:a>"),
                Op::Lenient("<table><td>q"),
                Op::Strict("<a b=1 b=2 c=3></a>"),
                Op::Strict("<p>&notit;</p>"),
                Op::Strict("<a><a><a><b><b>x</b></b></a></a></a>"),
                Op::Query(2),
                Op::Query(5),
                Op::Strict("<!--c--><i></i>"),
            ];
            let b: Vec<Op> = vec![
                Op::Strict("<a b='d'>x</a>"),
                Op::Xml(b"<a b='2'/>"),
                Op::Query(1),
                Op::Strict("<style>x</STYLE >"),
                Op::Lenient("<b>y</b>"),
                Op::Strict("&amp;&lt;"),
                Op::Strict("<a"),
                Op::Xml(b"<p:a/>"),
                Op::Query(4),
                Op::Strict("<br><hr/>"),
                Op::Xml(b"<a><![CDATA[<]]></a>"),
                Op::Lenient(""),
            ];
            let (na, nb) = if ctx.release() { (4, 2) } else { ctx.bound((12, 6), (a.len(), b.len())) };
            let jobs: Vec<(Op, Op)> = a[..na].iter().flat_map(|x| b[..nb].iter().map(move |y| (*x, *y))).collect();
            let next = AtomicUsize::new(0);
            let steps = AtomicU64::new(0);
            // two threads each
            ctx.par(4, |_| loop {
                let i = next.fetch_add(1, Relaxed);
                let Some((x, y)) = jobs.get(i).copied() else { break };
                fam.case(&format!("{x} with {y} after every instruction"), || {
                    let (d, bad, n, k) = stepped(x, y, (1, 0), &want[find(y)]);
                    steps.fetch_add(n, Relaxed);
                    if d != want[find(x)] {
                        return Err(format!("{x} returned {d}, expected {}", want[find(x)]));
                    }
                    bad?;
                    seen(k > 1, &format!("{x}"))
                });
            });
            let pairs = [(a[0], b[0]), (a[3], b[5]), (a[5], b[2]), (a[1], b[1])];
            let mut jobs: Vec<(Op, Op, u64, u64)> = vec![];
            for every in if ctx.thorough() { &[61u64, 1009][..] } else { &[61] } {
                for (x, y) in pairs {
                    jobs.extend((0..*every).map(|r| (x, y, *every, r)));
                }
            }
            let next = AtomicUsize::new(0);
            ctx.par(4, |_| loop {
                let i = next.fetch_add(1, Relaxed);
                let Some((x, y, every, rest)) = jobs.get(i).copied() else { break };
                fam.case(&format!("{x} with {y} after every {every}-th instruction from {rest} on"), || {
                    let (d, bad, _, k) = stepped(x, y, (every, rest), &want[find(y)]);
                    steps.fetch_add(k, Relaxed);
                    if d != want[find(x)] {
                        return Err(format!("{x} returned {d}, expected {}", want[find(x)]));
                    }
                    bad?;
                    seen(k > 1, &format!("{x}"))
                });
            });
            ctx.note(format!("preemptions: {} with a whole operation at each", steps.load(Relaxed)));
            ctx.transitions.fetch_add(steps.load(Relaxed), Relaxed);
            ctx.traces.fetch_add(steps.load(Relaxed), Relaxed);

            // the very first use
            let first = [(a[3], b[5]), (a[0], b[0]), (a[9], b[9])];
            let list: Vec<(usize, usize)> = first.iter().map(|(x, y)| (find(*x), find(*y))).collect();
            let every = 1u64;
            let next = AtomicUsize::new(0);
            ctx.par(4, |_| loop {
                let i = next.fetch_add(1, Relaxed);
                let Some((x, y)) = list.get(i).copied() else { break };
                fam.case(&format!("the first {} in a process, with {} after every {every}-th instruction", all[x], all[y]), || {
                    let (n, k) = first_use(x, y, every, &want)?;
                    ctx.note(format!("first use: {n} instructions, {k} points"));
                    seen(k > 1, &format!("{n}"))
                });
            });
        }
    }
}

/// In a process that has done nothing before: `a` stepped, `b` at each point. Prints both results and the
/// numbers of instructions and points.
fn first_main(a: usize, b: usize, every: u64, b_want: &str) {
    let all = ops();
    let (d, bad, n, k) = stepped(all[a], all[b], (every, 0), b_want);
    print!("{d}\u{1}{}\u{1}{n}\u{1}{k}\u{1}", bad.err().unwrap_or_default());
}

fn first_use(a: usize, b: usize, every: u64, want: &[String]) -> Result<(u64, u64), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = Command::new(exe)
        .args(["--first", &a.to_string(), &b.to_string(), &every.to_string(), &want[b]])
        .env_remove("MC_SLOTS")
        .output()
        .map_err(|e| e.to_string())?;
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    let v: Vec<&str> = t.split('\u{1}').collect();
    if !o.status.success() || v.len() != 5 {
        return Err(format!("the process ended with {:?}: {}", o.status, clip(&String::from_utf8_lossy(&o.stderr), 300)));
    }
    if v[0] != want[a] {
        return Err(format!("returned {}, expected {}", v[0], want[a]));
    }
    if !v[1].is_empty() {
        return Err(v[1].into());
    }
    Ok((v[2].parse().unwrap_or(0), v[3].parse().unwrap_or(0)))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == "--fresh") {
        fresh_main(&args[2]);
        return;
    }
    if args.get(1).is_some_and(|a| a == "--first") {
        first_main(args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5]);
        return;
    }
    mc::runner::main("C20", "model_checking", run_all)
}
