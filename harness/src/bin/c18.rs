//! C18: node accessors and traversals describe the same tree.

use std::{borrow::Cow, collections::BTreeMap, rc::Rc, sync::atomic::Ordering::Relaxed, sync::Arc};

use mc::{
    engine::{fnv, seen, Ctx, Fam, Seen},
    gen,
    qmodel::*,
    tree::{ToT, T},
};
use soupy::{
    parser::{HTMLNode, XMLElement, XMLNode},
    Node, Queryable, Soup,
};

type Ptr<N> = *const N;

fn strs<S: AsRef<str>>(m: &BTreeMap<S, S>) -> Vec<(&str, &str)> {
    m.iter().map(|(k, v)| (k.as_ref(), v.as_ref())).collect()
}

/// What the accessors of one node have to say, and its children one by one.
fn node<N>(n: &N, t: &T) -> Result<(), String>
where
    N: Node + ToT,
    N::Text: AsRef<str> + Ord + for<'a> From<&'a str>,
{
    basic(n, t)?;
    // get, for every name that is there and for others
    let names = t.attrs().map(|a| a.keys().map(String::as_str).collect::<Vec<_>>()).unwrap_or_default();
    for q in names.into_iter().chain(["", "x", "X", "xx", "class", "é", "zz"]) {
        let want = t.attrs().and_then(|a| a.get(q)).map(String::as_str);
        let got = n.get(q).map(AsRef::as_ref);
        if got != want {
            return Err(format!("get({q:?}) is {got:?}, expected {want:?} ({t:?})"));
        }
    }
    Ok(())
}

fn basic<N: Node + ToT>(n: &N, t: &T) -> Result<(), String>
where
    N::Text: AsRef<str>,
{
    let got = n.name().map(AsRef::as_ref);
    if got != t.name().map(String::as_str) {
        return Err(format!("name() is {got:?} for {t:?}"));
    }
    let got = n.text().map(AsRef::as_ref);
    if got != t.text().map(String::as_str) {
        return Err(format!("text() is {got:?} for {t:?}"));
    }
    let got = n.attrs().map(strs);
    let want: Option<Vec<_>> = t.attrs().map(|a| a.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect());
    if got != want {
        return Err(format!("attrs() is {got:?} for {t:?}"));
    }
    let got: Vec<T> = n.children().iter().map(ToT::to_t).collect();
    if got != t.kids() {
        return Err(format!("children() is {got:?} for {t:?}"));
    }
    Ok(())
}

fn walk<N: Node>(n: &N, out: &mut Vec<Ptr<N>>) {
    out.push(n);
    for c in n.children() {
        walk(c, out);
    }
}

/// Descendants and all_text of a node and of everything below it.
fn traverse<N: Node + ToT>(n: &N, t: &T) -> Result<u64, String>
where
    N::Text: AsRef<str> + std::fmt::Display,
{
    basic(n, t)?;
    let mut want = vec![];
    walk(n, &mut want);
    let got: Vec<Ptr<N>> = n.descendants().map(|d| d as Ptr<N>).collect();
    if got != want {
        let pos = |p: &Ptr<N>| want.iter().position(|w| w == p);
        return Err(format!("descendants() gives {:?}, expected 0..{} ({t:?})", got.iter().map(pos).collect::<Vec<_>>(), want.len()));
    }
    let pre = preorder(std::slice::from_ref(t));
    let back: Vec<T> = n.descendants().map(ToT::to_t).collect();
    if back.iter().ne(pre.iter().map(|p| p.0)) {
        return Err(format!("descendants() gives the nodes {back:?} of {t:?}"));
    }
    let texts: Vec<&str> = pre.iter().filter_map(|p| p.0.text()).map(String::as_str).collect();
    let all = n.all_text();
    if all != texts.join("\n") {
        return Err(format!("all_text() is {all:?}, expected {:?} ({t:?})", texts.join("\n")));
    }
    // paused, and beyond its end
    let mut i = n.descendants();
    for w in &want {
        if i.next().map(|d| d as Ptr<N>) != Some(*w) {
            return Err("descendants() step by step differs".into());
        }
    }
    if (0..3).any(|_| i.next().is_some()) {
        return Err("descendants() goes on after its end".into());
    }
    let mut h = fnv(want.len() as u64, all.as_bytes());
    for (c, k) in n.children().iter().zip(t.kids()) {
        h = fnv(h, &traverse(c, k)?.to_le_bytes());
    }
    Ok(h)
}

/// `iter()` and `&node` as an iterator: the children, both ways.
trait Kids: Node {
    fn slice(&self) -> Vec<Ptr<Self>>;
    fn by_ref(&self) -> Vec<Ptr<Self>>;
    fn back(&self) -> Vec<Ptr<Self>>;
    fn hint(&self) -> usize;
}
impl<S> Kids for HTMLNode<S> {
    fn slice(&self) -> Vec<Ptr<Self>> {
        self.iter().map(|c| c as Ptr<Self>).collect()
    }
    fn by_ref(&self) -> Vec<Ptr<Self>> {
        let mut v = vec![];
        for c in self {
            v.push(c as Ptr<Self>);
        }
        v
    }
    fn back(&self) -> Vec<Ptr<Self>> {
        self.iter().rev().map(|c| c as Ptr<Self>).collect()
    }
    fn hint(&self) -> usize {
        self.into_iter().len()
    }
}
impl Kids for XMLNode {
    fn slice(&self) -> Vec<Ptr<Self>> {
        self.iter().map(|c| c as Ptr<Self>).collect()
    }
    fn by_ref(&self) -> Vec<Ptr<Self>> {
        let mut v = vec![];
        for c in self {
            v.push(c as Ptr<Self>);
        }
        v
    }
    fn back(&self) -> Vec<Ptr<Self>> {
        self.iter().rev().map(|c| c as Ptr<Self>).collect()
    }
    fn hint(&self) -> usize {
        self.into_iter().len()
    }
}

fn iterates<N: Kids>(n: &N) -> Result<(), String> {
    let want: Vec<Ptr<N>> = n.children().iter().map(|c| c as Ptr<N>).collect();
    let mut rev = want.clone();
    rev.reverse();
    if n.slice() != want || n.by_ref() != want || n.back() != rev || n.hint() != want.len() {
        return Err(format!("iterating a node does not yield its {} children in order", want.len()));
    }
    n.children().iter().try_for_each(iterates)
}

/// All families of nodes, each as `HTMLNode` over several text types, `XMLNode` and user nodes.
fn kinds_of(t: &T) -> Result<u64, String> {
    fn html<S: Txt + HtmlName + for<'a> From<&'a str>>(t: &T) -> Result<u64, String> {
        let n = HTMLNode::<S>::build(t, &mut 0);
        deep(&n, t)?;
        iterates(&n)?;
        traverse(&n, t)
    }
    fn deep<N: Node + ToT>(n: &N, t: &T) -> Result<(), String>
    where
        N::Text: AsRef<str> + Ord + for<'a> From<&'a str>,
    {
        node(n, t)?;
        n.children().iter().zip(t.kids()).try_for_each(|(c, k)| deep(c, k))
    }
    fn user<S: Txt + UniName + for<'a> From<&'a str>>(t: &T) -> Result<u64, String> {
        let n = Uni::<S>::build(t, &mut 0);
        deep(&n, t)?;
        traverse(&n, t)
    }
    let view = |k: Kind| k.view(std::slice::from_ref(t)).swap_remove(0);
    let htmlish = !matches!(t, T::CData(_) | T::Pi(..) | T::Xml { .. });
    let mut h = 0;
    if htmlish {
        h ^= html::<String>(t)?;
        h ^= html::<Tendril>(t)?.rotate_left(1);
        let n = HTMLNode::<Cow<'static, str>>::build(t, &mut 0);
        iterates(&n)?;
        traverse(&n, t)?;
        for q in ["", "x", "class", "zz"] {
            let want = t.attrs().and_then(|a| a.get(q)).map(String::as_str);
            if n.get(q).map(AsRef::as_ref) != want {
                return Err(format!("get({q:?}) of a strict node, expected {want:?}"));
            }
        }
    }
    let v = view(Kind::Xml);
    let n = XMLNode::build(t, &mut 0);
    deep(&n, &v)?;
    iterates(&n)?;
    h ^= traverse(&n, &v)?.rotate_left(2);
    if !matches!(t, T::Xml { .. } | T::Pi(..)) {
        h ^= user::<String>(t)?.rotate_left(3);
        user::<Own>(t)?;
        user::<Box<str>>(t)?;
        user::<Rc<str>>(t)?;
        user::<Arc<str>>(t)?;
    }
    Ok(h)
}

fn shapes(fam: &Fam, ctx: &Ctx, labs: &[T], inner: usize, max: usize) {
    let shapes: Vec<_> = (0..=max).flat_map(gen::forests).collect();
    ctx.par(shapes.len(), |j| {
        // the forest hangs below one element
        labelled(&shapes[j], labs, inner, &mut |_, ts| {
            let t = T::El { name: "r".into(), attrs: attrs(&[]), kids: ts };
            ctx.states.fetch_add(1, Relaxed);
            ctx.transitions.fetch_add(shapes[j].len() as u64, Relaxed);
            ctx.traces.fetch_add(8, Relaxed);
            fam.case(&desc(std::slice::from_ref(&t)), || {
                let h = kinds_of(&t)?;
                seen(t.kids().iter().any(|k| !k.kids().is_empty()), &format!("{h:x}"))
            });
        });
    });
}

fn of_soup<N: Node + ToT>(s: &Soup<N>, ts: &[T]) -> Result<Seen, String>
where
    N::Text: AsRef<str> + std::fmt::Display,
{
    let tops: Vec<_> = s.strict().all().collect();
    if tops.len() != ts.len() {
        return Err(format!("{} top-level nodes, expected {}", tops.len(), ts.len()));
    }
    let mut h = 0;
    for (i, t) in tops.iter().zip(ts) {
        h = fnv(h, &traverse(&**i, t)?.to_le_bytes());
    }
    seen(true, &format!("{h:x}"))
}

fn run(ctx: &Ctx) {
    let fam = ctx.family(
        "accessors",
        "one node of every kind (element, raw, void, text, comment, doctype, CDATA, instruction, XML element) with every name, text and content out of 8 and every attribute set out of 40, childless and with children; every node and text type",
    );
    if fam.active() {
        let texts = ["", "a", "\n", "é", "class", "a\nb", " ", "𝒳\0"];
        let mut maps: Vec<BTreeMap<String, String>> = vec![];
        for i in 0..81 {
            let w = gen::word(3, 4, i);
            if i % 2 == 0 || i < 9 {
                maps.push(
                    ["x", "X", "", "class"].iter().zip(&w).filter(|p| *p.1 > 0).map(|(k, v)| (k.to_string(), ["", "v w", ""][*v].to_string())).collect(),
                );
            }
        }
        let mut ts = vec![];
        for s in texts {
            ts.extend([T::Text(s.into()), T::Comment(s.into()), T::Doctype(s.into()), T::CData(s.into()), T::Pi(s.into(), None), T::Pi(s.into(), Some("é x".into()))]);
            for m in &maps {
                ts.push(T::Void { name: s.into(), attrs: m.clone() });
                ts.push(T::Raw { name: "n".into(), attrs: m.clone(), content: s.into() });
                ts.push(T::Raw { name: s.into(), attrs: m.clone(), content: "<b>x</b>".into() });
                for k in 0..4 {
                    let kids = match k {
                        0 => vec![],
                        1 => vec![T::Text(s.into())],
                        2 => vec![T::Comment("c".into()), elem(s, &[])],
                        _ => vec![T::El { name: s.into(), attrs: m.clone(), kids: vec![T::Text(s.into()), T::Void { name: "v".into(), attrs: m.clone() }] }, T::Text("z".into())],
                    };
                    ts.push(T::El { name: s.into(), attrs: m.clone(), kids: kids.clone() });
                    ts.push(T::Xml { prefix: Some("p".into()), ns: Some("urn:x".into()), name: s.into(), attrs: m.clone(), kids: Kind::Xml.view(&kids) });
                }
            }
        }
        ctx.par(ts.len(), |j| {
            let t = &ts[j];
            fam.case(&format!("{t:?}"), || {
                let h = kinds_of(t)?;
                seen(!matches!(t, T::Comment(_)), &format!("{h:x}"))
            });
        });
    }

    let fam = ctx.family(
        "dictionary",
        "every pair of strings out of a dictionary (the literals of the code under test, and well-known names and values) as names, attributes, contents, texts and comments of a tree: accessors, get with either name and near misses, traversals and all_text, every node and text type",
    );
    if fam.active() {
        let d = mc::lits::dictionary();
        let k = d.len();
        fn gets<N: Node + ToT>(n: &N, t: &T, names: &[&str]) -> Result<(), String>
        where
            N::Text: AsRef<str> + Ord + for<'a> From<&'a str>,
        {
            for q in names {
                let want = t.attrs().and_then(|a| a.get(*q)).map(String::as_str);
                let got = n.get(*q).map(AsRef::as_ref);
                if got != want {
                    return Err(format!("get({q:?}) is {got:?}, expected {want:?} ({t:?})"));
                }
            }
            n.children().iter().zip(t.kids()).try_for_each(|(c, k)| gets(c, k, names))
        }
        ctx.par(k * k, |i| {
            let (a, b) = (d[i / k].as_str(), d[i % k].as_str());
            let t = T::El { name: "r".into(), attrs: attrs(&[]), kids: pair_forest(a, b) };
            fam.case(&format!("{a:?} {b:?}"), || {
                let h = kinds_of(&t)?;
                let near = [a.to_uppercase(), a.to_lowercase(), a.trim().to_string(), format!("{a} "), format!("{b}{a}")];
                let mut names: Vec<&str> = vec![a, b];
                names.extend(near.iter().map(String::as_str));
                gets(&HTMLNode::<String>::build(&t, &mut 0), &t, &names)?;
                gets(&HTMLNode::<Tendril>::build(&t, &mut 0), &t, &names)?;
                gets(&XMLNode::build(&t, &mut 0), &Kind::Xml.view(std::slice::from_ref(&t))[0], &names)?;
                gets(&Uni::<Own>::build(&t, &mut 0), &t, &names)?;
                seen(true, &format!("{h:x}"))
            });
        });
    }

    let fam = ctx.family(
        "traversals",
        "every tree of an element and up to 4 (thorough: 5) nodes below it over 8 labels, every node and text type: descendants and all_text of every node in it; non-trivial if at least three levels deep",
    );
    if fam.active() {
        let (mut labs, inner) = labels();
        labs[7] = T::Raw { name: "b".into(), attrs: attrs(&[("class", "x")]), content: "raw".into() };
        shapes(&fam, ctx, &labs, inner, ctx.bound(4, 5));
    }

    let fam = ctx.family(
        "iterator-methods",
        "every tree of up to 5 (thorough: 6) nodes: descendants of its root and of its first child, and the children of the root both ways, used by every script of up to 2 (thorough: 3) of 18 uses followed by each of 20 endings, the size hint checked after each use; every node type",
    );
    if fam.active() {
        let shapes: Vec<_> = (1..=ctx.bound(5, 6)).flat_map(gen::forests).filter(|s| s.iter().filter(|d| **d == 0).count() == 1).collect();
        ctx.par(shapes.len() * KINDS.len(), |j| {
            let (sh, kind) = (&shapes[j / KINDS.len()], KINDS[j % KINDS.len()]);
            let len = if sh.len() > 4 && kind != Kind::User { 1 } else { ctx.bound(2, 3) };
            let ts = forest(sh, &mut |i| elem(if i % 2 == 0 { "a" } else { "b" }, &[]));
            fn on<N: Build>(ts: &[T], len: usize, kids: impl Fn(&N, &dyn Fn(&N) -> usize) -> Result<u64, String>) -> Result<Seen, String> {
                let s = soup::<N>(ts);
                let root = s.strict().first().ok_or("no root")?;
                let mut all = vec![];
                walk(&*root, &mut all);
                let id = |p: &N| all.iter().position(|a| *a == p as Ptr<N>).unwrap_or(99);
                let mut n = mc::iters::scripts(&|| root.descendants(), &(0..all.len()).collect::<Vec<_>>(), len, &|p: &&N| id(p))?;
                if let Some(c) = root.children().first() {
                    let mut below = vec![];
                    walk(c, &mut below);
                    n += mc::iters::scripts(&|| c.descendants(), &(1..=below.len()).collect::<Vec<_>>(), len, &|p: &&N| id(p))?;
                }
                n += kids(&*root, &id)?;
                seen(all.len() > 2, &format!("{n}"))
            }
            macro_rules! kids {
                () => {
                    |r, id| {
                        let want: Vec<usize> = r.children().iter().map(id).collect();
                        Ok(mc::iters::scripts(&|| r.iter(), &want, len.min(2), &|p| id(*p))? + mc::iters::scripts(&|| r.into_iter(), &want, len.min(2), &|p| id(*p))?)
                    }
                };
            }
            fam.case(&format!("{}: {sh:?}", kind.name()), || match kind {
                Kind::User => on::<Uni<String>>(&ts, len, |_, _| Ok(0)),
                Kind::UserText => on::<Uni<Own>>(&ts, len, |_, _| Ok(0)),
                Kind::Tendril => on::<HTMLNode<Tendril>>(&ts, len, kids!()),
                Kind::Cow => on::<HTMLNode<Cow<'static, str>>>(&ts, len, kids!()),
                Kind::Xml => on::<XMLNode>(&ts, len, kids!()),
            });
        });
    }

    let fam = ctx.family(
        "texts",
        "every tree of up to 5 (thorough: 6) nodes over elements and texts (empty, a newline, two words, comment): all_text joins all of them, empty ones included",
    );
    if fam.active() {
        let labs = vec![
            elem("e", &[]),
            T::Text(String::new()),
            T::Text("\n".into()),
            T::Text("a b".into()),
            T::Comment("no".into()),
        ];
        shapes(&fam, ctx, &labs, 1, ctx.bound(5, 6));
    }

    let fam = ctx.family(
        "shapes",
        "every tree of up to 9 (thorough: 11) nodes, each a text as well (user nodes may be both): descendants and all_text of every node",
    );
    if fam.active() {
        let shapes: Vec<_> = (1..=ctx.bound(9, 11)).flat_map(gen::forests).collect();
        ctx.par(shapes.len(), |j| {
            fam.case(&format!("{:?}", shapes[j]), || {
                let ts = forest(&shapes[j], &mut |_| elem("e", &[]));
                let s: Soup<Uni<String>> = {
                    let mut id = 0;
                    let mut us: Vec<Uni<String>> = ts.iter().map(|t| Uni::build(t, &mut id)).collect();
                    fn texts(u: &mut Uni<String>) {
                        u.text = Some(format!("t{}", u.id));
                        u.kids.iter_mut().for_each(texts);
                    }
                    us.iter_mut().for_each(texts);
                    soup_of(us)
                };
                let mut at = 0;
                fn check(u: &Uni<String>, at: &mut usize) -> Result<(), String> {
                    let from = *at;
                    *at += 1;
                    for c in u.children() {
                        check(c, at)?;
                    }
                    let ids: Vec<usize> = u.descendants().map(|d| d.id).collect();
                    if ids != (from..*at).collect::<Vec<_>>() {
                        return Err(format!("descendants of {from}: {ids:?}, expected {from}..{at}"));
                    }
                    let want: Vec<String> = (from..*at).map(|i| format!("t{i}")).collect();
                    if u.all_text() != want.join("\n") {
                        return Err(format!("all_text of {from}: {:?}", u.all_text()));
                    }
                    Ok(())
                }
                for i in s.strict().all() {
                    check(&i, &mut at)?;
                }
                seen(shapes[j].iter().max() > Some(&1), &format!("{:?}", shapes[j]))
            });
        });
    }

    let fam = ctx.family(
        "parsed-documents",
        "every forest of up to 4 (thorough: 5) nodes over elements, texts and comments, written out and parsed by each parser: accessors and traversals of every node",
    );
    if fam.active() {
        let labs = vec![elem("i", &[("x", "1")]), elem("u", &[]), T::Text("t".into()), T::Text("é\u{1F600}".into()), T::Comment("c".into())];
        fn markup(ts: &[T]) -> String {
            ts.iter()
                .map(|t| match t {
                    T::El { name, attrs, kids } => {
                        let a: String = attrs.iter().map(|(k, v)| format!(" {k}=\"{v}\"")).collect();
                        format!("<{name}{a}>{}</{name}>", markup(kids))
                    }
                    T::Text(t) => t.clone(),
                    T::Comment(t) => format!("<!--{t}-->"),
                    _ => unreachable!(),
                })
                .collect()
        }
        fn bad(ts: &[T]) -> bool {
            ts.windows(2).any(|w| matches!(w, [T::Text(_), T::Text(_)])) || ts.iter().any(|t| bad(t.kids()))
        }
        let shapes: Vec<_> = (1..=ctx.bound(4, 5)).flat_map(gen::forests).collect();
        ctx.par(shapes.len(), |j| {
            labelled(&shapes[j], &labs, 2, &mut |_, ts| {
                if bad(&ts) {
                    return;
                }
                let m = markup(&ts);
                let e = |n: &str, k: Vec<T>| T::El { name: n.into(), attrs: attrs(&[]), kids: k };
                fam.case(&format!("strict: {m}"), || {
                    let s = Soup::html_strict(&m).map_err(|e| format!("{e:?}"))?;
                    of_soup(&s, &ts)
                });
                fam.case(&format!("xml: {m}"), || {
                    let s = Soup::xml(format!("<r>{m}</r>").as_bytes()).map_err(|e| format!("{e:?}"))?;
                    of_soup(&s, &Kind::Xml.view(&[e("r", ts.clone())]))
                });
                fam.case(&format!("lenient: {m}"), || {
                    let s = Soup::html(format!("<html><head></head><body>{m}</body></html>"));
                    of_soup(&s, &[e("html", vec![e("head", vec![]), e("body", ts.clone())])])
                });
            });
        });
    }

    let fam = ctx.family(
        "get",
        "attribute sets of every size up to 40 (thorough: 120) with look-alike names, asked for each of them, for near misses and with every argument type (str, String); HTML over String, Tendril and Cow, XML, user nodes",
    );
    if fam.active() {
        ctx.par(ctx.bound(40, 120), |n| {
            let m: BTreeMap<String, String> = (0..n).map(|i| (format!("n{}{}", "x".repeat(i % 3), i / 3), format!("v{i}"))).collect();
            fam.case(&format!("{n} attributes"), || {
                let own = HTMLNode::Void { name: "e".to_string(), attrs: m.clone() };
                let ten = HTMLNode::<Tendril>::build(&T::Void { name: "e".into(), attrs: m.clone() }, &mut 0);
                let cow = HTMLNode::<Cow<'static, str>>::build(&T::Void { name: "e".into(), attrs: m.clone() }, &mut 0);
                let xml = XMLNode::Element(XMLElement { name: "e".into(), attributes: m.clone(), ..XMLElement::default() });
                let uni = Uni::<Own>::build(&T::Void { name: "e".into(), attrs: m.clone() }, &mut 0);
                let mut names: Vec<String> = m.keys().cloned().collect();
                for k in m.keys() {
                    names.extend([format!("{k} "), k.to_uppercase(), k[1..].to_string(), format!("{k}0"), k[..k.len() - 1].to_string()]);
                }
                names.push(String::new());
                for k in &names {
                    let want = m.get(k).map(String::as_str);
                    let got = [
                        own.get(k.as_str()).map(String::as_str),
                        own.get(k).map(String::as_str),
                        ten.get(k.as_str()).map(|t| t.as_ref()),
                        cow.get(intern(k)).map(AsRef::as_ref),
                        xml.get(k.as_str()).map(String::as_str),
                        xml.get(k).map(String::as_str),
                        uni.get(k.as_str()).map(AsRef::as_ref),
                    ];
                    if got != [want; 7] {
                        return Err(format!("get({k:?}): {got:?}, expected {want:?} each"));
                    }
                }
                seen(n > 0, &n.to_string())
            });
        });
    }

    let fam = ctx.family(
        "long-texts",
        "texts, names and attribute values of every length up to 300 (thorough: 2000) and around round numbers up to 300000 (3 million), of one letter, of two-byte letters, of words, lines or spaces, alone and between other texts: text, name, get and all_text, every node type",
    );
    if fam.active() {
        let ns = gen::sizes(ctx.bound(300, 2000), ctx.bound(300_000, 3_000_000));
        let fills = ["x", "é", "ab c\n", "\n", " ", "&amp;", "\u{1f600}"];
        ctx.par(ns.len() * fills.len(), |j| {
            let (n, fill) = (ns[ns.len() - 1 - j / fills.len()], fills[j % fills.len()]);
            let text: String = fill.chars().cycle().take(n).collect();
            let e = |name: &str, list: &[(&str, &str)], kids: Vec<T>| T::El { name: name.into(), attrs: attrs(list), kids };
            let ts = vec![
                e("a", &[("b", &text), (&text, "c")], vec![T::Text(text.clone())]),
                e(&text, &[], vec![T::Text("u".into()), e("b", &[], vec![T::Text(text.clone())]), T::Text("v".into()), T::Text(text.clone())]),
            ];
            fn on<N: Build>(ts: &[T], text: &str) -> Result<Seen, String>
            where
                N::Text: AsRef<str> + std::fmt::Display + for<'a> From<&'a str> + Ord,
            {
                let s = soup::<N>(ts);
                let top: Vec<_> = s.strict().all().collect();
                let is = |what: &str, got: Option<&N::Text>, want: &str| match got {
                    Some(g) if g.as_ref() == want => Ok(()),
                    Some(g) => Err(format!("{what} has {} bytes, expected {}", g.as_ref().len(), want.len())),
                    None => Err(format!("{what} is missing")),
                };
                is("get(b)", top[0].get("b"), text)?;
                is("get(text)", top[0].get(text), if text == "b" { text } else { "c" })?;
                is("text()", top[0].children()[0].text(), text)?;
                is("name()", top[1].name(), text)?;
                for (i, want) in [(0, text.to_string()), (1, format!("u\n{text}\nv\n{text}"))] {
                    let got = top[i].all_text();
                    if got != want {
                        return Err(format!("all_text() has {} bytes, expected {}", got.len(), want.len()));
                    }
                }
                seen(text.len() > 1, &format!("{}", text.len()))
            }
            macro_rules! kinds {
                ($($n:ty),*) => { $( fam.case(&format!("{}: {n} of {fill:?}", <$n>::NAME), || on::<$n>(&ts, &text)); )* }
            }
            kinds!(Uni<String>, Uni<Own>, HTMLNode<Tendril>, HTMLNode<String>, XMLNode);
        });
    }

    let fam = ctx.family(
        "large",
        "chains, wide trees and combs of 1 to 200 (thorough: 1000) and of 1000 to 300000 nodes: descendants and all_text of the root",
    );
    if fam.active() {
        let mut ns: Vec<usize> = (1..=ctx.bound(200, 1000)).collect();
        ns.extend([1000, 10_000, 100_000, 300_000]);
        ctx.par(ns.len() * 3, |j| {
            let n = ns[ns.len() - 1 - j / 3];
            let mk = |id: usize, kids| Uni::<String> { id, name: Some("n".into()), text: (id % 3 == 0).then(|| id.to_string()), attrs: None, kids, kind: 0, other: String::new() };
            fam.case(&format!("{} of {n}", ["chain", "wide", "comb"][j % 3]), || {
                let root = match j % 3 {
                    0 => (0..n).rev().fold(None, |k: Option<Uni<String>>, i| Some(mk(i, k.into_iter().collect()))).unwrap(),
                    1 => mk(0, (1..n).map(|i| mk(i, vec![])).collect()),
                    _ => {
                        // 0 with children 1 (a leaf) and 2, 2 with 3 and 4, ...
                        let m = n / 2 * 2;
                        let mut u = mk(m, vec![]);
                        for i in (0..m / 2).rev() {
                            u = mk(2 * i, vec![mk(2 * i + 1, vec![]), u]);
                        }
                        u
                    }
                };
                let count = if j % 3 == 2 { n / 2 * 2 + 1 } else { n };
                if let Some(k) = root.descendants().map(|d| d.id).zip(0..).position(|(a, b)| a != b) {
                    return Err(format!("descendant {k} is another one"));
                }
                let got = root.descendants().count();
                if got != count {
                    return Err(format!("{got} descendants, expected {count}"));
                }
                let want: Vec<String> = (0..count).step_by(3).map(|i| i.to_string()).collect();
                if root.all_text() != want.join("\n") {
                    return Err("all_text() differs".into());
                }
                seen(n > 2, &format!("{n} {}", j % 3))
            });
        });
    }
}

fn main() {
    mc::runner::main("C18", "model_checking", run)
}
