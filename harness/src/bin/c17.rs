//! C17: querying a result searches exactly its contents.

use std::{borrow::Cow, cell::Cell, collections::BTreeMap, sync::atomic::Ordering::Relaxed};

use mc::{
    engine::{fnv, seen, Ctx, Fam, Seen},
    gen,
    qmodel::*,
    tree::{ToT, T},
};
use soupy::{
    parser::{HTMLNode, XMLElement, XMLNode},
    Node, Pattern, Queryable, Soup,
};

/// The soup `sub` holds exactly the forest `kids`: by strict, by default, by count, by `into_iter`.
fn holds<N: Node + ToT>(sub: &Soup<N>, kids: &[T]) -> Result<(), String> {
    let tops: Vec<T> = sub.strict().all().map(|i| i.to_t()).collect();
    if tops != kids {
        return Err(format!("its soup's top-level nodes are {tops:?}, expected {kids:?}"));
    }
    let pre = preorder(kids);
    let got: Vec<T> = sub.iter().map(|i| i.to_t()).collect();
    if got.len() != pre.len() || got.iter().zip(&pre).any(|(a, b)| a != b.0) {
        return Err(format!("its soup has the nodes {got:?}, expected all of {kids:?}"));
    }
    if sub.into_iter().count() != pre.len() || sub.recursive().all().count() != pre.len() {
        return Err("its soup has another number of nodes when iterated".into());
    }
    Ok(())
}

/// Compares every public field of an XML node.
fn same_xml(a: &XMLNode, b: &XMLNode) -> Result<(), String> {
    use XMLNode::{CData, Comment, Element, ProcessingInstruction, Text};
    let same = match (a, b) {
        (Element(a), Element(b)) => {
            if a.prefix != b.prefix || a.namespace != b.namespace || a.name != b.name || a.attributes != b.attributes {
                return Err(format!("{b:?} instead of {a:?}"));
            }
            let map = |e: &XMLElement| e.namespaces.as_ref().map(|n| n.0.clone());
            if map(a) != map(b) || a.children.len() != b.children.len() {
                return Err(format!("{b:?} instead of {a:?}"));
            }
            for (a, b) in a.children.iter().zip(&b.children) {
                same_xml(a, b)?;
            }
            true
        }
        (Comment(a), Comment(b)) | (CData(a), CData(b)) | (Text(a), Text(b)) => a == b,
        (ProcessingInstruction(a, x), ProcessingInstruction(b, y)) => a == b && x == y,
        _ => false,
    };
    if same { Ok(()) } else { Err(format!("{b:?} instead of {a:?}")) }
}

/// The namespaces in scope in some document: their type belongs to a crate this one does not name.
macro_rules! scope {
    () => {
        Soup::xml(&b"<p:a xmlns:p='u'/>"[..]).ok().and_then(|s| match &*s.strict().first()? {
            XMLNode::Element(e) => Some(XMLElement { namespaces: Some(e.namespaces.as_ref()?.clone()), ..XMLElement::default() }),
            _ => None,
        })
    };
}

fn every_field(fam: &Fam) {
    let opts = [None, Some(""), Some("p"), Some("urn:x")];
    let some = |o: Option<&str>| o.map(String::from);
    let leaves = || {
        let mut v = vec![];
        for t in ["", "t", " \n", "é", "<![CDATA["] {
            v.extend([XMLNode::Text(t.into()), XMLNode::CData(t.into()), XMLNode::Comment(t.into())]);
            v.extend(opts.map(|o| XMLNode::ProcessingInstruction(t.into(), some(o))));
        }
        v
    };
    let maps: [&[(&str, &str)]; 4] = [&[], &[("", "urn:x")], &[("p", "urn:x"), ("q", "")], &[("xml", "http://www.w3.org/XML/1998/namespace"), ("", ""), ("p", "p")]];
    let pairs = |m: &[(&str, &str)]| m.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<BTreeMap<_, _>>();
    for (i, prefix) in opts.iter().enumerate() {
        for (j, ns) in opts.iter().enumerate() {
            for k in 0..=maps.len() {
                for name in ["", "a", "p:a"] {
                    for a in maps {
                        for kids in 0..4 {
                            let e = |children: Vec<XMLNode>| {
                                let mut e = XMLElement { prefix: some(*prefix), namespace: some(*ns), name: name.into(), attributes: pairs(a), children, ..XMLElement::default() };
                                if k > 0 {
                                    e.namespaces = scope!().expect("an element").namespaces;
                                    e.namespaces.as_mut().expect("namespaces").0 = pairs(maps[k - 1]);
                                }
                                XMLNode::Element(e)
                            };
                            // built anew each time: how nodes are cloned is what is looked at
                            let below = || match kids {
                                0 => vec![],
                                1 => vec![e(vec![])],
                                2 => vec![e(vec![e(vec![]), XMLNode::Text("t".into())]), e(vec![])],
                                _ => {
                                    let mut v = vec![e(leaves())];
                                    v.extend(leaves());
                                    v
                                }
                            };
                            fam.case(&format!("{i} {j} {k} {name:?} {} {kids}", a.len()), || {
                                let s = soup_of(vec![e(below()), XMLNode::Comment("c".into())]);
                                let want = below();
                                let item = s.strict().first().ok_or("no result")?;
                                let q = item.query();
                                let got: Vec<_> = q.strict().all().collect();
                                if got.len() != want.len() {
                                    return Err(format!("{} nodes, not {}", got.len(), want.len()));
                                }
                                for (g, w) in got.iter().zip(&want) {
                                    same_xml(w, g)?;
                                }
                                seen(kids > 0, &format!("{}", got.len()))
                            });
                        }
                    }
                }
            }
        }
    }
}

/// As `holds`, for what is too deep to compare every subtree with another.
fn whole<N: Node + ToT>(sub: &Soup<N>, kids: &[T]) -> Result<(), String> {
    let tops: Vec<T> = sub.strict().all().map(|i| i.to_t()).collect();
    if tops != kids {
        return Err("another forest".into());
    }
    let n = preorder(kids).len();
    if sub.iter().count() != n || sub.recursive().all().count() != n {
        return Err("its soup has another number of nodes when iterated".into());
    }
    Ok(())
}

fn contents<N: Build + PartialEq + std::fmt::Debug>(kind: Kind, ts: &[T]) -> Result<Seen, String> {
    let s = soup::<N>(ts);
    let view = kind.view(ts);
    let pre = preorder(&view);
    let (mut inner, mut h) = (false, 0u64);
    for (k, item) in s.iter().enumerate() {
        let t = pre.get(k).ok_or("too many nodes")?.0;
        let sub = item.query();
        holds(&sub, t.kids()).map_err(|e| format!("node {k}: {e}"))?;
        // equal as the node type itself sees it
        if !sub.strict().all().map(|i| (*i).clone()).eq(item.children().iter().cloned()) {
            return Err(format!("node {k}: its soup's nodes are not equal to its children"));
        }
        // asked again
        holds(&item.query(), t.kids()).map_err(|e| format!("node {k}, asked again: {e}"))?;
        // the original is as before
        if &item.to_t() != t {
            return Err(format!("node {k} has changed"));
        }
        inner |= !t.kids().is_empty();
        h = fnv(h, &[sub.iter().count() as u8]);
    }
    for (k, item) in s.strict().all().enumerate() {
        holds(&item.query(), view[k].kids()).map_err(|e| format!("top-level node {k}: {e}"))?;
    }
    for (k, item) in s.tag(true).all().enumerate() {
        let t = pre.iter().filter(|p| p.0.name().is_some()).nth(k).ok_or("too many elements")?.0;
        holds(&item.query(), t.kids()).map_err(|e| format!("element {k}: {e}"))?;
    }
    seen(inner, &format!("{h:x}"))
}

fn dispatch(kind: Kind, ts: &[T]) -> Result<Seen, String> {
    match kind {
        Kind::User => contents::<Uni<String>>(kind, ts),
        Kind::UserText => contents::<Uni<Own>>(kind, ts),
        Kind::Tendril => contents::<HTMLNode<Tendril>>(kind, ts),
        Kind::Cow => contents::<HTMLNode<Cow<'static, str>>>(kind, ts),
        Kind::Xml => contents::<XMLNode>(kind, ts),
    }
}

/// Makes the soup of the node at each path, drops the soups it came from in the given order, and looks
/// at what is left after each.
fn survive<N: Build>(kind: Kind, ts: &[T], order: &[usize]) -> Result<Seen, String> {
    let view = kind.view(ts);
    let pre = preorder(&view);
    let n = pre.len();
    let mut deep = false;
    for i in 0..n {
        let kids = pre[i].0.kids();
        let kpre = preorder(kids);
        for j in 0..kpre.len() {
            let root = soup::<N>(ts);
            let sub = root.iter().nth(i).ok_or("node missing")?.query();
            let subsub = sub.iter().nth(j).ok_or("node missing")?.query();
            let want = [&view[..], kids, kpre[j].0.kids()];
            deep |= !want[2].is_empty();
            let mut soups = [Some(root), Some(sub), Some(subsub)];
            for d in order {
                soups[*d] = None;
                for (s, w) in soups.iter().zip(want) {
                    if let Some(s) = s {
                        holds(s, w).map_err(|e| format!("nodes {i}, {j}, soup {d} dropped: {e}"))?;
                    }
                }
            }
        }
    }
    seen(deep, &format!("{order:?}{n}"))
}

/// A user node with state that can change behind a shared reference.
#[derive(Clone)]
struct Changing {
    name: String,
    mark: Cell<u32>,
    kids: Vec<Changing>,
}
impl Node for Changing {
    type Text = String;
    fn name(&self) -> Option<&String> {
        Some(&self.name)
    }
    fn text(&self) -> Option<&String> {
        None
    }
    fn attrs(&self) -> Option<&std::collections::BTreeMap<String, String>> {
        None
    }
    fn children(&self) -> &[Self] {
        &self.kids
    }
}

fn changing(t: &T) -> Changing {
    Changing { name: t.name().cloned().unwrap_or_default(), mark: Cell::new(0), kids: t.kids().iter().map(changing).collect() }
}

fn ids(s: &Soup<Uni<String>>, ops: &[Op]) -> Vec<usize> {
    run_ids(s, ops)
}

fn run_ids(s: &Soup<Uni<String>>, ops: &[Op]) -> Vec<usize> {
    let mut out = vec![];
    for p in run::<Uni<String>, Any, One>(s, ops, How::All) {
        // the soup lives on while we look
        out.push(unsafe { &*p }.id);
    }
    out
}

/// Querying step by step: `steps[0]` on the soup, `steps[1]` on each result's soup, and so on.
fn compose(s: &Soup<Uni<String>>, at: &[T], base: usize, steps: &[Vec<Op>], some: &mut bool) -> Result<(), String> {
    let pre = preorder(at);
    let got = ids(s, &steps[0]);
    let want: Vec<usize> = expect(&pre, &steps[0]).into_iter().map(|i| base + i).collect();
    if got != want {
        return Err(format!("{} found {got:?}, expected {want:?}", show(&steps[0])));
    }
    if steps.len() == 1 {
        *some |= !want.is_empty();
        return Ok(());
    }
    for (k, item) in s.iter().enumerate() {
        let id = item.id;
        if want.contains(&id) {
            let kids = pre[k].0.kids();
            // ids count in document order: the first child follows its parent
            compose(&item.query(), kids, id + 1, &steps[1..], some).map_err(|e| format!("in node {id}: {e}"))?;
        }
    }
    Ok(())
}

fn steps(fam: &Fam, s: &Soup<Uni<String>>, ts: &[T], st: &[Vec<Op>]) {
    let d: Vec<String> = st.iter().map(|o| show(o)).collect();
    fam.case(&format!("{}: {}", desc(ts), d.join(" then ")), || {
        let mut some = false;
        compose(s, ts, 0, st, &mut some)?;
        seen(some, &d.join("/"))
    });
}

fn parsed<N>(s: &Soup<N>, ts: &[T]) -> Result<Seen, String>
where
    N: Node + ToT + Clone,
    N::Text: Ord + AsRef<str> + From<&'static str>,
    &'static str: Pattern<N::Text>,
{
    holds(s, ts)?;
    let pre = preorder(ts);
    let mut deep = false;
    for (k, item) in s.iter().enumerate() {
        let kids = pre[k].0.kids();
        let sub = item.query();
        holds(&sub, kids).map_err(|e| format!("node {k}: {e}"))?;
        let kpre = preorder(kids);
        for tag in ["i", "b", "p"] {
            let want: Vec<&T> = kpre.iter().map(|p| p.0).filter(|t| t.name().is_some_and(|n| n == tag)).collect();
            let got: Vec<T> = sub.tag(tag).all().map(|i| i.to_t()).collect();
            if got.iter().ne(want.iter().copied()) {
                return Err(format!("node {k}: tag({tag}) in its soup found {got:?}, expected {want:?}"));
            }
            deep |= !want.is_empty();
        }
        let want: Vec<&T> = kids.iter().filter(|t| t.attrs().is_some_and(|a| a.get("class").is_some_and(|c| c == "c"))).collect();
        let got: Vec<T> = sub.strict().class("c").all().map(|i| i.to_t()).collect();
        if got.iter().ne(want.iter().copied()) {
            return Err(format!("node {k}: strict().class in its soup found {got:?}, expected {want:?}"));
        }
    }
    seen(deep, &desc(ts))
}

fn run_all(ctx: &Ctx) {
    let fam = ctx.family(
        "contents",
        "every forest of up to 4 (user nodes and thorough: 5) nodes over 8 labels, every node type: the soup of every node, found in three ways; non-trivial if some node has children",
    );
    if fam.active() {
        let (labs, inner) = labels();
        let shapes: Vec<_> = (1..=5).flat_map(gen::forests).collect();
        ctx.par(shapes.len() * KINDS.len(), |j| {
            let (sh, kind) = (&shapes[j / KINDS.len()], KINDS[j % KINDS.len()]);
            if sh.len() == 5 && !ctx.thorough() && kind != Kind::User {
                return;
            }
            labelled(sh, &labs, inner, &mut |_, ts| {
                ctx.states.fetch_add(1, Relaxed);
                ctx.transitions.fetch_add(sh.len() as u64, Relaxed);
                ctx.traces.fetch_add(sh.len() as u64, Relaxed);
                fam.case(&format!("{}: {}", kind.name(), desc(&ts)), || dispatch(kind, &ts));
            });
        });
    }

    let fam = ctx.family(
        "every-field",
        "XML elements with every combination of prefix, namespace, namespaces in scope, name, attributes and children, and every kind of node with every content, as children and grandchildren of a result: field by field the same in its soup",
    );
    if fam.active() {
        every_field(&fam);
    }

    let fam = ctx.family(
        "dictionary",
        "every pair of strings out of a dictionary (the literals of the code under test, and well-known names and values) as names, attributes, texts and comments of a forest: the soup of every node; one node type for each pair (thorough: every node type)",
    );
    if fam.active() {
        let d = mc::lits::dictionary();
        let k = d.len();
        ctx.par(k * k, |i| {
            let ts = pair_forest(&d[i / k], &d[i % k]);
            for (n, kind) in KINDS.iter().enumerate() {
                if ctx.thorough() || i / k == i % k || n == (i / k + i % k) % KINDS.len() {
                    fam.case(&format!("{}: {:?} {:?}", kind.name(), d[i / k], d[i % k]), || dispatch(*kind, &ts));
                }
            }
        });
    }

    let fam = ctx.family(
        "survival",
        "every forest of up to 4 (thorough: 5) nodes, every node's soup and every soup of a node of that, the three soups dropped in each of 6 orders: what is left stays as it was, every node type",
    );
    if fam.active() {
        let shapes: Vec<_> = (1..=ctx.bound(4, 5)).flat_map(gen::forests).collect();
        let orders = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        let labs = [elem("a", &[("x", "a text long enough to be on the heap")]), elem("b", &[("class", "c")])];
        ctx.par(shapes.len() * KINDS.len(), |j| {
            let (sh, kind) = (&shapes[j / KINDS.len()], KINDS[j % KINDS.len()]);
            labelled(sh, &labs, 2, &mut |_, ts| {
                for o in orders {
                    fam.case(&format!("{}: {} dropped {o:?}", kind.name(), desc(&ts)), || match kind {
                        Kind::User => survive::<Uni<String>>(kind, &ts, &o),
                        Kind::UserText => survive::<Uni<Own>>(kind, &ts, &o),
                        Kind::Tendril => survive::<HTMLNode<Tendril>>(kind, &ts, &o),
                        Kind::Cow => survive::<HTMLNode<Cow<'static, str>>>(kind, &ts, &o),
                        Kind::Xml => survive::<XMLNode>(kind, &ts, &o),
                    });
                }
            });
        });
    }

    let fam = ctx.family(
        "a-copy",
        "user nodes with a mark that can be changed: every forest of up to 5 (thorough: 6) nodes, every node's soup; then every single mark of the original is changed, and every one of the copy: neither shows in the other",
    );
    if fam.active() {
        let shapes: Vec<_> = (1..=ctx.bound(5, 6)).flat_map(gen::forests).collect();
        ctx.par(shapes.len(), |j| {
            let ts = forest(&shapes[j], &mut |_| elem("a", &[]));
            fam.case(&desc(&ts), || {
                let s = soup_of(ts.iter().map(changing).collect::<Vec<_>>());
                for (i, item) in s.iter().enumerate() {
                    let sub = item.query();
                    for (k, n) in s.iter().enumerate() {
                        n.mark.set(1);
                        if let Some(b) = sub.iter().position(|n| n.mark.get() != 0) {
                            return Err(format!("changing node {k} changed node {b} of the soup of node {i}"));
                        }
                        n.mark.set(0);
                    }
                    for (k, n) in sub.iter().enumerate() {
                        n.mark.set(1);
                        if let Some(b) = s.iter().position(|n| n.mark.get() != 0) {
                            return Err(format!("changing node {k} of the soup of node {i} changed node {b}"));
                        }
                        n.mark.set(0);
                    }
                }
                seen(ts.iter().any(|t| !t.kids().is_empty()), &desc(&ts))
            });
        });
    }

    let fam = ctx.family(
        "steps",
        "querying step by step: every pair of conditions, with and without strict on either, on two rich trees; every triple of 12 conditions; and pairs of 8 conditions on every forest of up to 4 (thorough: 5) nodes",
    );
    if fam.active() {
        let (labs, inner) = labels();
        let e = |n: &str, a: &[(&str, &str)], k: Vec<T>| T::El { name: n.into(), attrs: attrs(a), kids: k };
        let l2 = vec![
            e("a", &[("x", "1")], labs.clone()),
            e("b", &[("class", "c")], vec![e("a", &[], labs.clone()), e("x", &[("y", "2")], vec![T::Text("x".into())])]),
            T::Text("a".into()),
        ];
        let trees = [
            vec![e("a", &[("x", "2")], l2.clone()), e("b", &[("x", "1")], l2.clone())],
            vec![e("x", &[("class", "x")], vec![e("a", &[("class", "c"), ("y", "1")], l2.clone())]), T::Comment("a".into())],
        ];
        let conds = conditions();
        ctx.par(conds.len() * trees.len(), |j| {
            let (a, ts) = (&conds[j / trees.len()], &trees[j % trees.len()]);
            let s = soup::<Uni<String>>(ts);
            for b in &conds {
                for m in 0..4 {
                    let mk = |o: &Op, st: bool| if st { vec![o.clone(), Op::Strict] } else { vec![o.clone()] };
                    steps(&fam, &s, ts, &[mk(a, m & 1 > 0), mk(b, m & 2 > 0)]);
                }
            }
        });
        let few: Vec<Op> = conds.iter().step_by(4).cloned().collect();
        ctx.par(few.len() * trees.len(), |j| {
            let (a, ts) = (&few[j / trees.len()], &trees[j % trees.len()]);
            let s = soup::<Uni<String>>(ts);
            for i in 0..few.len() * few.len() {
                steps(&fam, &s, ts, &[vec![a.clone()], vec![few[i / few.len()].clone()], vec![few[i % few.len()].clone()]]);
            }
        });
        let six: Vec<Vec<Op>> = vec![
            vec![],
            vec![Op::Strict],
            vec![Op::Tag(P::Str("a"))],
            vec![Op::Tag(P::Str("b")), Op::Strict],
            vec![Op::Name(P::Str("x"))],
            vec![Op::Strict, Op::Tag(P::True)],
        ];
        let labs = labs[..5].to_vec();
        let shapes: Vec<_> = (1..=ctx.bound(4, 5)).flat_map(gen::forests).collect();
        ctx.par(shapes.len(), |j| {
            labelled(&shapes[j], &labs, inner, &mut |_, ts| {
                let s = soup::<Uni<String>>(&ts);
                for i in 0..36 {
                    steps(&fam, &s, &ts, &[six[i / 6].clone(), six[i % 6].clone()]);
                }
            });
        });
    }

    let fam = ctx.family(
        "parsed-documents",
        "every forest of up to 4 (thorough: 5) nodes over elements and text, written out and parsed by each parser: the soup of every node and queries in it",
    );
    if fam.active() {
        let labs = vec![elem("i", &[]), elem("p", &[("class", "c")]), elem("b", &[("id", "x")]), T::Text("t".into())];
        fn markup(ts: &[T]) -> String {
            ts.iter()
                .map(|t| match t {
                    T::El { name, attrs, kids } => {
                        let a: String = attrs.iter().map(|(k, v)| format!(" {k}=\"{v}\"")).collect();
                        format!("<{name}{a}>{}</{name}>", markup(kids))
                    }
                    T::Text(t) => t.clone(),
                    _ => unreachable!(),
                })
                .collect()
        }
        fn bad(ts: &[T]) -> bool {
            ts.windows(2).any(|w| matches!(w, [T::Text(_), T::Text(_)])) || ts.iter().any(|t| bad(t.kids()))
        }
        // what HTML rearranges: p in p; b and i, which it reconstructs, stay inside their p
        fn html(ts: &[T], in_p: bool, in_f: bool) -> bool {
            ts.iter().all(|t| match t.name().map(String::as_str) {
                Some("p") => !in_p && !in_f && html(t.kids(), true, false),
                Some(_) => html(t.kids(), in_p, true),
                None => true,
            })
        }
        let shapes: Vec<_> = (1..=ctx.bound(4, 5)).flat_map(gen::forests).collect();
        ctx.par(shapes.len(), |j| {
            labelled(&shapes[j], &labs, 3, &mut |_, ts| {
                if bad(&ts) {
                    return;
                }
                let m = markup(&ts);
                let e = |n: &str, k: Vec<T>| T::El { name: n.into(), attrs: attrs(&[]), kids: k };
                ctx.traces.fetch_add(3, Relaxed);
                fam.case(&format!("strict: {m}"), || {
                    let s = Soup::html_strict(intern(&m)).map_err(|e| format!("{e:?}"))?;
                    parsed(&s, &ts)
                });
                fam.case(&format!("xml: {m}"), || {
                    let s = Soup::xml(format!("<r>{m}</r>").as_bytes()).map_err(|e| format!("{e:?}"))?;
                    parsed(&s, &Kind::Xml.view(&[e("r", ts.clone())]))
                });
                if html(&ts, false, false) {
                    fam.case(&format!("lenient: {m}"), || {
                        let s = Soup::html(format!("<html><head></head><body>{m}</body></html>"));
                        parsed(&s, &[e("html", vec![e("head", vec![]), e("body", ts.clone())])])
                    });
                }
            });
        });
    }

    let fam = ctx.family(
        "step-depth",
        "a chain of every number up to 60 (thorough: 300), and some beyond, of elements with a text at each level, walked down one soup at a time to the end, every node type",
    );
    if fam.active() {
        let sizes = gen::sizes(ctx.bound(60, 300), ctx.bound(1025, 5000));
        ctx.par(sizes.len() * KINDS.len(), |j| {
            let (n, kind) = (sizes[sizes.len() - 1 - j / KINDS.len()], KINDS[j % KINDS.len()]);
            let mut ts = vec![T::Text("end".into())];
            for i in 0..n {
                ts = vec![T::Text(format!("t{i}")), T::El { name: "a".into(), attrs: attrs(&[("x", &i.to_string())]), kids: ts }];
            }
            fn down<N: Build>(kind: Kind, ts: &[T], n: usize) -> Result<Seen, String>
            where
                N::Text: AsRef<str> + From<&'static str> + Ord,
                &'static str: Pattern<N::Text>,
            {
                let mut s = soup::<N>(ts);
                let mut at = &kind.view(ts)[..];
                for i in 0..n {
                    let item = s.tag("a").first().ok_or_else(|| format!("nothing at level {i}"))?;
                    if item.to_t() != at[1] {
                        return Err(format!("level {i}: found another node"));
                    }
                    let next = item.query();
                    at = at[1].kids();
                    s = next;
                }
                holds(&s, at)?;
                seen(true, &n.to_string())
            }
            fam.case(&format!("{}: {n}", kind.name()), || match kind {
                Kind::User => down::<Uni<String>>(kind, &ts, n),
                Kind::UserText => down::<Uni<Own>>(kind, &ts, n),
                Kind::Tendril => down::<HTMLNode<Tendril>>(kind, &ts, n),
                Kind::Cow => down::<HTMLNode<Cow<'static, str>>>(kind, &ts, n),
                Kind::Xml => down::<XMLNode>(kind, &ts, n),
            });
        });
    }

    let fam = ctx.family(
        "deep-results",
        "results with chains of up to 60 (thorough: 300), and around round numbers up to 10000 (30000), of elements below them, in the middle of a document or as its root: the soup of what is in one, every node type",
    );
    if fam.active() {
        let sizes = gen::sizes(ctx.bound(60, 300), ctx.bound(10_001, 30_001));
        ctx.par(sizes.len() * KINDS.len(), |j| {
            let (n, kind) = (sizes[sizes.len() - 1 - j / KINDS.len()], KINDS[j % KINDS.len()]);
            let mut ts = vec![T::Text("end".into())];
            for i in 0..n {
                ts = vec![T::Text("t".into()), T::El { name: "a".into(), attrs: attrs(&[("x", &i.to_string())]), kids: ts }, T::Comment("c".into())];
            }
            fn deep<N: Build>(kind: Kind, ts: &[T], n: usize) -> Result<Seen, String>
            where
                N::Text: AsRef<str> + From<&'static str> + Ord,
                &'static str: Pattern<N::Text>,
            {
                let s = soup::<N>(ts);
                let view = kind.view(ts);
                let item = s.tag("a").first().ok_or("no result")?;
                let q = item.query();
                let kids = view.iter().find(|t| matches!(t, T::El { .. } | T::Xml { .. })).ok_or("no element")?.kids();
                whole(&q, kids)?;
                // half-way down
                let mut at = kids;
                for _ in 1..n / 2 {
                    at = at.iter().find(|t| matches!(t, T::El { .. } | T::Xml { .. })).ok_or("no element")?.kids();
                }
                if let Some(item) = s.tag("a").all().nth((n / 2).max(1) - 1) {
                    whole(&item.query(), at)?;
                }
                seen(true, &n.to_string())
            }
            if n > 0 {
                fam.case(&format!("{}: {n}", kind.name()), || match kind {
                    Kind::User => deep::<Uni<String>>(kind, &ts, n),
                    Kind::UserText => deep::<Uni<Own>>(kind, &ts, n),
                    Kind::Tendril => deep::<HTMLNode<Tendril>>(kind, &ts, n),
                    Kind::Cow => deep::<HTMLNode<Cow<'static, str>>>(kind, &ts, n),
                    Kind::Xml => deep::<XMLNode>(kind, &ts, n),
                });
            }
        });
    }

    let fam = ctx.family(
        "widths",
        "a node with every number of children up to 300 (thorough: 3000), and some far beyond, half of them with a child: its soup holds all of them, every node type",
    );
    if fam.active() {
        let sizes = gen::sizes(ctx.bound(300, 3000), ctx.bound(140_000, 1_100_000));
        ctx.par(sizes.len() * KINDS.len(), |j| {
            let (n, kind) = (sizes[sizes.len() - 1 - j / KINDS.len()], KINDS[j % KINDS.len()]);
            let mut kids = vec![];
            for i in 0..n {
                kids.push(T::El {
                    name: "a".into(),
                    attrs: attrs(&[("x", &i.to_string())]),
                    kids: if i % 2 == 0 { vec![] } else { vec![elem("b", &[])] },
                });
            }
            let ts = vec![T::El { name: "r".into(), attrs: attrs(&[]), kids }];
            fn check<N: Build>(kind: Kind, ts: &[T]) -> Result<Seen, String> {
                let s = soup::<N>(ts);
                let v = kind.view(ts);
                holds(&s.iter().next().ok_or("no node")?.query(), v[0].kids())?;
                seen(!v[0].kids().is_empty(), &v[0].kids().len().to_string())
            }
            fam.case(&format!("{}: {n}", kind.name()), || match kind {
                Kind::User => check::<Uni<String>>(kind, &ts),
                Kind::UserText => check::<Uni<Own>>(kind, &ts),
                Kind::Tendril => check::<HTMLNode<Tendril>>(kind, &ts),
                Kind::Cow => check::<HTMLNode<Cow<'static, str>>>(kind, &ts),
                Kind::Xml => check::<XMLNode>(kind, &ts),
            });
        });
    }
}

fn main() {
    mc::runner::main("C17", "model_checking", run_all)
}
