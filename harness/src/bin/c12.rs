//! C12: a query returns exactly the matching nodes, each once, in document order.

use std::sync::atomic::Ordering::Relaxed;

use mc::{
    engine::{fnv, seen, Ctx, Fam, Seen},
    gen,
    qmodel::*,
    tree::T,
};

fn hash(h: &mut u64, v: &[usize]) {
    *h = v.iter().fold(fnv(*h, b"|"), |h, i| fnv(h, &[*i as u8]));
}

/// One forest on one node type, asked everything in `ops`.
fn tree(fam: &Fam, kind: Kind, ts: &[T], ops: &[Vec<Op>]) {
    fam.case(&format!("{}: {}", kind.name(), desc(ts)), || ask(&*kind.make(ts)?, &kind.view(ts), ops));
}

fn ask(q: &dyn Queried, ts: &[T], ops: &[Vec<Op>]) -> Result<Seen, String> {
    let pre = preorder(ts);
    let (mut h, mut some) = (0, false);
    for o in ops {
        if !offered(q, o) {
            continue;
        }
        let r = compare(q, &pre, o)?;
        some |= !r.is_empty() && r.len() < pre.len();
        hash(&mut h, &r);
    }
    seen(some, &format!("{h:x}"))
}

fn singles() -> Vec<Vec<Op>> {
    std::iter::once(vec![]).chain(conditions().into_iter().map(|c| vec![c])).collect()
}

/// Every combination of conditions on few, rich trees.
fn combos(n: usize, quick: bool) -> Vec<Vec<Op>> {
    let c: Vec<Op> =
        if quick { conditions().into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect() } else { conditions() };
    (0..gen::pow(c.len(), n)).map(|i| gen::word(c.len(), n, i).into_iter().map(|x| c[x].clone()).collect()).collect()
}

fn rich() -> Vec<Vec<T>> {
    let e = |n: &str, a: &[(&str, &str)], k: Vec<T>| T::El { name: n.into(), attrs: attrs(a), kids: k };
    let t = |s: &str| T::Text(s.into());
    let (labs, _) = labels();
    vec![
        // every label on top, inside, and deep down
        vec![e("a", &[], labs.clone()), e("b", &[("x", "1"), ("y", "2")], vec![e("a", &[("class", "1")], labs.clone())])],
        labs.clone(),
        vec![
            t("x"),
            e("a", &[("x", "2"), ("class", "c")], vec![e("x", &[("a", "c")], vec![e("b", &[("y", "")], vec![t("b")])])]),
            T::Doctype("a".into()),
            e("", &[("", "")], vec![]),
            e("b", &[("x", "c"), ("y", "1"), ("z", "x")], vec![t(""), e("a", &[], vec![]), t("1")]),
        ],
    ]
}

fn mark(shape: &[usize], marked: impl Fn(usize) -> bool) -> Vec<T> {
    forest(shape, &mut |i| elem(if marked(i) { "m" } else { "n" }, &[]))
}

fn markup(ts: &[T], html: bool) -> String {
    ts.iter()
        .map(|t| {
            let a = |m: &std::collections::BTreeMap<String, String>| -> String {
                m.iter().map(|(k, v)| format!(" {k}=\"{v}\"")).collect()
            };
            match t {
                T::El { name, attrs, kids } => format!("<{name}{}>{}</{name}>", a(attrs), markup(kids, html)),
                T::Raw { name, attrs, content } => format!("<{name}{}>{content}</{name}>", a(attrs)),
                T::Void { name, attrs } => format!("<{name}{}/>", a(attrs)),
                T::Text(t) => t.clone(),
                T::Comment(c) => format!("<!--{c}-->"),
                T::CData(c) => format!("<![CDATA[{c}]]>"),
                T::Pi(c, _) => format!("<?{c}?>"),
                T::Doctype(c) => format!("<!DOCTYPE {c}>"),
                T::Xml { .. } => unreachable!(),
            }
        })
        .collect()
}

fn adjacent_text(ts: &[T]) -> bool {
    ts.windows(2).any(|w| matches!(w, [T::Text(_), T::Text(_)])) || ts.iter().any(|t| adjacent_text(t.kids()))
}

/// Shapes of large trees, as depth sequences.
pub fn shapes(n: usize) -> Vec<(&'static str, Vec<usize>)> {
    let mut v: Vec<(&'static str, Vec<usize>)> = vec![
        ("chain", (0..n).collect()),
        ("wide", vec![0; n]),
        ("one parent", (0..n).map(|i| usize::from(i > 0)).collect()),
        ("comb", (0..n).map(|i| i / 2 + i % 2).collect()),
        ("comb, tooth first", (0..n).map(|i| if i % 2 == 0 { i / 2 } else { i / 2 + 1 }).collect()),
        ("down and up", (0..n).map(|i| if i <= n / 2 { i } else { n - i }).collect()),
        ("saw", (0..n).map(|i| i % 7).collect()),
        ("deep saw", (0..n).map(|i| i % 100).collect()),
    ];
    for k in [2usize, 3, 10] {
        // complete k-ary tree
        let mut d = vec![];
        let h = { let mut h = 1; while k.pow(h as u32 + 1) < n { h += 1 } h };
        fn go(k: usize, h: usize, at: usize, n: usize, d: &mut Vec<usize>) {
            if d.len() >= n {
                return;
            }
            d.push(at);
            if at < h {
                for _ in 0..k {
                    go(k, h, at + 1, n, d);
                }
            }
        }
        go(k, h, 0, n, &mut d);
        v.push((["", "", "binary", "ternary", "", "", "", "", "", "", "ten-ary"][k], d));
    }
    v
}

/// A flat description of a tree, built without recursion, to make large nodes from.
fn big(shape: &[usize], name: impl Fn(usize) -> &'static str) -> Vec<Uni<String>> {
    let mut stack: Vec<Vec<Uni<String>>> = vec![vec![]];
    let mut out: Vec<(usize, Uni<String>)> = vec![];
    let close = |out: &mut Vec<(usize, Uni<String>)>, stack: &mut Vec<Vec<Uni<String>>>| {
        let kids = stack.pop().unwrap();
        let (_, mut n) = out.pop().unwrap();
        n.kids = kids;
        stack.last_mut().unwrap().push(n);
    };
    for (i, d) in shape.iter().enumerate() {
        while out.len() > *d {
            close(&mut out, &mut stack);
        }
        assert_eq!(out.len(), *d);
        out.push((
            *d,
            Uni { id: i, name: Some(name(i).into()), text: None, attrs: None, kids: vec![], kind: 0, other: String::new() },
        ));
        stack.push(vec![]);
    }
    while !out.is_empty() {
        close(&mut out, &mut stack);
    }
    stack.pop().unwrap()
}

fn run(ctx: &Ctx) {
    handles(ctx);
    dictionary(ctx, |a, b| {
        vec![
            vec![],
            vec![Op::Tag(P::Str(a))],
            vec![Op::Tag(P::Own(b.into()))],
            vec![Op::Tag(P::True)],
            vec![Op::Strict],
            vec![Op::Tag(P::Str(a)), Op::Name(P::Str(b))],
            vec![Op::Tag(P::Exact(a)), Op::Value(P::Str(b))],
            vec![Op::Class(P::Str(b)), Op::Tag(P::CowB(a))],
            vec![Op::Attr(P::Str(a), P::Str(b))],
            vec![Op::Name(P::Exact(b)), Op::Name(P::Str(a))],
        ]
    });
    let single = singles();

    let fam = ctx.family(
        "labelled-forests",
        "every forest of up to 4 nodes (user nodes and thorough: 5) over 8 labels (elements, text, comment, void, raw), each node type, each single condition, through all(), first() and for; non-trivial if some condition splits the nodes",
    );
    if fam.active() {
        let (labs, inner) = labels();
        let max = 5;
        let shapes: Vec<_> = (0..=max).flat_map(gen::forests).collect();
        // one job per shape and first label
        ctx.par(shapes.len() * KINDS.len(), |j| {
            let (sh, kind) = (&shapes[j / KINDS.len()], KINDS[j % KINDS.len()]);
            if sh.len() == 5 && (ctx.release() || !ctx.thorough() && kind != Kind::User) {
                return;
            }
            labelled(sh, &labs, inner, &mut |_, ts| {
                ctx.states.fetch_add(1, Relaxed);
                ctx.traces.fetch_add(single.len() as u64 * 3, Relaxed);
                ctx.transitions.fetch_add(ts.len() as u64 * single.len() as u64, Relaxed);
                tree(&fam, kind, &ts, &single);
            });
        });
    }

    let fam = ctx.family(
        "condition-pairs",
        "every pair of conditions on three trees that hold every label at every level, each node type; the same for triples on user nodes (thorough: all conditions, quick: every second)",
    );
    if fam.active() {
        let trees = rich();
        let pairs: Vec<_> = combos(2, false).chunks(50).map(<[_]>::to_vec).collect();
        ctx.par(pairs.len() * KINDS.len() * trees.len(), |j| {
            let (p, r) = (&pairs[j % pairs.len()], j / pairs.len());
            let (kind, ts) = (KINDS[r % KINDS.len()], &trees[r / KINDS.len()]);
            for o in p {
                fam.case(&format!("{}: {}: {}", kind.name(), desc(ts), show(o)), || {
                    ask(&*kind.make(ts)?, &kind.view(ts), std::slice::from_ref(o))
                });
            }
        });
        let triples: Vec<_> = combos(3, !ctx.thorough()).chunks(200).map(<[_]>::to_vec).collect();
        ctx.par(triples.len() * trees.len(), |j| {
            let (p, ts) = (&triples[j % triples.len()], &trees[j / triples.len()]);
            let q = Kind::User.make(ts);
            for o in p {
                ctx.traces.fetch_add(3, Relaxed);
                fam.case(&format!("user: {}: {}", desc(ts), show(o)), || {
                    ask(&**q.as_ref().map_err(Clone::clone)?, ts, std::slice::from_ref(o))
                });
            }
        });
    }

    let fam = ctx.family(
        "marked-nodes",
        "every forest of up to 9 (thorough: 11) nodes, every set of matching nodes (all sets up to 7 (9) nodes; none, one, all, all but one beyond): tag returns exactly these, an unconditional query all",
    );
    if fam.active() {
        let (full, max) = ctx.bound((7, 9), (9, 11));
        let shapes: Vec<_> = (0..=max).flat_map(gen::forests).collect();
        let any = [vec![], vec![Op::Tag(P::True)], vec![Op::Strict]];
        let m = vec![Op::Tag(P::Str("m"))];
        ctx.par(shapes.len(), |j| {
            let sh = &shapes[j];
            let n = sh.len();
            let sets: Vec<u32> = if n <= full {
                (0..1 << n).collect()
            } else {
                let all = (1u32 << n) - 1;
                let mut v = vec![0, all];
                v.extend((0..n).flat_map(|i| [1 << i, all & !(1 << i)]));
                v
            };
            for s in sets {
                let ts = mark(sh, |i| s >> i & 1 == 1);
                fam.case(&format!("{sh:?} marked {s:b}"), || {
                    let q = Kind::User.make(&ts)?;
                    let pre = preorder(&ts);
                    for o in &any {
                        compare(&*q, &pre, o)?;
                    }
                    let want: Vec<usize> = (0..n).filter(|i| s >> i & 1 == 1).collect();
                    compare_with(&*q, &want, &m)?;
                    seen(!want.is_empty(), &format!("{want:?}"))
                });
            }
        });
    }

    let fam = ctx.family(
        "parsed-documents",
        "every forest of up to 3 (thorough: 4) nodes over 7 labels written out and parsed by the strict, the lenient and the XML parser, each single condition",
    );
    if fam.active() {
        let max = ctx.bound(3, 4);
        let labs = vec![
            elem("a", &[]),
            elem("b", &[]),
            elem("a", &[("x", "1")]),
            elem("b", &[("class", "c"), ("x", "2")]),
            T::Text("a".into()),
            T::Comment("b".into()),
        ];
        let mut html = labs.clone();
        // names that the lenient parser does not rearrange
        fn rename(t: &T) -> T {
            match t {
                T::El { name, attrs, kids } => T::El {
                    name: if name == "a" { "u1".into() } else { "u2".into() },
                    attrs: attrs.clone(),
                    kids: kids.iter().map(rename).collect(),
                },
                t => t.clone(),
            }
        }
        html = html.iter().map(rename).collect();
        html.push(T::Void { name: "br".into(), attrs: attrs(&[("x", "1")]) });
        html.push(T::Raw { name: "script".into(), attrs: attrs(&[("class", "x")]), content: "a".into() });
        let mut xml = labs;
        xml.push(T::CData("a".into()));
        xml.push(T::Pi("a".into(), None));
        let shapes: Vec<_> = (1..=max).flat_map(gen::forests).collect();
        let retag = |ops: &[Vec<Op>]| -> Vec<Vec<Op>> {
            let mut v = ops.to_vec();
            for n in ["u1", "u2", "br", "script", "html", "body", "head", "root"] {
                v.push(vec![Op::Tag(P::Str(intern(n)))]);
            }
            v
        };
        let ops = retag(&single);
        ctx.par(shapes.len() * 3, |j| {
            let sh = &shapes[j / 3];
            labelled(sh, if j % 3 == 2 { &xml } else { &html }, 4, &mut |_, ts| {
                if adjacent_text(&ts) {
                    return;
                }
                ctx.traces.fetch_add(ops.len() as u64 * 3, Relaxed);
                match j % 3 {
                    0 => {
                        let doc = markup(&ts, true);
                        fam.case(&format!("strict: {doc}"), || ask(&*parse_strict(intern(&doc), &ts)?, &ts, &ops));
                    }
                    1 => {
                        let el = |n: &str, kids: Vec<T>| T::El { name: n.into(), attrs: attrs(&[]), kids };
                        let doc = format!("<!DOCTYPE html><html><head></head><body>{}</body></html>", markup(&ts, true));
                        // the lenient parser has no raw elements
                        fn raw(t: T) -> T {
                            match t {
                                T::Raw { name, attrs, content } => T::El { name, attrs, kids: vec![T::Text(content)] },
                                T::El { name, attrs, kids } => {
                                    T::El { name, attrs, kids: kids.into_iter().map(raw).collect() }
                                }
                                t => t,
                            }
                        }
                        let ts = vec![
                            T::Doctype("html".into()),
                            el("html", vec![el("head", vec![]), el("body", ts.into_iter().map(raw).collect())]),
                        ];
                        fam.case(&format!("lenient: {doc}"), || ask(&*parse_lenient(&doc, &ts)?, &ts, &ops));
                    }
                    _ => {
                        let doc = format!("<root>{}</root>", markup(&ts, false));
                        let ts = Kind::Xml.view(&[T::El { name: "root".into(), attrs: attrs(&[]), kids: ts }]);
                        fam.case(&format!("xml: {doc}"), || ask(&*parse_xml(&doc, &ts)?, &ts, &ops));
                    }
                }
            });
        });
    }

    let fam = ctx.family(
        "big-trees",
        "eleven shapes (chains, combs, wide, complete trees, saws) of every size up to 130 (thorough: 600) and around powers of two and ten up to 140000 (1100000) nodes: all nodes, every other, every k-th, a single one in each of many places",
    );
    if fam.active() {
        let mut sizes: Vec<usize> = (1..=130).collect();
        sizes.extend(gen::sizes(ctx.bound(130, 600), ctx.bound(140_000, 1_100_000)));
        sizes.sort_unstable();
        sizes.dedup();
        sizes.retain(|n| *n > 0);
        let kinds = shapes(10).len();
        ctx.par(sizes.len() * kinds, |j| {
            let n = sizes[sizes.len() - 1 - j / kinds];
            let (name, sh) = shapes(n).swap_remove(j % kinds);
            // the single places: all in small trees, else around powers of two and at the ends
            let mut at: Vec<usize> = if n <= 130 { (0..sh.len()).collect() } else { vec![0, 1, sh.len() / 2, sh.len() - 1] };
            if n > 130 && n <= 10_000 {
                at.extend((3..14).flat_map(|p| [(1 << p) - 1, 1 << p, (1 << p) + 1]).filter(|x| *x < sh.len()));
            }
            let mut sets: Vec<(String, Box<dyn Fn(usize) -> bool>)> = vec![
                ("all".into(), Box::new(|_| true)),
                ("every other".into(), Box::new(|i| i % 2 == 1)),
                ("every 7th".into(), Box::new(|i| i % 7 == 3)),
            ];
            for a in at {
                sets.push((format!("node {a}"), Box::new(move |i| i == a)));
            }
            for (what, set) in sets {
                fam.case(&format!("{name} of {n}, {what} marked"), || {
                    let soup = soup_of(big(&sh, |i| if set(i) { "m" } else { "n" }));
                    big_check(&soup, sh.len(), &sh, &set)?;
                    seen(true, &format!("{name} {n} {what}"))
                });
            }
        });
    }
}

use soupy::{Node, Queryable, Soup};

/// A node without any data of its own.
#[derive(Clone, Debug)]
struct Unit;
impl Node for Unit {
    type Text = &'static str;
    fn name(&self) -> Option<&&'static str> {
        Some(&"u")
    }
    fn text(&self) -> Option<&&'static str> {
        None
    }
    fn attrs(&self) -> Option<&std::collections::BTreeMap<&'static str, &'static str>> {
        None
    }
    fn children(&self) -> &[Self] {
        &[]
    }
}

/// A node whose children may be those of another node, too: one node in several places of the tree.
#[derive(Clone, Copy, Debug)]
struct Shared {
    name: &'static str,
    kids: &'static [Shared],
}
impl Node for Shared {
    type Text = &'static str;
    fn name(&self) -> Option<&&'static str> {
        Some(&self.name)
    }
    fn text(&self) -> Option<&&'static str> {
        None
    }
    fn attrs(&self) -> Option<&std::collections::BTreeMap<&'static str, &'static str>> {
        None
    }
    fn children(&self) -> &[Self] {
        self.kids
    }
}

fn handles(ctx: &Ctx) {
    let fam = ctx.family("nodes-without-data", "soups of n equal nodes that take no memory at all, for every n up to the bound: each is found, by every query");
    for n in 0..ctx.bound(300, 3000) {
        fam.case(&format!("{n} nodes"), || {
            let s = soup_of(vec![Unit; n]);
            for (what, got, want) in [
                ("iter()", s.iter().count(), n),
                ("tag(u)", s.tag("u").all().count(), n),
                ("tag(true)", s.tag(true).into_iter().count(), n),
                ("strict().tag(u)", s.strict().tag("u").all().count(), n),
                ("strict()", s.strict().all().fold(0, |n, _| n + 1), n),
                ("tag(v)", s.tag("v").all().count(), 0),
                ("attr_name(true)", s.attr_name(true).all().count(), 0),
                ("first()", usize::from(s.tag("u").first().is_some()), n.min(1)),
                ("query()", s.iter().map(|i| i.query().iter().count()).sum(), 0),
                ("descendants()", s.iter().map(|i| i.descendants().count()).sum(), n),
            ] {
                if got != want {
                    return Err(format!("{what}: {got} results, expected {want}"));
                }
            }
            seen(n > 0, &n.to_string())
        });
    }

    let fam = ctx.family(
        "shared-children",
        "every structure of up to three levels in which nodes share their lists of children (one to three nodes per list, each with one of the lists below it as its children, or none): a node counts once for each place it is in",
    );
    if !fam.active() {
        return;
    }
    let leak = |v: Vec<Shared>| -> &'static [Shared] { Box::leak(v.into_boxed_slice()) };
    // the lists of each level: words over the lists below, and the empty one
    let lists = |below: &[&'static [Shared]], names: [&'static str; 2], max: usize| -> Vec<&'static [Shared]> {
        let units: Vec<Shared> = below.iter().flat_map(|k| names.map(|name| Shared { name, kids: k })).collect();
        (1..=max).flat_map(|n| (0..gen::pow(units.len(), n)).map(move |i| (n, i))).map(|(n, i)| leak(gen::word(units.len(), n, i).into_iter().map(|u| units[u]).collect())).collect()
    };
    let l0 = lists(&[&[]], ["a", "b"], 2);
    let l1 = lists(&[&[], l0[0], l0[3]], ["a", "b"], 2);
    let mut below: Vec<&'static [Shared]> = vec![&[], l0[2]];
    below.extend(l1.iter().step_by(if ctx.thorough() { 1 } else { 3 }));
    let l2 = lists(&below, ["a", "c"], 2);
    let l3: Vec<Vec<Shared>> = l2.iter().map(|l| vec![Shared { name: "a", kids: l }, l[0], Shared { name: "d", kids: l }]).collect();
    let all: Vec<Vec<Shared>> = l0.iter().chain(&l1).chain(&l2).map(|l| l.to_vec()).chain(l3).collect();
    ctx.states.fetch_add(all.len() as u64, Relaxed);
    ctx.par(all.len(), |i| {
        fam.case(&format!("{:?}", all[i]), || {
            let s = soup_of(all[i].clone());
            fn walk<'a>(ns: &'a [Shared], out: &mut Vec<&'a Shared>) {
                for n in ns {
                    out.push(n);
                    walk(n.kids, out);
                }
            }
            let tops: Vec<&Shared> = s.strict().all().map(|i| -> &Shared { unsafe { &*std::ptr::from_ref(&*i) } }).collect();
            let mut places = vec![];
            for t in &tops {
                places.push(*t);
                walk(t.kids, &mut places);
            }
            let same = |what: &str, got: Vec<*const Shared>, want: Vec<*const Shared>| {
                if got == want { Ok(()) } else { Err(format!("{what}: {} results, expected {}; or other ones", got.len(), want.len())) }
            };
            let named = |n: &str| places.iter().filter(|p| p.name == n).map(|p| std::ptr::from_ref(*p)).collect::<Vec<_>>();
            same("iter()", s.iter().map(|i| std::ptr::from_ref(&*i)).collect(), places.iter().map(|p| std::ptr::from_ref(*p)).collect())?;
            for n in ["a", "b", "c", "d"] {
                same(n, s.tag(n).all().map(|i| std::ptr::from_ref(&*i)).collect(), named(n))?;
                same(n, s.tag(n).first().map(|i| std::ptr::from_ref(&*i)).into_iter().collect(), named(n).into_iter().take(1).collect())?;
            }
            for t in &tops {
                let mut want = vec![*t];
                walk(t.kids, &mut want);
                same("descendants()", t.descendants().map(std::ptr::from_ref).collect(), want.into_iter().map(std::ptr::from_ref).collect())?;
            }
            seen(places.len() > tops.len(), &format!("{:?}", places.iter().map(|p| p.name).collect::<String>()))
        });
    });
}

fn big_check(soup: &Soup<Uni<String>>, n: usize, sh: &[usize], set: &dyn Fn(usize) -> bool) -> Result<(), String> {
    let same = |what: &str, got: &mut dyn Iterator<Item = usize>, want: &mut dyn Iterator<Item = usize>| {
        for k in 0.. {
            match (got.next(), want.next()) {
                (None, None) => break,
                (a, b) if a == b => (),
                (a, b) => return Err(format!("{what}: result {k} is node {a:?}, expected {b:?}")),
            }
        }
        Ok(())
    };
    same("iter()", &mut soup.iter().map(|i| i.id), &mut (0..n))?;
    same("tag(\"m\")", &mut soup.tag("m").all().map(|i| i.id), &mut (0..n).filter(|i| set(*i)))?;
    same("tag(\"n\")", &mut soup.tag("n").all().map(|i| i.id), &mut (0..n).filter(|i| !set(*i)))?;
    same(
        "strict().tag(\"m\")",
        &mut soup.strict().tag("m").all().map(|i| i.id),
        &mut (0..n).filter(|i| sh[*i] == 0 && set(*i)),
    )?;
    let first = soup.tag("m").first().map(|i| i.id);
    let want = (0..n).find(|i| set(*i));
    if first != want {
        return Err(format!("tag(\"m\").first() is node {first:?}, expected {want:?}"));
    }
    Ok(())
}

fn main() {
    mc::runner::main("C12", "model_checking", run)
}
