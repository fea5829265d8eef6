//! C14: conditions combine by boolean logic, in any order, without side effects.

use std::{borrow::Cow, sync::atomic::Ordering::Relaxed};

use mc::{
    engine::{fnv, seen, Ctx, Fam, Seen},
    gen,
    qmodel::*,
    tree::T,
};
use soupy::{
    filter::{And, Attr, Filter, Or, Tag},
    parser::{HTMLNode, XMLNode},
    Node, Pattern, Queryable,
};

/// A condition of any size.
struct Big<const N: usize>(bool, [u8; N]);
impl<T, const N: usize> Filter<T> for Big<N> {
    fn matches(&self, _: &T) -> bool {
        self.0
    }
}
impl<S, const N: usize> Pattern<S> for Big<N> {
    fn matches(&self, _: &S) -> bool {
        self.0
    }
}

/// And and or of conditions of `N` and of `M` bytes, under every assignment.
fn big<const N: usize, const M: usize>() -> Result<Seen, String> {
    for k in 0..8 {
        let (a, b, c) = (k & 1 > 0, k & 2 > 0, k & 4 > 0);
        let (x, y, z) = (|| Big(a, [1; N]), || Big(b, [1; M]), || Big(c, [1; N]));
        let n = &();
        for (what, got, want) in [
            ("a and b", And(x(), y()).matches(n), a && b),
            ("a or b", Or(x(), y()).matches(n), a || b),
            ("(a and b) and c", And(And(x(), y()), z()).matches(n), a && b && c),
            ("a and (b and c)", And(x(), And(y(), z())).matches(n), a && b && c),
            ("(a or b) or c", Or(Or(x(), y()), z()).matches(n), a || b || c),
            ("a or (b or c)", Or(x(), Or(y(), z())).matches(n), a || b || c),
            ("(a and b) or c", Or(And(x(), y()), z()).matches(n), a && b || c),
            ("a and (b or c)", And(x(), Or(y(), z())).matches(n), a && (b || c)),
            ("(a or b) and c", And(Or(x(), y()), z()).matches(n), (a || b) && c),
            ("a or (b and c)", Or(x(), And(y(), z())).matches(n), a || b && c),
        ] {
            if got != want {
                return Err(format!("{what} of {a}, {b}, {c} with {N} and {M} bytes: {got}"));
            }
        }
    }
    seen(true, &format!("{N} {M}"))
}

/// Chains of conditions, one of which fails.
fn chains<N: Build, const B: usize>(fam: &Fam)
where
    N::Text: Ord,
{
    let s = soup::<N>(&trees()[0]);
    let all = s.tag(true).all().count();
    let attrs = s.attr(true, true).all().count();
    macro_rules! chain {
        ($len:literal: $($i:literal)*) => {
            for at in 0..=$len {
                fam.case(&format!("{}: {} conditions of {B} bytes, of which the one at {at} fails", N::NAME, $len), || {
                    let got = s.recursive()$(.tag(Big($i != at, [1; B])))*.all().count();
                    let want = if at < $len { 0 } else { all };
                    if got != want {
                        return Err(format!("{got} results, not {want}"));
                    }
                    let got = s.recursive()$(.attr(Big($i != at, [1; B]), Big($i + 1 != at || at == $len, [1; B])))*.all().count();
                    let want = if at < $len { 0 } else { attrs };
                    if got != want {
                        return Err(format!("{got} results by attributes, not {want}"));
                    }
                    seen(true, &format!("{} {at} {B}", $len))
                });
            }
        };
    }
    chain!(4: 0 1 2 3);
    chain!(9: 0 1 2 3 4 5 6 7 8);
    chain!(17: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16);
    chain!(33: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
}

fn trees() -> Vec<Vec<T>> {
    let e = |n: &str, a: &[(&str, &str)], k: Vec<T>| T::El { name: n.into(), attrs: attrs(a), kids: k };
    let (labs, _) = labels();
    let mut all = vec![];
    // every combination of name and attributes that the conditions tell apart
    for n in ["a", "b", "x", ""] {
        for m in 0..16 {
            let mut a = vec![];
            if m & 1 > 0 {
                a.push(("x", "1"));
            }
            if m & 2 > 0 {
                a.push(("class", "c"));
            }
            if m & 4 > 0 {
                a.push(("y", ""));
            }
            if m & 8 > 0 {
                a.push(("z", "2"));
            }
            all.push(e(n, &a, vec![]));
        }
    }
    vec![
        [labs.clone(), vec![e("a", &[("x", "2")], [labs.clone(), vec![T::Doctype("a".into())]].concat())]].concat(),
        vec![e("b", &[("class", "x"), ("x", "1")], all)],
    ]
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

/// A filter of any type behind a pointer; itself a user-defined filter.
struct Dyn<N>(Box<dyn Filter<N>>);
impl<N> Filter<N> for Dyn<N> {
    fn matches(&self, n: &N) -> bool {
        self.0.matches(n)
    }
}
/// A user-defined filter.
struct User<N>(fn(&N) -> bool);
impl<N> Filter<N> for User<N> {
    fn matches(&self, n: &N) -> bool {
        (self.0)(n)
    }
}

// user-defined filters without data: all are at one address
macro_rules! bare {
    ($($t:ident $name:literal $f:expr;)*) => { $(
        #[derive(Clone, Copy)]
        struct $t;
        impl<N: Node> Filter<N> for $t {
            fn matches(&self, n: &N) -> bool {
                let f: fn(&N) -> bool = $f;
                f(n)
            }
        }
        impl Bare for $t {
            const NAME: &'static str = $name;
            fn new() -> Self { $t }
        }
    )* }
}
trait Bare: Copy + 'static {
    const NAME: &'static str;
    fn new() -> Self;
}
bare! {
    Named "Named" |n| n.name().is_some();
    Texts "Texts" |n| n.text().is_some();
    Listed "Listed" |n| n.attrs().is_some_and(|a| !a.is_empty());
    Parent "Parent" |n| !n.children().is_empty();
    Never "Never" |_| false;
}

/// All formulas of two and of three of them, in the same types as a user would write them.
fn bare3<N: Node, A: Bare + Filter<N>, B: Bare + Filter<N>, C: Bare + Filter<N>>(n: &N) -> Result<u64, String> {
    let (a, b, c) = (A::new(), B::new(), C::new());
    let (x, y, z) = (a.matches(n), b.matches(n), c.matches(n));
    let all = [
        ("And(a, b)", And(a, b).matches(n), x & y),
        ("Or(a, b)", Or(a, b).matches(n), x | y),
        ("And(And(a, b), c)", And(And(a, b), c).matches(n), x & y & z),
        ("And(a, And(b, c))", And(a, And(b, c)).matches(n), x & y & z),
        ("And(Or(a, b), c)", And(Or(a, b), c).matches(n), (x | y) & z),
        ("And(a, Or(b, c))", And(a, Or(b, c)).matches(n), x & (y | z)),
        ("Or(And(a, b), c)", Or(And(a, b), c).matches(n), x & y | z),
        ("Or(a, And(b, c))", Or(a, And(b, c)).matches(n), x | y & z),
        ("Or(Or(a, b), c)", Or(Or(a, b), c).matches(n), x | y | z),
        ("Or(a, Or(b, c))", Or(a, Or(b, c)).matches(n), x | y | z),
        ("And(And((), a), b)", And(And((), a), b).matches(n), x & y),
        ("Or(And((), a), And((), b))", Or(And((), a), And((), b)).matches(n), x | y),
        ("And(And(a, b), And(b, c))", And(And(a, b), And(b, c)).matches(n), x & y & z),
        ("And(Or(a, b), Or(b, c))", And(Or(a, b), Or(b, c)).matches(n), (x | y) & (y | z)),
        ("Or(And(a, b), And(b, c))", Or(And(a, b), And(b, c)).matches(n), x & y | y & z),
        ("And((a), And(b, Tag(true)))", And(a, And(b, Tag { tag: true })).matches(n), x & y & n.name().is_some()),
        ("And(And(Tag(true), b), a)", And(And(Tag { tag: true }, b), a).matches(n), x & y & n.name().is_some()),
    ];
    for (f, got, want) in all {
        if got != want {
            return Err(format!("{f} with a = {} ({x}), b = {} ({y}), c = {} ({z}) gives {got}", A::NAME, B::NAME, C::NAME));
        }
    }
    Ok(fnv(0, &all.map(|(_, g, _)| u8::from(g))))
}
fn bare2<N: Node, A: Bare + Filter<N>, B: Bare + Filter<N>>(n: &N) -> Result<u64, String> {
    Ok(fnv(0, format!("{:?}", [bare3::<N, A, B, Named>(n)?, bare3::<N, A, B, Texts>(n)?, bare3::<N, A, B, Listed>(n)?, bare3::<N, A, B, Parent>(n)?, bare3::<N, A, B, Never>(n)?]).as_bytes()))
}
fn bare1<N: Node, A: Bare + Filter<N>>(n: &N) -> Result<u64, String> {
    Ok(fnv(0, format!("{:?}", [bare2::<N, A, Named>(n)?, bare2::<N, A, Texts>(n)?, bare2::<N, A, Listed>(n)?, bare2::<N, A, Parent>(n)?, bare2::<N, A, Never>(n)?]).as_bytes()))
}
fn bare0<N: Node>(n: &N) -> Result<u64, String> {
    Ok(fnv(0, format!("{:?}", [bare1::<N, Named>(n)?, bare1::<N, Texts>(n)?, bare1::<N, Listed>(n)?, bare1::<N, Parent>(n)?, bare1::<N, Never>(n)?]).as_bytes()))
}

#[derive(Clone, Debug)]
enum Fm {
    Leaf(usize),
    And(Box<Fm>, Box<Fm>),
    Or(Box<Fm>, Box<Fm>),
}

impl Fm {
    fn show(&self, leaf: &dyn Fn(usize) -> String) -> String {
        match self {
            Fm::Leaf(i) => leaf(*i),
            Fm::And(a, b) => format!("And({}, {})", a.show(leaf), b.show(leaf)),
            Fm::Or(a, b) => format!("Or({}, {})", a.show(leaf), b.show(leaf)),
        }
    }
    fn eval(&self, leaf: &dyn Fn(usize) -> bool) -> bool {
        match self {
            Fm::Leaf(i) => leaf(*i),
            Fm::And(a, b) => a.eval(leaf) & b.eval(leaf),
            Fm::Or(a, b) => a.eval(leaf) | b.eval(leaf),
        }
    }
    fn build<N: 'static>(&self, leaf: &dyn Fn(usize) -> Box<dyn Filter<N>>) -> Dyn<N> {
        match self {
            Fm::Leaf(i) => Dyn(leaf(*i)),
            Fm::And(a, b) => Dyn(Box::new(And(a.build(leaf), b.build(leaf)))),
            Fm::Or(a, b) => Dyn(Box::new(Or(a.build(leaf), b.build(leaf)))),
        }
    }
}

/// All and/or trees with `n` leaves, the leaves numbered from left to right.
fn formulas(n: usize, from: usize) -> Vec<Fm> {
    if n == 1 {
        return vec![Fm::Leaf(from)];
    }
    let mut out = vec![];
    for l in 1..n {
        for a in formulas(l, from) {
            for b in formulas(n - l, from + l) {
                out.push(Fm::And(Box::new(a.clone()), Box::new(b.clone())));
                out.push(Fm::Or(Box::new(a.clone()), Box::new(b.clone())));
            }
        }
    }
    out
}

/// The leaves of the formulas over nodes: filters of the crate and of the user.
const LEAVES: usize = 9;
fn leaf_name(i: usize) -> String {
    ["()", "Tag \"a\"", "Tag regex b|x", "Attr x=1", "Attr class=true", "Attr true=\"2\"", "user: never", "user: has text", "user: leaf"][i].into()
}
fn leaf_holds(i: usize, t: &T) -> bool {
    match i {
        0 => true,
        1 => Op::Tag(P::Str("a")).holds(t),
        2 => t.name().is_some_and(|n| n == "b" || n == "x"),
        3 => Op::Attr(P::Str("x"), P::Str("1")).holds(t),
        4 => Op::Name(P::Str("class")).holds(t),
        5 => Op::Value(P::Str("2")).holds(t),
        6 => false,
        7 => t.text().is_some(),
        _ => t.kids().is_empty(),
    }
}
fn leaf<N>(i: usize) -> Box<dyn Filter<N>>
where
    N: Node + 'static,
    N::Text: Ord + AsRef<str> + From<&'static str>,
{
    match i {
        0 => Box::new(()),
        1 => Box::new(Tag { tag: "a" }),
        2 => Box::new(Tag { tag: regex::Regex::new("b|x").unwrap() }),
        3 => Box::new(Attr { name: "x", value: "1" }),
        4 => Box::new(Attr { name: "class", value: true }),
        5 => Box::new(Attr { name: true, value: "2" }),
        6 => Box::new(User(|_| false)),
        7 => Box::new(User(|n: &N| n.text().is_some())),
        _ => Box::new(User(|n: &N| n.children().is_empty())),
    }
}

fn on_nodes<N>(fam: &Fam, ctx: &Ctx, max: usize, kind: Kind)
where
    N: Build,
    N::Text: Ord + AsRef<str> + From<&'static str>,
{
    let mut jobs = vec![];
    for n in 1..=max {
        for f in formulas(n, 0) {
            for l0 in 0..LEAVES {
                jobs.push((n, f.clone(), l0));
            }
        }
    }
    let trees = trees();
    ctx.par(jobs.len(), |j| {
        let (n, f, l0) = &jobs[j];
        let soups: Vec<_> = trees.iter().map(|t| soup::<N>(t)).collect();
        let views: Vec<_> = trees.iter().map(|t| kind.view(t)).collect();
        for i in 0..gen::pow(LEAVES, n - 1) {
            let mut w = vec![*l0];
            w.extend(gen::word(LEAVES, n - 1, i));
            fam.case(&format!("{}: {}", N::NAME, f.show(&|k| leaf_name(w[k]))), || {
                let mut h = 0;
                let mut split = (false, false);
                let d = f.build::<N>(&|k| leaf(w[k]));
                for (s, t) in soups.iter().zip(&views) {
                    let pre = preorder(t);
                    for (k, item) in s.iter().enumerate() {
                        let got = d.matches(&*item);
                        let want = f.eval(&|k2| leaf_holds(w[k2], pre[k].0));
                        if got != want {
                            return Err(format!("matches() is {got} for node {k}, {:?}", pre[k].0));
                        }
                        h = fnv(h, &[u8::from(got)]);
                        if got { split.0 = true } else { split.1 = true }
                    }
                }
                seen(split.0 && split.1, &format!("{h:x}"))
            });
        }
    });
}

/// The combinators nested as plain types, with the crate's filters inside.
fn plain<N>(fam: &Fam, kind: Kind, c: (&P, &P, &P))
where
    N: Build,
    N::Text: Ord + AsRef<str> + for<'a> From<&'a str>,
    Any: Pattern<N::Text>,
{
    let (p, n, v) = c;
    fam.case(&format!("{}: tag {p}, attribute {n}={v}", N::NAME), || {
        let tag = || Tag { tag: Any(p.clone()) };
        let at = || Attr { name: Any(n.clone()), value: Any(v.clone()) };
        let (mut h, mut some) = (0, (false, false));
        for t in trees() {
            let (s, view) = (soup::<N>(&t), kind.view(&t));
            let pre = preorder(&view);
            for (k, i) in s.iter().enumerate() {
                let t = pre[k].0;
                let (a, b) = (Op::Tag(p.clone()).holds(t), Op::Attr(n.clone(), v.clone()).holds(t));
                let text = t.text().is_some();
                let u = || User(|n: &N| n.text().is_some());
                let rows: [(&str, bool, bool); 12] = [
                    ("Tag", tag().matches(&*i), a),
                    ("Attr", at().matches(&*i), b),
                    ("And(Tag, Attr)", And(tag(), at()).matches(&*i), a && b),
                    ("And(Attr, Tag)", And(at(), tag()).matches(&*i), a && b),
                    ("Or(Tag, Attr)", Or(tag(), at()).matches(&*i), a || b),
                    ("Or(Attr, Tag)", Or(at(), tag()).matches(&*i), a || b),
                    ("And(Or(Tag, user), Attr)", And(Or(tag(), u()), at()).matches(&*i), (a || text) && b),
                    ("Or(And(Tag, Attr), user)", Or(And(tag(), at()), u()).matches(&*i), a && b || text),
                    ("Or(user, And((), Tag))", Or(u(), And((), tag())).matches(&*i), text || a),
                    ("And((), Attr)", And((), at()).matches(&*i), b),
                    ("Or(Attr, ())", Or(at(), ()).matches(&*i), true),
                    ("And(Tag, And(Tag, Or(Attr, Tag)))", And(tag(), And(tag(), Or(at(), tag()))).matches(&*i), a),
                ];
                for (what, got, want) in rows {
                    if got != want {
                        return Err(format!("{what} is {got} for {t:?}"));
                    }
                }
                h = fnv(h, &[u8::from(a), u8::from(b)]);
                if a != b { some.0 = true }
                if a && b { some.1 = true }
            }
        }
        seen(some.0 && some.1, &format!("{h:x}"))
    });
}

fn conjunction(q: &dyn Queried, pre: &[(&T, usize)], ops: &[Op], alone: &[Vec<usize>]) -> Result<Seen, String> {
    let mut want: Vec<usize> = alone[0].clone();
    for a in &alone[1..] {
        want.retain(|i| a.contains(i));
    }
    for p in perms(ops.len()) {
        let o: Vec<Op> = p.iter().map(|i| ops[*i].clone()).collect();
        compare_with(q, &want, &o)?;
        // the strict one is its part
        let top: Vec<usize> = want.iter().copied().filter(|i| pre[*i].1 == 0).collect();
        let mut s = o.clone();
        s.insert(o.len() / 2, Op::Strict);
        compare_with(q, &top, &s)?;
    }
    let non = want.len() < alone.iter().map(Vec::len).min().unwrap() && !want.is_empty();
    seen(non, &format!("{want:?}"))
}

fn run(ctx: &Ctx) {
    dictionary(ctx, |a, b| {
        let c = [
            Op::Tag(P::Str(a)),
            Op::Tag(P::Own(b.into())),
            Op::Attr(P::Str(a), P::Str(b)),
            Op::Name(P::Str(b)),
            Op::Value(P::CowB(a)),
            Op::Class(P::Str(b)),
        ];
        (0..36).map(|i| vec![c[i / 6].clone(), c[i % 6].clone()]).collect()
    });
    let conds = conditions();

    let fam = ctx.family(
        "conjunction",
        "every pair of conditions (every node type) and every triple (user nodes; quick: of every second condition) on two trees: every order of the calls gives exactly the intersection of what each gives alone, strict or not; non-trivial if the intersection is smaller than each part and not empty",
    );
    if fam.active() {
        let trees = trees();
        let jobs: Vec<(Kind, usize, usize)> =
            KINDS.iter().flat_map(|k| (0..trees.len()).flat_map(move |t| (0..2).map(move |n| (*k, t, n)))).collect();
        ctx.par(jobs.len() * conds.len(), |j| {
            let (kind, t, n) = jobs[j % jobs.len()];
            let c0 = j / jobs.len();
            if n == 1 && kind != Kind::User {
                return;
            }
            let view = kind.view(&trees[t]);
            let pre = preorder(&view);
            let Ok(q) = kind.make(&trees[t]) else {
                fam.case(&format!("{}: {}", kind.name(), desc(&trees[t])), || kind.make(&trees[t]).map(|_| unreachable!()));
                return;
            };
            let sub: Vec<&Op> = conds.iter().filter(|c| offered(&*q, std::slice::from_ref(c))).collect();
            if c0 >= sub.len() || (n == 1 && !ctx.thorough() && c0 % 2 == 1) {
                return;
            }
            let alone: Vec<Vec<usize>> = sub.iter().map(|c| q.run(std::slice::from_ref(c), How::All)).collect();
            let step = if n == 1 && !ctx.thorough() { 2 } else { 1 };
            for c1 in (0..sub.len()).step_by(step) {
                for c2 in if n == 1 { (c1..sub.len()).step_by(step).collect() } else { vec![c1] } {
                    if n == 1 && c0 > c1 {
                        continue;
                    }
                    let mut ix = vec![c0, c1];
                    if n == 1 {
                        ix.push(c2);
                    }
                    let ops: Vec<Op> = ix.iter().map(|i| sub[*i].clone()).collect();
                    let al: Vec<_> = ix.iter().map(|i| alone[*i].clone()).collect();
                    ctx.traces.fetch_add(6, Relaxed);
                    fam.case(&format!("{} {t}: {}", kind.name(), show(&ops)), || conjunction(&*q, &pre, &ops, &al));
                }
            }
        });
    }

    let fam = ctx.family(
        "formulas",
        "every and/or tree with up to 4 (thorough: 5; built-in nodes 3 (4)) leaves over 9 filters of the crate and of the user, on every node of two trees, against the boolean value",
    );
    if fam.active() {
        on_nodes::<Uni<String>>(&fam, ctx, ctx.bound(4, 5), Kind::User);
        let b = ctx.bound(3, 4);
        on_nodes::<Uni<Own>>(&fam, ctx, b, Kind::UserText);
        on_nodes::<HTMLNode<Tendril>>(&fam, ctx, b, Kind::Tendril);
        on_nodes::<HTMLNode<Cow<'static, str>>>(&fam, ctx, b, Kind::Cow);
        on_nodes::<XMLNode>(&fam, ctx, b, Kind::Xml);
    }

    let fam = ctx.family(
        "truth-tables",
        "every and/or tree with up to 6 (thorough: 7) leaves, every leaf a user-defined filter of its own, under every assignment of truth values (the filters know nothing about the nodes, which may be of any type)",
    );
    if fam.active() {
        struct Bit(usize);
        impl Filter<u32> for Bit {
            fn matches(&self, n: &u32) -> bool {
                n >> self.0 & 1 == 1
            }
        }
        for n in 1..=ctx.bound(6, 7) {
            let fs = formulas(n, 0);
            ctx.par(fs.len(), |j| {
                let f = &fs[j];
                ctx.states.fetch_add(1 << n, Relaxed);
                fam.case(&f.show(&|i| format!("v{i}")), || {
                    let d = f.build::<u32>(&|i| Box::new(Bit(i)));
                    let mut h = 0;
                    for v in 0u32..1 << n {
                        let (got, want) = (d.matches(&v), f.eval(&|i| v >> i & 1 == 1));
                        if got != want {
                            return Err(format!("is {got} when the leaves are {v:b} (v0 last)"));
                        }
                        h = fnv(h, &[u8::from(got)]);
                    }
                    seen(true, &format!("{h:x}"))
                });
            });
        }
    }

    let fam = ctx.family(
        "plain-types",
        "twelve nestings of And, Or, (), Tag, Attr and a user-defined filter as plain types, for every tag pattern and attribute condition of the vocabulary, every node type; non-trivial if both hold on some node and only one on another",
    );
    if fam.active() {
        let tags: Vec<P> = conds.iter().filter_map(|c| if let Op::Tag(p) = c { Some(p.clone()) } else { None }).collect();
        let ats: Vec<(P, P)> =
            conds.iter().filter_map(|c| if let Op::Attr(n, v) = c { Some((n.clone(), v.clone())) } else { None }).collect();
        ctx.par(tags.len(), |j| {
            for (n, v) in &ats {
                plain::<Uni<String>>(&fam, Kind::User, (&tags[j], n, v));
                plain::<Uni<Own>>(&fam, Kind::UserText, (&tags[j], n, v));
                plain::<HTMLNode<Tendril>>(&fam, Kind::Tendril, (&tags[j], n, v));
                plain::<XMLNode>(&fam, Kind::Xml, (&tags[j], n, v));
            }
        });
    }

    let fam = ctx.family(
        "zero-sized",
        "seventeen nestings of And, Or, () and Tag around every three out of five user-defined filters without data (which all share one address), on every node of two trees, every node type",
    );
    if fam.active() {
        let trees = trees();
        let pre: Vec<(usize, usize)> = (0..trees.len()).flat_map(|t| (0..preorder(&trees[t]).len()).map(move |i| (t, i))).collect();
        ctx.par(pre.len(), |j| {
            let (t, i) = pre[j];
            fn on<N: Build>(ts: &[T], i: usize) -> Result<u64, String> {
                let s = soup::<N>(ts);
                let n = s.iter().nth(i).ok_or("too few nodes")?;
                bare0::<N>(&n)
            }
            macro_rules! kind {
                ($($n:ty),*) => { $(
                    fam.case(&format!("{}: tree {t}, node {i}", <$n>::NAME), || on::<$n>(&trees[t], i).and_then(|h| seen(true, &format!("{h:x}"))));
                )* }
            }
            kind!(Uni<String>, Uni<Own>, HTMLNode<Tendril>, HTMLNode<Cow<'static, str>>, XMLNode);
        });
    }

    let fam = ctx.family(
        "sizes",
        "ten nestings of And and Or of conditions of 17 x 17 sizes from none to 4096 bytes under every assignment of truth values; chains of 4, 9, 17 and 33 tag or attribute conditions of 5 sizes, each of which in turn fails, every node type",
    );
    if fam.active() {
        macro_rules! grid {
            ($($n:literal)*) => { $( row!($n: 0 1 7 8 15 16 24 32 63 64 128 255 256 512 1000 1024 4096); )* };
        }
        macro_rules! row {
            ($n:literal: $($m:literal)*) => { $( fam.case(&format!("{} and {} bytes", $n, $m), big::<$n, $m>); )* };
        }
        grid!(0 1 7 8 15 16 24 32 63 64 128 255 256 512 1000 1024 4096);
        macro_rules! kind {
            ($($n:ty),*) => { $(
                chains::<$n, 0>(&fam);
                chains::<$n, 7>(&fam);
                chains::<$n, 40>(&fam);
                chains::<$n, 300>(&fam);
                chains::<$n, 4000>(&fam);
            )* }
        }
        kind!(Uni<String>, Uni<Own>, HTMLNode<Tendril>, HTMLNode<Cow<'static, str>>, XMLNode);
    }

    let fam = ctx.family(
        "long-chains",
        "one condition repeated, and two alternating, in chains of 1 to 8 calls: the same result as once; and a chain of 8 different conditions in 8 rotations",
    );
    if fam.active() {
        let (labs, inner) = labels();
        let shapes: Vec<_> = (1..=3).flat_map(gen::forests).collect();
        ctx.par(shapes.len(), |j| {
            labelled(&shapes[j], &labs[..6], inner, &mut |_, ts| {
                fam.case(&desc(&ts), || {
                    let s = soup::<Uni<String>>(&ts);
                    let pre = preorder(&ts);
                    let ids = |i: &mut dyn Iterator<Item = usize>| i.collect::<Vec<_>>();
                    let want = |ops: &[Op]| expect(&pre, ops);
                    macro_rules! chk {
                        ($what:expr, $q:expr, $ops:expr) => {{
                            let got = ids(&mut $q.all().map(|i| i.id));
                            let w = want($ops);
                            if got != w {
                                return Err(format!("{}: {got:?}, expected {w:?}", $what));
                            }
                        }};
                    }
                    let a = [Op::Tag(P::Str("a"))];
                    let x = [Op::Name(P::Str("x"))];
                    let ax = [a[0].clone(), x[0].clone()];
                    chk!("a", s.tag("a"), &a);
                    chk!("aa", s.tag("a").tag("a"), &a);
                    chk!("aaa", s.tag("a").tag("a").tag("a"), &a);
                    chk!("a*8", s.tag("a").tag("a").tag("a").tag("a").tag("a").tag("a").tag("a").tag("a"), &a);
                    chk!("xx", s.attr_name("x").attr_name("x"), &x);
                    chk!("x*4", s.attr_name("x").attr_name("x").attr_name("x").attr_name("x"), &x);
                    chk!("axax", s.tag("a").attr_name("x").tag("a").attr_name("x"), &ax);
                    chk!("xaxaxa", s.attr_name("x").tag("a").attr_name("x").tag("a").attr_name("x").tag("a"), &ax);
                    chk!(
                        "8 conditions",
                        s.tag(true).attr_name(true).attr_value(true).attr("x", true).tag("b").class("c").attr("x", "2").attr_value("c"),
                        &[Op::Tag(P::Str("b")), Op::Class(P::Str("c")), Op::Attr(P::Str("x"), P::Str("2"))]
                    );
                    chk!(
                        "8 conditions, backwards",
                        s.attr_value("c").attr("x", "2").class("c").tag("b").attr("x", true).attr_value(true).attr_name(true).tag(true),
                        &[Op::Tag(P::Str("b")), Op::Class(P::Str("c")), Op::Attr(P::Str("x"), P::Str("2"))]
                    );
                    chk!("contradiction", s.tag("a").tag("b"), &[Op::Tag(P::False)]);
                    chk!("tag(false) last", s.attr_name(true).tag("a").attr_value(true).tag(false), &[Op::Tag(P::False)]);
                    seen(!want(&a).is_empty(), &format!("{:?}{:?}", want(&a), want(&x)))
                });
            });
        });
    }
}

fn main() {
    mc::runner::main("C14", "model_checking", run)
}
