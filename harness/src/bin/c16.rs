//! C16: an attribute condition needs one attribute that matches both name and value.

use std::{collections::BTreeMap, sync::atomic::Ordering::Relaxed};

use mc::{
    engine::{fnv, seen, Ctx, Seen},
    gen,
    qmodel::*,
    tree::T,
};
use soupy::{
    filter::{Attr, Filter},
    Node, Pattern, Queryable, Soup,
};

const NAMES: [&str; 4] = ["a", "b", "class", ""];
const VALUES: [&str; 4] = ["", "1", "2", "a"];

fn name_patterns() -> Vec<P> {
    vec![
        P::Str("a"),
        P::Own("b".into()),
        P::CowB("class"),
        P::Str(""),
        P::Str("z"),
        P::True,
        P::False,
        re("a", |s| s.contains('a')),
        P::Exact("b"),
        P::Short("class"),
        P::Pred("not a", |s| s != "a"),
    ]
}

fn value_patterns() -> Vec<P> {
    vec![
        P::Str("1"),
        P::CowO("2".into()),
        P::Str(""),
        P::Own("z".into()),
        P::True,
        P::False,
        re("^[12]$", |s| s == "1" || s == "2"),
        P::Short("1"),
        P::Pred("not 1", |s| s != "1"),
    ]
}

fn conds() -> Vec<Op> {
    let mut v = vec![];
    for n in name_patterns() {
        for w in value_patterns() {
            v.push(Op::Attr(n.clone(), w));
        }
        v.push(Op::Name(n));
    }
    for w in value_patterns() {
        v.push(Op::Value(w.clone()));
        v.push(Op::Class(w));
    }
    v
}

fn map(i: usize) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for (k, v) in gen::word(5, 4, i).into_iter().enumerate() {
        if v > 0 {
            m.insert(NAMES[k].to_string(), VALUES[v - 1].to_string());
        }
    }
    m
}

fn all(q: &dyn Queried, ts: &[T], ops: &[Op]) -> Result<Seen, String> {
    let pre = preorder(ts);
    let (mut h, mut some) = (0, (false, false));
    for o in ops {
        let o = std::slice::from_ref(o);
        if offered(q, o) {
            let r = compare(q, &pre, o)?;
            some.0 |= !r.is_empty();
            some.1 |= r.len() < pre.len();
            h = r.iter().fold(fnv(h, b"|"), |h, i| fnv(h, &i.to_le_bytes()));
        }
    }
    seen(some.0 && some.1, &format!("{h:x}"))
}

/// The filter itself on the node itself.
fn direct<N>(n: &N, t: &T, ops: &[Op]) -> Result<(), String>
where
    N: Node,
    N::Text: Ord + AsRef<str> + for<'a> From<&'a str>,
    Any: Pattern<N::Text>,
{
    for o in ops {
        if let Op::Attr(a, v) = o {
            let got = Attr { name: Any(a.clone()), value: Any(v.clone()) }.matches(n);
            if got != o.holds(t) {
                return Err(format!("Attr {{ {a}, {v} }}.matches() is {got} for {t:?}"));
            }
        }
    }
    Ok(())
}

// user-defined patterns without data: all are at one address
macro_rules! bare {
    ($($t:ident $name:literal $f:expr;)*) => { $(
        #[derive(Clone, Copy)]
        struct $t;
        impl<S: AsRef<str>> Pattern<S> for $t {
            fn matches(&self, h: &S) -> bool {
                <$t as Bare>::hit(h.as_ref())
            }
        }
        impl Bare for $t {
            const NAME: &'static str = $name;
            fn new() -> Self { $t }
            fn hit(s: &str) -> bool {
                let f: fn(&str) -> bool = $f;
                f(s)
            }
        }
    )* }
}
trait Bare: Copy {
    const NAME: &'static str;
    fn new() -> Self;
    fn hit(s: &str) -> bool;
}
bare! {
    Any1 "any" |_| true;
    None1 "none" |_| false;
    HasA "has a" |s| s.contains('a');
    Empty "empty" |s| s.is_empty();
    Digit "digit" |s| s == "1" || s == "2";
}

fn bare2<A: Bare, B: Bare>(s: &Soup<Uni<String>>, pre: &[(&T, usize)]) -> Result<String, String>
where
    A: Pattern<String>,
    B: Pattern<String>,
{
    let (a, b) = (A::new(), B::new());
    let attr = |t: &T, n: fn(&str) -> bool, v: fn(&str) -> bool| t.attrs().is_some_and(|m| m.iter().any(|(x, y)| n(x) && v(y)));
    let any = |_: &str| true;
    let mut all = String::new();
    macro_rules! q {
        ($what:literal, $q:expr, $f:expr) => {{
            let got: Vec<usize> = $q.all().map(|i| i.id).collect();
            let f: &dyn Fn(&T) -> bool = &$f;
            let want: Vec<usize> = (0..pre.len()).filter(|i| f(pre[*i].0)).collect();
            if got != want {
                return Err(format!("{} with {} and {}: {got:?}, expected {want:?}", $what, A::NAME, B::NAME));
            }
            all += &format!("{};", got.len());
        }};
    }
    q!("attr(a, b)", s.attr(a, b), |t| attr(t, A::hit, B::hit));
    q!("attr_name(a).attr_value(b)", s.attr_name(a).attr_value(b), |t| attr(t, A::hit, any) && attr(t, any, B::hit));
    q!("tag(a).attr_name(b)", s.tag(a).attr_name(b), |t| t.name().is_some_and(|n| A::hit(n)) && attr(t, B::hit, any));
    q!("tag(a).attr(b, a)", s.tag(a).attr(b, a), |t| t.name().is_some_and(|n| A::hit(n)) && attr(t, B::hit, A::hit));
    q!("attr(a, a).attr(b, b)", s.attr(a, a).attr(b, b), |t| attr(t, A::hit, A::hit) && attr(t, B::hit, B::hit));
    q!("attr(a, b).attr(b, a)", s.attr(a, b).attr(b, a), |t| attr(t, A::hit, B::hit) && attr(t, B::hit, A::hit));
    Ok(all)
}
fn bare1<A: Bare + Pattern<String>>(s: &Soup<Uni<String>>, pre: &[(&T, usize)]) -> Result<String, String> {
    Ok(bare2::<A, Any1>(s, pre)? + &bare2::<A, None1>(s, pre)? + &bare2::<A, HasA>(s, pre)? + &bare2::<A, Empty>(s, pre)? + &bare2::<A, Digit>(s, pre)?)
}

fn run(ctx: &Ctx) {
    dictionary(ctx, |a, b| {
        let mut v = vec![];
        for n in [P::Str(a), P::Exact(a), P::Own(b.into()), P::True] {
            for w in [P::Str(b), P::CowB(a), P::True, P::Pred("not empty", |s| !s.is_empty())] {
                v.push(vec![Op::Attr(n.clone(), w)]);
            }
            v.push(vec![Op::Name(n.clone())]);
            v.push(vec![Op::Value(n.clone())]);
            v.push(vec![Op::Class(n)]);
        }
        v
    });
    let ops = conds();

    let fam = ctx.family(
        "attribute-maps",
        "all 625 attribute sets over four names (the empty one included) with four values, on ordinary, void and raw elements, every node type: each of 128 conditions, and the filter directly on the node",
    );
    if fam.active() {
        ctx.par(625 * KINDS.len(), |j| {
            let (m, kind) = (map(j / KINDS.len()), KINDS[j % KINDS.len()]);
            let ts = vec![
                T::El { name: "a".into(), attrs: m.clone(), kids: vec![T::Text("1".into())] },
                T::Void { name: "a".into(), attrs: m.clone() },
                T::Raw { name: "class".into(), attrs: m.clone(), content: "a".into() },
            ];
            ctx.states.fetch_add(1, Relaxed);
            ctx.transitions.fetch_add(ops.len() as u64, Relaxed);
            ctx.traces.fetch_add(3 * ops.len() as u64, Relaxed);
            fam.case(&format!("{}: {}", kind.name(), desc(&ts)), || {
                let v = kind.view(&ts);
                if kind == Kind::User {
                    for (i, t) in soup::<Uni<String>>(&ts).iter().zip(preorder(&v)) {
                        direct(&*i, t.0, &ops)?;
                    }
                }
                all(&*kind.make(&ts)?, &v, &ops)
            });
        });
    }

    let fam = ctx.family(
        "one-forest",
        "a forest of all 625 attribute sets (with texts, comments and other non-elements between them) at once, every node type: each condition finds exactly its nodes",
    );
    if fam.active() {
        let mut ts = vec![];
        for i in 0..625 {
            let kids = match i % 4 {
                0 => vec![T::Text("a".into()), T::Comment("1".into())],
                1 => vec![T::Doctype("class".into())],
                2 => vec![T::Text(String::new())],
                _ => vec![],
            };
            ts.push(T::El { name: "e".into(), attrs: map(i), kids });
        }
        ctx.par(KINDS.len() * ops.len(), |j| {
            let (o, kind) = (&ops[j / KINDS.len()], KINDS[j % KINDS.len()]);
            fam.case(&format!("{}: {o}", kind.name()), || all(&*kind.make(&ts)?, &kind.view(&ts), std::slice::from_ref(o)));
        });
    }

    let fam = ctx.family(
        "which-attribute",
        "elements with 1 to 24 (thorough: 60), and some larger numbers of attributes: the one that matches both at every place; elsewhere only name or only value match; or the two halves on different attributes; by predicates and by exact names",
    );
    if fam.active() {
        let (max, sizes) = (ctx.bound(24, 60), gen::sizes(ctx.bound(24, 60), ctx.bound(20_001, 140_000)));
        let even = |s: &str| s.starts_with('n') && s.len() == 6;
        let conds = [
            Op::Attr(P::Pred("hit", |s| s.starts_with("hit")), P::Str("v")),
            Op::Attr(P::Pred("hit", |s| s.starts_with("hit")), P::True),
            Op::Attr(re("^hit", |s| s.starts_with("hit")), re("^v$", |s| s == "v")),
            Op::Attr(P::True, P::Str("v")),
            Op::Value(P::Str("v")),
            Op::Value(re("v", |s| s.contains('v'))),
            Op::Attr(P::Pred("n..", even), P::Str("v")),
            Op::Attr(P::Pred("any", |_| true), P::Exact("v")),
        ];
        ctx.par((sizes.len() - 1) * KINDS.len(), |j| {
            let (n, kind) = (sizes[j / KINDS.len() + 1], KINDS[j % KINDS.len()]);
            for at in 0..n {
                // every place, among many only some
                if n > max && ![0, 1, n / 3, n / 2, n - 2, n - 1].contains(&at) {
                    continue;
                }
                for mode in 0..5 {
                    // names sort as a00 .. so that `at` is the place in the map, too
                    let a: BTreeMap<String, String> = (0..n)
                        .map(|i| {
                            let here = i == at;
                            let (k, v) = match mode {
                                // one full match
                                0 => (if here { "hit" } else { "no" }, if here { "v" } else { "w" }),
                                // all names match, one value
                                1 => ("hit", if here { "v" } else { "w" }),
                                // all values match, one name
                                2 => (if here { "hit" } else { "no" }, "v"),
                                // name here, value everywhere else: no match
                                3 => (if here { "hit" } else { "no" }, if here { "w" } else { "v" }),
                                // nearly
                                _ => (if here { "hi" } else { "no" }, if here { "v " } else { "vw" }),
                            };
                            // the common prefix keeps them in order
                            let key = if k == "hit" || k == "hi" { format!("{k}{i:05}") } else { format!("{}{i:05}", if i < at { "a" } else { "n" }) };
                            (key, v.to_string())
                        })
                        .collect();
                    let ts = vec![
                        T::El { name: "e".into(), attrs: a.clone(), kids: vec![] },
                        T::Void { name: "e".into(), attrs: a.clone() },
                    ];
                    // by the exact name of the one, its neighbours and the ends
                    let mut conds = conds.to_vec();
                    let names: Vec<&String> = a.keys().collect();
                    let place = |i: usize| -> &'static str { intern(names[i]) };
                    for i in [at, at.saturating_sub(1), (at + 1).min(n - 1), 0, n - 1] {
                        conds.push(Op::Attr(P::Str(place(i)), P::Str("v")));
                        conds.push(Op::Attr(P::Short(place(i)), P::True));
                    }
                    conds.push(Op::Name(P::Str(place(at))));
                    conds.push(Op::Attr(P::Exact(place(at)), re("^v$", |s| s == "v")));
                    fam.case(&format!("{}: {n} attributes, place {at}, mode {mode}", kind.name()), || {
                        all(&*kind.make(&ts)?, &kind.view(&ts), &conds)
                    });
                }
            }
        });
    }

    let fam = ctx.family(
        "zero-sized-patterns",
        "six queries with every pair of five user-defined patterns without data (which all share one address) as names and values, on the forest of each two attribute sets (quick: next to each other)",
    );
    if fam.active() {
        ctx.par(625, |i| {
            for k in if ctx.thorough() { (0..625).collect() } else { vec![(i + 1) % 625, (i + 26) % 625] } {
                let ts = vec![
                    T::El { name: "a".into(), attrs: map(i), kids: vec![T::Text("a".into()), T::El { name: "1".into(), attrs: map(k), kids: vec![] }] },
                    T::Void { name: "".into(), attrs: map(k) },
                ];
                fam.case(&format!("{i} {k}"), || {
                    let s = soup::<Uni<String>>(&ts);
                    let pre = preorder(&ts);
                    let all = bare1::<Any1>(&s, &pre)? + &bare1::<None1>(&s, &pre)? + &bare1::<HasA>(&s, &pre)? + &bare1::<Empty>(&s, &pre)? + &bare1::<Digit>(&s, &pre)?;
                    seen(true, &all)
                });
            }
        });
    }

    let fam = ctx.family(
        "name-order",
        "every pair and triple of attribute names of up to 2 letters out of a, B, z, é, -, 1: each is found by its own name with its own value only (the lookup does not depend on how names sort)",
    );
    if fam.active() {
        let letters = ["a", "B", "z", "é", "-", "1"];
        let mut names: Vec<String> = vec![];
        gen::words(letters.len(), 2, &mut vec![], &mut |w| {
            names.push(w.iter().map(|i| letters[*i]).collect());
            true
        });
        let step = 1;
        ctx.par(names.len() * KINDS.len(), |j| {
            let (a, kind) = (j / KINDS.len(), KINDS[j % KINDS.len()]);
            for b in a + 1..names.len() {
                for c in std::iter::once(a).chain((b + 1..names.len()).step_by(step)) {
                    let mut m = BTreeMap::new();
                    m.insert(names[a].clone(), "0".to_string());
                    m.insert(names[b].clone(), "1".to_string());
                    if c != a {
                        m.insert(names[c].clone(), "2".to_string());
                    }
                    let ts = vec![T::El { name: "e".into(), attrs: m, kids: vec![] }];
                    fam.case(&format!("{}: {}", kind.name(), desc(&ts)), || {
                        let q = kind.make(&ts)?;
                        let v = kind.view(&ts);
                        let mut ops = vec![];
                        for n in [a, b, c, (a + 1) % names.len(), (b + 7) % names.len()] {
                            let n: &'static str = intern(&names[n]);
                            for v in ["0", "1", "2"] {
                                ops.push(Op::Attr(P::Str(n), P::Str(v)));
                                ops.push(Op::Attr(P::Exact(n), P::Str(v)));
                            }
                            ops.push(Op::Name(P::Str(n)));
                        }
                        all(&*q, &v, &ops)
                    });
                }
            }
        });
    }

    let fam = ctx.family(
        "class",
        "class attributes of up to 4 (thorough: 5) parts out of words, spaces, tabs and newlines: class() compares the whole value; class and a look-alike (Class, className, data-class) both ways, every node type",
    );
    if fam.active() {
        let parts = ["a", "b", " ", "\t", "\n"];
        let mut vals: Vec<String> = vec![];
        gen::words(parts.len(), ctx.bound(4, 5), &mut vec![], &mut |w| {
            vals.push(w.iter().map(|i| parts[*i]).collect());
            true
        });
        vals.sort();
        vals.dedup();
        ctx.par(vals.len() * KINDS.len(), |j| {
            let (v, kind) = (&vals[j / KINDS.len()], KINDS[j % KINDS.len()]);
            let e = |a: &[(&str, &str)]| T::El { name: "e".into(), attrs: attrs(a), kids: vec![] };
            let ts = vec![
                e(&[("class", v)]),
                e(&[("Class", v)]),
                e(&[("className", v)]),
                e(&[("data-class", v)]),
                e(&[("class", "a"), ("id", v)]),
                e(&[("CLASS", "a"), ("class", v), ("clas", "b")]),
                e(&[]),
                T::Text(v.clone()),
                T::El { name: "class".into(), attrs: attrs(&[]), kids: vec![T::Text("a".into())] },
            ];
            fam.case(&format!("{}: {v:?}", kind.name()), || {
                let v: &'static str = intern(v);
                let ops = [
                    Op::Class(P::Str("a")),
                    Op::Class(P::Str("b")),
                    Op::Class(P::Str("")),
                    Op::Class(P::Str("a b")),
                    Op::Class(P::Str("b a")),
                    Op::Class(P::Str(v)),
                    Op::Class(P::Own(v.to_string())),
                    Op::Class(P::True),
                    Op::Class(re("a", |s| s.contains('a'))),
                    Op::Attr(P::Str("class"), P::Str("a")),
                    Op::Attr(P::Exact("class"), P::Str(v)),
                ];
                all(&*kind.make(&ts)?, &kind.view(&ts), &ops)
            });
        });
    }

    let fam = ctx.family(
        "non-elements",
        "nodes of every kind without attributes, and forests of up to 3 nodes of which only the elements have any: nothing else ever matches, whatever the condition",
    );
    if fam.active() {
        let labs = vec![
            elem("a", &[]),
            elem("a", &[("a", "1")]),
            elem("b", &[("class", ""), ("b", "1")]),
            T::Text("a".into()),
            T::Text("class".into()),
            T::Comment("a".into()),
            T::Doctype("a".into()),
            T::Raw { name: "a".into(), attrs: attrs(&[]), content: "a=1".into() },
            T::Void { name: "class".into(), attrs: attrs(&[]) },
        ];
        let shapes: Vec<_> = (1..=ctx.bound(3, 4)).flat_map(gen::forests).collect();
        ctx.par(shapes.len() * KINDS.len(), |j| {
            let (sh, kind) = (&shapes[j / KINDS.len()], KINDS[j % KINDS.len()]);
            labelled(sh, &labs, 3, &mut |_, ts| {
                fam.case(&format!("{}: {}", kind.name(), desc(&ts)), || all(&*kind.make(&ts)?, &kind.view(&ts), &ops));
            });
        });
    }

    let fam = ctx.family(
        "documents",
        "every sequence of up to 3 (thorough: 4) different attributes out of 6 in a start tag, written in every order, parsed by each parser: each condition",
    );
    if fam.active() {
        let pool = [("a", "1"), ("b", "2"), ("class", "a"), ("x-y", "1"), ("id", "a b"), ("q", "")];
        let mut seqs: Vec<Vec<usize>> = vec![];
        gen::words(pool.len(), ctx.bound(3, 4), &mut vec![], &mut |w| {
            let mut s = w.to_vec();
            s.sort_unstable();
            s.dedup();
            if s.len() < w.len() {
                return false;
            }
            seqs.push(w.to_vec());
            true
        });
        let mut ops = ops.clone();
        for (n, v) in pool {
            for w in ["1", "2", "a", "a b", "b", ""] {
                ops.push(Op::Attr(P::Str(n), P::Str(w)));
            }
            ops.push(Op::Value(P::Str(v)));
        }
        ctx.par(seqs.len(), |j| {
            let s = &seqs[j];
            let a: String = s.iter().map(|i| format!(" {}=\"{}\"", pool[*i].0, pool[*i].1)).collect();
            let m = attrs(&s.iter().map(|i| pool[*i]).collect::<Vec<_>>());
            let e = |n: &str, m: &BTreeMap<String, String>, kids: Vec<T>| T::El { name: n.into(), attrs: m.clone(), kids };
            let none = BTreeMap::new();
            let inner = |void: &str| format!("<i{a}>a</i><br{a}{void}>");
            let kids = vec![e("i", &m, vec![T::Text("a".into())]), T::Void { name: "br".into(), attrs: m.clone() }];
            let doc = inner("");
            fam.case(&format!("strict: {doc}"), || all(&*parse_strict(intern(&doc), &kids)?, &kids, &ops));
            let doc = format!("<html><head></head><body>{}</body></html>", inner(""));
            let ts = vec![e("html", &none, vec![e("head", &none, vec![]), e("body", &none, kids.clone())])];
            fam.case(&format!("lenient: {doc}"), || all(&*parse_lenient(&doc, &ts)?, &ts, &ops));
            let doc = format!("<r>{}</r>", inner("/"));
            let ts = Kind::Xml.view(&[e("r", &none, kids.clone())]);
            fam.case(&format!("xml: {doc}"), || all(&*parse_xml(&doc, &ts)?, &ts, &ops));
        });
    }

    let fam = ctx.family(
        "user-nodes",
        "user-defined nodes that report a name and text at once, attributes on a node without a name, an empty attribute map, or no attributes at all: conditions go by what attrs() reports",
    );
    if fam.active() {
        let mut us = vec![];
        for name in [None, Some("a"), Some("class")] {
            for text in [None, Some("a")] {
                for m in [None, Some(vec![]), Some(vec![("a", "1")]), Some(vec![("class", "a"), ("a", "2")])] {
                    us.push(Uni::<String> {
                        id: us.len(),
                        name: name.map(Into::into),
                        text: text.map(Into::into),
                        attrs: m.map(|m| attrs(&m)),
                        kids: vec![],
                        kind: 4,
                        other: String::new(),
                    });
                }
            }
        }
        let s: Soup<Uni<String>> = soup_of(us.clone());
        for (n, v) in name_patterns().iter().flat_map(|n| value_patterns().into_iter().map(move |v| (n.clone(), v))) {
            fam.case(&format!("attr({n}, {v})"), || {
                let got: Vec<usize> = s.attr(Any(n.clone()), Any(v.clone())).all().map(|i| i.id).collect();
                let want: Vec<usize> = us
                    .iter()
                    .filter(|u| u.attrs.as_ref().is_some_and(|a| a.iter().any(|(k, w)| n.hit(k) && v.hit(w))))
                    .map(|u| u.id)
                    .collect();
                if got != want {
                    return Err(format!("found {got:?}, expected {want:?}"));
                }
                let got: Vec<usize> = s.tag(Any(n.clone())).all().map(|i| i.id).collect();
                let want: Vec<usize> =
                    us.iter().filter(|u| u.name.as_ref().is_some_and(|a| n.hit(a))).map(|u| u.id).collect();
                if got != want {
                    return Err(format!("tag({n}) found {got:?}, expected {want:?}"));
                }
                seen(true, &format!("{want:?}"))
            });
        }
    }
}

fn main() {
    mc::runner::main("C16", "model_checking", run)
}
