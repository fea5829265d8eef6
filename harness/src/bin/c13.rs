//! C13: queries search all descendants by default and only the top level when strict.

use std::sync::atomic::Ordering::Relaxed;

use mc::{
    engine::{fnv, seen, Ctx, Seen},
    gen,
    qmodel::*,
    tree::T,
};
use soupy::{Queryable, Soup};

fn note(h: &mut u64, v: &[usize]) {
    *h = v.iter().fold(fnv(*h, b"|"), |h, i| fnv(h, &[*i as u8]));
}

fn scopes(ops: &[Op]) -> bool {
    ops.iter().any(Op::scope)
}

/// All words over the scope calls and the given conditions with at most `conds` conditions.
fn words(letters: &[Op], max: usize, conds: usize) -> Vec<Vec<Op>> {
    let mut out = vec![];
    gen::words(letters.len(), max, &mut vec![], &mut |w| {
        let ops: Vec<Op> = w.iter().map(|i| letters[*i].clone()).collect();
        if ops.iter().filter(|o| !o.scope()).count() > conds {
            return false;
        }
        out.push(ops);
        true
    });
    out
}

fn ask(q: &dyn Queried, ts: &[T], ops: &[Vec<Op>]) -> Result<Seen, String> {
    let pre = preorder(ts);
    let (mut h, mut non) = (0, false);
    for o in ops {
        if !offered(q, o) {
            continue;
        }
        let r = compare(q, &pre, o)?;
        non |= scopes(o) && !r.is_empty();
        note(&mut h, &r);
    }
    seen(non, &format!("{h:x}"))
}

/// The relation between the two scopes, on the real results alone.
fn relation(q: &dyn Queried, ts: &[T], ops: &[Vec<Op>]) -> Result<Seen, String> {
    let pre = preorder(ts);
    let (mut h, mut non) = (0, false);
    let with = |o: &[Op], s: Op, first: bool| -> Vec<Op> {
        let mut v = o.to_vec();
        v.insert(if first { 0 } else { v.len() }, s);
        v
    };
    for o in ops {
        if !offered(q, o) {
            continue;
        }
        let def = q.run(o, How::All);
        for first in [true, false] {
            let rec = q.run(&with(o, Op::Recursive, first), How::All);
            let st = q.run(&with(o, Op::Strict, first), How::All);
            if rec != def {
                return Err(format!("{}: recursive gives {rec:?}, the default {def:?}", show(o)));
            }
            let top: Vec<usize> = rec.iter().copied().filter(|i| pre.get(*i).is_some_and(|p| p.1 == 0)).collect();
            if st != top {
                return Err(format!("{}: strict gives {st:?}, the top-level ones of the recursive results are {top:?}", show(o)));
            }
            non |= st.len() < rec.len() && !st.is_empty();
            note(&mut h, &st);
        }
    }
    seen(non, &format!("{h:x}"))
}

fn run(ctx: &Ctx) {
    dictionary(ctx, |a, b| {
        let (t, n) = (Op::Tag(P::Str(a)), Op::Attr(P::Str(a), P::Own(b.into())));
        vec![
            vec![t.clone()],
            vec![Op::Strict, t.clone()],
            vec![t.clone(), Op::Strict],
            vec![n.clone(), Op::Strict, t.clone()],
            vec![Op::Recursive, n.clone()],
            vec![Op::Strict, Op::Class(P::Str(b)), Op::Recursive],
            vec![Op::Name(P::CowB(b)), Op::Strict],
            vec![Op::Value(P::Exact(a)), Op::Recursive, Op::Strict],
            vec![Op::Strict, Op::Tag(P::True), Op::Name(P::Str(a))],
            vec![Op::Strict],
        ]
    });
    let fam = ctx.family(
        "scope-chains",
        "every chain of up to 5 (thorough: 6) calls of strict, recursive and three conditions (at most 3 conditions, 2 on built-in nodes) on every forest of up to 3 nodes over 4 labels; non-trivial if a chain with a scope call finds something",
    );
    if fam.active() {
        let letters = [Op::Strict, Op::Recursive, Op::Tag(P::Str("a")), Op::Attr(P::Str("x"), P::True), Op::Class(P::Str("c"))];
        let max = ctx.bound(5, 6);
        let all = words(&letters, max, 3);
        let two = words(&letters, max, 2);
        let (labs, _) = labels();
        let labs = vec![labs[0].clone(), labs[2].clone(), labs[3].clone(), labs[4].clone()];
        let shapes: Vec<_> = (0..=3).flat_map(gen::forests).collect();
        ctx.par(shapes.len() * KINDS.len(), |j| {
            let (sh, kind) = (&shapes[j / KINDS.len()], KINDS[j % KINDS.len()]);
            let ops = if kind == Kind::User { &all } else { &two };
            labelled(sh, &labs, 3, &mut |_, ts| {
                ctx.states.fetch_add(1, Relaxed);
                ctx.transitions.fetch_add(ops.len() as u64, Relaxed);
                ctx.traces.fetch_add(3 * ops.len() as u64, Relaxed);
                fam.case(&format!("{}: {}", kind.name(), desc(&ts)), || ask(&*kind.make(&ts)?, &kind.view(&ts), ops));
            });
        });
    }

    let fam = ctx.family(
        "strict-is-a-part",
        "every forest of up to 4 (user nodes and thorough: 5) nodes over 6 labels, each condition: recursive equals the default, strict is its top-level part, wherever the scope is set",
    );
    if fam.active() {
        let (labs, inner) = labels();
        let labs = labs[..6].to_vec();
        let max = 5;
        let ops: Vec<Vec<Op>> =
            std::iter::once(vec![]).chain(conditions().into_iter().step_by(3).map(|c| vec![c])).collect();
        let shapes: Vec<_> = (0..=max).flat_map(gen::forests).collect();
        ctx.par(shapes.len() * KINDS.len(), |j| {
            let (sh, kind) = (&shapes[j / KINDS.len()], KINDS[j % KINDS.len()]);
            if sh.len() == 5 && !ctx.thorough() && kind != Kind::User {
                return;
            }
            labelled(sh, &labs, inner, &mut |_, ts| {
                ctx.traces.fetch_add(5 * ops.len() as u64, Relaxed);
                fam.case(&format!("{}: {}", kind.name(), desc(&ts)), || {
                    relation(&*kind.make(&ts)?, &kind.view(&ts), &ops)
                });
            });
        });
    }

    let fam = ctx.family(
        "marked-nodes",
        "every forest of up to 7 (thorough: 9) nodes and every set of matching nodes: the four orders of strict/recursive and a tag condition",
    );
    if fam.active() {
        let max = ctx.bound(7, 9);
        let shapes: Vec<_> = (0..=max).flat_map(gen::forests).collect();
        let m = || Op::Tag(P::Str("m"));
        let ops = vec![
            vec![Op::Strict, m()],
            vec![m(), Op::Strict],
            vec![m()],
            vec![Op::Strict, m(), Op::Recursive],
            vec![Op::Recursive, m(), Op::Strict],
            vec![Op::Strict],
            vec![Op::Strict, Op::Recursive],
        ];
        ctx.par(shapes.len(), |j| {
            let sh = &shapes[j];
            for s in 0u32..1 << sh.len() {
                let ts = forest(sh, &mut |i| elem(if s >> i & 1 == 1 { "m" } else { "n" }, &[]));
                fam.case(&format!("{sh:?} marked {s:b}"), || ask(&*Kind::User.make(&ts)?, &ts, &ops));
            }
        });
    }

    let fam = ctx.family(
        "sub-soups",
        "the soup of every node of every forest of up to 4 (thorough: 5) nodes over 4 labels: strict sees exactly the node's children, recursive all below them",
    );
    if fam.active() {
        let (labs, inner) = labels();
        let labs = vec![labs[0].clone(), labs[1].clone(), labs[2].clone(), labs[4].clone()];
        let inner = inner.min(3);
        let shapes: Vec<_> = (1..=ctx.bound(4, 5)).flat_map(gen::forests).collect();
        let ops: Vec<Vec<Op>> = vec![
            vec![],
            vec![Op::Strict],
            vec![Op::Strict, Op::Tag(P::Str("a"))],
            vec![Op::Tag(P::Str("a")), Op::Strict],
            vec![Op::Tag(P::True), Op::Strict],
            vec![Op::Strict, Op::Name(P::Str("x"))],
            vec![Op::Tag(P::Str("b"))],
        ];
        ctx.par(shapes.len(), |j| {
            labelled(&shapes[j], &labs, inner, &mut |_, ts| {
                fam.case(&desc(&ts), || {
                    let s: Soup<Uni<String>> = soup(&ts);
                    let pre = preorder(&ts);
                    let mut h = 0;
                    let mut deep = false;
                    for (i, item) in s.iter().enumerate() {
                        let kids = pre[i].0.kids();
                        deep |= kids.iter().any(|k| !k.kids().is_empty());
                        let sub = Q::<Uni<String>, Any, Two>::new(item.query(), kids)?;
                        let kpre = preorder(kids);
                        for o in &ops {
                            note(&mut h, &compare(&sub, &kpre, o).map_err(|e| format!("soup of node {i}: {e}"))?);
                        }
                    }
                    seen(deep, &format!("{h:x}"))
                });
            });
        });
    }

    let fam = ctx.family(
        "parsed-documents",
        "documents of up to 3 (thorough: 4) top-level pieces of 9 kinds, parsed by the strict and the XML parser, and fragments parsed by the lenient one: strict finds the top-level nodes only",
    );
    if fam.active() {
        // (markup, tree) pieces
        let e = |n: &str, k: Vec<T>| T::El { name: n.into(), attrs: attrs(&[]), kids: k };
        let pieces: Vec<(&str, T)> = vec![
            ("<p></p>", e("p", vec![])),
            ("<p><b></b></p>", e("p", vec![e("b", vec![])])),
            ("<b><p>t</p><p></p></b>", e("b", vec![e("p", vec![T::Text("t".into())]), e("p", vec![])])),
            ("<b>t</b>", e("b", vec![T::Text("t".into())])),
            ("text", T::Text("text".into())),
            ("<!--p-->", T::Comment("p".into())),
            ("<br>", T::Void { name: "br".into(), attrs: attrs(&[]) }),
            ("<script>p</script>", T::Raw { name: "script".into(), attrs: attrs(&[]), content: "p".into() }),
            ("<!DOCTYPE p>", T::Doctype("p".into())),
        ];
        let ops = vec![
            vec![],
            vec![Op::Strict],
            vec![Op::Tag(P::Str("p"))],
            vec![Op::Strict, Op::Tag(P::Str("p"))],
            vec![Op::Tag(P::Str("b")), Op::Strict],
            vec![Op::Tag(P::True), Op::Strict],
        ];
        let max = ctx.bound(3, 4);
        let n: usize = (0..=max).map(|l| gen::pow(pieces.len(), l)).sum();
        ctx.par(n, |mut j| {
            let mut l = 0;
            while j >= gen::pow(pieces.len(), l) {
                j -= gen::pow(pieces.len(), l);
                l += 1;
            }
            let w = gen::word(pieces.len(), l, j);
            if w.windows(2).any(|x| x == [4, 4]) {
                return;
            }
            let doc: String = w.iter().map(|i| pieces[*i].0).collect();
            let ts: Vec<T> = w.iter().map(|i| pieces[*i].1.clone()).collect();
            if w.len() > 0 {
                fam.case(&format!("strict: {doc}"), || ask(&*parse_strict(intern(&doc), &ts)?, &ts, &ops));
            }
            // in XML: the comments around one root, and everything else inside it
            if w.iter().all(|i| *i < 6) {
                let doc = format!("<!--p--><?p?><b>{doc}</b><!--q-->");
                let root = T::El { name: "b".into(), attrs: attrs(&[]), kids: ts.clone() };
                let mut all = vec![T::Comment("p".into()), T::Pi("p".into(), None), root, T::Comment("q".into())];
                all = Kind::Xml.view(&all);
                fam.case(&format!("xml: {doc}"), || ask(&*parse_xml(&doc, &all)?, &all, &ops));
            }
            if w.iter().all(|i| *i < 5 || *i == 6) {
                let doc = format!("<!--p--><!DOCTYPE p><html><head></head><body>{doc}</body></html><!--q-->");
                let html = e("html", vec![e("head", vec![]), e("body", ts.clone())]);
                let all = vec![T::Comment("p".into()), T::Doctype("p".into()), html, T::Comment("q".into())];
                if !w.windows(2).any(|x| x[0] == 4 && x[1] == 4) {
                    fam.case(&format!("lenient: {doc}"), || ask(&*parse_lenient(&doc, &all)?, &all, &ops));
                }
            }
        });
    }

    let fam = ctx.family(
        "sizes",
        "every number of top-level nodes and every depth up to 400 (thorough: 2000), and around powers of two and ten up to 270000 (1100000): strict finds all of the former and one of the latter, before and after recursive()",
    );
    if fam.active() {
        let mut sizes: Vec<usize> = (0..=ctx.bound(400, 2000)).collect();
        sizes.extend(gen::sizes(0, ctx.bound(270_000, 1_100_000)));
        sizes.sort_unstable();
        sizes.dedup();
        ctx.par(sizes.len(), |j| {
            let n = sizes[sizes.len() - 1 - j];
            fam.case(&format!("{n} top-level nodes, each with a child"), || {
                let mk = |id| Uni::<String> { id, name: Some("n".into()), text: None, attrs: None, kids: vec![], kind: 0, other: String::new() };
                let s = soup_of(
                    (0..n)
                        .map(|i| {
                            let mut u = mk(i);
                            u.kids = vec![mk(n + i)];
                            u
                        })
                        .collect::<Vec<_>>(),
                );
                let got: Vec<usize> = s.tag("n").recursive().strict().all().map(|i| i.id).collect();
                if got != (0..n).collect::<Vec<_>>() {
                    return Err(format!("strict found {} of {n}", got.len()));
                }
                let got = s.strict().tag("n").recursive().all().count();
                if got != 2 * n {
                    return Err(format!("recursive found {got} of {}", 2 * n));
                }
                seen(true, &n.to_string())
            });
            fam.case(&format!("depth {n}"), || {
                let mk = |id| Uni::<String> { id, name: Some("n".into()), text: None, attrs: None, kids: vec![], kind: 0, other: String::new() };
                let mut u = mk(n);
                for i in (0..n).rev() {
                    let mut p = mk(i);
                    p.kids = vec![u];
                    u = p;
                }
                let s = soup_of(vec![u]);
                let got: Vec<usize> = s.strict().tag("n").all().map(|i| i.id).collect();
                if got != [0] {
                    return Err(format!("strict found {got:?}"));
                }
                let got: Vec<usize> = s.strict().recursive().tag("n").all().map(|i| i.id).collect();
                if got != (0..=n).collect::<Vec<_>>() {
                    return Err(format!("recursive found {} of {}", got.len(), n + 1));
                }
                seen(true, &n.to_string())
            });
        });
    }
}

fn main() {
    mc::runner::main("C13", "model_checking", run)
}
