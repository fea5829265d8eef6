//! C19: result iterators can be stopped, resumed and repeated at will.

use std::{borrow::Cow, sync::atomic::Ordering::Relaxed};

use mc::{
    engine::{fnv, seen, Ctx, Fam, Seen},
    gen,
    iters::scripts,
    qmodel::*,
    tree::T,
};
use soupy::{
    parser::{HTMLNode, XMLNode},
    Queryable, Soup,
};

fn user(ts: &[T]) -> Soup<Uni<String>> {
    soup(ts)
}

/// Everything that can be iterated on one soup of user nodes.
fn everything(ctx: &Ctx, fam: &Fam, d: &str, ts: &[T], len: usize) {
    let s = user(ts);
    let pre = preorder(ts);
    let w = |ops: &[Op]| expect(&pre, ops);
    let count = |r: Result<u64, String>| -> Result<u64, String> {
        if let Ok(n) = &r {
            ctx.traces.fetch_add(*n, Relaxed);
            ctx.transitions.fetch_add(n * (len as u64 + 1), Relaxed);
        }
        r
    };
    ctx.states.fetch_add(1, Relaxed);
    let m = || Op::Tag(P::Str("m"));
    macro_rules! go {
        ($what:expr, $mk:expr, $ops:expr) => {
            fam.case(&format!("{}: {d}", $what), || {
                let want = w($ops);
                count(scripts(&$mk, &want, len, &|i| i.id))?;
                seen(want.len() > 1, &format!("{want:?}"))
            })
        };
    }
    go!("iter()", || s.iter(), &[]);
    go!("&soup", || (&s).into_iter(), &[]);
    go!("strict()", || s.strict().all(), &[Op::Strict]);
    go!("tag", || s.tag("m").all(), &[m()]);
    go!("strict().tag", || s.strict().tag("m").into_iter(), &[Op::Strict, m()]);
    go!("tag(false)", || s.tag(false).all(), &[Op::Tag(P::False)]);
}

fn generic<N: Build>(kind: Kind, ts: &[T], len: usize) -> Result<Seen, String>
where
    N::Text: Ord + AsRef<str> + From<&'static str>,
    &'static str: soupy::Pattern<N::Text>,
{
    let v = kind.view(ts);
    let s = soup::<N>(ts);
    let all = nodes(&s, &v)?;
    let pre = preorder(&v);
    let id = |i: &soupy::query::QueryItem<'_, N>| {
        let p = &**i as *const N;
        all.iter().position(|a| *a == p).unwrap_or(999)
    };
    scripts(&|| s.iter(), &expect(&pre, &[]), len, &id)?;
    let a = [Op::Tag(P::Str("m"))];
    scripts(&|| s.tag("m").all(), &expect(&pre, &a), len, &id)?;
    // the first item by itself, twice
    let first = expect(&pre, &a).first().copied();
    for _ in 0..2 {
        if s.tag("m").first().map(|i| id(&i)) != first {
            return Err("first() is not the first item".into());
        }
    }
    // traversals of nodes are iterators, too
    if let Some(t) = s.strict().first() {
        let n = preorder(&v[..1]).len();
        let want: Vec<usize> = (0..n).collect();
        scripts(&|| t.descendants(), &want, len, &|p: &&N| all.iter().position(|a| *a == *p as *const N).unwrap_or(999))?;
    }
    seen(pre.len() > 2, &format!("{}", pre.len()))
}

fn run(ctx: &Ctx) {
    let fam = ctx.family(
        "scripts",
        "every forest of up to 4 nodes and every set of matching nodes, six ways to get an iterator: every script of up to 2 (thorough: 3) of 18 uses followed by each of 20 endings, with the size hint checked after each use; non-trivial if there is more than one item",
    );
    if fam.active() {
        let shapes: Vec<_> = (0..=4).flat_map(gen::forests).collect();
        let jobs: Vec<(usize, u32)> = (0..shapes.len()).flat_map(|s| (0..1u32 << shapes[s].len()).map(move |m| (s, m))).collect();
        ctx.par(jobs.len(), |j| {
            let (s, m) = jobs[j];
            let ts = forest(&shapes[s], &mut |i| elem(if m >> i & 1 == 1 { "m" } else { "n" }, &[]));
            everything(ctx, &fam, &format!("{:?} marked {m:b}", shapes[s]), &ts, ctx.bound(2, 3));
        });
    }

    let fam = ctx.family(
        "long-scripts",
        "six forests of 5 to 7 nodes, partly matching: every script of up to 3 (thorough: 4) uses, with each ending",
    );
    if fam.active() {
        let shapes: [&[usize]; 6] = [
            &[0, 1, 1, 0, 1, 2],
            &[0, 0, 0, 0, 0],
            &[0, 1, 2, 3, 4],
            &[0, 1, 2, 1, 2, 0, 1],
            &[0, 1, 2, 2, 1, 0],
            &[0, 0, 1, 2, 3, 0],
        ];
        ctx.par(shapes.len() * 2, |j| {
            let sh = shapes[j / 2];
            let ts = forest(sh, &mut |i| elem(if j % 2 == 0 || i % 3 != 1 { "m" } else { "n" }, &[]));
            everything(ctx, &fam, &format!("{sh:?} {}", j % 2), &ts, ctx.bound(3, 4));
        });
    }

    let fam = ctx.family(
        "node-types",
        "every forest of up to 5 nodes (two labels and text) on every node type: scripts of up to 1 (thorough: 2) uses on iter(), on a tag query and on descendants()",
    );
    if fam.active() {
        let shapes: Vec<_> = (0..=ctx.bound(4, 5)).flat_map(gen::forests).collect();
        let labs = [elem("m", &[]), elem("n", &[("x", "1")]), T::Text("m".into())];
        let len = ctx.bound(1, 2);
        ctx.par(shapes.len() * KINDS.len(), |j| {
            let (sh, kind) = (&shapes[j / KINDS.len()], KINDS[j % KINDS.len()]);
            labelled(sh, &labs, 2, &mut |_, ts| {
                fam.case(&format!("{}: {}", kind.name(), desc(&ts)), || match kind {
                    Kind::User => generic::<Uni<String>>(kind, &ts, len),
                    Kind::UserText => generic::<Uni<Own>>(kind, &ts, len),
                    Kind::Tendril => generic::<HTMLNode<Tendril>>(kind, &ts, len),
                    Kind::Cow => generic::<HTMLNode<Cow<'static, str>>>(kind, &ts, len),
                    Kind::Xml => generic::<XMLNode>(kind, &ts, len),
                });
            });
        });
    }

    let fam = ctx.family(
        "every-pause",
        "every forest of up to 7 (thorough: 8) nodes, every set of matching nodes up to 5 nodes: stopped after every number of items, another query run to every point in between, resumed; first(), repeated runs and copied queries give the same; the soup stays as it was",
    );
    if fam.active() {
        let shapes: Vec<_> = (0..=ctx.bound(7, 8)).flat_map(gen::forests).collect();
        ctx.par(shapes.len(), |j| {
            let sh = &shapes[j];
            let n = sh.len();
            let sets: Vec<u32> = if n <= 5 { (0..1 << n).collect() } else { vec![(1 << n) - 1, 0x55, 0xaa & ((1 << n) - 1)] };
            for m in sets {
                let ts = forest(sh, &mut |i| elem(if m >> i & 1 == 1 { "m" } else { "n" }, &[]));
                fam.case(&format!("{sh:?} marked {m:b}"), || pauses(&ts));
            }
        });
    }

    let fam = ctx.family(
        "large",
        "chains, wide and bushy forests of 1 to 300 (thorough: 1500) and some larger numbers of nodes: nth(k), skip(k), step_by(k), and a stop after k for every k",
    );
    if fam.active() {
        let (max, sizes) = (ctx.bound(300, 1500), gen::sizes(ctx.bound(300, 1500), ctx.bound(270_000, 1_100_000)));
        ctx.par((sizes.len() - 1) * 3, |j| {
            let n = sizes[sizes.len() - 1 - j / 3];
            let sh: Vec<usize> = match j % 3 {
                0 => (0..n).collect(),
                1 => vec![0; n],
                // 0 1 2 0 1 2 3 0 ...: never more than one level deeper than the node before
                _ => (0..n).scan(0usize, |d, i| { let r = if i == 0 || i % 7 == 3 { 0 } else if i % 5 == 4 { d.saturating_sub(1) } else { (*d + 1).min(5) }; *d = r; Some(r) }).collect(),
            };
            fam.case(&format!("{} of {n}", ["chain", "wide", "bushy"][j % 3]), || {
                let ts = forest(&sh, &mut |i| elem(if i % 3 == 1 { "n" } else { "m" }, &[]));
                let s = user(&ts);
                let want: Vec<usize> = (0..n).filter(|i| i % 3 != 1).collect();
                // every place, in large ones only some
                let ks: Vec<usize> = if n <= max { (0..=n).collect() } else { [0, 1, 2, 7, 64, n / 3, n / 2, n - 2, n - 1, n].into() };
                for k in ks {
                    let mut i = s.tag("m").all();
                    let w = want.get(k).copied();
                    if i.nth(k).map(|x| x.id) != w {
                        return Err(format!("nth({k})"));
                    }
                    if i.next().map(|x| x.id) != want.get(k + 1).copied() {
                        return Err(format!("next() after nth({k})"));
                    }
                    if s.iter().skip(k).next().map(|x| x.id) != (k < n).then_some(k) {
                        return Err(format!("skip({k})"));
                    }
                    if k > 0 && s.iter().step_by(k).map(|x| x.id).ne((0..n).step_by(k)) {
                        return Err(format!("step_by({k})"));
                    }
                    let mut i = s.iter();
                    let head: Vec<usize> = i.by_ref().take(k).map(|x| x.id).collect();
                    let (lo, hi) = i.size_hint();
                    if lo > n - k || hi.is_some_and(|h| h < n - k) {
                        return Err(format!("size_hint() {lo}, {hi:?} with {} left", n - k));
                    }
                    if head.into_iter().chain(i.map(|x| x.id)).ne(0..n) {
                        return Err(format!("stopped after {k} and resumed"));
                    }
                }
                seen(n > 1, &format!("{n} {}", j % 3))
            });
        });
    }
}

fn pauses(ts: &[T]) -> Result<Seen, String> {
    let s = user(ts);
    let pre = preorder(ts);
    let w_all = expect(&pre, &[]);
    let w_m = expect(&pre, &[Op::Tag(P::Str("m"))]);
    let w_s = expect(&pre, &[Op::Strict]);
    let w_sm = expect(&pre, &[Op::Strict, Op::Tag(P::Str("m"))]);
    let before: Vec<T> = mc::tree::tops(&s);
    for stop in 0..=w_all.len() {
        for other in 0..=w_m.len() {
            let mut a = s.iter();
            let mut got: Vec<usize> = a.by_ref().take(stop).map(|i| i.id).collect();
            let mut b = s.tag("m").all();
            let mut gb: Vec<usize> = b.by_ref().take(other).map(|i| i.id).collect();
            got.extend(a.map(|i| i.id));
            gb.extend(b.map(|i| i.id));
            if got != w_all || gb != w_m {
                return Err(format!("stopped after {stop} while another ran to {other}: {got:?} and {gb:?}"));
            }
        }
    }
    // queries that can be copied: those without conditions
    let q = s.strict();
    let (q1, q2) = (q, q);
    let q3 = q.clone();
    #[allow(clippy::clone_on_copy)]
    let clones = [s.strict().clone(), q.clone().clone(), s.recursive().strict().clone()];
    for c in clones {
        if c.clone().all().map(|i| i.id).ne(w_s.iter().copied())
            || c.clone().tag("m").all().map(|i| i.id).ne(w_sm.iter().copied())
            || c.clone().first().map(|i| i.id) != w_s.first().copied()
            || c.clone().recursive().clone().tag("m").all().map(|i| i.id).ne(w_m.iter().copied())
            || c.clone().recursive().clone().all().map(|i| i.id).ne(w_all.iter().copied())
            || c.clone().into_iter().map(|i| i.id).ne(w_s.iter().copied())
        {
            return Err("a clone of a strict query differs".into());
        }
    }
    for c in [s.recursive().clone(), s.strict().recursive().clone()] {
        if c.clone().all().map(|i| i.id).ne(w_all.iter().copied())
            || c.clone().tag("m").all().map(|i| i.id).ne(w_m.iter().copied())
            || c.clone().strict().clone().tag("m").all().map(|i| i.id).ne(w_sm.iter().copied())
            || c.clone().strict().clone().all().map(|i| i.id).ne(w_s.iter().copied())
        {
            return Err("a clone of a recursive query differs".into());
        }
    }
    // items can be copied, too
    for i in s.iter() {
        let (a, b) = (i.clone(), i.clone().clone());
        if !std::ptr::eq(&*a, &*i) || !std::ptr::eq(&*b, &*i) || a.query().iter().map(|k| k.id).ne(b.query().iter().map(|k| k.id)) {
            return Err(format!("a copy of the item of node {} is another one", i.id));
        }
    }
    for (what, got, want) in [
        ("copy 1", q1.all().map(|i| i.id).collect::<Vec<_>>(), &w_s),
        ("copy 2 with a condition", q2.tag("m").all().map(|i| i.id).collect(), &w_sm),
        ("a clone, recursive", q3.recursive().all().map(|i| i.id).collect(), &w_all),
        ("the copied query", q.all().map(|i| i.id).collect(), &w_s),
        ("the copied query with a condition", q.tag("m").all().map(|i| i.id).collect(), &w_sm),
        ("the copied query, recursive", q.recursive().tag("m").all().map(|i| i.id).collect(), &w_m),
    ] {
        if &got != want {
            return Err(format!("{what}: {got:?}, expected {want:?}"));
        }
    }
    let r = s.recursive();
    for _ in 0..2 {
        if r.first().map(|i| i.id) != w_all.first().copied() || r.all().count() != w_all.len() {
            return Err("a copied recursive query differs when repeated".into());
        }
        if s.tag("m").first().map(|i| i.id) != w_m.first().copied()
            || s.strict().tag("m").first().map(|i| i.id) != w_sm.first().copied()
            || s.strict().first().map(|i| i.id) != w_s.first().copied()
        {
            return Err("first() is not the first item".into());
        }
        if s.tag("m").all().map(|i| i.id).ne(w_m.iter().copied()) {
            return Err("a repeated query differs".into());
        }
    }
    if mc::tree::tops(&s) != before || before != ts {
        return Err("the soup has changed".into());
    }
    // a copy of the soup gives the same
    let c = s.clone();
    if c.tag("m").all().map(|i| i.id).ne(w_m.iter().copied()) || c.iter().map(|i| i.id).ne(w_all.iter().copied()) {
        return Err("a clone of the soup differs".into());
    }
    let h = w_m.iter().fold(fnv(pre.len() as u64, b""), |h, i| fnv(h, &[*i as u8]));
    seen(w_m.len() > 1, &format!("{h:x}"))
}

fn main() {
    mc::runner::main("C19", "model_checking", run)
}
