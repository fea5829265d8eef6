//! C05: strict HTML treats void and script/style elements by whole name.

use std::collections::BTreeMap;

use mc::{
    engine::{seen, Ctx},
    gen,
    model::{is_raw, is_void, verdict, Verdict, RAW, VOID},
    strictfam::{self, differ, explore, scalar, show, sweep, Want, NAMES, SCALARS},
    tree::{self, el, text, T},
};

fn run(ctx: &Ctx) {
    case_variants(ctx);
    every_name(ctx);
    near_names(ctx);
    raw_content(ctx);
    structure(ctx);
    places(ctx);
    strictfam::two_sizes(ctx, Want::Both, &[8, 12, 22]);
    strictfam::pumped(ctx, Want::Both);
    strictfam::dictionary(ctx, Want::Both, &["<script>{0}x{1}</script>", "<STYLE>{0}\n{1}</STYLE>", "<style>{0} {1}</style>y", "<script>{0}{1}</script>", "<STYLE {0}>{1}</STYLE>y", "<style>x{0}x{1}</style>", "<script {0}={1}>t</script>", "<{0}>{1}</{0}>", "<{0}{1}>x</{0}{1}>", "<{0}><{1}>x</{1}></{0}>", "<{0}/><{1}/>", "<{0}>x</{1}>", "<br {0}={1}></br>", "<{0}>t", "<{0}{1}>t", "<script>x</{0}{1}>"]);
    strictfam::ascii(ctx, Want::Both, &[("<style>", "</style>"), ("<script>x", "y</script>z"), ("<SCRIPT>a", "</script>"), ("<a", ">x</a>"), ("<", ">x"), ("<a></a", ">"), ("<br", ">t"), ("<script>x</script", ">y"), ("<style", ">x</style>")]);
}

fn variants(name: &str) -> Vec<String> {
    (0..1u32 << name.len())
        .map(|m| {
            name.chars()
                .enumerate()
                .map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
                .collect()
        })
        .collect()
}

/// One document around a name, with the outcome computed from the name's class alone.
/// `None` is a document to be rejected.
fn forms(name: &str) -> Vec<(String, Option<Vec<T>>)> {
    let none = BTreeMap::new;
    let n = || name.to_string();
    let attrs = |l: &[(&str, &str)]| l.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<BTreeMap<_, _>>();
    let a = attrs(&[("a", "1"), ("b", "2 3"), ("c", "")]);
    let mut out = vec![];
    if is_void(name) {
        let v = || T::Void { name: n(), attrs: none() };
        out.push((format!("<{name}>"), Some(vec![v()])));
        out.push((format!("<{name}/>x"), Some(vec![v(), text("x")])));
        out.push((format!("<{name} />x"), Some(vec![v(), text("x")])));
        out.push((format!("<{name} a=1 b='2 3' c>x"), Some(vec![T::Void { name: n(), attrs: a }, text("x")])));
        out.push((format!("<p>x<{name}>y<i>z</i></p>"), Some(vec![el("p", vec![text("x"), v(), text("y"), el("i", vec![text("z")])])])));
        out.push((format!("<{name}><{name}\n><{name}/>"), Some(vec![v(), v(), v()])));
        for bad in [
            format!("<{name}></{name}>"), format!("<{name}/></{name}>"), format!("</{name}>"),
            format!("<p></{name}></p>"), format!("<p><{name}>x</{name}></p>"), format!("<{name}"), format!("<{name} a='>"),
        ] {
            out.push((bad, None));
        }
    } else if is_raw(name) {
        let r = |c: &str| T::Raw { name: n(), attrs: none(), content: c.into() };
        out.push((format!("<{name}></{name}>"), Some(vec![r("")])));
        out.push((format!("<{name}/>x"), Some(vec![r(""), text("x")])));
        out.push((format!("<{name} />x"), Some(vec![r(""), text("x")])));
        out.push((
            format!("<{name} a=1 b='2 3' c>d</{name}>x"),
            Some(vec![T::Raw { name: n(), attrs: a, content: "d".into() }, text("x")]),
        ));
        let c = "a<b>c</b><br></i>&amp;<!-- d </ <p e='f";
        out.push((format!("<{name}>{c}</{name}>x"), Some(vec![r(c), text("x")])));
        out.push((format!("<{name}>\n {c} \t</{name}\n>x"), Some(vec![r(c), text("x")])));
        out.push((
            format!("<{name}>{c}</{}><p>x</p>", name.to_uppercase()),
            Some(vec![r(c), el("p", vec![text("x")])]),
        ));
        out.push((
            format!("<{name}>{c}</{} >x", name.to_lowercase()),
            Some(vec![r(c), text("x")]),
        ));
        out.push((
            format!("<{name}>1</{name}><{name}>2</{name}>"),
            Some(vec![r("1"), r("2")]),
        ));
        let other = if name.eq_ignore_ascii_case("script") { "style" } else { "script" };
        out.push((format!("<{name}>1</{other}>2</{name}>"), Some(vec![r(&format!("1</{other}>2"))])));
        out.push((format!("<{name}>1</{name}x>2</{name}-->3</ {name}>4</{name}>"), Some(vec![r(&format!("1</{name}x>2</{name}-->3</ {name}>4"))])));
        for bad in [
            format!("<{name}>"), format!("<{name}>x</{name}"), format!("</{name}>"), format!("<{name}>x</{other}>"),
            format!("<{name}/></{name}>"), format!("<{name}>1</{name}>2</{name}>"), format!("<{name}>x</p>"),
        ] {
            out.push((bad, None));
        }
    } else {
        let e = |kids| T::El { name: n(), attrs: none(), kids };
        out.push((format!("<{name}></{name}>"), Some(vec![e(vec![])])));
        out.push((format!("<{name}/>x"), Some(vec![e(vec![]), text("x")])));
        out.push((
            format!("<{name}>x<i>y</i><br>z<!--&lt;--></{name}>"),
            Some(vec![e(vec![
                text("x"),
                el("i", vec![text("y")]),
                T::Void { name: "br".into(), attrs: none() },
                text("z"),
                T::Comment("&lt;".into()),
            ])]),
        ));
        out.push((
            format!("<{name} a=1 b='2 3' c> d&lt;\n</{name} >"),
            Some(vec![T::El { name: n(), attrs: a, kids: vec![text(" d<\n")] }]),
        ));
        out.push((format!("<{name}><{name}>x</{name}></{name}>"), Some(vec![e(vec![e(vec![text("x")])])])));
        for bad in [
            format!("<{name}>"), format!("<{name}>x</{name}"), format!("</{name}>"), format!("<{name}>x<i></{name}>"),
            format!("<{name}/></{name}>"), format!("<{name}>a<b</{name}>"),
        ] {
            out.push((bad, None));
        }
    }
    out
}

fn by_class(ctx: &Ctx, family: &str, rule: &str, names: &[String]) {
    let fam = ctx.family(family, rule);
    if !fam.active() {
        return;
    }
    ctx.par(names.len().div_ceil(32), |c| {
        for name in names.iter().skip(c * 32).take(32) {
            for (doc, want) in forms(name) {
                fam.case(&doc, || {
                    let v = match &want {
                        Some(t) => Verdict::Tree(t.clone()),
                        None => Verdict::Reject,
                    };
                    let m = verdict(&doc);
                    if m != v && m != Verdict::DontCare {
                        eprintln!("model and generator disagree on {doc:?}: {m:?} {v:?}");
                        std::process::exit(3);
                    }
                    match (&want, tree::strict(&doc)) {
                        (Some(w), Ok(got)) if *w == got => seen(true, &format!("{got:?}")),
                        (Some(w), Ok(got)) => Err(differ(&got, w)),
                        (Some(w), Err(e)) => Err(format!("rejected: {e}\nexpected {}", show(w))),
                        (None, Err(e)) => seen(true, &e),
                        (None, Ok(got)) => Err(format!("accepted as {}", show(&got))),
                    }
                });
            }
        }
    });
    ctx.traces.fetch_add(names.len() as u64 * 12, std::sync::atomic::Ordering::Relaxed);
}

fn case_variants(ctx: &Ctx) {
    let names: Vec<String> = VOID.iter().chain(RAW).flat_map(|n| variants(n)).collect();
    by_class(
        ctx,
        "case-variants",
        "every letter-case variant of the 15 special names x every form of its tag (plain, closed, with attributes, nested, with end tag, cut off); expected: from the name's class alone",
        &names,
    );
    let names: Vec<String> = NAMES.iter().flat_map(|n| [n.to_string(), n.to_uppercase()]).collect();
    by_class(ctx, "html-names", "the same for every HTML element name", &names);
}

fn every_name(ctx: &Ctx) {
    let n = ctx.bound(3, 4);
    let mut names = vec![];
    for n in 1..=n {
        for i in 0..gen::pow(26, n) {
            names.push(gen::word(26, n, i).into_iter().map(|c| (b'a' + c as u8) as char).collect::<String>());
        }
    }
    by_class(ctx, "all-short-names", "the same for every lower-case word of at most n letters", &names);
}

fn near_names(ctx: &Ctx) {
    let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyz0-_.:AZ".chars().chain(['é', '\u{212a}', 'ſ', '\u{131}', '\u{130}', '\u{a0}', '\u{200b}']).collect();
    let mut set = std::collections::BTreeSet::new();
    for n in VOID.iter().chain(RAW) {
        let c: Vec<char> = n.chars().collect();
        let mk = |v: &[char]| v.iter().collect::<String>();
        for i in 0..=c.len() {
            set.insert(mk(&c[..i]));
            set.insert(mk(&c[i..]));
            for a in &alpha {
                let mut v = c.clone();
                v.insert(i, *a);
                set.insert(mk(&v));
                if i < c.len() {
                    let mut v = c.clone();
                    v[i] = *a;
                    set.insert(mk(&v));
                }
            }
            if i < c.len() {
                let mut v = c.clone();
                v.remove(i);
                set.insert(mk(&v));
            }
            if i + 1 < c.len() {
                let mut v = c.clone();
                v.swap(i, i + 1);
                set.insert(mk(&v));
            }
        }
        for a in &alpha {
            for b in &alpha {
                set.insert(format!("{n}{a}{b}"));
            }
        }
        for m in VOID.iter().chain(RAW).chain(NAMES) {
            set.insert(format!("{n}{m}"));
            set.insert(format!("{n}-{m}"));
            set.insert(format!("{m}{n}"));
        }
    }
    let names: Vec<String> =
        set.into_iter().filter(|s| s.chars().next().is_some_and(|c| c.is_ascii_alphabetic())).collect();
    by_class(
        ctx,
        "near-names",
        "the same for every prefix, suffix, single edit, extension by one or two characters, and combination of the special names (non-ASCII look-alikes included)",
        &names,
    );
}

fn raw_content(ctx: &Ctx) {
    for raw in ["script", "style", "Script", "STYLE"] {
        let low = raw.to_lowercase();
        let up = raw.to_uppercase();
        let other = if low == "script" { "style" } else { "script" };
        let half = &low[..3];
        let end = format!("</{low}");
        let endu = format!("</{up}");
        let start = format!("<{low}>");
        let ends = format!("</{other}>");
        let tokens =
            ["<", "/", &low, ">", " ", &end, &endu, &start, &ends, half, "x", "\n", "<!--", "-->", "\"", "&lt;", "</", "\u{17f}"];
        let prefix = format!("<{raw}>");
        let suffix = format!("</{raw}>z");
        explore(
            ctx,
            &format!("content-{raw}"),
            "automaton over all words of markup, parts of end tags and quotes in a raw element",
            (&prefix, &tokens, &suffix),
            ctx.bound(4, 5),
            Want::Both,
        );
    }
    sweep(
        ctx,
        "code-points",
        "every Unicode scalar value in raw content, and inside and after the name of an end tag in it",
        SCALARS * 4,
        Want::Both,
        |i| {
            let c = scalar(i / 4);
            if !ctx.thorough() && c as u32 > 0x3000 && (c as u32 & 0xff) > 2 {
                return None;
            }
            Some(match i % 4 {
                0 => format!("<script>a{c}b</script>"),
                1 => format!("<style>x</style{c}>y</style>"),
                2 => format!("<script>x</scr{c}pt>y</script>"),
                _ => format!("<script>x<{c}/script>y</script>"),
            })
        },
    );
    let ws = ["", " ", "\n", "\t", "\r\n", "\x0c", " \n "];
    let inner = ["", "x", "x y", "<", "a\n b", "</script", "</style x>", "é"];
    let k = ws.len();
    sweep(
        ctx,
        "surrounding-whitespace",
        "every combination of whitespace around raw content and inside the end tag",
        k * k * k * inner.len() * 2,
        Want::Both,
        |i| {
            let n = if i % 2 == 0 { "script" } else { "style" };
            let i = i / 2;
            let (a, b, c, d) = (ws[i % k], ws[i / k % k], ws[i / k / k % k], inner[i / k / k / k]);
            Some(format!("<{n}>{a}{d}{b}</{n}{c}>t"))
        },
    );
    let lens = gen::sizes(ctx.bound(1100, 4200), ctx.bound(1_100_000, 1 << 22));
    sweep(
        ctx,
        "lengths",
        "raw content of every length up to the bound: plain, made of '<', of '</', of near end tags",
        lens.len() * 5,
        Want::Both,
        |i| {
            let n = lens[i / 5];
            Some(match i % 5 {
                0 => format!("<script>{}</script>t", "x".repeat(n)),
                1 => format!("<script>{}</script>t", "<".repeat(n)),
                2 => format!("<style>{}</style>t", "</".repeat(n)),
                3 => format!("<script>{}</script>t", "</script ".repeat(n)),
                _ => format!("<style>{}</style>t", "</styles>".repeat(n)),
            })
        },
    );
}

fn structure(ctx: &Ctx) {
    explore(
        ctx,
        "structure",
        "automaton over all words of void, raw and ordinary tags, accepted and rejected",
        (
            "",
            &[
                "<br>", "</br>", "<BR/>", "<script>", "</script>", "</SCRIPT >", "<style a>", "</style>", "<p>", "</p>", "x", "<bro>",
                "</bro>", "<script/>", "<col>",
            ],
            "",
        ),
        ctx.bound(5, 6),
        Want::Both,
    );
}

/// What comes before a void or raw element, in any number.
fn places(ctx: &Ctx) {
    let names: Vec<&str> = VOID.iter().chain(RAW).copied().collect();
    let few = gen::sizes(ctx.bound(130, 600), ctx.bound(6000, 70_000));
    sweep(
        ctx,
        "places-each",
        "each special name after any number of its like, of other elements and below any number of open elements (to 520)",
        few.len() * names.len() * 3,
        Want::Both,
        |i| {
            let (f, name, n) = (i % 3, names[i / 3 % names.len()], few[i / 3 / names.len()]);
            let one = if is_void(name) { format!("<{name}>") } else { format!("<{name}></b></{name}>") };
            Some(match f {
                0 => format!("{}t", one.repeat(n)),
                1 => format!("<p>{}{one}y</p>", "<i>x</i>".repeat(n)),
                _ if n > 520 => return None,
                _ => format!("{}{one}y{}", "<i>".repeat(n), "</i>".repeat(n)),
            })
        },
    );
    let many = gen::sizes(ctx.bound(130, 600), ctx.bound(140_000, 1 << 21));
    sweep(
        ctx,
        "places-far",
        "void and raw elements, a void name's end tag and an unclosed raw element after any number of others",
        many.len() * 6,
        Want::Both,
        |i| {
            let n = many[i / 6];
            Some(match i % 6 {
                0 => format!("{}x", "<br>".repeat(n)),
                1 => format!("<p>{}</p>", "<hr/>x".repeat(n)),
                2 => format!("{}<style>{{}}</b></style>x", "<script>x</p></script>".repeat(n)),
                3 => format!("{}<br>x<script><br></script>", "<b/>".repeat(n)),
                4 => format!("{}</br>", "<br>".repeat(n)),
                _ => format!("{}<style></p>", "<script>x</script>".repeat(n)),
            })
        },
    );
}

fn main() {
    mc::runner::main("C05", "model_checking", run);
}
