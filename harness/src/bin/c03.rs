//! C03: strict HTML attributes are reported exactly as written, in every syntax.

use std::collections::BTreeMap;

use mc::{
    charref,
    engine::{seen, Ctx},
    gen,
    strictfam::{self, differ, explore, scalar, show, sweep, Want, NAMES, SCALARS},
    tree::{self, T},
};

fn run(ctx: &Ctx) {
    syntaxes(ctx);
    strings(ctx);
    chars(ctx);
    sizes(ctx);
    pairs(ctx);
    strictfam::two_sizes(ctx, Want::Tree, &[0, 4, 5, 6, 7, 9, 10, 16, 17, 18, 21, 23]);
    strictfam::pumped(ctx, Want::Tree);
    strictfam::attribute_lists(ctx, Want::Tree);
    strictfam::dictionary(ctx, Want::Tree, &["<p>{0}x{1}</p>", "<!--{0}x{1}-->", "<p a=\"{0}x{1}\">t</p>", "<p a='{0}x{1}'>t</p>", "<p a={0}x{1}>t</p>", "<br {0}x{1}=y>", "<p {0}=x {1}=y {0}=z>t</p>", "<p {0}=\"{1}\">t</p>", "<p {0}='{1}'>t</p>", "<p {0}={1}>t</p>", "<br {0}=\"{1}\">", "<script {0}=\"{1}\">t</script>", "<{0} {1}=\" x \">t</{0}>", "<{0} {1}>t</{0}>", "<p a=\"{0}{1}\">t</p>", "<p a='{0}{1}' b>t</p>", "<p {0}=1 {1}=2>t</p>", "<p {0}=\"\" {1}=''>t</p>", "<p {0}=\" v&amp;\" {1}/>t"]);
    strictfam::ascii(ctx, Want::Tree, &[("<p a=\"", "\">t</p>"), ("<p a='x", "y'>t</p>"), ("<p a=", ">t</p>"), ("<p a", "=1>t</p>"), ("<br ", "='1'>"), ("<p a", "b/>"), ("<p a=\"1\"", "b>t</p>")]);
}

/// A spelled-out attribute: source text, name, value (before decoding), and whether whitespace has
/// to follow if '/' does
struct Spelled {
    src: String,
    name: String,
    value: String,
    unquoted: bool,
}

fn spellings() -> Vec<Spelled> {
    let mut out = vec![];
    let ws = ["", " ", "\n", "\t", "\x0c", "\r\n", "  "];
    for name in ["b", "data-x", "B", "a:b", "x1", "é", "b"] {
        out.push(Spelled { src: name.into(), name: name.into(), value: String::new(), unquoted: false });
    }
    for w1 in ws {
        for w2 in ws {
            for (q, value) in [
                ("\"", "v"), ("\"", ""), ("\"", "a>b"), ("\"", "/>"), ("\"", "it's"), ("\"", " x\ny "),
                ("\"", "<a b='c'>"), ("\"", "b=c"), ("\"", "tnfr\\"), ("'", "v"), ("'", ""), ("'", "say \"x\""),
                ("'", "</p>"), ("'", "&amp;&#65;"), ("", "v"), ("", "1"), ("", "http://x/y?z&w"), ("", "tnfr\\s"),
                ("", "/"), ("", "a/"), ("", "é"), ("", "a.b,c;d"),
            ] {
                out.push(Spelled {
                    src: format!("n{w1}={w2}{q}{value}{q}"),
                    name: "n".into(),
                    value: value.into(),
                    unquoted: q.is_empty(),
                });
            }
        }
    }
    out
}

/// Expected trees come from the generator, independent of the automaton.
fn syntaxes(ctx: &Ctx) {
    let fam = ctx.family(
        "syntaxes",
        "every spelling of an attribute x every kind of element x what stands before, after, and beside it; expected: computed by the generator",
    );
    if !fam.active() {
        return;
    }
    let sp = spellings();
    let others: &[(&str, &[(&str, &str)])] = &[
        ("", &[]),
        ("q ", &[("q", "")]),
        ("q=1 ", &[("q", "1")]),
        ("q='1>' z=\"\" ", &[("q", "1>"), ("z", "")]),
    ];
    let kinds = ["p", "br", "script", "p/", "br/", "style/", "x-y", "SCRIPT", "IMG"];
    ctx.par(sp.len(), |i| {
        let s = &sp[i];
        for lead in [" ", "\n", "\t\r\n ", "\x0c"] {
            for trail in ["", " ", "\n"] {
                for (before, battrs) in others {
                    for (after, aattrs) in others {
                        for kind in kinds {
                            let closed = kind.ends_with('/');
                            let name = kind.trim_end_matches('/');
                            let mut attrs = BTreeMap::new();
                            for (k, v) in *battrs {
                                attrs.entry(k.to_string()).or_insert(v.to_string());
                            }
                            attrs.entry(s.name.clone()).or_insert(charref::decode(&s.value, true));
                            for (k, v) in *aattrs {
                                attrs.entry(k.to_string()).or_insert(v.to_string());
                            }
                            let after = if after.is_empty() { String::new() } else { format!(" {}", after.trim_end()) };
                            // an unquoted value takes the slash
                            let ends_unquoted = if after.is_empty() { s.unquoted } else { after == " q=1" };
                            let trail = if closed && ends_unquoted && trail.is_empty() { " " } else { trail };
                            let slash = if closed { "/" } else { "" };
                            let start = format!("<{name}{lead}{before}{}{after}{trail}{slash}>", s.src);
                            let n = name.to_string();
                            let void = mc::model::is_void(name);
                            let raw = mc::model::is_raw(name);
                            let (doc, node) = if void {
                                (format!("{start}t"), T::Void { name: n, attrs })
                            } else if raw {
                                let content = if closed { "" } else { "<q>" };
                                let end = if closed { String::new() } else { format!("<q></{name}>") };
                                (format!("{start}{end}t"), T::Raw { name: n, attrs, content: content.into() })
                            } else if closed {
                                (format!("{start}t"), T::El { name: n, attrs, kids: vec![] })
                            } else {
                                (format!("{start}k</{name}>t"), T::El { name: n, attrs, kids: vec![tree::text("k")] })
                            };
                            let want = [node, tree::text("t")];
                            fam.case(&doc, || match tree::strict(&doc) {
                                Ok(got) if got == want => seen(true, &format!("{got:?}")),
                                Ok(got) => Err(differ(&got, &want)),
                                Err(e) => Err(format!("rejected: {e}\nexpected {}", show(&want))),
                            });
                        }
                    }
                }
            }
        }
    });
}

fn strings(ctx: &Ctx) {
    let tokens = ["b", " ", "=", "\"", "'", ">", "/", "c", "\n", "&amp", ";"];
    for (name, frame) in [
        ("strings-element", ("<a ", "></a>")),
        ("strings-void", ("<br ", ">")),
        ("strings-raw", ("<style ", ">x</style>")),
        ("strings-self-closed", ("<a ", "/>")),
    ] {
        explore(
            ctx,
            name,
            "automaton over all strings of attribute syntax in a start tag; compared where it accepts",
            (frame.0, &tokens, frame.1),
            ctx.bound(6, 7),
            Want::Tree,
        );
    }
    explore(
        ctx,
        "attribute-words",
        "automaton over all words of attributes and their parts, with repeated names",
        ("<a", &[" b", "=1", "='2'", "=\"3\"", " c", " B", " = ", "v", "\n", "=''", " b=/"], ">t</a>"),
        ctx.bound(6, 7),
        Want::Tree,
    );
    let chars = ['a', 't', 'n', '\\', '>', '/', '<', '=', '\'', '"', ' ', '\n', '&', '#', '`', '\u{c}', 'é'];
    let n = ctx.bound(4, 5);
    for n in 0..=n {
        sweep(
            ctx,
            "value-strings",
            "every string of special characters as a double-quoted, single-quoted and unquoted value",
            gen::pow(chars.len(), n) * 3,
            Want::Tree,
            |i| {
                let s: String = gen::word(chars.len(), n, i / 3).into_iter().map(|c| chars[c]).collect();
                Some(match i % 3 {
                    0 => format!("<p a=\"{s}\" z>t</p>"),
                    1 => format!("<p a='{s}' z>t</p>"),
                    _ => format!("<p a={s} z>t</p>"),
                })
            },
        );
    }
}

fn chars(ctx: &Ctx) {
    sweep(
        ctx,
        "code-points",
        "every Unicode scalar value in attribute names and in values of every syntax, at their start, middle and end",
        SCALARS * 8,
        Want::Tree,
        |i| {
            let c = scalar(i / 8);
            if !ctx.thorough() && c as u32 > 0x3000 && (c as u32 & 0xff) > 2 {
                return None;
            }
            Some(match i % 8 {
                0 => format!("<p a{c}b=1>t</p>"),
                1 => format!("<p a=\"x{c}y\">t</p>"),
                2 => format!("<p a='x{c}y'>t</p>"),
                3 => format!("<p a=x{c}y>t</p>"),
                4 => format!("<p a={c}>t</p>"),
                5 => format!("<p {c}>t</p>"),
                6 => format!("<br a='{c}'><script a{c}=b>x</script>"),
                _ => format!("<p a=x{c} b{c}>t</p>"),
            })
        },
    );
}

fn sizes(ctx: &Ctx) {
    let counts = gen::sizes(ctx.bound(300, 1500), ctx.bound(140_000, 1_100_000));
    let forms = 6;
    sweep(
        ctx,
        "counts",
        "every number of attributes up to the bound (and some far beyond), ascending, descending, alternating syntax, all of one name",
        counts.len() * forms * 4,
        Want::Tree,
        |i| {
            let (e, i) = (i % 4, i / 4);
            let (n, f) = (counts[i / forms], i % forms);
            let list: String = (0..n)
                .map(|k| match f {
                    0 => format!(" a{k}=\"{k}\""),
                    1 => format!(" a{}='{k}'", n - k),
                    2 => [format!(" a{k}"), format!(" b{k}={k}"), format!("\tc{k} = '{k}'")][k % 3].clone(),
                    3 => format!(" same={k}"),
                    4 => format!("\n{}", ["x", "X", "xx", "y"][k % 4]),
                    _ => format!(" a{}=\"{k}\"", k / 2),
                })
                .collect();
            Some(match e {
                0 => format!("<p{list}>t</p>"),
                1 => format!("<br{list}>t"),
                2 => format!("<script{list}>t</script>"),
                _ => format!("<p{list} />t"),
            })
        },
    );
    let lens = gen::sizes(ctx.bound(1100, 4200), ctx.bound(2_200_000, 1 << 23));
    sweep(
        ctx,
        "lengths",
        "every length up to the bound of names, values and whitespace",
        lens.len() * 7,
        Want::Tree,
        |i| {
            let n = lens[i / 7];
            let w = "xyzt".repeat(n / 4 + 1);
            let w = &w[..n];
            let sp = " \n\t".repeat(n / 3 + 1);
            Some(match i % 7 {
                0 => format!("<p {w}n=1>t</p>"),
                1 => format!("<p a=\"{w}\">t</p>"),
                2 => format!("<p a='{w}' b>t</p>"),
                3 => format!("<p a={w}v>t</p>"),
                4 => format!("<p{sp}a{sp}={sp}b{sp}c{sp}>t</p>"),
                5 => format!("<p a='{}'>t</p>", "&lt;é<".repeat(n.min(20000) / 4)),
                _ => format!("<p {w}n>t</p>"),
            })
        },
    );
}

fn pairs(ctx: &Ctx) {
    let names = [
        "a", "b", "c", "class", "id", "href", "src", "style", "data-a", "A", "aa", "xml:lang", "on", "=".trim_matches('='), "ID",
    ];
    let names: Vec<&str> = names.into_iter().filter(|n| !n.is_empty()).collect();
    let forms = ["", "=1", "='2'", "=\"3 4\"", " = 5"];
    let one: Vec<String> = names.iter().flat_map(|n| forms.iter().map(move |f| format!("{n}{f}"))).collect();
    let k = one.len();
    sweep(
        ctx,
        "combinations",
        "every sequence of three attributes out of names x syntaxes (orders and duplicates included)",
        k * k * ctx.bound(8, k),
        Want::Tree,
        |i| {
            let (a, b, c) = (i % k, i / k % k, i / k / k);
            Some(format!("<p {} {}\n{}>t</p>", one[a], one[b], one[c]))
        },
    );
    let m = NAMES.len();
    sweep(
        ctx,
        "on-every-element",
        "attributes of every syntax on every HTML element, lower and upper case, with and without '/'",
        m * one.len() * 4,
        Want::Tree,
        |i| {
            let (f, i) = (i % 4, i / 4);
            let (name, a) = (NAMES[i / k], &one[i % k]);
            let name = if f < 2 { name.to_string() } else { name.to_uppercase() };
            Some(if f % 2 == 0 {
                if mc::model::is_void(&name) { format!("<{name} {a}>t") } else { format!("<{name} {a}>t</{name}>") }
            } else {
                format!("<{name} z {a} />t")
            })
        },
    );
}

fn main() {
    mc::runner::main("C03", "model_checking", run);
}
