//! C02: strict HTML parsing rejects malformed documents as a whole.

use mc::{
    engine::Ctx,
    gen,
    model::Model,
    strictfam::{self, check, explore, scalar, sweep, wrap, Want::Reject, NAMES, SCALARS},
};

fn run(ctx: &Ctx) {
    structure(ctx);
    lexical(ctx);
    mutations(ctx);
    tags(ctx);
    sizes(ctx);
    strictfam::two_sizes(ctx, Reject, &[0, 1, 2, 3, 5, 6, 7, 8, 12, 13, 14, 19, 20, 22, 23]);
    strictfam::pumped(ctx, Reject);
    strictfam::dictionary(ctx, Reject, &["{0}{1}", "<p>{0}<b>{1}</b></p>", "<p>{0}</p>{1}", "<!--{0}{1}-->", "<p><!--{0}-->x<!--{1}--></p>", "<!doctype {0}{1}>x", "<!DOCTYPE {0}><p>{1}</p>", "<script>{0}{1}</script>", "<STYLE {0}>{1}</STYLE>y", "<style>x{0}x{1}</style>", "<script {0}={1}>t</script>", "<{0}>{1}</{0}>", "<{0}{1}>x</{0}{1}>", "<{0}><{1}>x</{1}></{0}>", "<{0}/><{1}/>", "<{0}>x</{1}>", "<p {0}=\"{1}\">t</p>", "<p {0}='{1}'>t</p>", "<p {0}={1}>t</p>", "<br {0}=\"{1}\">", "<script {0}=\"{1}\">t</script>", "<{0} {1}=\" x \">t</{0}>", "<{0} {1}>t</{0}>", "<p a=\"{0}{1}\">t</p>", "<p a='{0}{1}' b>t</p>", "<p {0}=1 {1}=2>t</p>", "<p {0}=\"\" {1}=''>t</p>", "<p {0}=\" v&amp;\" {1}/>t", "<p>{0}<b>{1}</p>", "<p>{0}</p>{1}<!--"]);
    strictfam::ascii(ctx, Reject, &[("<p>", "</p>"), ("", ""), ("<b>x", "y</b>"), ("<!--", "-->"), ("<!doctype ", ">x"), ("<p><!-- ", " --></p>"), ("<style>", "</style>"), ("<script>x", "y</script>z"), ("<SCRIPT>a", "</script>"), ("<a", ">x</a>"), ("<", ">x"), ("<a></a", ">"), ("<p a=\"", "\">t</p>"), ("<p a='x", "y'>t</p>"), ("<p a=", ">t</p>"), ("<p a", "=1>t</p>"), ("<br ", "='1'>"), ("<p a", "b/>"), ("<p a=\"1\"", "b>t</p>")]);
}

fn structure(ctx: &Ctx) {
    let tokens = [
        "t", "<a>", "</a>", "<b>", "</b>", "<br>", "</br>", "<a/>", "<!--c-->", "<!--", "<script>", "</script>", "<",
        "<!doctype d", ">",
    ];
    explore(
        ctx,
        "structure",
        "automaton over all words of structural tokens, complete and cut off; each rejected word is also tried with every token after it. Non-trivial: rejected by the automaton",
        ("", &tokens, ""),
        ctx.bound(5, 6),
        Reject,
    );
    explore(
        ctx,
        "structure-nested",
        "the same inside of open elements and with well-formed markup after it, so that only a part of the document is malformed",
        ("<i>x<b>y</b><em z=1>", &tokens, "q</em>r</i><!--k--><p>t</p>"),
        ctx.bound(5, 6),
        Reject,
    );
    explore(
        ctx,
        "structure-tail",
        "the same with well-formed markup before and after, at the top level",
        ("<p>t</p><!--k--><br>x", &tokens, "<i>u</i>"),
        ctx.bound(4, 5),
        Reject,
    );
}

fn lexical(ctx: &Ctx) {
    explore(
        ctx,
        "chars",
        "automaton over all strings of these characters",
        ("", &["a", "<", ">", "/", " ", "!", "-", "=", "\"", "'", "b"], ""),
        ctx.bound(6, 7),
        Reject,
    );
    explore(
        ctx,
        "chars-in-tag",
        "automaton over all strings of these characters inside a start tag, followed by the end of the element",
        ("<a", &["b", " ", "=", "\"", "'", ">", "/", "<", "`", "\n", "é"], "></a>"),
        ctx.bound(6, 7),
        Reject,
    );
    explore(
        ctx,
        "chars-in-void-tag",
        "automaton over all strings of these characters inside a void start tag",
        ("<hr", &["b", " ", "=", "\"", "'", ">", "/", "<", "\n"], ">"),
        ctx.bound(6, 7),
        Reject,
    );
    explore(
        ctx,
        "chars-in-raw-tag",
        "automaton over all strings of these characters inside a script start tag",
        ("<script", &["b", " ", "=", "\"", "'", ">", "/", "<"], ">x</script>"),
        ctx.bound(5, 7),
        Reject,
    );
    explore(
        ctx,
        "chars-in-end-tag",
        "automaton over all strings of these characters inside an end tag",
        ("<a><b></", &["a", "b", "A", " ", "=", "\"", ">", "/", "<", "\t", "!"], "></a>"),
        ctx.bound(5, 6),
        Reject,
    );
    explore(
        ctx,
        "chars-after-bang",
        "automaton over all strings of these characters after '<!'",
        ("<p><!", &["-", ">", "d", "doctype", "DOCTYPE", " ", "!", "<", "[", "a"], ">--></p>"),
        ctx.bound(5, 6),
        Reject,
    );
    explore(
        ctx,
        "tag-parts",
        "automaton over all words of parts of tags",
        (
            "",
            &[
                "<a", "<br", "<style", "<", "</", ">", "/>", "</a>", "</style", " b", "=", "'", "\"", "v", "<!--",
                "-->", "--", "t", "\n",
            ],
            "",
        ),
        ctx.bound(5, 6),
        Reject,
    );
    // what may stand after '<'
    sweep(
        ctx,
        "stray-lt",
        "every Unicode scalar value after '<', after '</' and as a start of an attribute value or name",
        SCALARS * 5,
        Reject,
        |i| {
            let c = scalar(i / 5);
            if !ctx.thorough() && c as u32 > 0x3000 && (c as u32 & 0xff) > 2 {
                return None;
            }
            Some(match i % 5 {
                0 => format!("<p>a<{c}</p>"),
                1 => format!("<p>a</{c}></p>"),
                2 => format!("<p b={c}>x</p>"),
                3 => format!("<p>a<{c}>b</p>"),
                _ => format!("<p {c}=b>x</p>"),
            })
        },
    );
}

/// Sample documents that between them contain every construct.
pub const DOCS: &[&str] = &[
    "<!DOCTYPE html><html lang=\"en\"><head><meta charset='u'><title>x &amp; y</title></head><body class=c>t<br/>u</body></html>",
    "<ul><li>a</li><li b>c<!-- d --></li></ul><script src=\"s\">if (a < b) { \"</b>\" }</script>",
    "<div a=1 b='2' c=\"3\" d><p>x<em>y</em>z</p><img src=q><style>p > a {}</style></div>\n",
    "<x-y><h1>t</h1></x-y><col><colgroup></colgroup><A></a><b />",
];

fn mutations(ctx: &Ctx) {
    let fam = ctx.family(
        "truncations",
        "every proper prefix (by character) of sample documents and of all small valid documents, where the cut is inside of an open construct",
    );
    if fam.active() {
        let mut docs: Vec<String> = DOCS.iter().map(|s| s.to_string()).collect();
        // all valid documents of up to four tokens
        let tokens = ["<a b='c'>", "</a>", "<p>", "</p>", "t&lt;", "<br>", "<!--c-->", "<style>s</style>", "<!DOCTYPE d>", "<i/>"];
        for n in 1..=ctx.bound(4, 5) {
            for i in 0..gen::pow(tokens.len(), n) {
                let d: String = gen::word(tokens.len(), n, i).into_iter().map(|t| tokens[t]).collect();
                let mut m = Model::new();
                m.feed(&d);
                if m.complete() {
                    docs.push(d);
                }
            }
        }
        let docs = &docs;
        ctx.par(docs.len(), |i| {
            for (at, _) in docs[i].char_indices() {
                check(&fam, &docs[i][..at], Reject);
            }
        });
        ctx.note(format!("truncations: {} valid documents were cut at every character", docs.len()));
    }
    let fam = ctx.family(
        "edits",
        "every single edit of the sample documents: deleting, duplicating or swapping characters, inserting or substituting a special character, deleting any range",
    );
    if fam.active() {
        let special = ['<', '>', '/', '"', '\'', '=', ' ', 'a', '!', '-', '&'];
        for doc in DOCS {
            let c: Vec<char> = doc.chars().collect();
            ctx.par(c.len() + 1, |i| {
                let mk = |v: Vec<char>| v.into_iter().collect::<String>();
                for s in special {
                    let mut v = c.clone();
                    v.insert(i, s);
                    check(&fam, &mk(v), Reject);
                    if i < c.len() {
                        let mut v = c.clone();
                        v[i] = s;
                        check(&fam, &mk(v), Reject);
                    }
                }
                for j in i + 1..=c.len() {
                    let mut v = c.clone();
                    v.drain(i..j);
                    check(&fam, &mk(v), Reject);
                }
                if i + 1 < c.len() {
                    let mut v = c.clone();
                    v.swap(i, i + 1);
                    check(&fam, &mk(v), Reject);
                }
            });
        }
    }
}

fn tags(ctx: &Ctx) {
    let k = NAMES.len();
    sweep(
        ctx,
        "name-pairs",
        "every pair of HTML element names as mismatched start and end tag, unclosed, crossed, stray",
        k * k * 5,
        Reject,
        |i| {
            let (f, i) = (i % 5, i / 5);
            let (a, b) = (NAMES[i / k], NAMES[i % k]);
            Some(match f {
                0 => format!("<{a}>x</{b}>"),
                1 => format!("<{a}><{b}>x</{a}></{b}>"),
                2 => format!("<p><{a}>x<{b}>y</p>"),
                3 => format!("{}</{b}>", wrap(a, "x")),
                _ => format!("<p></{a}>{}</p>", wrap(b, "x")),
            })
        },
    );
    let parts = ["a", "A", "b", "1", "-", "é", "\u{212a}", "k", "ſ", "s", ".", "İ"];
    let n = ctx.bound(2, 3);
    let words: Vec<String> = (0..=n)
        .flat_map(|n| (0..gen::pow(parts.len(), n)).map(move |i| gen::word(parts.len(), n, i)))
        .map(|w| w.into_iter().map(|p| parts[p]).collect())
        .collect();
    let k = words.len();
    sweep(
        ctx,
        "near-names",
        "every pair of similar names (prefixes, extensions, case, non-ASCII look-alikes) as start and end tag",
        k * k,
        Reject,
        |i| Some(format!("<x{}>t</x{}>", words[i / k], words[i % k])),
    );
}

fn sizes(ctx: &Ctx) {
    let max = ctx.bound(160, 400);
    let depths = gen::sizes(max - 1, ctx.bound(3000, 10_000));
    sweep(
        ctx,
        "deep-mismatch",
        "every depth up to the bound with one end tag missing, wrong, doubled or swapped at every level",
        depths.len() * max * 4,
        Reject,
        |i| {
            let (f, i) = (i % 4, i / 4);
            let (d, at) = (depths[i / max] + 1, i % max);
            // in deep ones, the outermost and innermost levels and some between
            let at = match at {
                at if d <= max => at,
                0..=7 => at,
                8..=15 => d + 7 - at,
                16..=23 => d * (at - 15) / 9,
                _ => return None,
            };
            if at >= d || (d > 40 && d <= max && d % 8 != 0) {
                return None;
            }
            let mut s: String = (0..d).map(|k| ["<a>", "<b>", "<i>"][k % 3]).collect();
            s += "t";
            for k in (0..d).rev() {
                let end = ["</a>", "</b>", "</i>"][k % 3];
                if k == at {
                    match f {
                        0 => {}
                        1 => s += "</u>",
                        2 => s += &end.repeat(2),
                        _ => s += ["</b>", "</i>", "</a>"][k % 3],
                    }
                } else {
                    s += end;
                }
            }
            Some(s)
        },
    );
    let counts = gen::sizes(ctx.bound(1500, 4000), ctx.bound(140_000, 600_000));
    let bad = ["<a>", "</a>", "<", "<b", "<!--", "<br", "</br>", "<script>", "<a></b>", "<a b=\"", "<!doctype x", "<a b=></a>"];
    sweep(
        ctx,
        "late-errors",
        "every number of well-formed siblings up to the bound (and some far beyond) before (and some after) each kind of malformed construct",
        counts.len() * bad.len() * 3,
        Reject,
        |i| {
            let (f, i) = (i % 3, i / 3);
            let (n, b) = (counts[i / bad.len()], bad[i % bad.len()]);
            Some(match f {
                0 => format!("{}{b}", "<p>x</p>".repeat(n)),
                1 => format!("{}{b}{}", "x<br>".repeat(n), "y".repeat(n % 50)),
                _ => format!("<p>{}{b}</p>", "<!--x-->".repeat(n)),
            })
        },
    );
    let counts = gen::sizes(ctx.bound(300, 1500), ctx.bound(140_000, 600_000));
    let bad = ["=", "\"", "'", "/ ", "/x", "=x", "='x'", " a==b", " a=", " a='", " a=\"b", " a=<", " a=`", "", "<", " a='b'=c", "/>", " \"a\"=b", "\"\""];
    let lists = [" a", " a=b", " a='b'", " a=\"b\""];
    sweep(
        ctx,
        "late-attribute-errors",
        "every number of attributes up to the bound (and some far beyond) before each kind of syntax error in a start tag, or a missing end",
        counts.len() * bad.len() * 4,
        Reject,
        |i| {
            let (e, i) = (i % 4, i / 4);
            let (n, b) = (counts[i / bad.len()], bad[i % bad.len()]);
            // what is an error after some attributes is none after others
            let u = if n == 0 { "" } else { lists[(n + i) % 4] };
            let list = u.repeat(n);
            Some(match e {
                0 => format!("<p{list}{b}>t</p>"),
                1 => format!("<br{list}{b}>t"),
                2 => format!("<script{list}{b}>t</script>"),
                _ => format!("<a><p{list}{b} x>t</p></a>"),
            })
        },
    );
    let lens = gen::sizes(ctx.bound(1100, 4200), ctx.bound(2_200_000, 1 << 24));
    sweep(
        ctx,
        "long-unterminated",
        "unterminated and stray constructs of every length up to the bound",
        lens.len() * 7,
        Reject,
        |i| {
            let n = lens[i / 7];
            let body = "xyz ".repeat(n / 4 + 1);
            let body = &body[..n];
            Some(match i % 7 {
                0 => format!("<!--{body}"),
                1 => format!("<!doctype x{body}"),
                2 => format!("<p a=\"{body}></p>"),
                3 => format!("<script>{body}"),
                4 => format!("<p>{body}"),
                5 => format!("{body}</p>"),
                _ => format!("<p {body}"),
            })
        },
    );
}

fn main() {
    mc::runner::main("C02", "model_checking", run);
}
