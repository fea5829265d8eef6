//! C01: strict HTML parsing returns exactly the tree the document spells out.

use mc::{
    engine::Ctx,
    gen,
    strictfam::{self, explore, scalar, spelled, sweep, wrap, Want::Tree, NAMES, SCALARS},
    tree::{el, text, T},
};
use std::collections::BTreeMap;

fn run(ctx: &Ctx) {
    structure(ctx);
    forests(ctx);
    lexical(ctx);
    contents(ctx);
    names(ctx);
    sizes(ctx);
    strictfam::two_sizes(ctx, Tree, &[1, 2, 3, 4, 6, 8, 12, 13, 14, 15, 18, 19, 20, 22]);
    strictfam::pumped(ctx, Tree);
    strictfam::dictionary(ctx, Tree, &["<p>{0}x{1}</p>", "<!--{0}x{1}-->", "<p a=\"{0}x{1}\">t</p>", "<p a='{0}x{1}'>t</p>", "<p a={0}x{1}>t</p>", "<script>{0}x{1}</script>", "<!doctype {0}x{1}>", "{0}{1}", "<p>{0}<b>{1}</b></p>", "<p>{0}</p>{1}", "<!--{0}{1}-->", "<p><!--{0}-->x<!--{1}--></p>", "<!doctype {0}{1}>x", "<!DOCTYPE {0}><p>{1}</p>", "<script>{0}{1}</script>", "<STYLE {0}>{1}</STYLE>y", "<style>x{0}x{1}</style>", "<{0}>{1}</{0}>", "<{0}{1}>x</{0}{1}>", "<{0}><{1}>x</{1}></{0}>", "<{0}/><{1}/>", "<p {0}=\"{1}\">t</p>"]);
    strictfam::ascii(ctx, Tree, &[("<p>", "</p>"), ("", ""), ("<b>x", "y</b>"), ("<!--", "-->"), ("<!doctype ", ">x"), ("<p><!-- ", " --></p>"), ("<style>", "</style>"), ("<script>x", "y</script>z"), ("<SCRIPT>a", "</script>"), ("<a", ">x</a>"), ("<", ">x"), ("<a></a", ">"), ("<p a=\"", "\">t</p>")]);
}

fn structure(ctx: &Ctx) {
    let tokens = [
        "t", "<a>", "</a>", "<b>", "</b>", "<br>", "<a/>", "<!--c-->", "<!DOCTYPE d>", " ",
        "<script>s</script>", "&lt;",
    ];
    explore(
        ctx,
        "structure",
        "automaton over all words of structural tokens (elements, void, self-closed, comment, doctype, raw, text); non-trivial: a non-empty tree",
        ("", &tokens, ""),
        ctx.bound(6, 7),
        Tree,
    );
    // the same from within an element, two levels deep, between siblings
    explore(
        ctx,
        "structure-nested",
        "as structure, inside of two open elements with siblings before and after",
        ("x<i y=z>u<!--k--><em>", &tokens, "v</em><hr>w</i>q"),
        ctx.bound(5, 6),
        Tree,
    );
    let tokens = ["<a>", "</a>", "</A>", "<A b>", "<aa>", "</aa>", "</a >", "x", "<!-- -->"];
    explore(
        ctx,
        "end-tags",
        "automaton over start and end tags of similar names, in both cases",
        ("", &tokens, ""),
        ctx.bound(6, 8),
        Tree,
    );
}

/// Every ordered forest with every labelling: the expected tree is the generating tree itself.
fn forests(ctx: &Ctx) {
    let fam = ctx.family(
        "forests",
        "every ordered forest of at most n nodes, with every assignment of kinds to nodes, spelled out as a document; expected: that very forest",
    );
    if !fam.active() {
        return;
    }
    let n = ctx.bound(6, 7);
    for n in 0..=n {
        let shapes = gen::forests(n);
        ctx.par(shapes.len(), |i| {
            let shape = &shapes[i];
            let leaf: Vec<bool> =
                (0..n).map(|j| j + 1 == n || shape[j + 1] <= shape[j]).collect();
            // inner nodes: 2 kinds of element; leaves: those and 6 more
            let kinds: Vec<usize> = leaf.iter().map(|l| if *l { 8 } else { 2 }).collect();
            let total: usize = kinds.iter().product();
            for mut code in 0..total {
                let label: Vec<usize> = kinds
                    .iter()
                    .map(|k| {
                        let l = code % k;
                        code /= k;
                        l
                    })
                    .collect();
                let mut doc = String::new();
                let mut at = 0;
                let Some(want) = build(shape, &label, 0, &mut at, &mut doc) else { continue };
                spelled(&fam, &doc, &want);
            }
        });
    }
}

/// `None` if two texts would be next to each other (they are one text)
fn build(shape: &[usize], label: &[usize], depth: usize, at: &mut usize, doc: &mut String) -> Option<Vec<T>> {
    let mut out: Vec<T> = vec![];
    while *at < shape.len() && shape[*at] == depth {
        let i = *at;
        *at += 1;
        match label[i] {
            l @ (0 | 1) => {
                let name = if l == 0 { "p" } else { "div" };
                let mut attrs = BTreeMap::new();
                if l == 1 {
                    attrs.insert("id".to_string(), i.to_string());
                    *doc += &format!("<div id=\"{i}\">");
                } else {
                    *doc += "<p>";
                }
                let kids = build(shape, label, depth + 1, at, doc)?;
                *doc += &format!("</{name}>");
                out.push(T::El { name: name.into(), attrs, kids });
            }
            2 => {
                if matches!(out.last(), Some(T::Text(_))) {
                    return None;
                }
                *doc += &format!("t{i}");
                out.push(text(&format!("t{i}")));
            }
            3 => {
                *doc += &format!("<!--{i}-->");
                out.push(T::Comment(i.to_string()));
            }
            4 => {
                *doc += "<img>";
                out.push(T::Void { name: "img".into(), attrs: BTreeMap::new() });
            }
            5 => {
                *doc += &format!("<style>{i}<p></style>");
                out.push(T::Raw { name: "style".into(), attrs: BTreeMap::new(), content: format!("{i}<p>") });
            }
            6 => {
                *doc += "<p/>";
                out.push(el("p", vec![]));
            }
            _ => {
                *doc += &format!("<!doctype {i}>");
                out.push(T::Doctype(i.to_string()));
            }
        }
    }
    Some(out)
}

fn lexical(ctx: &Ctx) {
    explore(
        ctx,
        "chars",
        "automaton over all strings of these characters",
        ("", &["a", "<", ">", "/", " ", "!", "-", "b"], ""),
        ctx.bound(7, 9),
        Tree,
    );
    explore(
        ctx,
        "tag-parts",
        "automaton over all words of parts of tags, comments and raw elements",
        (
            "",
            &[
                "<a", "<br", "<script", ">", "/>", "</a>", "</script>", " b", "=", "'v'", "v", "<!--", "-->", "t",
                "\n",
            ],
            "",
        ),
        ctx.bound(6, 7),
        Tree,
    );
}

fn contents(ctx: &Ctx) {
    let frames: &[(&str, &str)] = &[
        ("", ""),
        ("<p>", "</p>"),
        ("<p>x", "y</p>"),
        ("<!--", "-->"),
        ("<!-- x", "y -->z"),
        ("<style>a", "b</style>"),
        ("<!doctype a", "b>"),
        ("<p b=\"", "\">c</p>"),
        ("<p>&", ";</p>"),
    ];
    let all = ctx.thorough();
    sweep(
        ctx,
        "code-points",
        "every Unicode scalar value in text, comment, script/style, doctype and attribute value",
        SCALARS * frames.len(),
        Tree,
        |i| {
            let c = scalar(i / frames.len());
            // quick: all of the BMP and the borders of the other planes
            if !all && c as u32 > 0xffff && (c as u32 & 0xffff) > 0x100 && (c as u32 & 0xffff) < 0xff00 {
                return None;
            }
            let (a, b) = frames[i % frames.len()];
            Some(format!("{a}{c}{b}"))
        },
    );
    // strings of characters that mean something elsewhere
    let chars = ['a', '>', '-', '!', '"', '\'', '/', '=', '&', ';', ' ', '\n', '\u{a0}', 'é', '\0'];
    let frames: &[(&str, &str)] =
        &[("<p>", "</p>"), ("<!--", "-->"), ("<!--x", "--><b></b>"), ("<!doctype x", "><i>y</i>"), ("<style>.", ".</style>z")];
    let n = ctx.bound(4, 5);
    let per = gen::pow(chars.len(), n);
    sweep(
        ctx,
        "content-strings",
        "every string of n special characters as text, comment, doctype and style content",
        per * frames.len(),
        Tree,
        |i| {
            let s: String = gen::word(chars.len(), n, i / frames.len()).into_iter().map(|c| chars[c]).collect();
            let (a, b) = frames[i % frames.len()];
            Some(format!("{a}{s}{b}"))
        },
    );
    explore(
        ctx,
        "comment-strings",
        "automaton over all strings of these characters inside a comment",
        ("<a><!--", &["-", ">", "!", "<", "a", " "], "--></a>"),
        ctx.bound(7, 8),
        Tree,
    );
    explore(
        ctx,
        "markup-in-content",
        "automaton over markup-like tokens in comments, doctypes, raw elements and attribute values",
        (
            "<p>",
            &["<!--", "-->", "<!doctype ", "<style>", "</style>", "<b c='", "'>", "</b>", "<x>", "</x>", "</p>", "<p>", ">", "t"],
            "",
        ),
        ctx.bound(6, 7),
        Tree,
    );
}

fn names(ctx: &Ctx) {
    let k = NAMES.len();
    let up: Vec<String> = NAMES.iter().map(|n| n.to_uppercase()).collect();
    sweep(
        ctx,
        "element-names",
        "every pair of HTML element names, nested and as siblings, with text and comments around, lower and upper case",
        k * k * 4,
        Tree,
        |i| {
            let (f, i) = (i % 4, i / 4);
            let (a, b) = (NAMES[i / k], NAMES[i % k]);
            Some(match f {
                0 => wrap(a, &format!("x{}y", wrap(b, "z"))),
                1 => format!("{}{}<!--e-->", wrap(a, "x"), wrap(b, "y")),
                2 => wrap(&up[i / k], &format!("{} {}", wrap(b, ""), wrap(a, ""))),
                _ => format!("<div>{}</div>\n{}", wrap(a, &wrap(b, &wrap("span", "w"))), wrap(&up[i % k], "")),
            })
        },
    );
    // names by character
    sweep(
        ctx,
        "name-characters",
        "every Unicode scalar value inside a tag name and an attribute name",
        SCALARS * 2,
        Tree,
        |i| {
            let c = scalar(i / 2);
            if !ctx.thorough() && c as u32 > 0x3000 && (c as u32 & 0xff) > 2 {
                return None;
            }
            Some(if i % 2 == 0 { format!("<x{c}y>z</x{c}y>") } else { format!("<x a{c}b=1>z</x>") })
        },
    );
    let parts = ["a", "b", "A", "1", "-", "_", ".", ":", "é", "br", "script", "h"];
    let n = ctx.bound(4, 5);
    for n in 1..=n {
        let per = gen::pow(parts.len(), n);
        sweep(
            ctx,
            "name-strings",
            "every word of name parts as an element's name",
            per,
            Tree,
            |i| {
                let s: String = gen::word(parts.len(), n, i).into_iter().map(|c| parts[c]).collect();
                Some(format!("<{s}>t</{s}><{s}/>"))
            },
        );
    }
}

fn sizes(ctx: &Ctx) {
    let depths = gen::sizes(ctx.bound(300, 2000), ctx.bound(10_000, 20_000));
    let inner = ["", "t", "<br>", "<!--c-->", "<style>s</style>"];
    sweep(
        ctx,
        "depth",
        "every depth of nesting up to the bound (and some far beyond), with siblings on the way down and up",
        depths.len() * 4,
        Tree,
        |i| {
            let (d, f) = (depths[i / 4] + 1, i % 4);
            let mut s = String::new();
            for k in 0..d {
                match f {
                    0 => s += "<a>",
                    1 => s += ["<a>", "<b>", "<i>"][k % 3],
                    2 => s += "u<a k=v>v<br>",
                    _ => s += &format!("<n{k}>"),
                }
            }
            s += inner[i % 5];
            for k in (0..d).rev() {
                match f {
                    0 => s += "</a>",
                    1 => s += ["</a>", "</b>", "</i>"][k % 3],
                    2 => s += "w</a><!--x-->",
                    _ => s += &format!("</n{k}>"),
                }
            }
            Some(s)
        },
    );
    let widths = gen::sizes(ctx.bound(1100, 4000), ctx.bound(270_000, 530_000));
    let unit = ["<a></a>", "<br>", "<!--c-->", "<a/>t", "<b>x</b> ", "<!doctype d>", "<style>s</style>", "<a b c=d/>"];
    sweep(
        ctx,
        "width",
        "every number of siblings up to the bound (and some far beyond), of each kind, at the top and in an element",
        widths.len() * unit.len() * 2,
        Tree,
        |i| {
            let (top, i) = (i % 2 == 0, i / 2);
            let (n, u) = (widths[i / unit.len()], unit[i % unit.len()]);
            // `<a b c=d/>` is an open tag
            let u = if u == "<a b c=d/>" { "<a b c=d />" } else { u };
            Some(if top { u.repeat(n) } else { format!("<p>{}</p>", u.repeat(n)) })
        },
    );
    let lens = gen::sizes(ctx.bound(1100, 4200), ctx.bound(2_200_000, 1 << 24));
    let forms = 8;
    sweep(
        ctx,
        "lengths",
        "every length up to the bound, and around powers of two beyond it, of text, comment, doctype, script, names, values",
        lens.len() * forms,
        Tree,
        |i| {
            let n = lens[i / forms];
            let body: String = "xyz é-<>".chars().cycle().filter(|c| i % forms == 1 || !"<>".contains(*c)).take(n).collect();
            let word = "nm".repeat(n / 2 + 1);
            Some(match i % forms {
                0 => format!("<p>{body}</p>"),
                1 => format!("<!--{body}-->"),
                2 => format!("<!doctype x{body}>"),
                3 => format!("<script>s{body}s</script>"),
                4 => format!("<{word}>t</{word}>"),
                5 => format!("<p {word}=1>t</p>"),
                6 => format!("<p a=\"{body}\">t</p>"),
                _ => format!("{body}<br>{body}<!--{body}-->{body}"),
            })
        },
    );
}

fn main() {
    mc::runner::main("C01", "model_checking", run);
}
