//! C06: the strict and the lenient HTML parser agree on valid documents.

use std::sync::atomic::Ordering::Relaxed;

use mc::{
    charref,
    engine::{seen, Ctx, Fam, Seen},
    gen,
    model::{is_raw, Model},
    strictfam::{differ, scalar, Counter, NAMES, SCALARS},
    tree::{self, ToT, T},
};
use regex::Regex;
use soupy::{Queryable, Soup};

/// The lenient tree in the strict parser's terms: script and style hold trimmed raw content.
fn norm(t: T) -> T {
    match t {
        T::El { name, attrs, kids } if is_raw(&name) => {
            let content = match &kids[..] {
                [] => String::new(),
                [T::Text(s)] => s.trim().into(),
                _ => format!("{kids:?}"),
            };
            T::Raw { name, attrs, content }
        }
        T::El { name, attrs, kids } => T::El { name, attrs, kids: kids.into_iter().map(norm).collect() },
        t => t,
    }
}

fn agree(doc: &str) -> Result<Seen, String> {
    let strict = tree::strict(doc).map_err(|e| format!("the strict parser rejects the document: {e}"))?;
    let lenient: Vec<T> = tree::lenient(doc).into_iter().map(norm).collect();
    if strict == lenient {
        seen(true, &format!("{strict:?}"))
    } else {
        Err(format!("strict and lenient differ\n{}", differ(&strict, &lenient)))
    }
}

fn case(fam: &Fam, doc: &str) {
    fam.case(doc, || agree(doc));
}

fn page(head: &str, body: &str) -> String {
    format!("<!DOCTYPE html><html><head>{head}</head><body>{body}</body></html>")
}

fn run(ctx: &Ctx) {
    words(ctx);
    grammar(ctx);
    siblings(ctx);
    elements(ctx);
    attributes(ctx);
    characters(ctx);
    dictionary(ctx);
    two_sizes(ctx);
    lists(ctx);
    pumped(ctx);
    references(ctx);
    sizes(ctx);
    queries(ctx);
}

/// All words of `tokens` that are balanced, in `frame`.
fn explore(ctx: &Ctx, name: &str, rule: &str, tokens: &[&str], len: usize, frame: impl Fn(&str) -> String + Sync) {
    let fam = ctx.family(name, rule);
    if !fam.active() {
        return;
    }
    let cnt = Counter::default();
    let k = tokens.len();
    let split = len.min(3);
    let go = |w: &[usize]| {
        let mut m = Model::new();
        let mut d = String::new();
        for t in w {
            d += tokens[*t];
            m.feed(tokens[*t]);
            cnt.step();
            if m.dead() {
                return None;
            }
        }
        Some((m, d))
    };
    for n in 0..split {
        for i in 0..gen::pow(k, n) {
            if let Some((m, d)) = go(&gen::word(k, n, i)) {
                cnt.state(m.control());
                if m.complete() {
                    cnt.trace();
                    case(&fam, &frame(&d));
                }
            }
        }
    }
    ctx.par(gen::pow(k, split), |i| {
        let w = gen::word(k, split, i);
        let Some((m, mut d)) = go(&w) else { return };
        fn dfs(
            (fam, cnt, tokens): (&Fam, &Counter, &[&str]),
            frame: &dyn Fn(&str) -> String,
            m: &Model,
            d: &mut String,
            left: usize,
        ) {
            cnt.state(m.control());
            if m.complete() {
                cnt.trace();
                case(fam, &frame(d));
            }
            if left == 0 {
                return;
            }
            for t in tokens {
                let mut next = m.clone();
                next.feed(t);
                cnt.step();
                if next.dead() {
                    continue;
                }
                let n = d.len();
                *d += t;
                dfs((fam, cnt, tokens), frame, &next, d, left - 1);
                d.truncate(n);
            }
        }
        dfs((&fam, &cnt, tokens), &frame, &m, &mut d, len - split);
    });
    cnt.flush(ctx);
}

fn words(ctx: &Ctx) {
    explore(
        ctx,
        "body-words",
        "every balanced word of tokens as the body of a page",
        &[
            "t", "<div>", "</div>", "<span class=\"x\">", "</span>", "<br>", "<img src=a>", " ", "<!--c-->", "&amp;",
            "<script>s<b></script>", "<style>p > a</style>", "<hr/>", "<section id='1'>", "</section>",
        ],
        ctx.bound(6, 7),
        |b| page("<title>x</title>", b),
    );
    explore(
        ctx,
        "head-words",
        "every word of tokens as the head of a page",
        &[
            "<meta charset=u>", "<title>x &lt; y</title>", "<link rel=a href='b'>", "<script>s</script>",
            "<style>s</style>", "<!--c-->", " ", "<base href=/>", "<script src=a></script>",
        ],
        ctx.bound(4, 5),
        |h| page(h, "<p>t</p>"),
    );
    // comments may stand anywhere around the page's elements
    let fam = ctx.family("comment-places", "comments in every subset of the places around doctype, html, head and body, with every kind of attribute there");
    let c = |on: bool, s: &'static str| if on { s } else { "" };
    for m in 0..1u32 << 8 {
        let b = |i: u32| m >> i & 1 == 1;
        for a in ["", " lang=en", " id='x' class=\"y z\" data-q"] {
            for body in ["", "t", "<div>u</div>"] {
                let doc = format!(
                    "{}<!DOCTYPE html>{}<html{a}>{}<head{a}>{}<title>x</title></head>{}<body{a}>{}{body}</body>{}</html>{}",
                    c(b(0), "<!--0-->"),
                    c(b(1), "<!--1 - -->"),
                    c(b(2), "<!-- 2-->"),
                    c(b(3), "<!--3--><!--3'-->"),
                    c(b(4), "<!---4-->"),
                    c(b(5), "<!--<b>-->"),
                    c(b(6), "<!--&amp;-->"),
                    c(b(7), "<!--7-->"),
                );
                case(&fam, &doc);
            }
        }
    }
}

/// A small content grammar: which elements an element may contain.
fn allowed(parent: &str) -> &'static [&'static str] {
    match parent {
        "body" | "div" | "section" | "td" | "li" | "dd" | "blockquote" | "figure" => &[
            "#", "div", "p", "ul", "table", "h1", "a", "em", "br", "img", "!", "select", "dl", "section", "x-y", "script", "svg",
        ],
        "p" | "h1" | "em" | "a" | "dt" | "figcaption" => &["#", "span", "code", "br", "img", "!", "x-y", "input", "script"],
        "span" | "code" | "x-y" => &["#", "br", "!", "strong", "wbr"],
        "strong" => &["#", "!"],
        "ul" => &["li", "!"],
        "table" => &["caption", "colgroup", "thead", "tbody", "!"],
        "caption" => &["#"],
        "colgroup" => &["col"],
        "thead" | "tbody" => &["tr", "!"],
        "tr" => &["td", "th"],
        "th" => &["#", "em"],
        "select" => &["option", "optgroup"],
        "optgroup" => &["option"],
        "option" => &["#"],
        "dl" => &["dt", "dd"],
        "svg" => &["g", "path", "!"],
        "g" => &["path", "#"],
        _ => &[],
    }
}

/// All sequences of nodes with exactly `n` nodes that `parent` may contain.
fn derive(parent: &str, n: usize, memo: &mut std::collections::HashMap<(String, usize), Vec<String>>) -> Vec<String> {
    if n == 0 {
        return vec![String::new()];
    }
    if let Some(v) = memo.get(&(parent.to_string(), n)) {
        return v.clone();
    }
    let mut out = vec![];
    for first in allowed(parent) {
        for k in 1..=n {
            let inner: Vec<String> = match *first {
                "#" if k == 1 => vec!["t".into()],
                "!" if k == 1 => vec!["<!--c-->".into()],
                "br" | "img" | "wbr" | "col" | "input" if k == 1 => vec![format!("<{first}>")],
                "script" if k == 1 => vec!["<script>x</script>".into()],
                "path" if k == 1 => vec!["<path d=m></path>".into()],
                "#" | "!" | "br" | "img" | "wbr" | "col" | "input" | "script" | "path" => continue,
                _ => derive(first, k - 1, memo).into_iter().map(|s| format!("<{first}>{s}</{first}>")).collect(),
            };
            let rest = derive(parent, n - k, memo);
            for a in &inner {
                for b in &rest {
                    // two texts next to each other are one
                    if a == "t" && b.starts_with('t') {
                        continue;
                    }
                    out.push(format!("{a}{b}"));
                }
            }
        }
    }
    memo.insert((parent.to_string(), n), out.clone());
    out
}

fn grammar(ctx: &Ctx) {
    let fam = ctx.family(
        "grammar",
        "every body with at most n nodes derivable from a content grammar (flow, phrasing, lists, tables, selects, definition lists, SVG)",
    );
    if !fam.active() {
        return;
    }
    let mut memo = Default::default();
    for n in 0..=ctx.bound(4, 5) {
        let docs = derive("body", n, &mut memo);
        ctx.par(docs.len().div_ceil(64), |c| {
            for d in docs.iter().skip(c * 64).take(64) {
                case(&fam, &page("<title>t</title>", d));
            }
        });
        ctx.traces.fetch_add(docs.len() as u64, Relaxed);
    }
}

/// Elements that the standard's tree construction treats specially (moved, dropped, renamed, raw text).
const SPECIAL: &[&str] = &[
    "html", "head", "body", "frame", "frameset", "caption", "col", "colgroup", "tbody", "td", "tfoot", "th", "thead",
    "tr", "image", "isindex", "plaintext", "table", "select", "template",
    // obsolete, not valid
    "basefont", "bgsound", "keygen", "param", "noembed", "noframes", "xmp", "listing", "nextid",
];
/// Their content is raw text for the standard.
const RAW_TEXT: &[&str] = &["iframe", "noscript", "script", "style"];

fn elements(ctx: &Ctx) {
    let fam = ctx.family("elements", "every HTML element name that may stand in a body, and custom element names, with text, in every kind of parent");
    let mut names: Vec<String> = NAMES.iter().filter(|n| !SPECIAL.contains(n)).map(|n| n.to_string()).collect();
    names.extend(["x-a", "my-element", "a-1.b_c", "h7", "foo", "brx", "scripty", "styles", "linky", "metadata", "colx"].map(String::from));
    for n in &names {
        let void = mc::model::is_void(n);
        for inner in ["", "t", "&lt;", " "] {
            if inner.contains('&') && RAW_TEXT.contains(&n.as_str()) {
                continue;
            }
            // a page has one main and option-like elements do not nest; a single one is always fine
            let e = if void { format!("<{n}>") } else { format!("<{n}>{inner}</{n}>") };
            case(&fam, &page("", &e));
            case(&fam, &page("", &format!("<div>x{e}y</div>")));
            case(&fam, &page("", &format!("{} z", e.replacen(n.as_str(), &format!("{n} id=a class='b c'"), 1))));
        }
    }
}

fn attributes(ctx: &Ctx) {
    let fam = ctx.family("attributes", "every sequence of three attributes out of names x syntaxes x values on body, div, br, script and a custom element");
    if !fam.active() {
        return;
    }
    let mut one = vec![];
    for n in ["id", "class", "data-x", "a:b", "x_1"] {
        for v in ["", "=1", "='2'", "=\"3 4\"", " = 5", "=tnfr\\", "=\"a>b\"", "='<p>'", "=''", "='a&amp;b'", "=?a=1".trim_end_matches("=1"), "\n=\n'\n'"] {
            one.push(format!("{n}{v}"));
        }
    }
    one.sort();
    one.dedup();
    let k = one.len();
    let third = ctx.bound(6, k);
    ctx.par(k * k, |i| {
        for c in 0..third {
            let list = format!("{} {}\n{}", one[i % k], one[i / k], one[c * (k / third)]);
            let doc = match (i + c) % 4 {
                0 => page("", &format!("<div {list}>t</div>")),
                1 => page("", &format!("a<br {list}>t")),
                2 => page(&format!("<script {list}>t</script>"), ""),
                _ => format!("<!DOCTYPE html><html {list}><head></head><body {list}><x-y {list} >t</x-y></body></html>"),
            };
            case(&fam, &doc);
        }
    });
}

fn characters(ctx: &Ctx) {
    let fam = ctx.family(
        "characters",
        "every Unicode scalar value but NUL and carriage return in text, attribute value, comment, script and attribute name",
    );
    if !fam.active() {
        return;
    }
    ctx.par(SCALARS.div_ceil(256), |b| {
        for i in b * 256..((b + 1) * 256).min(SCALARS) {
            let c = scalar(i);
            if matches!(c, '\0' | '\r' | '<' | '&') {
                continue;
            }
            if !ctx.thorough() && c as u32 > 0x3000 && (c as u32 & 0xff) > 1 && (c as u32 & 0xff) < 0xfe {
                continue;
            }
            case(&fam, &page("", &format!("x{c}y")));
            case(&fam, &page("", &format!("<div>{c}</div>")));
            if c != '"' {
                case(&fam, &page("", &format!("<div a=\"{c}\" b=\"x{c}\">t</div>")));
            }
            case(&fam, &page("", &format!("<!--x{c}y-->")));
            case(&fam, &page(&format!("<script>x{c}y</script>"), ""));
            // lower-case names: ASCII capitals are folded by the standard
            if !c.is_ascii() || c.is_ascii_lowercase() || c.is_ascii_digit() || ".-_:".contains(c) {
                case(&fam, &page("", &format!("<div a{c}b=1>t</div>")));
                case(&fam, &page("", &format!("<x{c}y>t</x{c}y>")));
            }
        }
    });
}

/// The places of a page that a string of any kind may stand in.
fn places(fam: &Fam, s: &str) {
    if s.contains(['\0', '\r']) {
        return;
    }
    if !s.contains('<') {
        case(fam, &page("", &format!("<div>{s}</div>")));
        case(fam, &page("", &format!("<p>x{s}<br>{s}y</p>")));
        case(fam, &page("", &format!("a{s}<b>t</b>{s}b")));
        case(fam, &page(&format!("<title>x{s}y</title>"), ""));
    }
    for (a, b) in [("", ""), (" ", " "), ("x", "y")] {
        let c = format!("{a}{s}{b}");
        let plain = !c.starts_with('>') && !c.starts_with("->") && !c.contains("<!--") && !c.contains("-->") && !c.contains("--!>");
        if plain && !c.ends_with("<!-") && !c.ends_with("--!") && !c.ends_with('-') {
            case(fam, &page("", &format!("<!--{c}-->")));
            case(fam, &format!("<!DOCTYPE html><!--{c}--><html><head></head><body>t</body></html>"));
        }
        let l = c.to_ascii_lowercase();
        if !l.contains("</") && !l.contains("<!--") && !l.ends_with('<') {
            case(fam, &page(&format!("<script>{c}</script>"), ""));
            case(fam, &page(&format!("<style>{c}</style>"), ""));
        }
    }
    if !s.contains('"') {
        case(fam, &page("", &format!("<div a=\"{s}\" b=\"x{s}y\">t</div>")));
    }
    if !s.contains('\'') {
        case(fam, &page("", &format!("<div a='{s}'><br b='{s}x'></div>")));
    }
}

/// What depends on two sizes at once.
fn lists(ctx: &Ctx) {
    let fam = ctx.family("attribute-lists", gen::LISTS_RULE);
    ctx.par(gen::LISTS / 64 + 1, |c| {
        for i in c * 64..(c * 64 + 64).min(gen::LISTS) {
            case(&fam, &page("", &gen::lists(i)));
        }
    });
}

/// The places of a conventional document where anything may be long.
fn pumped(ctx: &Ctx) {
    let fam = ctx.family(
        "pumped",
        "a document with anything that may be long (white space in every place of tags, names, values, texts, comments, references, attributes) of every size up to 70 and around powers of two and ten up to 4097 (thorough: 65537), each of 24 alone and every pair at sizes up to 300",
    );
    if !fam.active() {
        return;
    }
    // text, and what to repeat
    const PARTS: &[(&str, &str)] = &[
        ("<p", ""), ("", " "), (" a", ""), ("", "a"), ("", " "), ("=", ""), ("", " "), ("\"b", ""), ("", "b"), ("", "&amp;"), ("\"", ""), ("", " "), (" c='", ""), ("", "\n"), ("d'", ""),
        (" e=f", ""), ("", "f"), ("", "\t"), (" g", ""), ("", "\n"), (">x", ""), ("", "y"), ("", "é "), ("", "&lt;"), ("", "&#65;"), ("<!--c", ""), ("", "c"), ("", " "), ("-->", ""),
        ("<br", ""), ("", " "), (">", ""), ("<b>", ""), ("", "z"), ("</b", ""), ("", " "), (">", ""), ("", "<i>u</i>"), ("<x-a", ""), ("", "b"), (">t</x-a", ""), ("", "b"), (">", ""), ("</p", ""), ("", "\n"), (">", ""),
    ];
    let slots: Vec<usize> = (0..PARTS.len()).filter(|i| PARTS[*i].0.is_empty()).collect();
    let make = |n: &dyn Fn(usize) -> usize| {
        let mut s = String::new();
        for (i, (t, u)) in PARTS.iter().enumerate() {
            s += t;
            // the end tag is named as the start tag
            let i = if i == 41 { 39 } else { i };
            s += &u.repeat(n(i));
        }
        page("", &s)
    };
    let sizes: Vec<usize> = gen::sizes(70, ctx.bound(4097, 65_537));
    ctx.par(sizes.len(), |i| {
        for k in &slots {
            case(&fam, &make(&|j| if j == *k { sizes[i] } else { 0 }));
        }
        case(&fam, &make(&|_| sizes[i].min(2000)));
    });
    let some = [0, 1, 2, 3, 16, 31, 32, 33, 64, 127, 128, 255, 256, 257, 300];
    ctx.par(some.len() * some.len(), |i| {
        let (a, b) = (some[i / some.len()], some[i % some.len()]);
        for k in &slots {
            for l in &slots {
                if k < l {
                    case(&fam, &make(&|j| if j == *k { a } else if j == *l { b } else { 0 }));
                }
            }
        }
    });
}

fn two_sizes(ctx: &Ctx) {
    let fam = ctx.family("two-sizes", mc::strictfam::TWO_RULE);
    if !fam.active() {
        return;
    }
    let grid = gen::grid(ctx.bound(20, 40), ctx.bound(513, 5001), ctx.bound(20_000, 600_000));
    ctx.par(grid.len() * gen::TWO, |i| {
        let (a, b) = grid[i / gen::TWO];
        let f = i % gen::TWO;
        let d = gen::two(f, a, b);
        // only void elements close themselves
        let d = match f {
            // an attribute given twice is no conventional document
            0 => return,
            2 | 12 | 13 => d.replace("<b/>", "<br>"),
            6 => d.replace("<b k='", "<img k='"),
            9 => d.replace("<g", "<img"),
            21 => d.replace("<p", "<img").replace("<i ", "<img "),
            _ => d,
        };
        case(&fam, &page("", &d));
    });
}

fn dictionary(ctx: &Ctx) {
    let fam = ctx.family(
        "dictionary",
        "every pair of strings out of a dictionary (the literals of the code under test, and well-known ones) as text, comment, script and attribute value, wherever it may stand there",
    );
    if fam.active() {
        let d = mc::lits::dictionary();
        let k = d.len();
        ctx.par(k * k, |i| {
            places(&fam, &format!("{}{}", d[i / k], d[i % k]));
            places(&fam, &format!("{}x{}", d[i / k], d[i % k]));
        });
    }
    let fam = ctx.family("special-strings", "every string of three (thorough: four) special characters in the same places");
    if fam.active() {
        let c = mc::strictfam::ascii_special();
        let n = ctx.bound(3, 4);
        ctx.par(gen::pow(c.len(), n), |i| {
            let s: String = gen::word(c.len(), n, i).into_iter().map(|j| c[j]).collect();
            places(&fam, &s);
        });
    }
}

fn references(ctx: &Ctx) {
    let fam = ctx.family("references", "every named reference and every number, closed and not, followed by different characters, in text and attribute values: two independent decoders");
    if !fam.active() {
        return;
    }
    let names: Vec<&str> = charref::names().keys().copied().collect();
    let follow = ["", ";", "a", "1", "=", " ", "&"];
    ctx.par(names.len(), |i| {
        for f in follow {
            case(&fam, &page("", &format!("x&{}{f}", names[i])));
            case(&fam, &page("", &format!("<div a='&{}{f}' b=\"{f}&{}\">t</div>", names[i], names[i])));
        }
        case(&fam, &page("", &format!("<div a=x&{}>&{}</div>", names[i], names[i])));
        case(&fam, &page("", &format!("x&{};", names[i].trim_end_matches(';').to_lowercase())));
    });
    let max = 0x11_0100usize;
    ctx.par(max.div_ceil(256), |b| {
        for n in b * 256..((b + 1) * 256).min(max) {
            // a reference to NUL or a carriage return is an error, but both parsers decode it alike
            if !ctx.thorough() && n > 0x3000 && (n & 0xff) > 1 && (n & 0xff) < 0xfe {
                continue;
            }
            case(&fam, &page("", &format!("x&#{n};&#x{n:x}z")));
            case(&fam, &page("", &format!("<div a='&#{n};' b=&#X{n:X}>t</div>")));
        }
    });
}

fn sizes(ctx: &Ctx) {
    let fam = ctx.family("sizes", "every depth, number of siblings, attributes and length of text up to the bound, and some far beyond");
    if !fam.active() {
        return;
    }
    let sizes = gen::sizes(ctx.bound(400, 1500), ctx.bound(140_000, 600_000));
    ctx.par(sizes.len(), |j| {
        let n = sizes[sizes.len() - 1 - j];
        if n <= ctx.bound(2000, 5000) {
            case(&fam, &page("", &format!("{}t{}", "<div>".repeat(n), "</div>".repeat(n))));
            case(&fam, &page("", &format!("{}t{}", "a<div b=c>".repeat(n), "<br></div>".repeat(n))));
        }
        case(&fam, &page("", &"<p>x</p>".repeat(n)));
        case(&fam, &page("", &"x<br>".repeat(n)));
        case(&fam, &page("", &"<!--x--> ".repeat(n)));
        case(&fam, &page(&"<meta a=b>".repeat(n), ""));
        case(&fam, &page("", &"xyé ".repeat(n * 16)));
        case(&fam, &page(&format!("<script>{}</script>", "if (a<b) ".repeat(n * 8)), ""));
        let n = n.min(3000);
        let attrs: String = (0..n).map(|i| format!(" a{}=\"{i}\"", i * 7 % (n + 1))).collect();
        case(&fam, &page("", &format!("<div{attrs}>t</div>")));
    });
}

fn queries(ctx: &Ctx) {
    let fam = ctx.family(
        "queries",
        "every balanced word of tokens as a body x queries by tag, attribute, class, value, regex, recursive and strict: both soups give corresponding nodes in the same order",
    );
    if !fam.active() {
        return;
    }
    let tokens = [
        "<div class='x'>", "</div>", "<p id=x>t</p>", "<span class=\"x y\" id=z>", "</span>", "<br class=x>", "t",
        "<script class=x>s</script>",
    ];
    let len = ctx.bound(5, 6);
    let k = tokens.len();
    let re = Regex::new("^(d|s)|x$").unwrap();
    for n in 0..=len {
        ctx.par(gen::pow(k, n).div_ceil(64), |c| {
            for i in c * 64..((c + 1) * 64).min(gen::pow(k, n)) {
                let body: String = gen::word(k, n, i).into_iter().map(|t| tokens[t]).collect();
                let mut m = Model::new();
                m.feed(&body);
                if !m.complete() {
                    continue;
                }
                let doc = page("", &body);
                fam.case(&doc, || tree::with_static(&doc, |doc| {
                    let a = Soup::html_strict(doc).map_err(|e| format!("rejected: {e:?}"))?;
                    let b = Soup::html(doc);
                    let mut all = String::new();
                    macro_rules! q {
                        ($($q:tt)*) => {{
                            let x: Vec<T> = (&a)$($q)*.all().map(|n| n.to_t()).collect();
                            let y: Vec<T> = (&b)$($q)*.all().map(|n| norm(n.to_t())).collect();
                            if x != y {
                                return Err(format!("query {} differs\n{}", stringify!($($q)*), differ(&x, &y)));
                            }
                            all += &format!("{x:?}");
                            let x = (&a)$($q)*.first().map(|n| n.to_t());
                            let y = (&b)$($q)*.first().map(|n| norm(n.to_t()));
                            if x != y {
                                return Err(format!("first() of query {} differs: {x:?} {y:?}", stringify!($($q)*)));
                            }
                        }};
                    }
                    q!(.recursive().tag(true));
                    q!(.strict());
                    q!(.tag("div"));
                    q!(.tag("span").class("x y"));
                    q!(.class("x"));
                    q!(.attr_name("id"));
                    q!(.attr("id", "x"));
                    q!(.attr_value("x"));
                    q!(.tag(re.clone()));
                    q!(.attr(true, re.clone()));
                    q!(.attr(re.clone(), true).tag(true));
                    q!(.strict().tag("html"));
                    q!(.tag("script").attr("class", true));
                    let x: Vec<String> = a.tag("body").all().flat_map(|n| n.query().tag("div").all().map(|m| format!("{:?}", m.to_t())).collect::<Vec<_>>()).collect();
                    let y: Vec<String> = b.tag("body").all().flat_map(|n| n.query().tag("div").all().map(|m| format!("{:?}", norm(m.to_t()))).collect::<Vec<_>>()).collect();
                    if x != y {
                        return Err(format!("sub-query differs: {x:?} {y:?}"));
                    }
                    seen(all.len() > 40, &all)
                }));
            }
        });
    }
}

/// Whitespace of every kind, alone or not, before, between and after nodes of every kind.
fn siblings(ctx: &Ctx) {
    let fam = ctx.family(
        "siblings",
        "every sequence of up to 4 (thorough: 5) nodes out of texts (eight of them only whitespace), comments, void, script, style and ordinary elements, as children of a block, a paragraph, a list, a table, a table body, a select, a template-free head, and between texts in the body",
    );
    if !fam.active() {
        return;
    }
    let blank = ["\n", " ", "\n\n", "\t", "\n  ", " \n", "\u{c}", "&#10;"];
    let flow = ["t", "\u{a0}", "&nbsp;", " u ", "<!--c-->", "<br>", "<img src=a>", "<script>s</script>", "<style>s</style>", "<div></div>", "<p>x</p>", "<b> </b>"];
    let phrase = ["t", "\u{a0}", " u ", "<!--c-->", "<br>", "<script>s</script>", "<span></span>", "<b>\n</b>", "<a>x</a>"];
    let list = ["<!--c-->", "<li></li>", "<li>x</li>", "<li>\n</li>", "<script>s</script>"];
    let table = ["<!--c-->", "<thead></thead>", "<tbody><tr><td>x</td></tr></tbody>", "<tbody>\n</tbody>", "<script>s</script>"];
    let rows = ["<!--c-->", "<tr></tr>", "<tr><td>\n</td></tr>", "<tr>\n<th>x</th> <td></td></tr>", "<script>s</script>"];
    let options = ["<!--c-->", "<option></option>", "<option>x</option>", "<optgroup>\n<option>\n</option></optgroup>"];
    let head = ["<!--c-->", "<meta charset=u>", "<link rel=a href=b>", "<style>s</style>", "<script>s</script>", "<title>\n</title>"];
    let places: [(&[&str], fn(&str) -> String); 9] = [
        (&flow, |s| page("", &format!("<div>{s}</div>"))),
        (&flow, |s| page("<title>x</title>", &format!("x{s}<i>y</i>"))),
        (&flow, |s| page("", &format!("<table><tbody><tr><td>{s}</td></tr></tbody></table>"))),
        (&phrase, |s| page("", &format!("<p>{s}</p>"))),
        (&list, |s| page("", &format!("<ul>{s}</ul>"))),
        (&table, |s| page("", &format!("<table>{s}</table>"))),
        (&rows, |s| page("", &format!("<table><tbody>{s}</tbody></table>"))),
        (&options, |s| page("", &format!("<select>{s}</select>"))),
        (&head, |s| page(&format!("<meta name=a>{s}<base href=b>"), "x")),
    ];
    for (units, place) in places {
        let units: Vec<&str> = blank.iter().chain(units).copied().collect();
        let n = units.len();
        for len in 0..=ctx.bound(if n > 16 { 3 } else { 4 }, if n > 16 { 4 } else { 5 }) {
            let total = n.pow(len);
            ctx.par(total.div_ceil(64), |c| {
                for i in c * 64..total.min(c * 64 + 64) {
                    let (mut i, mut d) = (i, String::new());
                    for _ in 0..len {
                        d += units[i % n];
                        i /= n;
                    }
                    case(&fam, &place(&d));
                }
            });
            ctx.traces.fetch_add(total as u64, Relaxed);
        }
    }
}

fn main() {
    mc::runner::main("C06", "model_checking", run);
}
