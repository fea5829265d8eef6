//! C07: lenient HTML parsing yields the HTML standard's document tree, nothing lost.

use std::{borrow::Cow, rc::Rc, sync::atomic::Ordering::Relaxed, sync::Arc};

use mc::{
    dom,
    engine::{fnv, seen, Ctx, Fam, Seen},
    gen,
    model::VOID,
    strictfam::{differ, scalar, Counter, NAMES, SCALARS},
    tree::{self, tops, T},
};
use soupy::Soup;

fn compare(doc: &str) -> Result<Seen, String> {
    let got = tree::lenient(doc);
    match dom::parse(doc) {
        None => seen(false, ""),
        Some(want) if want == got => seen(got.len() > 1 || count(&got) > 3, &format!("{got:?}")),
        Some(want) => Err(differ(&got, &want)),
    }
}

fn count(t: &[T]) -> usize {
    t.iter().map(|n| 1 + count(n.kids())).sum()
}

fn case(fam: &Fam, doc: &str) {
    fam.case(doc, || compare(doc));
}

fn run(ctx: &Ctx) {
    soup(ctx);
    integration(ctx);
    strings(ctx);
    elements(ctx);
    characters(ctx);
    dictionary(ctx);
    two_sizes(ctx);
    lists(ctx);
    pumped(ctx);
    sizes(ctx);
    input_types(ctx);
}

/// All words of tokens. The states are the distinct trees the standard's algorithm builds.
fn words(ctx: &Ctx, name: &str, rule: &str, prefix: &str, tokens: &[&str], len: usize) {
    let fam = ctx.family(name, rule);
    if !fam.active() {
        return;
    }
    let cnt = Counter::default();
    let k = tokens.len();
    for n in 0..=len {
        let total = gen::pow(k, n);
        ctx.par(total.div_ceil(64), |c| {
            for i in c * 64..((c + 1) * 64).min(total) {
                let mut d = String::from(prefix);
                for t in gen::word(k, n, i) {
                    d += tokens[t];
                }
                cnt.step();
                cnt.trace();
                fam.case(&d, || {
                    let r = compare(&d);
                    if let Ok(s) = &r {
                        cnt.state(s.hash);
                    }
                    r
                });
            }
        });
    }
    cnt.flush(ctx);
}

fn soup(ctx: &Ctx) {
    let rule = "every word of at most n tokens, well-formed or not; expected: the DOM built by the standard's algorithm through our own tree sink";
    words(
        ctx,
        "mixed",
        rule,
        "",
        &[
            "t", "<p>", "</p>", "<div a=b>", "</div>", "<table>", "<tr>", "<td>", "</table>", "<template>", "</template>",
            "<svg>", "</svg>", "<math>", "<a href=x>", "</a>", "<b>", "</b>", "<br>", "</br>", "<!--c-->", "<!DOCTYPE html>",
            "<script>", "</script>", "<select>", "<option>", "<body c=d>", "<html e=f>", "<head>", "</head>", "<frameset>",
            " ", "<li>", "<ul>", "</body>", "</html>", "<col>", "<title>", "&amp;",
        ],
        ctx.bound(3, 4),
    );
    words(
        ctx,
        "formatting",
        rule,
        "",
        &["t", "<a>", "</a>", "<b>", "</b>", "<p>", "</p>", "<div>", "</div>", "<i c=d>", "</i>"],
        ctx.bound(5, 6),
    );
    words(
        ctx,
        "tables",
        rule,
        "",
        &[
            "t", " ", "<table>", "</table>", "<tr>", "</tr>", "<td>", "</td>", "<tbody>", "<caption>", "<col>", "<b>",
            "<!--c-->", "<select>", "<input type=hidden>",
        ],
        ctx.bound(4, 5),
    );
    words(
        ctx,
        "templates-foreign",
        rule,
        "",
        &[
            "t", "<template>", "</template>", "<svg>", "</svg>", "<br>", "<col>", "<desc>", "</desc>", "<path/>", "<p>",
            "<meta/>", "<link>", "</link>", "<math>", "<mi>", "<![CDATA[x]]>",
        ],
        ctx.bound(4, 5),
    );
    words(
        ctx,
        "sections",
        rule,
        "",
        &[
            "t", " ", "<html>", "<head>", "</head>", "<body>", "</body>", "</html>", "<meta>", "<!--c-->", "<!DOCTYPE x>",
            "<frameset>", "<frame>", "</frameset>", "<noframes>", "<base/>", "<?pi?>",
        ],
        ctx.bound(4, 5),
    );
    words(
        ctx,
        "raw-text",
        rule,
        "",
        &[
            "<script>", "</script>", "<style>", "</style>", "<title>", "</title>", "<textarea>", "</textarea>", "<!--", "-->",
            "<noscript>", "</noscript>", "<plaintext>", "\n", "t", "&lt;", "<xmp>", "<pre>", "<iframe>",
        ],
        ctx.bound(4, 5),
    );
    words(
        ctx,
        "void-in-foreign",
        "every word of void-named tags and text in SVG and MathML, at their integration points and in templates",
        "<svg>",
        &[
            "<base>", "</base>", "<link>", "</link>", "<track>", "</track>", "<source/>", "t", "<g>", "</g>", "<!--c-->",
            "<foreignObject>", "<area>", "<template>",
        ],
        ctx.bound(4, 5),
    );
}

/// `<annotation-xml encoding="text/html">` is where HTML continues inside of MathML. That it is not is
/// a known finding; anything else that goes wrong there is not.
fn integration(ctx: &Ctx) {
    let fam = ctx.family("annotation-xml", "every word of tokens in MathML with annotation-xml elements of each encoding");
    if !fam.active() {
        return;
    }
    let tokens = [
        "<annotation-xml encoding=\"text/html\">", "<annotation-xml encoding=application/xhtml+xml>", "<annotation-xml>",
        "</annotation-xml>", "<p>", "<br>", "<svg>", "t", "</math>", "<mi>", "<div a=b>", "</div>",
    ];
    let k = tokens.len();
    for n in 0..=ctx.bound(3, 4) {
        ctx.par(gen::pow(k, n), |i| {
            let d: String = gen::word(k, n, i).into_iter().map(|t| tokens[t]).collect();
            let d = format!("<math>{d}");
            let mut known = false;
            fam.case(&d, || {
                let r = compare(&d);
                if r.is_err() && dom::parse_without_integration(&d) == Some(tree::lenient(&d)) {
                    known = true;
                    return seen(true, "known");
                }
                r
            });
            if known {
                ctx.finding(
                    "annotation-xml",
                    "annotation-xml",
                    "Soup::html(\"<math><annotation-xml encoding=text/html><p>x\") closes the math element at <p>, where the standard continues with HTML inside of annotation-xml (the tree sink of the scraper crate does not report annotation-xml as an HTML integration point)",
                );
            }
        });
    }
}

fn strings(ctx: &Ctx) {
    let chars = ["<", ">", "a", "/", " ", "=", "!", "-", "&", "\""];
    words(
        ctx,
        "chars",
        "every string of at most n of these characters",
        "",
        &chars,
        ctx.bound(5, 6),
    );
    words(
        ctx,
        "chars-in-element",
        "every string of at most n of these characters after an open element with attributes",
        "<div a='b' c>x",
        &["<", ">", "p", "/", "'", "=", "\n", "&", "#", "6", ";", "?"],
        ctx.bound(4, 5),
    );
    // every truncation and single edit of documents
    let fam = ctx.family("edits", "every prefix, deletion, insertion and substitution of sample documents");
    if fam.active() {
        let docs = [
            "<!DOCTYPE html><html lang=\"en\"><head><title>x &amp; y</title><meta a='b'></head><body class=c><p>t<br/>u<p>v</body></html>",
            "<table><tr><td>x<template><td>y</template></table><svg viewBox='0'><path d=m /></svg><select><option>a<option>b</select>",
        ];
        for doc in docs {
            let c: Vec<char> = doc.chars().collect();
            ctx.par(c.len() + 1, |i| {
                let mk = |v: &[char]| v.iter().collect::<String>();
                case(&fam, &mk(&c[..i]));
                case(&fam, &mk(&c[i..]));
                for s in ['<', '>', '/', '"', '\'', '=', ' ', 'a', '!', '&', '\0', '\r', 'é'] {
                    let mut v = c.clone();
                    v.insert(i, s);
                    case(&fam, &mk(&v));
                    if i < c.len() {
                        let mut v = c.clone();
                        v[i] = s;
                        case(&fam, &mk(&v));
                    }
                }
                for j in i + 1..=(i + 12).min(c.len()) {
                    let mut v = c.clone();
                    v.drain(i..j);
                    case(&fam, &mk(&v));
                }
            });
        }
    }
}

fn elements(ctx: &Ctx) {
    let fam = ctx.family(
        "element-pairs",
        "every pair of element names (all of HTML, custom, SVG, MathML) as nested and sibling elements, in html, svg, math, template and table contexts",
    );
    let mut names: Vec<&str> = NAMES.to_vec();
    names.extend(["x-a", "DIV", "svg:g", "foreignObject", "desc", "mi", "mtext", "mglyph", "é", "brx", "scripty", "Col"]);
    let k = names.len();
    let contexts: &[(&str, &str)] = &[
        ("", ""),
        ("<svg>", "</svg>u"),
        ("<math>", "</math>u"),
        ("<template>", "</template>u"),
        ("<table>", "</table>u"),
        ("<svg><foreignObject>", "</foreignObject></svg>"),
        ("<select>", "</select>"),
        ("<div><math><mtext>", "</mtext></math></div>"),
    ];
    if fam.active() {
        ctx.par(k * k, |i| {
            let (a, b) = (names[i / k], names[i % k]);
            for (n, (open, close)) in contexts.iter().enumerate() {
                if !ctx.thorough() && n > 4 {
                    break;
                }
                case(&fam, &format!("{open}<{a} q=r>x<{b}>y</{b}>z</{a}>w{close}"));
                case(&fam, &format!("{open}<{a}></{a}><{b}>t{close}"));
                case(&fam, &format!("{open}<{a}/><{b}/>t<!--c-->{close}"));
            }
        });
        ctx.traces.fetch_add((k * k * 15) as u64, Relaxed);
    }
    let fam = ctx.family("void-names", "every void name in every letter case x forms of content x contexts");
    if fam.active() {
        ctx.par(VOID.len(), |v| {
            let n = VOID[v];
            for m in 0..1u32 << n.len() {
                let name: String = n.chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
                for (open, close) in contexts {
                    for form in ["<N>", "<N/>", "<N a=b>", "<N>t</N>", "</N>", "<N><N><i>t</i></N>", "<N><!--c--></N>", "<N><p>x</p>", "<g><N> </N></g>"] {
                        case(&fam, &format!("{open}{}{close}", form.replace('N', &name)));
                    }
                }
            }
        });
    }
    let fam = ctx.family("attributes", "every sequence of up to three attributes (duplicates, cases, foreign ones) on html, svg and math elements");
    if fam.active() {
        let attrs = [
            "a", "a=1", "A=2", "b='3'", "b=\"4 5\"", "class=x", "xlink:href=6", "xml:lang=7", "xmlns=8", "viewbox=9", "definitionurl=10",
            "é=11", "a&lt=12", "=13", "c=&amp;&copy", "d=/", "\"=14", "xmlns:xlink=15", "id=''", "<=16",
        ];
        let k = attrs.len();
        ctx.par(k * k * k, |i| {
            let l = format!("{} {}\n{}", attrs[i % k], attrs[i / k % k], attrs[i / k / k]);
            case(&fam, &format!("<div {l}>t"));
            case(&fam, &format!("<svg {l}><path {l}/></svg>"));
            if ctx.thorough() || i % 3 == 0 {
                case(&fam, &format!("<html {l}><body {l}><html {l} z><body y {l}>"));
                case(&fam, &format!("<math {l}><mi {l}>x</mi></math><br {l}>"));
            }
        });
    }
}

fn characters(ctx: &Ctx) {
    let fam = ctx.family("code-points", "every Unicode scalar value as text, in comments, attribute names and values, tag names, doctypes and raw text");
    if !fam.active() {
        return;
    }
    ctx.par(SCALARS.div_ceil(256), |b| {
        for i in b * 256..((b + 1) * 256).min(SCALARS) {
            let c = scalar(i);
            if !ctx.thorough() && c as u32 > 0x3000 && (c as u32 & 0xff) > 1 && (c as u32 & 0xff) < 0xfe {
                continue;
            }
            case(&fam, &format!("{c}"));
            case(&fam, &format!("<p>x{c}y</p>"));
            case(&fam, &format!("<!--{c}--><p a{c}b=1 c='{c}' d=e{c}>t</p>"));
            case(&fam, &format!("<x{c}y>t</x{c}y>"));
            case(&fam, &format!("<!DOCTYPE {c}x><table>{c}</table>"));
            case(&fam, &format!("<script>{c}</script><title>{c}</title><svg>{c}</svg>"));
            case(&fam, &format!("&#{};&#x{:x}", c as u32, c as u32));
        }
    });
}

/// What depends on two sizes at once.
fn lists(ctx: &Ctx) {
    let fam = ctx.family("attribute-lists", gen::LISTS_RULE);
    ctx.par(gen::LISTS / 64 + 1, |c| {
        for i in c * 64..(c * 64 + 64).min(gen::LISTS) {
            case(&fam, &gen::lists(i));
        }
    });
}

fn pumped(ctx: &Ctx) {
    let fam = ctx.family("pumped", gen::PUMP_RULE);
    let p = gen::Pump::new(gen::PUMP_HTML, ctx.bound(1025, 16_385));
    ctx.par(p.len() / 64 + 1, |c| {
        for i in c * 64..(c * 64 + 64).min(p.len()) {
            if let Some(d) = p.doc(i) {
                case(&fam, &d);
            }
        }
    });
}

fn two_sizes(ctx: &Ctx) {
    let fam = ctx.family("two-sizes", mc::strictfam::TWO_RULE);
    if !fam.active() {
        return;
    }
    let grid = gen::grid(ctx.bound(20, 40), ctx.bound(513, 5001), ctx.bound(20_000, 600_000));
    ctx.par(grid.len() * gen::TWO, |i| {
        let (a, b) = grid[i / gen::TWO];
        case(&fam, &gen::two(i % gen::TWO, a, b));
    });
}

fn dictionary(ctx: &Ctx) {
    let frames: &[(&str, &str)] = &[
        ("", ""), ("<p>x", "y</p>"), ("<div a=\"", "\">t"), ("<div b=c a='", "'>t"), ("<div a=", ">t</div>"), ("<!--", "-->"), ("<!-- ", " --><p>"),
        ("<!DOCTYPE ", "><p>"), ("<!DOCTYPE html ", ">t"), ("<", ">t"), ("<", " a=b>t</p>"), ("<p>t</", ">u"), ("<div ", "=1>t"), ("<div a=1 ", ">t"),
        ("<script>", "</script>t"), ("<title>", "</title>"), ("<svg a='b'><", " c=d/></svg>t"), ("<svg><", "></svg>t"), ("<math><mi ", "='x'>t"),
        ("<svg xmlns='", "'/>"), ("<table>", "<td>x"), ("<template>", "</template>"), ("<textarea>", "</textarea>"), ("<body ", "=x>t<body y>"),
        ("<select>", "</select>"), ("<svg><![CDATA[", "]]></svg>"),
    ];
    let n = frames.len();
    let fam = ctx.family(
        "dictionary",
        "every pair of strings out of a dictionary (the literals of the code under test, and well-known ones) in every place of a document",
    );
    if fam.active() {
        let d = mc::lits::dictionary();
        let k = d.len();
        ctx.par(k * k, |i| {
            // pairs in a few places, single strings in all
            for (j, (a, b)) in frames.iter().enumerate() {
                if ctx.thorough() || i % k == 0 || j == (i / k + i % k) % n {
                    case(&fam, &format!("{a}{}{}{b}", d[i / k], d[i % k]));
                    case(&fam, &format!("{a}{}x{}{b}", d[i / k], d[i % k]));
                }
            }
        });
    }
    let fam = ctx.family("special-strings", "every string of two (thorough: three) special characters in every place");
    if fam.active() {
        let c = mc::strictfam::ascii_special();
        let len = ctx.bound(2, 3);
        ctx.par(gen::pow(c.len(), len), |i| {
            let s: String = gen::word(c.len(), len, i).into_iter().map(|j| c[j]).collect();
            for (a, b) in frames {
                case(&fam, &format!("{a}{s}{b}"));
            }
        });
    }
}

fn sizes(ctx: &Ctx) {
    let fam = ctx.family("sizes", "every depth, width and length up to the bound, and some far beyond");
    if !fam.active() {
        return;
    }
    let sizes = gen::sizes(ctx.bound(400, 1500), ctx.bound(270_000, 1_100_000));
    ctx.par(sizes.len(), |j| {
        let w = sizes[sizes.len() - 1 - j];
        let n = w.min(2000);
        for d in [
            "x<br>".repeat(w),
            "<p>x".repeat(w),
            "<!--x--> ".repeat(w),
            "xyé ".repeat(w),
            format!("<p a='{}'>{}", "v".repeat(w), "&amp;".repeat(w)),
            format!("<script>{}</script>", "if (a<b) ".repeat(w)),
            format!("{}t", "<div>".repeat(n)),
            format!("{}t{}", "a<div b=c>".repeat(n), "<br></div>".repeat(n)),
            format!("{}t", "<b>".repeat(n.min(60))),
            format!("{}t", "<svg><br></svg>".repeat(n.min(100))),
            format!("<svg>{}t", "<g>".repeat(n)),
            format!("<ul>{}", "<li>x".repeat(n)),
            format!("<table>{}", "<tr><td>x".repeat(n)),
            format!("<div{}>t", (0..n).map(|i| format!(" a{}=\"{i}\"", i * 7 % (n + 1))).collect::<String>()),
            format!("{}t{}", "<template>".repeat(n.min(80)), "</template>u".repeat(n.min(80))),
        ] {
            case(&fam, &d);
        }
    });
}

/// A text that is not a `String` but can be viewed as one.
struct Mine(Vec<u8>);
impl AsRef<str> for Mine {
    fn as_ref(&self) -> &str {
        std::str::from_utf8(&self.0).unwrap()
    }
}

fn input_types(ctx: &Ctx) {
    let fam = ctx.family("input-types", "every word of tokens given as &str, String, &String, Cow, Box, Rc, Arc and a user's type");
    let tokens = ["t", "<p a=b>", "</p>", "<br>", "é", "<table>", "&amp;"];
    let k = tokens.len();
    for n in 0..=ctx.bound(3, 5) {
        ctx.par(gen::pow(k, n), |i| {
            let d: String = gen::word(k, n, i).into_iter().map(|t| tokens[t]).collect();
            fam.case(&d, || {
                let want = dom::parse(&d).unwrap();
                let got = [
                    ("&str", tops(&Soup::html(d.as_str()))),
                    ("String", tops(&Soup::html(d.clone()))),
                    ("&String", tops(&Soup::html(&d))),
                    ("Cow::Borrowed", tops(&Soup::html(Cow::Borrowed(d.as_str())))),
                    ("Cow::Owned", tops(&Soup::html(Cow::<str>::Owned(d.clone())))),
                    ("Box<str>", tops(&Soup::html(d.clone().into_boxed_str()))),
                    ("Rc<str>", tops(&Soup::html(Rc::<str>::from(d.as_str())))),
                    ("Arc<str>", tops(&Soup::html(Arc::<str>::from(d.as_str())))),
                    ("user type", tops(&Soup::html(Mine(d.clone().into_bytes())))),
                    ("tendril", tops(&Soup::html(scraper::StrTendril::from(d.as_str())))),
                    ("Soup::new", tops(&Soup::new::<soupy::parser::LenientHTMLParser<&str>>(&d).unwrap())),
                ];
                for (ty, g) in got {
                    if g != want {
                        return Err(format!("input as {ty}: {}", differ(&g, &want)));
                    }
                }
                Ok(Seen { hash: fnv(5, format!("{want:?}").as_bytes()), nontrivial: n > 0 })
            });
        });
    }
}

fn main() {
    mc::runner::main("C07", "model_checking", run);
}
