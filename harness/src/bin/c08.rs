//! C08: no input makes a parser panic, abort or hang.

use std::{os::unix::process::ExitStatusExt, process::Command, sync::atomic::Ordering::Relaxed};

use mc::{
    engine::{seen, Ctx, Fam, Seen},
    gen,
    strictfam::{scalar, SCALARS},
};
use soupy::{Node, Queryable, Soup};

#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
    Strict,
    Lenient,
    Xml,
}
use P::{Lenient, Strict, Xml};

/// Parses, and uses what came out: every node is visited, its text collected, and freed again.
fn run_parser(p: P, input: &[u8]) -> Result<Seen, String> {
    let out = match p {
        Strict => {
            let Ok(s) = std::str::from_utf8(input) else { return seen(false, "") };
            match Soup::html_strict(s) {
                Ok(soup) => use_soup(&soup),
                Err(e) => {
                    let m = format!("{e} {e:?}").len();
                    return seen(m > 200, "rejected");
                }
            }
        }
        Lenient => {
            let Ok(s) = std::str::from_utf8(input) else { return seen(false, "") };
            let n = use_soup(&Soup::html(s));
            if n == 0 {
                return Err("no nodes at all".into());
            }
            n
        }
        Xml => match Soup::xml(input) {
            Ok(soup) => use_soup(&soup),
            Err(e) => return seen(true, &e.to_string()),
        },
    };
    seen(out > 1, &format!("{p:?} {out}"))
}

fn use_soup<N: Node + Clone>(s: &Soup<N>) -> usize
where
    N::Text: std::fmt::Display,
{
    let copy = s.clone();
    let n = s.iter().count();
    if n < 2000 {
        for i in copy.strict().all() {
            let _ = i.all_text();
            let _ = i.query().iter().count();
        }
    }
    n
}

fn case(fam: &Fam, p: P, input: &[u8]) {
    fam.case(&format!("{p:?} {}", input.escape_ascii()), || run_parser(p, input));
}

fn all(fam: &Fam, input: &[u8]) {
    for p in [Strict, Lenient, Xml] {
        case(fam, p, input);
    }
}

fn run(ctx: &Ctx) {
    words(ctx);
    bytes(ctx);
    characters(ctx);
    dictionary(ctx);
    edits(ctx);
    repetition(ctx);
    entities(ctx);
    depth(ctx);
    wide(ctx);
    deep(ctx);
}

const TOKENS: &[&str] = &[
    "<", ">", "/", "a", "<a", "</a>", "<a>", "=", "\"", "'", "&", "#", ";", " ", "\0", "\u{212a}", "é", "<!--", "-->",
    "<!", "<![CDATA[", "]]>", "<?", "?>", "<br>", "</br>", "<script>", "</script", "</\u{212a}>", "<!doctype ", "\r",
    "&#x", "&lt", "xmlns:", "<x:", "\u{feff}", "\u{130}", "<lin\u{212a}", "<\u{17f}tyle>", "1", "\n", "<!DOCTYPE a [", "<!ENTITY ", "%", "[",
];

fn words(ctx: &Ctx) {
    let fam = ctx.family("words", "every word of at most n hostile tokens, to each parser; non-trivial: nodes came out, or an error with a message of its own");
    if !fam.active() {
        return;
    }
    let k = TOKENS.len();
    for n in 0..=ctx.bound(3, 4) {
        let total = gen::pow(k, n);
        ctx.par(total.div_ceil(256), |c| {
            for i in c * 256..((c + 1) * 256).min(total) {
                let d: String = gen::word(k, n, i).into_iter().map(|t| TOKENS[t]).collect();
                all(&fam, d.as_bytes());
            }
        });
        ctx.transitions.fetch_add(total as u64 * 3, Relaxed);
        ctx.traces.fetch_add(total as u64 * 3, Relaxed);
    }
    ctx.states.fetch_add((0..=ctx.bound(3, 4)).map(|n| gen::pow(k, n) as u64).sum(), Relaxed);
    let fam = ctx.family("words-nested", "the same inside of open constructs");
    for (a, b) in [("<a b=\"x\">", "</a>"), ("<a b=", ">"), ("<script>", "</script>"), ("<!--", "-->"), ("<a>&", ";</a>"), ("</a", ">"), ("<a ", "/>"), ("<table><svg>", "</table>")] {
        let n = ctx.bound(2, 3);
        let total = gen::pow(k, n);
        ctx.par(total.div_ceil(64), |c| {
            for i in c * 64..((c + 1) * 64).min(total) {
                let d: String = gen::word(k, n, i).into_iter().map(|t| TOKENS[t]).collect();
                all(&fam, format!("{a}{d}{b}").as_bytes());
            }
        });
    }
}

fn bytes(ctx: &Ctx) {
    let fam = ctx.family("bytes", "every sequence of at most two bytes, and of n bytes of a hostile subset, alone and inside of an XML document");
    if !fam.active() {
        return;
    }
    case(&fam, Xml, b"");
    ctx.par(256, |a| {
        case(&fam, Xml, &[a as u8]);
        for b in 0..256 {
            let two = [a as u8, b as u8];
            case(&fam, Xml, &two);
            case(&fam, Xml, &[b"<a>", &two[..], b"</a>"].concat());
            case(&fam, Xml, &[b"<a b='", &two[..], b"'/>"].concat());
            case(&fam, Xml, &[b"<", &two[..], b"/>"].concat());
        }
    });
    let set: &[u8] = &[b'<', b'>', b'a', b'/', b'&', b' ', 0, 0x80, 0xbf, 0xc0, 0xc3, 0xa9, 0xe2, 0xed, 0xa0, 0xef, 0xbb, 0xf0, 0xf4, 0xfe, 0xff];
    let k = set.len();
    let n = ctx.bound(4, 5);
    ctx.par(gen::pow(k, 3), |i| {
        let head: Vec<u8> = gen::word(k, 3, i).into_iter().map(|t| set[t]).collect();
        case(&fam, Xml, &head);
        for j in 0..gen::pow(k, n - 3) {
            let mut v = head.clone();
            v.extend(gen::word(k, n - 3, j).into_iter().map(|t| set[t]));
            case(&fam, Xml, &v);
            let mut w = b"<a>x".to_vec();
            w.extend(&v);
            w.extend(b"</a>");
            case(&fam, Xml, &w);
        }
    });
    // declared encodings
    for enc in ["utf-8", "UTF-8", "utf8", "utf-16", "UTF-16LE", "UTF-16BE", "iso-8859-1", "latin1", "ascii", "us-ascii", "x", "", "\u{e9}", "windows-1252"] {
        for rest in ["<a/>", "<a>é</a>", "<a>\u{10000}</a>", ""] {
            let d = format!("<?xml version=\"1.0\" encoding=\"{enc}\"?>{rest}");
            case(&fam, Xml, d.as_bytes());
            for (be, bom) in [(true, true), (true, false), (false, true), (false, false)] {
                let mut v = vec![];
                for u in bom.then_some(0xfeff).into_iter().chain(d.encode_utf16()) {
                    v.extend(if be { u.to_be_bytes() } else { u.to_le_bytes() });
                }
                case(&fam, Xml, &v);
                v.pop();
                case(&fam, Xml, &v);
            }
            let latin: Vec<u8> = d.chars().map(|c| c as u32 as u8).collect();
            case(&fam, Xml, &latin);
        }
    }
}

fn characters(ctx: &Ctx) {
    let fam = ctx.family("code-points", "every Unicode scalar value in every place of a document, to each parser");
    if !fam.active() {
        return;
    }
    ctx.par(SCALARS.div_ceil(256), |b| {
        for i in b * 256..((b + 1) * 256).min(SCALARS) {
            let c = scalar(i);
            if !ctx.thorough() && c as u32 > 0x3000 && (c as u32 & 0xff) > 1 && (c as u32 & 0xff) < 0xfe {
                continue;
            }
            all(&fam, format!("{c}").as_bytes());
            all(&fam, format!("<{c}>x</{c}>").as_bytes());
            all(&fam, format!("<a{c}>x</a{c}>").as_bytes());
            all(&fam, format!("<lin{c}></lin{c}><{c}tyle>").as_bytes());
            all(&fam, format!("<p {c}={c}>{c}</p>").as_bytes());
            all(&fam, format!("<p a='{c}' b{c}=\"x\">&{c};&#{c};&x{c}</p>").as_bytes());
            all(&fam, format!("<!--{c}--><!{c}doctype {c}>").as_bytes());
            all(&fam, format!("<script>{c}</script{c}></script>").as_bytes());
            all(&fam, format!("<a>&#{};&#x{:X}</a>", c as u32, c as u32).as_bytes());
            all(&fam, format!("<?{c} {c}?><a><![CDATA[{c}]]></a{c}>").as_bytes());
        }
    });
    // numbers of every size
    let fam = ctx.family("numbers", "numeric references of every number of digits");
    for n in 0..ctx.bound(200, 1000) {
        for d in ["0", "1", "9", "f", "7fffffff", "d800", "110000"] {
            all(&fam, format!("<a b='&#x{0};'>&#{0};&#x{0}</a>", d.repeat(n)).as_bytes());
            all(&fam, format!("<a>&#{}{d};&#x{}{d};</a>", "0".repeat(n), "0".repeat(n)).as_bytes());
        }
    }
}

fn dictionary(ctx: &Ctx) {
    let fam = ctx.family(
        "dictionary",
        "every pair of strings out of a dictionary (the literals of the code under test, and well-known ones) and every pair of special characters in every place of a document, to each parser",
    );
    if !fam.active() {
        return;
    }
    let html = ["<{0} {1}>x", "<p>{0}</{1}>", "<{0}{1}", "<!{0} {1}>", "<p a={0}{1}>", "<p {0}{1}=\"", "<script {0}>{1}</script>", "<style>{0}</style {1}>", "</{0}{1}>", "&{0}{1}"];
    let places: Vec<&str> = mc::xmlfam::PLACES.iter().copied().chain(html).collect();
    let d = mc::lits::dictionary();
    let k = d.len();
    let n = places.len();
    ctx.par(k * k, |i| {
        let (a, b) = (i / k, i % k);
        for (j, p) in places.iter().enumerate() {
            if ctx.thorough() || a == b || b == 0 || j % 4 == (a + b) % 4 {
                all(&fam, p.replace("{0}", &d[a]).replace("{1}", &d[b]).as_bytes());
            }
        }
    });
    let c = mc::strictfam::ascii_special();
    let len = ctx.bound(2, 3);
    ctx.par(gen::pow(c.len(), len) * n, |i| {
        let s: String = gen::word(c.len(), len, i / n).into_iter().map(|j| c[j]).collect();
        all(&fam, places[i % n].replace("{0}", &s).replace("{1}", &s).as_bytes());
    });
}

const DOCS: &[&str] = &[
    "<!DOCTYPE html><html lang=\"en\"><head><title>x &amp; y</title></head><body class=c>t<br/>u<!-- c --></body></html>",
    "<ul><li a='1'>a</li></ul><script src=s>if (a < b) { \"</b>\" }</script>&#65;&#x1F600;é\u{1f600}",
    "<?xml version=\"1.0\" encoding=\"utf-8\"?><!DOCTYPE r [<!ENTITY e \"v\">]><r xmlns:x=\"u\" x:a='1'><x:b/><![CDATA[d]]>&e;<?p i?><!--c-->é\u{1f600}</r>\n",
    "<table><tr><td>x<template><td>y</template></table><svg viewBox='0'><path d=m /></svg><select><option>a",
];

fn edits(ctx: &Ctx) {
    let fam = ctx.family("edits", "every prefix, suffix, deleted range, and every byte (0 to 255) inserted or substituted at every offset of sample documents");
    if !fam.active() {
        return;
    }
    for doc in DOCS {
        let d = doc.as_bytes();
        ctx.par(d.len() + 1, |i| {
            all(&fam, &d[..i]);
            all(&fam, &d[i..]);
            for b in 0..=255u8 {
                let mut v = d.to_vec();
                v.insert(i, b);
                all(&fam, &v);
                if i < d.len() {
                    v = d.to_vec();
                    v[i] = b;
                    all(&fam, &v);
                }
            }
            for c in ['\u{212a}', '\u{130}', 'ß', '\u{feff}', '\u{10ffff}'] {
                all(&fam, &[&d[..i], c.to_string().as_bytes(), &d[i..]].concat());
            }
            for j in i + 1..=d.len() {
                all(&fam, &[&d[..i], &d[j..]].concat());
                if j < i + 16 {
                    all(&fam, &[&d[..j], &d[i..]].concat());
                }
            }
        });
    }
}

fn repetition(ctx: &Ctx) {
    let mut units: Vec<&str> = TOKENS.to_vec();
    units.extend([
        "<a b='c'>", "<a/>", "<b>x", "</b>", "<i><b>", "<table><tr><td>", "<p>", "<a a", "a=", "<style>", "<style><script>", "<!-- ", "--",
        "&amp;", "&#65;", "&ampa", "<a b=\"", "<a b", " a=b", "<div></div>", "<svg>", "<template>", "<a xmlns='u'>", "<select><option>",
        "</", "<a></a", "<![CDATA[]]>", "<?a b?>", "&notin", "&CounterClockwise", "<form>", "<button>", "<li>", "<!doctype a", "<h1>",
        "<nobr>", "<frameset>", "<math><mi>", "<ruby><rt>", "<a><table>",
    ]);
    let k = units.len();
    let fam = ctx.family(
        "repeated-pairs",
        "every pair of units repeated 40 times in turn, nested 40 deep (u^n v^n), and each unit up to thousands of times: an exponential or endless run would not return within the limit of 60 s per case",
    );
    if !fam.active() {
        return;
    }
    ctx.par(k * k, |i| {
        let (u, v) = (units[i / k], units[i % k]);
        for n in if ctx.thorough() { vec![1, 2, 7, 40, 200] } else { vec![3, 40] } {
            all(&fam, format!("{u}{v}").repeat(n).as_bytes());
            all(&fam, format!("{}{}", u.repeat(n), v.repeat(n)).as_bytes());
            all(&fam, format!("<r>{}x{}</r>", u.repeat(n), v.repeat(n)).as_bytes());
        }
    });
    let fam = ctx.family("counts", "well-formed documents with n attributes (of n names or one), children, bytes in a name, an attribute name, a value, a text, a comment, an instruction, raw content, a doctype, namespaces or references, for every n up to 300 (thorough: 3000) and around round numbers up to 140000 (600000)");
    if fam.active() {
        let sizes = gen::sizes(ctx.bound(300, 3000), ctx.bound(140_000, 600_000));
        ctx.par(sizes.len(), |i| {
            let n = sizes[sizes.len() - 1 - i];
            for doc in counted(n, ctx.bound(10_000, 30_000)) {
                all(&fam, doc.as_bytes());
            }
        });
    }
    let fam = ctx.family("repeated", "every unit repeated n times, for n up to thousands");
    let counts: Vec<usize> = if ctx.thorough() { (1..200).chain([500, 1000, 2000, 4000]).collect() } else { (1..60).chain([300, 1500]).collect() };
    ctx.par(k * counts.len(), |i| {
        let (u, n) = (units[i % k], counts[i / k]);
        all(&fam, u.repeat(n).as_bytes());
        all(&fam, format!("<a>{}", u.repeat(n)).as_bytes());
        all(&fam, format!("<a {}", u.repeat(n)).as_bytes());
    });
}

/// Entities that expand to entities: the run must not grow exponentially with the document.
fn entities(ctx: &Ctx) {
    let fam = ctx.family("entity-expansion", "documents whose d entities each refer w times to the one before (up to w^d), to themselves, and to each other");
    for d in 1..=24 {
        for w in [1, 2, 3, 10] {
            let mut s = String::from("<!DOCTYPE r [<!ENTITY e0 \"lol\">");
            for i in 1..=d {
                s += &format!("<!ENTITY e{i} \"{}\">", format!("&e{};", i - 1).repeat(w));
            }
            case(&fam, Xml, format!("{s}]><r>&e{d};</r>").as_bytes());
            case(&fam, Xml, format!("{s}]><r a='&e{d};'/>").as_bytes());
        }
    }
    for s in [
        "<!DOCTYPE r [<!ENTITY a \"&a;\">]><r>&a;</r>",
        "<!DOCTYPE r [<!ENTITY a \"&b;\"><!ENTITY b \"&a;\">]><r>&a;</r>",
        "<!DOCTYPE r [<!ENTITY a \"<r>&a;</r>\">]><r>&a;</r>",
        "<!DOCTYPE r [<!ENTITY a '<b>&#38;a;</b>'>]><r>&a;</r>",
        "<!DOCTYPE r [<!ENTITY % a \"%a;\">%a;]><r/>",
        "<!DOCTYPE r SYSTEM \"file:///dev/zero\"><r/>",
        "<!DOCTYPE r [<!ENTITY a SYSTEM \"file:///dev/zero\">]><r>&a;</r>",
    ] {
        case(&fam, Xml, s.as_bytes());
    }
}

/// Well-formed documents with `n` of something, or `most` attributes.
fn counted(n: usize, most: usize) -> Vec<String> {
    // html5ever compares each attribute of an element with each other
    let m = n.min(most);
    let attrs: String = (0..m).map(|i| format!(" a{i}='b'")).collect();
    let spaces: String = (0..m).map(|i| format!(" xmlns:n{i}='u{i}'")).collect();
    let entities: String = (0..n).map(|i| format!("<!ENTITY e{i} 'x'>")).collect();
    let x = "x".repeat(n);
    vec![
        format!("<a{attrs}>x</a>"),
        format!("<br{attrs}/>"),
        format!("<script{attrs}></script>"),
        format!("<a{}></a>", " b='c'".repeat(n)),
        format!("<a{spaces}><b/></a>"),
        format!("<!DOCTYPE a [{entities}]><a>x</a>"),
        format!("<!DOCTYPE {x}><a>x</a>"),
        format!("<a{x}>x</a{x}>"),
        format!("<a {x}='b'>x</a>"),
        format!("<a b{x}=''>x</a>"),
        format!("<a b='{x}'>x</a>"),
        format!("<a>{x}<!--{x}--><?p {x}?></a>"),
        format!("<a>{}</a>", "<b/>".repeat(n)),
        format!("<a>{}</a>", "<b>x</b>".repeat(n)),
        format!("<a>{}</a>", "x<!---->".repeat(n)),
        format!("<a b='{0}'>{0}</a>", "&lt;".repeat(n)),
        format!("<script>{x}</script>"),
        format!("<a>{}x{}</a>", "\n".repeat(n), " ".repeat(n)),
        "<a></a>".repeat(n),
        format!("<script>{}</script>", "</x>".repeat(n)),
        format!("<style>{}</style>", "</style ".repeat(n)),
        format!("<a>{}</a>", "<script>x</script>".repeat(n)),
        format!("<a>{}</a>", "<br/>".repeat(n)),
        format!("<a>{}</a>", "<!DOCTYPE x>".repeat(n)),
        format!("<a>{}</a>", "<![CDATA[x]]>".repeat(n)),
        format!("<a>{}</a>", "<?p q?>".repeat(n)),
        format!("{}<a/>", "<!--c-->".repeat(n)),
        format!("<a{}>x</a{0}>", " ".repeat(n)),
        format!("<a b={0}'c'>x</a>", " ".repeat(n)),
        format!("<a>{}</a>", "&#65;x".repeat(n)),
        format!("<a>&#{}65;</a>", "0".repeat(n)),
        format!("<a b='{}'/>", "&#x41;&amp;&nbsp;".repeat(n)),
        format!("<a b='{}'/>", "\"".repeat(n)),
        format!("<a><!--{}--></a>", "- ".repeat(n)),
        format!("<a>{}</a>", "&x;".repeat(n)),
        format!("<a>{}", "<b/>".repeat(n)),
        format!("<a>{}</a>", "> ".repeat(n)),
    ]
}

/// Nesting of ordinary depth has to work on an ordinary thread.
const ORDINARY_DEPTH: usize = 256;
const ORDINARY_STACK: usize = 2 << 20;

fn on_ordinary_stack(p: P, doc: Vec<u8>) -> Result<Seen, String> {
    std::thread::Builder::new()
        .stack_size(ORDINARY_STACK)
        .spawn(move || run_parser(p, &doc))
        .expect("spawn")
        .join()
        .unwrap_or_else(|_| Err("panicked".into()))
}

fn nested(form: usize, n: usize) -> String {
    match form {
        0 => format!("{}t{}", "<a>".repeat(n), "</a>".repeat(n)),
        1 => format!("{}t{}", "<a b='c' d=\"e\">x".repeat(n), "<i></i></a>y".repeat(n)),
        2 => "<a>".repeat(n),
        3 => format!("{}</b>", "<a>".repeat(n)),
        4 => format!("{}{}", "<p><q>".repeat(n / 2), "</q></p>".repeat(n / 2)),
        _ => format!("{}<script>x</script>{}", "<div><a/>".repeat(n), "<!--c--></div>".repeat(n)),
    }
}

fn depth(ctx: &Ctx) {
    let fam = ctx.family("ordinary-depth", "every depth up to 256 on a thread with a stack of 2 MiB (Rust's default)");
    ctx.par(ORDINARY_DEPTH * 6, |i| {
        let d = nested(i % 6, i / 6 + 1).into_bytes();
        for p in [Strict, Lenient, Xml] {
            fam.case(&format!("{p:?} {}", d.escape_ascii()), || on_ordinary_stack(p, d.clone()));
        }
    });
}

/// Wide documents on an ordinary stack, in a process of its own.
fn wide(ctx: &Ctx) {
    let fam = ctx.family("ordinary-width", "well-formed documents with 100000 of anything (60000 attributes; lenient: 8000) on a thread with a stack of 2 MiB, each in a process of its own, for each parser");
    if !fam.active() {
        return;
    }
    let docs = counted(3, 3).len();
    ctx.par(docs * 3, |i| {
        let (p, k) = ([Strict, Lenient, Xml][i % 3], i / 3);
        let st = Command::new(std::env::current_exe().unwrap())
            .args(["--sub", &format!("{p:?}"), &k.to_string()])
            .stderr(std::process::Stdio::null())
            .status()
            .expect("subprocess");
        fam.case(&format!("{p:?}, 100000 of kind {k}: {}", mc::engine::clip(&counted(3, 3)[k], 100)), || match (st.code(), st.signal()) {
            (Some(0), _) => seen(true, &format!("{p:?}{k}")),
            (code, sig) => Err(format!("the process ended with {code:?} {sig:?}")),
        });
    });
}
const WIDE: usize = 100_000;
/// html5ever takes quadratic time in this.
const WIDE_ATTRS: [usize; 3] = [60_000, 8000, 60_000];

/// Very deep nesting, in a process of its own.
fn deep(ctx: &Ctx) {
    let fam = ctx.family("very-deep", "a hundred thousand nested elements on an ordinary thread, in a process of its own, for each parser");
    if !fam.active() {
        return;
    }
    for p in [Strict, Lenient, Xml] {
        let st = Command::new(std::env::current_exe().unwrap())
            .args(["--sub", &format!("{p:?}")])
            .stderr(std::process::Stdio::null())
            .status()
            .expect("subprocess");
        let key = format!("deep-{}", format!("{p:?}").to_lowercase());
        let n = DEEP;
        match (st.code(), st.signal()) {
            (Some(0), _) => fam.case(&format!("{p:?} {n} nested elements"), || seen(true, &format!("{p:?} fine"))),
            (_, Some(sig)) if sig == libc::SIGABRT || sig == libc::SIGSEGV => {
                fam.case(&format!("{p:?} {n} nested elements"), || seen(true, &format!("{p:?} aborted")));
                ctx.finding(
                    "very-deep",
                    &key,
                    &format!("the {p:?} parser overflows the stack and aborts the process on deeply nested elements (\"<span>\" repeated {n} times and closed, on a thread with the default stack of 2 MiB)"),
                );
            }
            (code, sig) => fam.case(&format!("{p:?} {n} nested elements"), || Err(format!("the process ended with {code:?} {sig:?}"))),
        }
    }
}

const DEEP: usize = 100_000;

fn sub(p: &str, kind: Option<usize>) {
    let p = [Strict, Lenient, Xml].into_iter().find(|x| format!("{x:?}") == p).unwrap();
    let h = std::thread::Builder::new().stack_size(ORDINARY_STACK).spawn(move || {
        let d = match kind {
            None => format!("{}t{}", "<span>".repeat(DEEP), "</span>".repeat(DEEP)),
            // <b/> opens an element in the lenient parser
            Some(k) => counted(WIDE, WIDE_ATTRS[p as usize]).into_iter().nth(k).unwrap().replace("<b/>", "<br/>"),
        };
        run_parser(p, d.as_bytes())
    });
    let ok = h.unwrap().join().is_ok_and(|r| r.is_ok());
    std::process::exit(i32::from(!ok));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if let Some(i) = args.iter().position(|a| a == "--sub") {
        sub(&args[i + 1], args.get(i + 2).map(|k| k.parse().unwrap()));
        return;
    }
    mc::runner::main("C08", "exploration", run);
}
