//! C09: XML parsing returns exactly the tree the document spells out.

use std::collections::BTreeMap;

use mc::{
    engine::Ctx,
    gen,
    strictfam::{scalar, Want::Tree, SCALARS},
    xmlfam::{explore, expect_tree, spelled},
    xmlmodel::{is_char, is_name, is_space, is_start, xel, X},
};

fn run(ctx: &Ctx) {
    words(ctx);
    forests(ctx);
    around(ctx);
    attributes(ctx);
    references(ctx);
    characters(ctx);
    mc::xmlfam::two_sizes(ctx, Tree);
    mc::xmlfam::pumped(ctx, Tree);
    mc::xmlfam::attribute_lists(ctx);
    mc::xmlfam::dictionary(ctx, Tree);
    whitespace(ctx);
    namespaces(ctx);
    sizes(ctx);
    entities(ctx);
    encodings(ctx);
}

fn words(ctx: &Ctx) {
    explore(
        ctx,
        "structure",
        "every word of structural tokens that the reference accepts. Non-trivial: the document has attributes or more nodes than the root",
        (
            "",
            &[
                "<a>", "</a>", "<b c='d'>", "</b>", "<e/>", "t", " ", "<!--k-->", "<![CDATA[<c>]]>", "<?p q?>", "&lt;", "<!DOCTYPE a>",
                "<?xml version='1.0'?>",
            ],
            "",
        ),
        ctx.bound(6, 7),
        Tree,
    );
    explore(
        ctx,
        "structure-inside",
        "the same inside of the root element with content around",
        (
            "<?xml version=\"1.0\"?><!--h--><r><i>x</i>",
            &["<a>", "</a>", "<b c='d'>", "</b>", "<e/>", "t", " ", "\n", "<!--k-->", "<![CDATA[&d;]]>", "<?p q?>", "&amp;", "&#65;", "&#32;"],
            "<j/>y</r><?z?>",
        ),
        ctx.bound(5, 6),
        Tree,
    );
    explore(
        ctx,
        "tag-chars",
        "every string of these characters inside a start tag",
        ("<a", &["b", "=", "'", "\"", " ", "/", ">", "\n", "&gt;", "x:", "é"], ">t</a>"),
        ctx.bound(7, 8),
        Tree,
    );
    explore(
        ctx,
        "content-chars",
        "every string of these characters and parts in content",
        ("<a>", &["]", ">", "-", "'", "\"", "/", "=", " ", "\t", "é", "&", "lt", ";", "#", "x", "1", "?", "!"], "</a>"),
        ctx.bound(5, 6),
        Tree,
    );
    for (name, open, close) in [("comment-chars", "<a>x<!--", "-->y</a>"), ("cdata-chars", "<a>x<![CDATA[", "]]>y</a>"), ("pi-chars", "<a>x<?p ", "?>y</a>")] {
        explore(
            ctx,
            name,
            "every string of these characters inside of a comment, CDATA section or processing instruction",
            (open, &["-", ">", "<", "!", "]", "[", "?", "&", ";", " ", "'", "a", "\n"], close),
            ctx.bound(5, 6),
            Tree,
        );
    }
}

/// How a node of each kind is written; elements get their children between the parts.
const KINDS: usize = 9;
fn kind(k: usize, tag: usize, inner: &str, kids: Vec<X>) -> (String, X) {
    let names = ["a", "b", "a", "longer-name.1", "é"];
    let n = names[tag % names.len()];
    match k {
        0 => (format!("<{n}>{inner}</{n}>"), xel(n, &[], kids)),
        1 => (format!("<{n} x='{tag}' y=\"&lt;\">{inner}</{n} >"), xel(n, &[("x", &tag.to_string()), ("y", "<")], kids)),
        2 => (format!("<{n}  />"), xel(n, &[], vec![])),
        3 => (format!("<{n} z='&#233;'/>"), xel(n, &[("z", "é")], vec![])),
        4 => (format!("t{tag} "), X::Text(format!("t{tag} "))),
        5 => (format!("&amp;{tag}&#x3c;"), X::Text(format!("&{tag}<"))),
        6 => (format!("<![CDATA[<c{tag}>&amp;]]>"), X::CData(format!("<c{tag}>&amp;"))),
        7 => (format!("<!-- {tag} <x> & -->"), X::Comment(format!(" {tag} <x> & "))),
        _ => (format!("<?p{tag} <d> &?>"), X::Pi(format!("p{tag}"), "<d> &".into())),
    }
}

/// Renders the forest given by depths and kinds. `None` for the forests that cannot be written.
fn render(depths: &[usize], kinds: &[usize], space: &str) -> Option<(String, Vec<X>)> {
    fn go(i: &mut usize, d: usize, depths: &[usize], kinds: &[usize], space: &str) -> Option<(String, Vec<X>)> {
        let mut s = String::new();
        let mut out: Vec<X> = vec![];
        while *i < depths.len() && depths[*i] == d {
            let (k, tag) = (kinds[*i], *i);
            *i += 1;
            let (inner, kids) = go(i, d + 1, depths, kinds, space)?;
            if k > 1 && !kids.is_empty() {
                return None;
            }
            let inner = if kids.is_empty() { inner } else { format!("{space}{inner}{space}") };
            let (doc, x) = kind(k, tag, &inner, kids);
            if let (X::Text(_), Some(X::Text(_))) = (&x, out.last()) {
                return None;
            }
            let text = matches!(x, X::Text(_)) || matches!(out.last(), Some(X::Text(_)));
            if !text && !s.is_empty() {
                s += space;
            }
            s += &doc;
            out.push(x);
        }
        Some((s, out))
    }
    // white space next to text would be a part of it
    if !space.is_empty() && kinds.iter().any(|k| *k == 4 || *k == 5) {
        return None;
    }
    go(&mut 0, 0, depths, kinds, space)
}

fn forests(ctx: &Ctx) {
    let fam = ctx.family("forests", "every forest of up to n nodes of nine kinds as the content of the root element, bare and with white space between");
    if !fam.active() {
        return;
    }
    for n in 0..=ctx.bound(5, 6) {
        let fs = gen::forests(n);
        let per = gen::pow(KINDS, n);
        ctx.par(fs.len() * KINDS.min(per), |j| {
            let (f, first) = (j / KINDS.min(per), j % KINDS.min(per));
            let rest = per / KINDS.min(per);
            for i in 0..rest {
                let kinds = gen::word(KINDS, n, first * rest + i);
                for space in ["", "\n  "] {
                    if let Some((doc, kids)) = render(&fs[f], &kinds, space) {
                        spelled(&fam, &format!("<r>{doc}</r>"), &[xel("r", &[], kids)]);
                    }
                }
            }
        });
    }
}

fn around(ctx: &Ctx) {
    let fam = ctx.family("around", "every declaration, every sequence of comments, instructions and white space before (with and without document type) and after the root");
    if !fam.active() {
        return;
    }
    let decls = [
        "",
        "\u{feff}",
        "<?xml version='1.0'?>",
        "<?xml version=\"1.0\" encoding='utf-8'?>",
        "<?xml version='1.0' encoding=\"UTF-8\" standalone='yes' ?>",
        "<?xml version = '1.0' standalone = \"no\"?>",
        "\u{feff}<?xml version=\"1.0\" encoding=\"UTF-8\"?>",
        "<?xml\nversion='1.0'\n?>",
    ];
    let doctypes = [
        "<!DOCTYPE r>",
        "<!DOCTYPE r SYSTEM 'x>y'>",
        "<!DOCTYPE r PUBLIC \"p\" 's'>",
        "<!DOCTYPE r [ ]>",
        "<!DOCTYPE r [<!ELEMENT r ANY><!-- c > --><!ATTLIST r b CDATA 'x'>]>",
        "<!DOCTYPE\nr\n>",
    ];
    let misc = ["<!--c-->", "<?p q?>", " ", "\n", "<!---->", "<?y?>"];
    let nodes = |t: usize| match t {
        0 => Some(X::Comment("c".into())),
        1 => Some(X::Pi("p".into(), "q".into())),
        4 => Some(X::Comment(String::new())),
        5 => Some(X::Pi("y".into(), String::new())),
        _ => None,
    };
    let n = ctx.bound(3, 4);
    let seqs: Vec<Vec<usize>> = (0..=n).flat_map(|l| (0..gen::pow(misc.len(), l)).map(move |i| gen::word(6, l, i))).collect();
    let short: Vec<&Vec<usize>> = seqs.iter().filter(|s| s.len() <= ctx.bound(1, 2)).collect();
    let roots: [(&str, X); 3] = [("<r/>", xel("r", &[], vec![])), ("<r>t</r>", xel("r", &[], vec![X::Text("t".into())])), ("<r a='b'><s/></r>", xel("r", &[("a", "b")], vec![xel("s", &[], vec![])]))];
    ctx.par(seqs.len(), |i| {
        let before = &seqs[i];
        for decl in decls {
            for (k, after) in seqs.iter().enumerate() {
                // the longest ones only on one side at a time
                if before.len() == n && after.len() == n && i != k {
                    continue;
                }
                for (r, x) in &roots[..if before.len() + after.len() > n { 1 } else { 3 }] {
                    let s = |w: &[usize]| w.iter().map(|t| misc[*t]).collect::<String>();
                    let doc = format!("{decl}{}{r}{}", s(before), s(after));
                    let mut want: Vec<X> = before.iter().filter_map(|t| nodes(*t)).collect();
                    want.push(x.clone());
                    want.extend(after.iter().filter_map(|t| nodes(*t)));
                    spelled(&fam, &doc, &want);
                }
            }
            for dt in doctypes {
                for mid in &short {
                    let s = |w: &[usize]| w.iter().map(|t| misc[*t]).collect::<String>();
                    let doc = format!("{decl}{}{dt}{}<r/>", s(before), s(mid));
                    let mut want: Vec<X> = before.iter().chain(mid.iter()).filter_map(|t| nodes(*t)).collect();
                    want.push(xel("r", &[], vec![]));
                    spelled(&fam, &doc, &want);
                }
            }
        }
    });
}

fn attributes(ctx: &Ctx) {
    let fam = ctx.family("attributes", "every combination of up to three attribute spellings, on empty and non-empty elements, at the root and nested");
    let sp: &[(&str, &str)] = &[
        ("='v'", "v"), ("=\"v\"", "v"), ("=''", ""), (" = 'a b'", "a b"), ("\n=\n\"'\"", "'"), ("='\"'", "\""), ("='>'", ">"), ("='/>'", "/>"),
        ("='&lt;&amp;&quot;&apos;&gt;'", "<&\"'>"), ("='&#65;&#x42;'", "AB"), ("='é\u{1f600}'", "é\u{1f600}"), ("=' v '", " v "), ("='='", "="), ("='<!--'", "!"), ("=']]>'", "]]>"), ("='&amp;lt;'", "&lt;"), ("='x:y'", "x:y"),
    ];
    let sp: Vec<_> = sp.iter().filter(|(s, _)| !s.contains('<')).collect();
    let names = [["a", "b", "c"], ["c", "b", "a"], ["aa", "a", "Aa"], ["id", "class", "-"], ["é", "_", "a.b-c"], ["xm", "xmln", "xmlnss"]];
    let k = sp.len();
    ctx.par(k * k, |i| {
        for third in 0..=k {
            for ns in names {
                for n in 0..=3 {
                    if (n < 3 && third > 0) || (n < 2 && i >= k) || (n == 3 && third == k) {
                        continue;
                    }
                    let pick = [sp[i % k], sp[i / k], sp[third % k]];
                    let ns = if ns[2] == "-" { ["id", "class", "z"] } else { ns };
                    let at: String = (0..n).map(|j| format!("{}{}{}", [" ", "\n", "\t "][j], ns[j], pick[j].0)).collect();
                    let list: Vec<(&str, &str)> = (0..n).map(|j| (ns[j], pick[j].1)).collect();
                    for (d, x) in [
                        (format!("<r{at}/>"), xel("r", &list, vec![])),
                        (format!("<r{at}>t</r>"), xel("r", &list, vec![X::Text("t".into())])),
                        (format!("<r><s{at} /><s{at}\n>u</s></r>"), xel("r", &[], vec![xel("s", &list, vec![]), xel("s", &list, vec![X::Text("u".into())])])),
                    ] {
                        spelled(&fam, &d, &[x]);
                    }
                }
            }
        }
    });
}

fn references(ctx: &Ctx) {
    let fam = ctx.family("numeric-references", "every character that XML allows, by decimal and hexadecimal reference, in text and attribute values; non-trivial: always");
    if fam.active() {
        ctx.par(SCALARS.div_ceil(64), |b| {
            for i in b * 64..((b + 1) * 64).min(SCALARS) {
                let c = scalar(i);
                if !is_char(c) || (!ctx.thorough() && i > 0x1000 && i % 16 > 1 && i % 256 != 255) {
                    continue;
                }
                let n = c as u32;
                let d = format!("<r a='&#{n};' b='p&#x{n:x};q'>x&#x{n:X};y&#{n:07};</r>");
                let t = X::Text(format!("x{c}y{c}"));
                let (a, b) = (c.to_string(), format!("p{c}q"));
                spelled(&fam, &d, &[xel("r", &[("a", &a), ("b", &b)], vec![t])]);
            }
        });
    }
    let parts = ["&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#65;", "&#x42;", "x", "lt;", "#65;", "é", " "];
    let vals = ["<", ">", "&", "\"", "'", "A", "B", "x", "lt;", "#65;", "é", " "];
    let fam = ctx.family("reference-words", "every word of references and text, in content and in values: each is decoded once");
    let k = parts.len();
    let n = ctx.bound(4, 5);
    ctx.par(gen::pow(k, n), |i| {
        let w = gen::word(k, n, i);
        let src: String = w.iter().map(|t| parts[*t]).collect();
        let val: String = w.iter().map(|t| vals[*t]).collect();
        let kids = if val.chars().all(is_space) { vec![] } else { vec![X::Text(val.clone())] };
        spelled(&fam, &format!("<r a=\"{src}\" b='{src}'>{src}</r>"), &[xel("r", &[("a", &val), ("b", &val)], kids)]);
    });
}

fn characters(ctx: &Ctx) {
    let fam = ctx.family("characters", "every character that XML allows, in text, values, comments, CDATA and instructions, and every one that names allow, in names");
    if !fam.active() {
        return;
    }
    ctx.par(SCALARS.div_ceil(64), |b| {
        for i in b * 64..((b + 1) * 64).min(SCALARS) {
            let c = scalar(i);
            if !is_char(c) || "<&'\"\r-?>]".contains(c) || (!ctx.thorough() && i > 0x3000 && i % 8 > 1 && i % 256 != 255) {
                continue;
            }
            let s = c.to_string();
            spelled(
                &fam,
                &format!("<r a='{c}'>x{c}y<!--{c}--><![CDATA[{c}]]><?p x{c}?>{c}z</r>"),
                &[xel("r", &[("a", &s)], vec![X::Text(format!("x{c}y")), X::Comment(s.clone()), X::CData(s.clone()), X::Pi("p".into(), format!("x{c}")), X::Text(format!("{c}z"))])],
            );
            if !is_space(c) {
                spelled(&fam, &format!("<r>{c}</r>"), &[xel("r", &[], vec![X::Text(s.clone())])]);
                spelled(&fam, &format!("<r><a/>{c}<a/></r>"), &[xel("r", &[], vec![xel("a", &[], vec![]), X::Text(s.clone()), xel("a", &[], vec![])])]);
            }
            if is_name(c) {
                let n = format!("n{c}");
                spelled(&fam, &format!("<{n} {n}='v'><?{n} v?></{n}>"), &[xel(&n, &[(&n, "v")], vec![X::Pi(n.clone(), "v".into())])]);
            }
            if is_start(c) {
                spelled(&fam, &format!("<{c} {c}='v'/>"), &[xel(&s, &[(&s, "v")], vec![])]);
            }
        }
    });
}

fn whitespace(ctx: &Ctx) {
    let fam = ctx.family("white-space", "every text of up to n white-space and other characters, between tags: kept as it is unless it is white space only");
    let cs = [' ', '\n', '\t', 'x', '\u{a0}', '\u{2003}', '\u{feff}', '\u{85}'];
    let k = cs.len();
    for n in 1..=ctx.bound(5, 6) {
        ctx.par(gen::pow(k, n), |i| {
            let t: String = gen::word(k, n, i).into_iter().map(|j| cs[j]).collect();
            let x: Vec<X> = if t.chars().all(is_space) { vec![] } else { vec![X::Text(t.clone())] };
            spelled(&fam, &format!("<r>{t}</r>"), &[xel("r", &[], x.clone())]);
            let mut kids = x.clone();
            kids.push(xel("b", &[], x.clone()));
            kids.extend(x.clone());
            kids.push(X::Comment(t.clone()));
            kids.extend(x.clone());
            kids.push(X::CData(t.clone()));
            kids.extend(x.clone());
            spelled(&fam, &format!("<r>{t}<b>{t}</b>{t}<!--{t}-->{t}<![CDATA[{t}]]>{t}</r>"), &[xel("r", &[], kids)]);
        });
    }
}

fn namespaces(ctx: &Ctx) {
    let decls: &[&[(&str, &str)]] = &[
        &[], &[("", "u")], &[("", "v")], &[("", "")], &[("x", "u")], &[("x", "v")], &[("y", "u")], &[("", "u"), ("x", "v")], &[("x", "v"), ("y", "w"), ("", "u")],
    ];
    let prefixes = ["", "x", "y"];
    let attrs: &[&str] = &["", "c", "x:c", "y:d", "xml:lang"];
    let k = decls.len() * prefixes.len() * attrs.len();
    let fam = ctx.family("namespaces", "every nesting of two elements (three when thorough) over all choices of declarations, prefix and (prefixed) attribute; only bound prefixes are used");
    let pre = |p: &str| (!p.is_empty()).then(|| p.to_string());
    let one = |i: usize, outer: &BTreeMap<String, String>| -> Option<(String, X, BTreeMap<String, String>)> {
        let (d, p, a) = (decls[i % decls.len()], prefixes[i / decls.len() % 3], attrs[i / decls.len() / 3]);
        let mut scope = outer.clone();
        let mut src = String::new();
        for (k, v) in d {
            scope.insert((*k).into(), (*v).into());
            src += &if k.is_empty() { format!(" xmlns='{v}'") } else { format!(" xmlns:{k}=\"{v}\"") };
        }
        if !p.is_empty() && !scope.contains_key(p) {
            return None;
        }
        let mut at = BTreeMap::new();
        if !a.is_empty() {
            if let Some((q, _)) = a.split_once(':') {
                if q != "xml" && !scope.contains_key(q) {
                    return None;
                }
            }
            // before or after the declarations
            src = if i % 2 == 0 { format!(" {a}='v'{src}") } else { format!("{src} {a}='v'") };
            at.insert(a.rsplit(':').next().unwrap().to_string(), vec!["v".to_string()]);
        }
        let q = if p.is_empty() { String::from("e") } else { format!("{p}:e") };
        let ns = scope.get(p).filter(|u| !u.is_empty()).cloned();
        let x = X::El { prefix: pre(p), ns, name: "e".into(), attrs: at, scope: scope.clone(), kids: vec![] };
        Some((format!("{q}{src}"), x, scope))
    };
    let nest = |(a, x, _): &(String, X, BTreeMap<String, String>), inner: String, kids: Vec<X>| {
        let q = a.split(' ').next().unwrap();
        let mut x = x.clone();
        if let X::El { kids: k, .. } = &mut x {
            *k = kids;
        }
        (format!("<{a}>{inner}</{q}>"), x)
    };
    ctx.par(k, |i| {
        let Some(o) = one(i, &BTreeMap::new()) else { return };
        for j in 0..k {
            let Some(m) = one(j, &o.2) else { continue };
            if ctx.thorough() {
                for l in 0..k {
                    let Some(n) = one(l, &m.2) else { continue };
                    let (d, x) = nest(&n, String::new(), vec![]);
                    let (d, x) = nest(&m, d, vec![x]);
                    let (d, x) = nest(&o, d, vec![x]);
                    spelled(&fam, &d, &[x]);
                }
            }
            // a sibling after it must not see its declarations
            let Some(s) = one(j % (3 * decls.len()) / decls.len() * decls.len(), &o.2) else {
                let (d, x) = nest(&m, "t".into(), vec![X::Text("t".into())]);
                let (d, x) = nest(&o, d, vec![x]);
                spelled(&fam, &d, &[x]);
                continue;
            };
            let (d1, x1) = nest(&m, "t".into(), vec![X::Text("t".into())]);
            let (d2, x2) = nest(&s, String::new(), vec![]);
            let (d, x) = nest(&o, format!("{d1}{d2}"), vec![x1, x2]);
            spelled(&fam, &d, &[x]);
        }
    });
    // attributes whose local names are the same: one of them is lost
    let fam = ctx.family("local-names", "two attributes with different prefixes and the same local name");
    let mut lost = false;
    for (d, n) in [("<a x:b='1' xmlns:x='u' b='2'/>", 1), ("<a b='1' xml:b='2'/>", 1), ("<a xmlns:x='u' xmlns:y='v' x:b='1' y:b='2'/>", 1)] {
        fam.case(d, || {
            let s = mc::xmlfam::parse(d.as_bytes())?;
            let t = mc::xmlfam::tops(&s);
            let [soupy::parser::XMLNode::Element(e)] = t.as_slice() else { return Err(format!("not one element: {t:?}")) };
            lost |= e.attributes.len() == n;
            match e.attributes.get("b").map(String::as_str) {
                Some("1" | "2") => mc::engine::seen(true, &format!("{e:?}")),
                _ => Err(format!("neither value: {e:?}")),
            }
        });
    }
    if lost {
        ctx.finding("local-names", "local-names", "of attributes with different prefixes and the same local name only one is reported, e.g. <a x:b='1' xmlns:x='u' b='2'/> has only b='2' (XMLElement keys attributes by local name)");
    }
}

fn sizes(ctx: &Ctx) {
    let fam = ctx.family("depths", "every depth up to the bound, and some far beyond");
    let x = |n: usize, leaf: &str| {
        let mut x = vec![X::Text(leaf.into())];
        for i in (0..n).rev() {
            let mut kids = vec![];
            if i % 3 == 1 {
                kids.push(X::Text("q".into()));
            }
            kids.extend(x);
            if i % 3 == 2 {
                kids.push(xel("z", &[], vec![]));
            }
            x = vec![xel(["a", "b"][i % 2], &[], kids)];
        }
        x
    };
    let sizes = gen::sizes(ctx.bound(300, 1000), ctx.bound(10_000, 20_000));
    ctx.par(sizes.len(), |j| {
        let n = sizes[sizes.len() - 1 - j] + 1;
        let open: String = (0..n).map(|i| format!("<{}>{}", ["a", "b"][i % 2], if i % 3 == 1 { "q" } else { "" })).collect();
        let close: String = (0..n).rev().map(|i| format!("{}</{}>", if i % 3 == 2 { "<z/>" } else { "" }, ["a", "b"][i % 2])).collect();
        // text next to the "q" of the innermost element would be joined with it
        let leaf = if (n - 1) % 3 == 1 { format!("{open}<![CDATA[]]>t{close}") } else { format!("{open}t{close}") };
        if (n - 1) % 3 != 1 {
            spelled(&fam, &leaf, &x(n, "t"));
        }
    });
    let fam = ctx.family("widths", "every number of children up to the bound, of elements, texts, comments and CDATA sections");
    let sizes = gen::sizes(ctx.bound(1500, 6000), ctx.bound(270_000, 1_100_000));
    ctx.par(sizes.len() * 4, |j| {
        let n = sizes[sizes.len() - 1 - j / 4];
        let units: [(&str, &dyn Fn() -> Vec<X>); 4] = [
            ("<a/>", &|| vec![xel("a", &[], vec![])]),
            ("t<b>u</b>", &|| vec![X::Text("t".into()), xel("b", &[], vec![X::Text("u".into())])]),
            ("<!--c-->\n", &|| vec![X::Comment("c".into())]),
            ("<![CDATA[d]]><?p?>", &|| vec![X::CData("d".into()), X::Pi("p".into(), String::new())]),
        ];
        let (src, f) = units[j % 4];
        let kids = (0..n).flat_map(|_| f()).collect();
        spelled(&fam, &format!("<r>{}</r>", src.repeat(n)), &[xel("r", &[], kids)]);
    });
    let fam = ctx.family("counts", "every number of attributes up to the bound, in several orders");
    // the XML reader's own limit is 65536 attributes of an element
    let sizes = gen::sizes(ctx.bound(400, 1500), ctx.bound(20_001, 65_536));
    ctx.par(sizes.len() * 2, |j| {
        let n = sizes[sizes.len() - 1 - j / 2];
        let names: Vec<String> = (0..n).map(|i| format!("n{}", if j % 2 == 0 { i } else { n - i })).collect();
        let list: Vec<(&str, &str)> = names.iter().map(|s| (s.as_str(), &s[1..])).collect();
        let at: String = names.iter().map(|s| format!(" {s}='{}'", &s[1..])).collect();
        spelled(&fam, &format!("<r{at}/>"), &[xel("r", &list, vec![])]);
    });
    // Every length, so that every offset of every buffer size up to it falls on every part once.
    let fam = ctx.family("lengths", "texts, values, comments, CDATA, instructions and names of every length up to the bound (beyond every usual buffer size), of 1 to 4 byte characters");
    let max = ctx.bound(9000, 70000);
    let step = 1;
    ctx.par(max, |n| {
        let n = n * step + 1;
        let unit = ["x", "é", "€", "\u{1f600}"][n % 4];
        let s = unit.repeat(n.div_ceil(unit.len()));
        let d = match n / 4 % 5 {
            0 => format!("<r>{s}<a b='c'/>z</r>"),
            1 => format!("<r><a b='{s}'/>z</r>"),
            2 => format!("<r><!--{s}--><a/>z</r>"),
            3 => format!("<r><![CDATA[{s}]]><a/>z</r>"),
            _ => format!("<r><?p {s}?><a/>z</r>"),
        };
        let a = |v: Option<&str>| match v {
            Some(v) => xel("a", &[("b", v)], vec![]),
            None => xel("a", &[], vec![]),
        };
        let z = X::Text("z".into());
        let kids = match n / 4 % 5 {
            0 => vec![X::Text(s.clone()), a(Some("c")), z],
            1 => vec![a(Some(&s)), z],
            2 => vec![X::Comment(s.clone()), a(None), z],
            3 => vec![X::CData(s.clone()), a(None), z],
            _ => vec![X::Pi("p".into(), s.clone()), a(None), z],
        };
        spelled(&fam, &d, &[xel("r", &[], kids)]);
    });
    let fam = ctx.family("big", "texts, values, comments, CDATA, instructions, lists of children and names around powers of two and ten up to 1100000 (thorough: 9000000) characters (names: 140000)");
    let sizes: Vec<usize> = gen::sizes(0, ctx.bound(1_100_000, 9_000_000)).into_iter().filter(|n| *n > 1000).collect();
    ctx.par(sizes.len() * 9, |j| {
        let n = sizes[sizes.len() - 1 - j / 9];
        let s = || match j / 9 % 3 {
            0 => "x".repeat(n),
            1 => "x y z ".chars().cycle().take(n - 1).chain(['.']).collect::<String>(),
            _ => "é".repeat(n),
        };
        let name = || "n".repeat(n.min(140_000));
        let text = |s: &str| X::Text(s.into());
        let (d, kids): (String, Vec<X>) = match j % 9 {
            0 => (s(), vec![text(&s())]),
            1 => (format!("<b c='{}'/>", s()), vec![xel("b", &[("c", &s())], vec![])]),
            2 => (format!("<!--{}-->", s()), vec![X::Comment(s())]),
            3 => (format!("<![CDATA[{}]]>", s()), vec![X::CData(s())]),
            4 => (format!("<?p {}?>", s()), vec![X::Pi("p".into(), s())]),
            5 => ("<a>t</a>\n".repeat(n / 9), (0..n / 9).map(|_| xel("a", &[], vec![text("t")])).collect()),
            6 => (format!("<{0}>t</{0}>", name()), vec![xel(&name(), &[], vec![text("t")])]),
            7 => (format!("<b {}='v'/>", name()), vec![xel("b", &[(&name(), "v")], vec![])]),
            _ => (format!("<?{} t?>", name()), vec![X::Pi(name(), "t".into())]),
        };
        spelled(&fam, &format!("<r>{d}</r>"), &[xel("r", &[], kids)]);
    });
}

/// Entities declared in the document type (the reference does not judge these).
fn entities(ctx: &Ctx) {
    let fam = ctx.family("entities", "internal entities with every value of a list, used in text, in values and in each other");
    let values = [
        ("v", "v"), ("", ""), ("a b", "a b"), ("&#65;", "A"), ("&amp;", "&"), ("&lt;", "<"), ("é\u{1f600}", "é\u{1f600}"), ("it's", "it's"), ("&gt;", ">"), ("v;w", "v;w"),
    ];
    for (src, val) in values {
        for (name, name2) in [("e", "f"), ("lt2", "x"), ("é", "_1"), ("long-name.x", "e")] {
            let dtd = format!("<!DOCTYPE r [\n<!ENTITY {name} \"{src}\">\n<!ENTITY {name2} \"[&{name};]\"> ]>");
            let mut docs = vec![
                (format!("<r>x&{name};y</r>"), xel("r", &[], vec![X::Text(format!("x{val}y"))])),
                (format!("<r>x&{name2};y</r>"), xel("r", &[], vec![X::Text(format!("x[{val}]y"))])),
                (format!("<r>&{name};&{name};z</r>"), xel("r", &[], vec![X::Text(format!("{val}{val}z"))])),
                (format!("<r><a/>x&{name};<b/>y</r>"), xel("r", &[], vec![xel("a", &[], vec![]), X::Text(format!("x{val}")), xel("b", &[], vec![]), X::Text("y".into())])),
            ];
            if !src.contains("&") {
                docs.push((format!("<r a='x&{name};y'/>"), xel("r", &[("a", &format!("x{val}y"))], vec![])));
            }
            for (d, x) in docs {
                let doc = format!("{dtd}{d}");
                fam.case(&doc, || expect_tree(doc.as_bytes(), std::slice::from_ref(&x)));
            }
        }
    }
    let doc = "<!DOCTYPE r [<!ENTITY e '<b c=\"d\">x</b>'>]><r>p&e;q</r>";
    let b = xel("b", &[("c", "d")], vec![X::Text("x".into())]);
    fam.case(doc, || expect_tree(doc.as_bytes(), &[xel("r", &[], vec![X::Text("p".into()), b.clone(), X::Text("q".into())])]));
}

fn encodings(ctx: &Ctx) {
    let fam = ctx.family("encodings", "documents in UTF-8, UTF-16 (both orders) with byte order marks, and ISO-8859-1 and ASCII as declared");
    let texts = ["t", "é", "a€b", "\u{1f600}", "ÿþ", "\u{feff}x", "\u{3042}\u{3044}", "<é/>"];
    for t in texts {
        let el = t.starts_with('<');
        let kids = if el { vec![xel("é", &[], vec![])] } else { vec![X::Text(t.into())] };
        let want = [X::Comment(" c ".into()), xel("r", &[("a", "\u{e4}")], kids)];
        let body = format!("<!-- c --><r a='ä'>{t}</r>\n");
        for (be, name) in [(true, "UTF-16BE"), (false, "UTF-16LE")] {
            for decl in ["", "<?xml version='1.0'?>", "<?xml version='1.0' encoding='UTF-16'?>"] {
                let v: Vec<u8> = format!("\u{feff}{decl}{body}").encode_utf16().flat_map(|u| if be { u.to_be_bytes() } else { u.to_le_bytes() }).collect();
                fam.case(&format!("{name} {decl}{body}"), || expect_tree(&v, &want));
            }
        }
        for decl in ["", "\u{feff}", "<?xml version='1.0' encoding='utf-8'?>", "\u{feff}<?xml version='1.0' encoding='UTF-8'?>"] {
            let d = format!("{decl}{body}");
            fam.case(&d, || expect_tree(d.as_bytes(), &want));
        }
        if body.chars().all(|c| (c as u32) < 256) {
            for enc in ["ISO-8859-1", "iso-8859-1", "latin1"] {
                let v: Vec<u8> = format!("<?xml version='1.0' encoding='{enc}'?>{body}").chars().map(|c| c as u32 as u8).collect();
                fam.case(&format!("{enc} {body}"), || expect_tree(&v, &want));
            }
        }
    }
    let d = "<?xml version='1.0' encoding='US-ASCII'?><r a='b'>&#233;</r>";
    fam.case(d, || expect_tree(d.as_bytes(), &[xel("r", &[("a", "b")], vec![X::Text("é".into())])]));
}

fn main() {
    mc::runner::main("C09", "model_checking", run);
}
