//! C10: XML parsing rejects malformed and truncated documents as a whole.

use std::sync::atomic::Ordering::Relaxed;

use mc::{
    engine::{seen, Ctx},
    gen,
    strictfam::{scalar, Want::Reject, NAMES, SCALARS},
    xmlfam::{check, expect_error, explore, parse, sweep},
    xmlmodel::{is_char, judge, Verdict},
};

fn run(ctx: &Ctx) {
    words(ctx);
    roots(ctx);
    truncations(ctx);
    edits(ctx);
    names(ctx);
    characters(ctx);
    mc::xmlfam::two_sizes(ctx, Reject);
    mc::xmlfam::pumped(ctx, Reject);
    mc::xmlfam::dictionary(ctx, Reject);
    references(ctx);
    bytes(ctx);
    encoding_names(ctx);
    sizes(ctx);
    root_counts(ctx);
    doctypes(ctx);
}

fn words(ctx: &Ctx) {
    explore(
        ctx,
        "structure",
        "every word of structural tokens that the reference rejects, complete or cut off; each is also tried with every token after it. Non-trivial: always",
        (
            "",
            &[
                "<a>", "</a>", "<b c='d'>", "</b>", "<a/>", "t", " ", "<!--k-->", "<![CDATA[c]]>", "<?p q?>", "&lt;", "<!DOCTYPE a>",
                "<?xml version='1.0'?>", "<!--", "<", "]]>",
            ],
            "",
        ),
        ctx.bound(5, 6),
        Reject,
    );
    explore(
        ctx,
        "structure-inside",
        "the same inside of open elements and with well-formed content around, so that only a part of the document is malformed",
        (
            "<?xml version=\"1.0\"?><!--h--><r><i>x</i><q>",
            &["<a>", "</a>", "<b c='d'>", "</b>", "<e/>", "</q>", "<q>", "t", "<![CDATA[", "&amp", "<?p q?>", "<?", "<!--", "<!DOCTYPE a>", "</r>", "&x;"],
            "y</q><j/>z</r><?z?>",
        ),
        ctx.bound(4, 5),
        Reject,
    );
    explore(
        ctx,
        "structure-after",
        "the same after the end of the root element",
        ("<r>x</r>", &["<a>", "</a>", "<a/>", "t", " ", "<!--k-->", "<![CDATA[c]]>", "<?p q?>", "&lt;", "&#32;", "<!DOCTYPE a>", "<?xml version='1.0'?>", "<!--", "<", "\u{feff}", "\0"], ""),
        ctx.bound(4, 5),
        Reject,
    );
    explore(
        ctx,
        "structure-before",
        "the same before the root element",
        ("", &["</a>", "t", " ", "<!--k-->", "<![CDATA[c]]>", "<?p q?>", "&lt;", "<!DOCTYPE a>", "<?xml version='1.0'?>", "<!--", "<", "\u{feff}", "<a/>", "-->", "<!"], "<r/>"),
        ctx.bound(4, 5),
        Reject,
    );
    for (name, open, chars, close, q, t) in [
        ("tag-chars", "<a", &["b", "=", "'", "\"", " ", "/", ">", "<", "&", "x:", "1", "\n"][..], ">t</a>", 5, 6),
        ("tag-chars-nested", "<r><a", &["b", "=", "'", "\"", " ", "/", ">", "<", "c", "xmlns"][..], "/></r>", 5, 6),
        ("end-tag-chars", "<a><b></", &["a", "b", "A", " ", "=", "/", ">", "<", "\t", "é", "x:"][..], "></a>", 5, 6),
        ("content-chars", "<a>", &["]", ">", "-", "<", "/", "a", "é", "&", "lt", ";", "#", "x", "1", "?", "!", " "][..], "</a>", 5, 6),
        ("bang-chars", "<a><!", &["-", "[", "CDATA[", "]", ">", "cdata[", "DOCTYPE", " ", "a"][..], "]]>--></a>", 5, 6),
        ("pi-chars", "<a><?", &["p", "xml", " ", "?", ">", "<", "XML", "1", "-", "="][..], "?></a>", 5, 6),
        ("decl-chars", "<?xml", &[" version", "='1.0'", "=\"1.0\"", " ", " encoding", "='utf-8'", " standalone", "='yes'", "='maybe'", "?", ">", "=", "'"][..], "?><a/>", 5, 6),
        ("comment-chars", "<a><!--", &["-", ">", "<", "!", " ", "x", "\0"][..], "--></a>", 6, 7),
    ] {
        explore(ctx, name, "every string of these characters and parts in this place, that the reference rejects", (open, chars, close), ctx.bound(q, t), Reject);
    }
}

fn roots(ctx: &Ctx) {
    let fam = ctx.family("roots", "every sequence of up to n elements, comments, instructions and white space at the top level without exactly one element, and with text or CDATA there");
    let units = ["<a/>", "<a>t</a>", "<b c='d'></b>", "<!--k-->", "<?p?>", "\n", "<x:a xmlns:x='u'/>", "t", "&#32;", "<![CDATA[ ]]>", "&amp;", "\u{a0}"];
    for n in 0..=ctx.bound(4, 5) {
        ctx.par(gen::pow(units.len(), n), |i| {
            let d: String = gen::word(units.len(), n, i).into_iter().map(|t| units[t]).collect();
            check(ctx, &fam, "roots", &d, Reject);
        });
    }
    let fam = ctx.family("many-roots", "a document of every size up to the bound, followed by every other element");
    ctx.par(ctx.bound(300, 3000), |n| {
        for second in ["<b/>", "<a></a>", "\n<r>x</r>\n", "<!--c--><r/><?p?>", "</r>", "t", "<"] {
            check(ctx, &fam, "many-roots", &format!("<r>{}</r>{second}", "<a>x</a>".repeat(n)), Reject);
            check(ctx, &fam, "many-roots", &format!("<r/>{}{second}", "\n".repeat(n)), Reject);
            check(ctx, &fam, "many-roots", &format!("<r/>{}{second}", "<!--c-->".repeat(n)), Reject);
        }
    });
}

fn samples() -> Vec<String> {
    vec![
        "<?xml version=\"1.0\" encoding='utf-8'?>\n<!-- h --><!DOCTYPE r><r a='1' b=\"&lt;é\"><x:s xmlns:x='u' x:t='v'/>t&amp;&#65;<![CDATA[d<]]><?p q?><!--c--><s>\u{1f600}</s>\n</r>\n".into(),
        "<a><b><c><d>e</d></c></b></a>".into(),
        "<a b='c' d='e'><f g='h'/>&#x41;</a><!-- end -->".into(),
        "<r>".to_string() + &"<a b='c'>t</a>\n".repeat(20) + "</r>",
    ]
}

fn truncations(ctx: &Ctx) {
    let fam = ctx.family("prefixes", "every proper prefix (by byte) of sample documents and of all words of tokens up to the bound: an error, unless the root element is complete");
    if !fam.active() {
        return;
    }
    let one = |d: &str| {
        for i in 0..d.len() {
            let p = &d.as_bytes()[..i];
            match std::str::from_utf8(p) {
                Ok(s) => {
                    check(ctx, &fam, "prefixes", s, Reject);
                }
                Err(_) => fam.case(&format!("{} (cut after {i})", d.escape_debug()), || expect_error(p, "cut within a character")),
            }
        }
    };
    for d in samples() {
        one(&d);
    }
    let toks = ["<a>", "</a>", "<b c='d'>", "</b>", "<é/>", "t\u{1f600}", "<!--k-->", "<![CDATA[x]]>", "<?p q?>", "&#65;"];
    for n in 1..=ctx.bound(5, 6) {
        ctx.par(gen::pow(toks.len(), n), |i| {
            let d: String = format!("<r>{}</r>", gen::word(toks.len(), n, i).into_iter().map(|t| toks[t]).collect::<String>());
            if matches!(judge(&d), Verdict::Tree(_)) {
                one(&d);
            }
        });
    }
    // cut documents of every size
    let fam = ctx.family("cut-sizes", "a document cut within the root element, for every length up to the bound (beyond every usual buffer size)");
    let big = format!("<r>{}</r>", "<a b='c'>té</a>\n<!--x-->".repeat(ctx.bound(450, 4000)));
    ctx.par(big.len(), |i| {
        if big.is_char_boundary(i) {
            fam.case(&format!("the first {i} bytes"), || expect_error(&big.as_bytes()[..i], "cut off"));
        }
    });
}

fn edits(ctx: &Ctx) {
    let fam = ctx.family("edits", "every character of a hostile set inserted, substituted, every range of up to n deleted or doubled, at every offset of sample documents; those that the reference rejects");
    if !fam.active() {
        return;
    }
    for d in samples() {
        let cs: Vec<char> = d.chars().collect();
        ctx.par(cs.len() + 1, |i| {
            let put = |a: &[char], m: &str, b: &[char]| {
                let d: String = a.iter().copied().chain(m.chars()).chain(b.iter().copied()).collect();
                check(ctx, &fam, "edits", &d, Reject);
            };
            for m in ["<", ">", "/", "&", "'", "\"", "=", " ", "a", "-", "?", "!", "]", "[", ";", "#", ":", "\0", "\u{1}", "\u{fffe}", "1", "é", "x", "\u{feff}", "</a>", "<a>", "<a/>", "<!--", "-->", "]]>", "<?xml?>", "&x;"] {
                put(&cs[..i], m, &cs[i..]);
                if i < cs.len() {
                    put(&cs[..i], m, &cs[i + 1..]);
                }
            }
            for n in 1..=ctx.bound(8, 30) {
                if i + n <= cs.len() {
                    put(&cs[..i], "", &cs[i + n..]);
                    put(&cs[..i + n], "", &cs[i..]);
                }
            }
        });
    }
}

fn names(ctx: &Ctx) {
    let letters = ["a", "b", "A", "é", "1", "-", "x:"];
    let k = letters.len();
    let all: Vec<String> = (1..=3).flat_map(|n| (0..gen::pow(k, n)).map(move |i| gen::word(k, n, i).into_iter().map(|t| letters[t]).collect())).collect();
    let n = if ctx.thorough() { all.len() } else { k + k * k };
    sweep(ctx, "name-pairs", "every pair of start and end tag names of up to two (three) parts, at the root and nested", n * n * 2, Reject, |i| {
        let (a, b) = (&all[i / 2 / n], &all[i / 2 % n]);
        Some(if i % 2 == 0 { format!("<{a}>t</{b}>") } else { format!("<r><{a}>t</{b}></r>") })
    });
    let m = NAMES.len();
    sweep(ctx, "html-name-pairs", "every pair of HTML element names", m * m, Reject, |i| Some(format!("<r><{}>t</{}></r>", NAMES[i / m], NAMES[i % m])));
    // attributes
    let fam = ctx.family("duplicates", "two equal attributes at every pair of places of n attributes; other attributes, valueless, unquoted and undefined prefixes at every place");
    ctx.par(ctx.bound(24, 60), |n| {
        let n = n + 1;
        for i in 0..n {
            let list = |bad: &dyn Fn(usize) -> Option<String>| -> String { (0..n).map(|j| bad(j).unwrap_or_else(|| format!(" n{j}='{j}'"))).collect() };
            for j in 0..i {
                for v in ["x".to_string(), j.to_string()] {
                    let at = list(&|x| (x == i).then(|| format!(" n{j}='{v}'")));
                    check(ctx, &fam, "duplicates", &format!("<r{at}/>"), Reject);
                    check(ctx, &fam, "duplicates", &format!("<r><a{at}>t</a></r>"), Reject);
                }
            }
            for bad in [" b", " b=", " b=c", " b='c", " ='c'", " b='<'", " b='&'", " b='&x;'", "b='c'", " x:b='c'", " 1='c'", " b='c''", " b c='d'", " xmlns:x=''", " xmlns:xmlns='u'", " b=='c'", " b='c',", " :b='c'", " b:='c'", " <"] {
                let at = list(&|x| (x == i).then(|| bad.to_string()));
                check(ctx, &fam, "duplicates", &format!("<r{at}/>"), Reject);
                check(ctx, &fam, "duplicates", &format!("<r><a{at}>t</a></r>"), Reject);
            }
        }
    });
    for d in ["<a xmlns='u' xmlns='v'/>", "<a xmlns:x='u' xmlns:x='u'/>", "<a xmlns:x='u' xmlns:y='u' x:b='1' y:b='2'/>", "<a xmlns:x='http://www.w3.org/XML/1998/namespace'/>"] {
        check(ctx, &fam, "duplicates", d, Reject);
    }
}

fn characters(ctx: &Ctx) {
    let fam = ctx.family("characters", "every character that XML does not allow, and every one that a name does not, in every place; and whatever else the reference rejects");
    ctx.par(SCALARS.div_ceil(64), |b| {
        for i in b * 64..((b + 1) * 64).min(SCALARS) {
            let c = scalar(i);
            if !ctx.thorough() && is_char(c) && i > 0x3000 && i % 16 > 1 && i % 256 < 254 {
                continue;
            }
            for d in [
                format!("<r>x{c}</r>"),
                format!("<r a='{c}'/>"),
                format!("<r><!--{c}--></r>"),
                format!("<r><![CDATA[{c}]]></r>"),
                format!("<r><?p {c}?></r>"),
                format!("{c}<r/>"),
                format!("<r/>{c}"),
                format!("<{c}/>"),
                format!("<{c}></{c}>"),
                format!("<a{c}></a{c}>"),
                format!("<a></a{c}>"),
                format!("<r {c}='x'/>"),
                format!("<r a{c}='x'/>"),
                format!("<r a={c}x{c}/>"),
                format!("<r{c}a='x'/>"),
                format!("<r a='x'{c}/>"),
                format!("<r><?{c}?></r>"),
                format!("<r><?p{c}?></r>"),
                format!("<r>&{c};</r>"),
                format!("<r>&#{c};</r>"),
                format!("<r>&lt{c}</r>"),
            ] {
                check(ctx, &fam, "characters", &d, Reject);
            }
        }
    });
}

fn references(ctx: &Ctx) {
    let fam = ctx.family("numeric-references", "references to every number that is no character XML allows (surrogates, controls, too large), decimal and hexadecimal, in text and values; and with missing parts");
    ctx.par(0x1200, |b| {
        for n in b * 256..(b + 1) * 256 {
            if char::from_u32(n as u32).is_some_and(is_char) || (!ctx.thorough() && n > 0x11_0000 && n % 16 != 0) {
                continue;
            }
            for d in [format!("<r>&#{n};</r>"), format!("<r>x&#x{n:x};y</r>"), format!("<r a='&#x{n:X};'/>"), format!("<r><a b=\"v&#0{n};\"/></r>")] {
                check(ctx, &fam, "numeric-references", &d, Reject);
            }
        }
    });
    for d in ["4294967296", "4294967361", "18446744073709551681", "100000000000000000000000065", "x100000041", "x10000000000000041", "xx41", "-65", "+65", "6 5", "", "x", "x-41", "6a", "xG", "x+41"] {
        for doc in [format!("<r>&#{d};</r>"), format!("<r a='&#{d};'/>")] {
            check(ctx, &fam, "numeric-references", &doc, Reject);
        }
    }
    let letters: Vec<char> = ('a'..='z').chain('A'..='Z').chain(['1', '#', '.', ' ']).collect();
    let k = letters.len();
    let n = ctx.bound(3, 4);
    sweep(ctx, "entity-names", "every name of up to n letters as an entity, and every one of HTML: undefined but for the five", gen::pow(k, n) + gen::pow(k, 2) + k, Reject, |i| {
        let (l, i) = if i < gen::pow(k, n) { (n, i) } else if i < gen::pow(k, n) + gen::pow(k, 2) { (2, i - gen::pow(k, n)) } else { (1, i - gen::pow(k, n) - gen::pow(k, 2)) };
        let w: String = gen::word(k, l, i).into_iter().map(|t| letters[t]).collect();
        Some(if i % 2 == 0 { format!("<r>&{w};</r>") } else { format!("<r a='&{w};'/>") })
    });
    let fam = ctx.family("html-entities", "every named reference of HTML, in text, in values");
    for (name, _) in mc::charref::names() {
        let name = name.trim_end_matches(';');
        for d in [format!("<r>&{name};</r>"), format!("<r>&{name}</r>"), format!("<r a='&{name};'/>"), format!("<r a='&{name}'/>")] {
            check(ctx, &fam, "html-entities", &d, Reject);
        }
    }
}

fn bytes(ctx: &Ctx) {
    let fam = ctx.family("invalid-utf8", "every sequence of one and two bytes, and of three and four of a hostile subset, that is not UTF-8, in text, values, names and comments, and cut off by the end");
    if !fam.active() {
        return;
    }
    let one = |v: &[u8]| {
        if std::str::from_utf8(v).is_ok() {
            return;
        }
        for (a, b) in [("<r>", "</r>"), ("<r a='", "'/>"), ("<r><!--", "--></r>"), ("<r><a", "/></r>"), ("<?xml version='1.0' encoding='utf-8'?><r>x", "y</r>"), ("<r><![CDATA[", "]]></r>")] {
            let d = [a.as_bytes(), v, b.as_bytes()].concat();
            // what follows may not complete it
            if std::str::from_utf8(&d).is_err() {
                fam.case(&format!("{}", d.escape_ascii()), || expect_error(&d, "invalid UTF-8"));
            }
        }
        let d = [b"<r>x", v].concat();
        fam.case(&format!("{}", d.escape_ascii()), || expect_error(&d, "invalid UTF-8"));
    };
    ctx.par(256, |a| {
        one(&[a as u8]);
        for b in 0..=255 {
            one(&[a as u8, b]);
        }
    });
    let set: &[u8] = &[0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc3, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xfe, 0xff];
    for n in [3, 4] {
        ctx.par(gen::pow(set.len(), n), |i| {
            let v: Vec<u8> = gen::word(set.len(), n, i).into_iter().map(|t| set[t]).collect();
            one(&v);
        });
    }
    ctx.traces.fetch_add(1, Relaxed);
    // not what is declared
    let fam = ctx.family("encodings", "documents that are not in the encoding they declare, or declare an unknown one");
    for (d, what) in [
        (&b"<?xml version='1.0' encoding='us-ascii'?><r>\xe9</r>"[..], "not ASCII"),
        (b"<?xml version='1.0' encoding='us-ascii'?><r>\xc3\xa9</r>", "not ASCII"),
        (b"<?xml version='1.0' encoding='utf-16'?><r/>", "not UTF-16"),
        (b"<?xml version='1.0' encoding='nonsense'?><r/>", "unknown"),
        (b"\xff\xfe<\0r\0/\0>", "half a unit"),
        (b"\xfe\xff\0<\0r\0>\xd8\0\0<\0/\0r\0>", "lone surrogate"),
        (b"\xfe\xff\0<\0r\0>\xdc\0\0<\0/\0r\0>", "lone surrogate"),
    ] {
        fam.case(&d.escape_ascii().to_string(), || expect_error(d, what));
    }
}

fn sizes(ctx: &Ctx) {
    let fam = ctx.family("late-errors", "an error after well-formed content of every length up to the bound, at the end of the root, and in its middle");
    let bad = ["</b>", "<b>", "&x;", "<", "\u{1}", "<a b/>", "]]>", "<?xml?>", "<!x>", "<a b='1' b='1'/>", "<x:a/>", "&", "<a></A>", "<!--", "<![CDATA["];
    let sizes = gen::sizes(ctx.bound(9000, 70_000), ctx.bound(2_200_000, 1 << 24));
    ctx.par(sizes.len(), |j| {
        let n = sizes[sizes.len() - 1 - j];
        let b = bad[n % bad.len()];
        let pad = match n / bad.len() % 3 {
            0 => "x".repeat(n),
            1 => "<a/>".repeat(n / 4) + &"x".repeat(n % 4),
            _ => "é".repeat(n / 2) + &"x".repeat(n % 2),
        };
        fam.case(&format!("{n} bytes, then {b}"), || expect_error(format!("<r>{pad}{b}</r>").as_bytes(), b));
        fam.case(&format!("{n} bytes, then {b}, then more"), || expect_error(format!("<r>{pad}{b}<i>{pad}</i></r>").as_bytes(), b));
    });
    let fam = ctx.family("deep-errors", "an error at every depth up to the bound, and end tags that cross or lack there");
    let sizes = gen::sizes(ctx.bound(250, 700), ctx.bound(5000, 10_000));
    ctx.par(sizes.len(), |j| {
        let n = sizes[sizes.len() - 1 - j] + 1;
        for b in bad {
            check(ctx, &fam, "deep-errors", &format!("{}{b}{}", "<a>".repeat(n), "</a>".repeat(n)), Reject);
        }
        check(ctx, &fam, "deep-errors", &format!("{}x{}", "<a>".repeat(n), "</a>".repeat(n - 1)), Reject);
        check(ctx, &fam, "deep-errors", &format!("{}x{}", "<a>".repeat(n), "</a>".repeat(n + 1)), Reject);
        for i in 0..n.min(40) {
            let close: String = (0..n).map(|j| if i == j { "</b>" } else { "</a>" }).collect();
            check(ctx, &fam, "deep-errors", &format!("{}x{close}", "<a>".repeat(n)), Reject);
            let open: String = (0..n).map(|j| if i == j { "<b>" } else { "<a>" }).collect();
            check(ctx, &fam, "deep-errors", &format!("{open}x{}", "</a>".repeat(n)), Reject);
        }
    });
}

/// Any number of root elements but one.
fn root_counts(ctx: &Ctx) {
    let fam = ctx.family("root-counts", "every number of root elements but one up to 700 (thorough: 5000), and around powers of two and ten up to 270000 (1100000), alike, different, with comments and instructions between them");
    let sizes = gen::sizes(ctx.bound(700, 5000), ctx.bound(270_000, 1_100_000));
    ctx.par(sizes.len(), |j| {
        let n = sizes[sizes.len() - 1 - j];
        if n == 1 {
            return;
        }
        for u in ["<a/>", "<a>x</a>", "<a/>\n", "<a/><!--c-->", "<?p?><a b='c'/>"] {
            fam.case(&format!("{n} times {u}"), || expect_error(u.repeat(n).as_bytes(), u));
        }
        fam.case(&format!("{n} different ones"), || expect_error((0..n).map(|i| format!("<a{i}><b/></a{i}>")).collect::<String>().as_bytes(), "roots"));
    });
}

fn encoding_names(ctx: &Ctx) {
    let fam = ctx.family("encoding-names", "encoding names that are empty or beginnings of known ones");
    let mut lax = false;
    for e in ["", "u", "UTF", "utf-", "l", "us-asci"] {
        let d = format!("<?xml version='1.0' encoding='{e}'?><r/>");
        fam.case(&d, || match parse(d.as_bytes()) {
            Ok(_) => {
                lax = true;
                seen(true, "accepted")
            }
            Err(e) => seen(true, &e),
        });
    }
    if lax {
        ctx.finding("encoding-names", "encoding-name", "an empty or shortened encoding name is taken for UTF-8, e.g. <?xml version='1.0' encoding=''?><r/>");
    }
}

/// Document types with declarations; the reference does not judge these.
fn doctypes(ctx: &Ctx) {
    let fam = ctx.family("doctypes", "undefined, recursive and malformed entities, and declarations cut off or out of place");
    let bad = [
        "<!DOCTYPE r [<!ENTITY e 'v'>]><r>&f;</r>",
        "<!DOCTYPE r [<!ENTITY e 'v'>]><r a='&f;'/>",
        "<!DOCTYPE r [<!ENTITY e '&e;'>]><r>&e;</r>",
        "<!DOCTYPE r [<!ENTITY e '&f;'><!ENTITY f '&e;'>]><r>&e;</r>",
        "<!DOCTYPE r [<!ENTITY e '&f;'>]><r>&e;</r>",
        "<!DOCTYPE r [<!ENTITY e '&#0;'>]><r/>",
        "<!DOCTYPE r [<!ENTITY e 'v'>]><r>&e</r>",
        "<!DOCTYPE r [<!ENTITY e 'v'>]>&e;<r/>",
        "<!DOCTYPE r [<!ENTITY e '<a>'>]><r>&e;</r>",
        "<!DOCTYPE r [<!ENTITY e '<'>]><r>&e;</r>",
        "<!DOCTYPE r [<!ENTITY e 'v'>]",
        "<!DOCTYPE r [<!ENTITY e 'v'",
        "<!DOCTYPE r [<!ENTITY e 'v",
        "<!DOCTYPE r [",
        "<!DOCTYPE r [<!-- ",
        "<!DOCTYPE r [<!FOO x>]><r/>",
        "<!DOCTYPE r [<!ENTITY 1 'x'>]><r/>",
        "<!DOCTYPE r><!DOCTYPE r><r/>",
        "<r/><!DOCTYPE r>",
        "<r><!DOCTYPE r></r>",
        "<!DOCTYPE r>",
        "<!doctype r><r/>",
        "<!Doctype r><r/>",
    ];
    for d in bad {
        fam.case(d, || expect_error(d.as_bytes(), "document type"));
    }
    // an entity may not close what it did not open
    let mut lax = None;
    for d in ["<!DOCTYPE r [<!ENTITY e '</r>'>]><r>x&e;", "<!DOCTYPE r [<!ENTITY e '<a>'>]><r>&e;x</a></r>"] {
        fam.case(d, || match parse(d.as_bytes()) {
            Ok(_) => {
                lax = Some(d);
                seen(true, "accepted")
            }
            Err(e) => seen(true, &e),
        });
    }
    if let Some(d) = lax {
        ctx.finding("doctypes", "entity-nesting", &format!("an entity that opens or closes an element of the text around it is accepted, e.g. {d} (xml-rs reads an entity's text as if it stood there)"));
    }
}

fn main() {
    mc::runner::main("C10", "model_checking", run);
}
