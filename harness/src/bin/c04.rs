//! C04: strict HTML decodes character references exactly as the HTML standard says.

use mc::{
    charref,
    engine::Ctx,
    gen,
    strictfam::{self, explore, sweep, Want::Tree},
    tree::T,
};

/// Contexts that decode (text and attribute values) ...
const ZONES: &[(&str, &str)] = &[
    ("", ""),
    ("<p>x", "</p>"),
    ("<p a=\"x", "\">t</p>"),
    ("<p a='", "'>t</p>"),
    ("<br a=x", ">"),
];
/// ... and those that do not.
const VERBATIM: &[(&str, &str)] = &[
    ("<!--", "-->"),
    ("<!doctype x", ">"),
    ("<script>x", "</script>"),
    ("<style>", "x</style>t"),
    ("<p n", "=1>t</p>"),
    ("<p n", ">t</p>"),
];

fn run(ctx: &Ctx) {
    reference_decoder(ctx);
    named(ctx);
    numbers(ctx);
    strings(ctx);
    positions(ctx);
    strictfam::two_sizes(ctx, Tree, &[10, 11, 15]);
    strictfam::pumped(ctx, Tree);
    strictfam::dictionary(ctx, Tree, &["<p>{0}x{1}</p>", "<!--{0}x{1}-->", "<p a=\"{0}x{1}\">t</p>", "<p a='{0}x{1}'>t</p>", "<p a={0}x{1}>t</p>", "<p>&{0};{1}</p>", "<p a=\"&{0}{1}\">t</p>", "<p>&amp{0}{1}</p>", "<p a='&amp{0}{1}'>t</p>", "<p>{0}&#65;{1}</p>", "{0}{1}", "<p>{0}<b>{1}</b></p>", "<p {0}=\"{1}\">t</p>", "<p {0}='{1}'>t</p>", "<p {0}={1}>t</p>", "<!--{0}{1}-->"]);
    strictfam::ascii(ctx, Tree, &[("<p>&", "</p>"), ("<p>&amp", "lt;</p>"), ("<p a=\"&", "\">t</p>"), ("<p a='&lt", "'>t</p>"), ("<p>&#6", "5;</p>")]);
}

/// The reference decoder against html5ever's tokenizer (both implement the standard): a disagreement
/// is an error of the machinery.
fn reference_decoder(ctx: &Ctx) {
    if ctx.replaying() {
        return;
    }
    let tokens = ["&", "#", "x", "amp", "not", "in", ";", "1", "=", " ", "copy", "g"];
    let mut n = 0u64;
    let mut bad = None;
    let mut docs = vec![];
    gen::words(tokens.len(), 4, &mut vec![], &mut |w| {
        docs.push(w.iter().map(|t| tokens[*t]).collect::<String>());
        true
    });
    docs.extend(charref::names().keys().flat_map(|k| {
        ["", "a", "=", ";", " "].into_iter().map(move |e| format!("&{k}{e}"))
    }));
    docs.extend((0..=0x11u32).flat_map(|p| (0..0x200u32).map(move |l| format!("&#{};", p * 0x10000 + l))));
    for d in docs {
        n += 1;
        let t = mc::dom::parse(&format!("<!DOCTYPE html><html><head></head><body><i a=\"{d}\">.{d}</i></body></html>")).unwrap();
        let T::El { kids, .. } = &t[1] else { unreachable!() };
        let T::El { kids, .. } = &kids[1] else { unreachable!() };
        let T::El { attrs, kids, .. } = &kids[0] else { unreachable!() };
        // the tokenizer drops NUL characters and normalizes carriage returns; none occur here
        if attrs["a"] != charref::decode(&d, true) || kids[0] != T::Text(charref::decode(&format!(".{d}"), false)) {
            bad = Some(d);
        }
    }
    if let Some(d) = bad {
        eprintln!("the reference decoder disagrees with html5ever on {d:?}");
        std::process::exit(3);
    }
    ctx.note(format!("the reference decoder agreed with html5ever's tokenizer on {n} strings, in text and attribute"));
}

fn named(ctx: &Ctx) {
    let names: Vec<&str> = charref::names().keys().copied().collect();
    let follow = ["", ";", "a", "Z", "1", "=", " ", "&", "é", ".", "#", ";;", "amp;"];
    let zones: Vec<_> = ZONES.iter().chain(VERBATIM).collect();
    let per = follow.len() * zones.len();
    sweep(
        ctx,
        "named",
        "each of the standard's named references x what follows it x where it stands (text, attribute values; comment, doctype, script, style, attribute names)",
        names.len() * per,
        Tree,
        |i| {
            let (n, i) = (names[i / per], i % per);
            let (a, b) = zones[i / follow.len()];
            Some(format!("{a}&{n}{}{b}", follow[i % follow.len()]))
        },
    );
    // near misses
    let mut near = std::collections::BTreeSet::new();
    for n in &names {
        let bare = n.trim_end_matches(';');
        for k in 0..=n.len() {
            near.insert(n[..k].to_string());
            near.insert(format!("{};", n[..k].trim_end_matches(';')));
        }
        near.insert(bare.to_uppercase() + ";");
        near.insert(bare.to_lowercase() + ";");
        near.insert(bare.to_lowercase());
        near.insert(format!("{bare}x;"));
        near.insert(format!("{bare}x"));
        near.insert(format!("{bare} ;"));
        near.insert(format!("x{n}"));
        near.insert(format!("&{n}"));
        near.insert(format!("{n}&{n}"));
        let mut c: Vec<char> = bare.chars().collect();
        let first = c[0];
        c[0] = if first.is_ascii_lowercase() { first.to_ascii_uppercase() } else { first.to_ascii_lowercase() };
        near.insert(c.iter().collect::<String>() + ";");
        c[0] = first;
        for k in 0..c.len().saturating_sub(1) {
            c.swap(k, k + 1);
            near.insert(c.iter().collect::<String>() + ";");
            c.swap(k, k + 1);
        }
    }
    let near: Vec<String> = near.into_iter().collect();
    sweep(
        ctx,
        "near-names",
        "every prefix of every name, its other letter cases, neighbours swapped, extensions, doublings",
        near.len() * ZONES.len(),
        Tree,
        |i| {
            let (a, b) = ZONES[i % ZONES.len()];
            let d = format!("{a}&{}{b}", near[i / ZONES.len()]);
            // whitespace ends an unquoted value
            (!(a == "<br a=x" && d.contains(" ;"))).then_some(d)
        },
    );
    let n = ctx.bound(3, 4);
    for n in 1..=n {
        let alpha: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').collect();
        let k = alpha.len();
        sweep(
            ctx,
            "all-short-names",
            "every alphanumeric word of at most n characters after '&', closed and not, in text and attribute",
            gen::pow(k, n) * 4,
            Tree,
            |i| {
                let w: String = gen::word(k, n, i / 4).into_iter().map(|c| alpha[c]).collect();
                Some(match i % 4 {
                    0 => format!("<p>&{w};</p>"),
                    1 => format!("<p>&{w}</p>"),
                    2 => format!("<p a='&{w};'>t</p>"),
                    _ => format!("<p a=&{w}>t</p>"),
                })
            },
        );
    }
    let runs = gen::sizes(300, ctx.bound(140_000, 1_100_000));
    sweep(
        ctx,
        "long-runs",
        "references followed by runs of letters and digits, and made of digits, of every length up to the bound",
        runs.len() * 12,
        Tree,
        |i| {
            let (n, f) = (runs[i / 12], i % 12);
            let run = "abc1".repeat(n / 4 + 1);
            let run = &run[..n];
            Some(match f {
                0 => format!("<p>&amp{run}</p>"),
                1 => format!("<p>&amp{run};</p>"),
                2 => format!("<p a='&amp{run}'>t</p>"),
                3 => format!("<p>&notin{run};&lt;</p>"),
                4 => format!("<p>&{run}&lt;</p>"),
                5 => format!("<p>&{run};&amp;</p>"),
                6 => format!("<p>&CounterClockwiseContourIntegral;{run}</p>"),
                7 => format!("<p>&#{}65;x</p>", "0".repeat(n)),
                8 => format!("<p>&#x{}41;x</p>", "0".repeat(n)),
                9 => format!("<p>&#1{};x</p>", "0".repeat(n)),
                10 => format!("<p a='&#X{}41&#X1{};'>t</p>", "0".repeat(n), "0".repeat(n)),
                _ => format!("<p a='&{run}&copy;'>t</p>"),
            })
        },
    );
}

fn numbers(ctx: &Ctx) {
    let max = 0x11_0200;
    let forms = 10;
    sweep(
        ctx,
        "numbers",
        "every number up to beyond the last code point, decimal and hexadecimal, closed and not, in text and attributes",
        max * forms,
        Tree,
        |i| {
            let (n, f) = (i / forms, i % forms);
            // quick: everything below 0x3000, the surrogates, and the borders of every 256
            if !ctx.thorough() && f > 1 && n > 0x3000 && !(0xd700..0xe100).contains(&n) && (n & 0xff) > 1 && (n & 0xff) < 0xfd {
                return None;
            }
            Some(match f {
                0 => format!("<p>&#{n};</p>"),
                1 => format!("<p>&#x{n:x};</p>"),
                2 => format!("<p>a&#X{n:X};b</p>"),
                3 => format!("<p>&#{n}</p>"),
                4 => format!("<p>&#{n} x</p>"),
                5 => format!("<p>&#x{n:x}g</p>"),
                6 => format!("<p a='&#{n};'>t</p>"),
                7 => format!("<p a=&#x{n:x}z>t</p>"),
                8 => format!("<p>&#000{n};&#x00{n:X};</p>"),
                _ => format!("<!--&#{n};--><script>&#{n};</script>"),
            })
        },
    );
    let mut big: Vec<String> = vec![];
    for p in 1..140u32 {
        // around powers of two and ten, as decimal strings
        let dec = pow_dec(2, p);
        big.push(dec.clone());
        big.push(add_dec(&dec, 1));
        big.push(add_dec(&dec, 65));
    }
    for p in 1..60 {
        big.push(format!("1{}", "0".repeat(p)));
        big.push("9".repeat(p));
        big.push("0".repeat(p) + "65");
        big.push("0".repeat(p));
    }
    sweep(
        ctx,
        "big-numbers",
        "numbers around every power of two up to 2^140, powers of ten, leading zeros, decimal and hexadecimal",
        big.len() * 4,
        Tree,
        |i| {
            let n = &big[i / 4];
            Some(match i % 4 {
                0 => format!("<p>&#{n};</p>"),
                1 => format!("<p>&#x{n};</p>"),
                2 => format!("<p a='&#{n}'>t</p>"),
                _ => format!("<p a='&#X{n}f;'>t</p>"),
            })
        },
    );
}

fn pow_dec(b: u32, p: u32) -> String {
    let mut d = vec![1u32];
    for _ in 0..p {
        let mut carry = 0;
        for x in &mut d {
            let v = *x * b + carry;
            *x = v % 10;
            carry = v / 10;
        }
        while carry > 0 {
            d.push(carry % 10);
            carry /= 10;
        }
    }
    d.iter().rev().map(|x| char::from_digit(*x, 10).unwrap()).collect()
}

fn add_dec(s: &str, n: u32) -> String {
    let mut carry = n;
    let mut d: Vec<u32> = s.chars().rev().map(|c| c.to_digit(10).unwrap()).collect();
    for x in &mut d {
        let v = *x + carry;
        *x = v % 10;
        carry = v / 10;
    }
    while carry > 0 {
        d.push(carry % 10);
        carry /= 10;
    }
    d.iter().rev().map(|x| char::from_digit(*x, 10).unwrap()).collect()
}

fn strings(ctx: &Ctx) {
    let tokens =
        ["&", "#", "x", "X", "amp", "lt", "not", "in", ";", "1", "0", "=", "a", " ", "é", "CO", "py"];
    for (name, frame) in [
        ("strings-text", ("<p>", "</p>")),
        ("strings-quoted", ("<p a=\"", "\">t</p>")),
        ("strings-script", ("<script>.", ".</script>")),
    ] {
        explore(
            ctx,
            name,
            "automaton over all words of parts of references",
            (frame.0, &tokens, frame.1),
            ctx.bound(5, 6),
            Tree,
        );
    }
    explore(
        ctx,
        "strings-unquoted",
        "automaton over all words of parts of references in an unquoted value",
        ("<br a=", &["&", "#", "x", "amp", "not", "in", ";", "65", "a", "1", "é"], ">"),
        ctx.bound(5, 6),
        Tree,
    );
    explore(
        ctx,
        "split-by-markup",
        "automaton over all words of parts of references and markup: a reference never spans markup",
        (
            "<p>",
            &["&", "am", "p", ";", "#", "65", "lt", "<br>", "<!--&amp;-->", "<i>", "</i>", "<b c='&lt;'>", "</b>"],
            "</p>",
        ),
        ctx.bound(6, 7),
        Tree,
    );
}

fn positions(ctx: &Ctx) {
    let refs = [
        "&amp;", "&lt;", "&amp", "&#65;", "&#x41;", "&notin;", "&noti", "&NotEqualTilde;", "&fjlig;", "&nosuch;", "&", "&;", "&#", "&#;",
        "&#x;", "&#x", "&nbsp;", "&copy=", "&#0;", "&#128;", "&#xd800;", "&AMP;", "&acE;", "&shy;", "&frac12", "&sup1;", "&there4;",
    ];
    let seps = ["", "x", ";", " ", "é", "&"];
    let (k, m) = (refs.len(), seps.len());
    sweep(
        ctx,
        "sequences",
        "every sequence of three references with every separator, in text and attribute",
        k * k * k * m * 2,
        Tree,
        |i| {
            let (f, i) = (i % 2, i / 2);
            let (s, i) = (seps[i % m], i / m);
            let (a, b, c) = (refs[i % k], refs[i / k % k], refs[i / k / k]);
            Some(if f == 0 { format!("<p>{a}{s}{b}{s}{c}</p>") } else { format!("<p q=\"{a}{s}{b}{s}{c}\">t</p>") })
        },
    );
    let max = gen::sizes(ctx.bound(1100, 4200), ctx.bound(1_100_000, 1 << 22));
    sweep(
        ctx,
        "offsets",
        "every offset of a reference in its text or value, and every number of references, up to the bound",
        max.len() * 5,
        Tree,
        |i| {
            let (n, f) = (max[i / 5], i % 5);
            let r = refs[n % k];
            Some(match f {
                0 => format!("<p>{}{r}z</p>", "x".repeat(n)),
                1 => format!("<p>{}{r}{}</p>", "é".repeat(n), "y".repeat(n)),
                2 => format!("<p a=\"{}{r}\">t</p>", "x y".repeat(n)),
                3 => format!("<p>{}</p>", r.repeat(n + 1)),
                _ => format!("<p a='{}'>t</p>", refs[i % 3].repeat(n)),
            })
        },
    );
}

fn main() {
    mc::runner::main("C04", "model_checking", run);
}
