//! Explorers for the strict HTML parser against the reference automaton.

use std::{
    collections::HashSet,
    sync::{
        atomic::{AtomicU64, Ordering::Relaxed},
        Mutex,
    },
};

use crate::{
    engine::{clip, seen, Ctx, Fam, Seen},
    model::{Model, Verdict},
    tree::{self, T},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Want {
    Tree,
    Reject,
    Both,
}

/// Compares what the parser does with the verdict. `None`: the property does not say.
pub fn judge(doc: &str, v: &Verdict, want: Want) -> Option<Result<Seen, String>> {
    match v {
        Verdict::DontCare => None,
        Verdict::Tree(t) if want != Want::Reject => Some(match tree::strict(doc) {
            Ok(got) if got == *t => seen(!t.is_empty(), &format!("{got:?}")),
            Ok(got) => Err(differ(&got, t)),
            Err(e) => Err(format!("well-formed document rejected: {e}\nexpected {}", show(t))),
        }),
        Verdict::Reject if want != Want::Tree => Some(match tree::strict(doc) {
            Err(e) => seen(true, &e),
            Ok(got) => Err(format!("malformed document accepted as {}", show(&got))),
        }),
        _ => None,
    }
}

pub fn show(t: &[T]) -> String {
    clip(&format!("{t:?}"), 600)
}

pub fn differ(got: &[T], want: &[T]) -> String {
    format!("got      {}\nexpected {}", show(got), show(want))
}

pub fn check(fam: &Fam, doc: &str, want: Want) {
    let mut m = Model::new();
    m.feed(doc);
    check_model(fam, doc, m, want);
}

fn check_model(fam: &Fam, doc: &str, m: Model, want: Want) {
    let v = m.finish();
    let relevant = match v {
        Verdict::DontCare => false,
        Verdict::Tree(_) => want != Want::Reject,
        Verdict::Reject => want != Want::Tree,
    };
    if relevant {
        fam.case(doc, || judge(doc, &v, want).expect("relevant"));
    }
}

pub struct Counter {
    states: Vec<Mutex<HashSet<u64>>>,
    transitions: AtomicU64,
    traces: AtomicU64,
}

impl Default for Counter {
    fn default() -> Self {
        Counter {
            states: (0..64).map(|_| Mutex::default()).collect(),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
        }
    }
}

impl Counter {
    pub fn state(&self, h: u64) {
        self.states[(h >> 7) as usize % 64].lock().unwrap().insert(h);
    }
    pub fn step(&self) {
        self.transitions.fetch_add(1, Relaxed);
    }
    pub fn trace(&self) {
        self.traces.fetch_add(1, Relaxed);
    }
    pub fn flush(&self, ctx: &Ctx) {
        let n: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        ctx.states.fetch_add(n as u64, Relaxed);
        ctx.transitions.fetch_add(self.transitions.load(Relaxed), Relaxed);
        ctx.traces.fetch_add(self.traces.load(Relaxed), Relaxed);
    }
}

/// Explores the automaton over all words of at most `len` tokens after `prefix` (each continued by
/// `suffix` before it is judged), and compares the parser's outcome in every state. Once a word is
/// rejected for good, it is tried with every single token after it, and not extended further.
pub fn explore(
    ctx: &Ctx,
    name: &str,
    rule: &str,
    (prefix, tokens, suffix): (&str, &[&str], &str),
    len: usize,
    want: Want,
) {
    let fam = ctx.family(name, rule);
    if !fam.active() {
        return;
    }
    let cnt = Counter::default();
    let mut base = Model::new();
    base.feed(prefix);
    let k = tokens.len();
    let split = len.min(3);
    let e = Explorer { fam: &fam, cnt: &cnt, tokens, suffix, want };
    // words shorter than the split
    {
        let mut doc = String::from(prefix);
        e.dfs(&mut doc, &base, split.saturating_sub(1));
    }
    if split > 0 {
        let n = k.pow(split as u32);
        ctx.par(n, |i| {
            let w = crate::gen::word(k, split, i);
            let mut doc = String::from(prefix);
            let mut m = base.clone();
            for t in &w[..split - 1] {
                if m.dead() {
                    return;
                }
                m.feed(tokens[*t]);
                doc += tokens[*t];
            }
            if m.dead() {
                return;
            }
            let t = w[split - 1];
            m.feed(tokens[t]);
            doc += tokens[t];
            cnt.step();
            e.dfs(&mut doc, &m, len - split);
        });
    }
    cnt.flush(ctx);
}

struct Explorer<'a> {
    fam: &'a Fam<'a>,
    cnt: &'a Counter,
    tokens: &'a [&'a str],
    suffix: &'a str,
    want: Want,
}

impl Explorer<'_> {
    fn visit(&self, doc: &str, m: &Model) {
        self.cnt.trace();
        if self.suffix.is_empty() {
            check_model(self.fam, doc, m.clone(), self.want);
        } else {
            let mut m = m.clone();
            m.feed(self.suffix);
            check_model(self.fam, &format!("{doc}{}", self.suffix), m, self.want);
        }
    }

    fn dfs(&self, doc: &mut String, m: &Model, left: usize) {
        self.cnt.state(m.control());
        self.visit(doc, m);
        if m.dead() {
            if m.rejected() && self.want != Want::Tree {
                let n = doc.len();
                for t in self.tokens {
                    *doc += t;
                    self.cnt.step();
                    self.visit(doc, m);
                    doc.truncate(n);
                }
            }
            return;
        }
        if left == 0 || !self.fam.active() {
            return;
        }
        let n = doc.len();
        for t in self.tokens {
            let mut next = m.clone();
            next.feed(t);
            *doc += t;
            self.cnt.step();
            self.dfs(doc, &next, left - 1);
            doc.truncate(n);
        }
    }
}

/// Judges the documents `doc(0)..doc(n-1)`.
pub fn sweep(
    ctx: &Ctx,
    name: &str,
    rule: &str,
    n: usize,
    want: Want,
    doc: impl Fn(usize) -> Option<String> + Sync,
) {
    let fam = ctx.family(name, rule);
    if !fam.active() {
        return;
    }
    let traces = AtomicU64::new(0);
    const CHUNK: usize = 64;
    let chunk = if n > 100_000 { CHUNK } else { 1 };
    ctx.par(n.div_ceil(chunk), |c| {
        for i in c * chunk..((c + 1) * chunk).min(n) {
            if let Some(d) = doc(i) {
                check(&fam, &d, want);
                traces.fetch_add(1, Relaxed);
            }
        }
    });
    ctx.traces.fetch_add(traces.load(Relaxed), Relaxed);
}

/// A document and the tree it was written from, judged against that tree; the automaton has to
/// agree, too, otherwise the machinery is wrong.
pub fn spelled(fam: &Fam, doc: &str, want: &[T]) {
    fam.case(doc, || {
        if let Verdict::Tree(t) = crate::model::verdict(doc) {
            if t != want {
                eprintln!("model disagrees with the generator on {doc:?}: {}", differ(&t, want));
                std::process::exit(3);
            }
        } else {
            eprintln!("model does not accept {doc:?}");
            std::process::exit(3);
        }
        match tree::strict(doc) {
            Ok(got) if got == want => seen(true, &format!("{got:?}")),
            Ok(got) => Err(differ(&got, want)),
            Err(e) => Err(format!("well-formed document rejected: {e}\nexpected {}", show(want))),
        }
    });
}

/// All Unicode scalar values, by index.
pub const SCALARS: usize = 0x11_0000 - 0x800;
pub fn scalar(i: usize) -> char {
    let i = i as u32;
    char::from_u32(if i < 0xd800 { i } else { i + 0x800 }).unwrap()
}

/// The names of HTML's elements, current and obsolete.
pub const NAMES: &[&str] = &[
    "a", "abbr", "acronym", "address", "applet", "area", "article", "aside", "audio", "b", "base",
    "basefont", "bdi", "bdo", "bgsound", "big", "blink", "blockquote", "body", "br", "button",
    "canvas", "caption", "center", "cite", "code", "col", "colgroup", "command", "content", "data",
    "datalist", "dd", "del", "details", "dfn", "dialog", "dir", "div", "dl", "dt", "element", "em",
    "embed", "fieldset", "figcaption", "figure", "font", "footer", "form", "frame", "frameset",
    "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "i", "iframe",
    "image", "img", "input", "ins", "isindex", "kbd", "keygen", "label", "legend", "li", "link",
    "listing", "main", "map", "mark", "marquee", "math", "menu", "menuitem", "meta", "meter",
    "multicol", "nav", "nextid", "nobr", "noembed", "noframes", "noscript", "object", "ol",
    "optgroup", "option", "output", "p", "param", "picture", "plaintext", "portal", "pre",
    "progress", "q", "rb", "rp", "rt", "rtc", "ruby", "s", "samp", "script", "search", "section",
    "select", "shadow", "slot", "small", "source", "spacer", "span", "strike", "strong", "style",
    "sub", "summary", "sup", "svg", "table", "tbody", "td", "template", "textarea", "tfoot", "th",
    "thead", "time", "title", "tr", "track", "tt", "u", "ul", "var", "video", "wbr", "xmp",
];

/// Writes the start and end of an element, with `inner` as its content where it can have one.
pub fn wrap(name: &str, inner: &str) -> String {
    if crate::model::is_void(name) {
        format!("<{name}>{inner}")
    } else if crate::model::is_raw(name) {
        format!("<{name}>x</{name}>{inner}")
    } else {
        format!("<{name}>{inner}</{name}>")
    }
}

/// Documents made of two strings out of the dictionary (`{0}`, `{1}`): constants that the code singles
/// out, and well-known ones.
pub fn dictionary(ctx: &Ctx, want: Want, templates: &[&str]) {
    let d = crate::lits::dictionary();
    let (k, t) = (d.len(), templates.len());
    let s = crate::lits::similar(ctx.bound(130, 600), ctx.bound(2500, 20_000));
    sweep(
        ctx,
        "similar-strings",
        "pairs of strings of every length up to 130 (thorough: 600) and around round numbers up to 2500 (20000) that differ in one letter, its case or its last byte, in the order of two letters, or in length by one, in every template; judged by the automaton",
        s.len() * t,
        want,
        |i| Some(templates[i % t].replace("{0}", &s[i / t].0).replace("{1}", &s[i / t].1)),
    );
    sweep(
        ctx,
        "dictionary",
        "every pair of strings out of a dictionary (the literals of the code under test, and well-known names, values and separators) in every template; judged by the automaton",
        k * k * t,
        want,
        |i| Some(templates[i % t].replace("{0}", &d[i / t / k]).replace("{1}", &d[i / t % k])),
    );
}

/// Every pair of ASCII characters, and every triple of special ones, between prefix and suffix.
pub fn ascii(ctx: &Ctx, want: Want, frames: &[(&str, &str)]) {
    let special: Vec<char> = ascii_special();
    let n = frames.len();
    sweep(
        ctx,
        "ascii-pairs",
        "every pair of ASCII characters in every place",
        128 * 128 * n,
        want,
        |i| {
            let (a, b) = frames[i % n];
            let (x, y) = ((i / n / 128) as u8 as char, (i / n % 128) as u8 as char);
            Some(format!("{a}{x}{y}{b}"))
        },
    );
    let k = special.len();
    let len = ctx.bound(3, 4);
    sweep(
        ctx,
        "special-strings",
        "every string of three (thorough: four) special characters (white space of every kind, controls, quotes, brackets, separators) in every place",
        crate::gen::pow(k, len) * n,
        want,
        |i| {
            let (a, b) = frames[i % n];
            let s: String = crate::gen::word(k, len, i / n).into_iter().map(|c| special[c]).collect();
            Some(format!("{a}{s}{b}"))
        },
    );
}

pub fn ascii_special() -> Vec<char> {
    "\0\t\n\x0b\x0c\r \u{a0}\u{feff}\u{2028}aAz19é<>/='\"&;#!?-[](){}.:\\`\u{7f}".chars().collect()
}

pub const TWO_RULE: &str = "every pair of sizes up to 20 (thorough: 40) and around round numbers up to 1024 (10000), as long as their product is at most 30000 (600000), in up to 24 documents with that many of two things (depth, siblings, attributes, lengths of texts, values and names, references, distance of two attributes of one name); judged by the reference";

/// What depends on two sizes at once.
pub fn two_sizes(ctx: &Ctx, want: Want, forms: &[usize]) {
    let grid = crate::gen::grid(ctx.bound(20, 40), ctx.bound(1025, 10_001), ctx.bound(30_000, 600_000));
    let rejects = want == Want::Reject;
    sweep(ctx, "two-sizes", TWO_RULE, grid.len() * forms.len(), want, |i| {
        let (f, (a, b)) = (forms[i % forms.len()], grid[i / forms.len()]);
        let d = crate::gen::two(f, a, b);
        Some(if rejects { spoil(d, a + b + f) } else { d })
    });
}

/// What depends on the length of anything at all.
pub fn pumped(ctx: &Ctx, want: Want) {
    let p = crate::gen::Pump::new(crate::gen::PUMP_HTML, ctx.bound(4097, 65_537));
    sweep(ctx, "pumped", crate::gen::PUMP_RULE, p.len(), want, |i| p.doc(i));
}

/// The attributes of several elements.
pub fn attribute_lists(ctx: &Ctx, want: Want) {
    sweep(ctx, "attribute-lists", crate::gen::LISTS_RULE, crate::gen::LISTS, want, |i| Some(crate::gen::lists(i)));
}

/// The document with one small error.
pub fn spoil(d: String, i: usize) -> String {
    let last = |c: &str| d.rfind(c).unwrap();
    match i % 6 {
        0 => d[..d.len() - 4].into(),
        1 => d[..d.len() - 1].into(),
        2 => format!("{}<q>{}", &d[..last("</")], &d[last("</")..]),
        3 => format!("{}</q>{}", &d[..last("</")], &d[last("</")..]),
        4 => d.replacen("<r>", "<r", 1),
        _ => {
            let at = d[..d.len() - 4].rfind("</").unwrap_or(d.len() - 4);
            format!("{}</q>{}", &d[..at], &d[at + d[at..].find('>').unwrap() + 1..])
        }
    }
}
