//! One feature configuration of the crate: prints a digest of each block of the corpus that its API can run.
//! `feat` prints `area block digest` lines; `feat AREA BLOCK` prints every case of that block.

use std::{borrow::Cow, collections::BTreeMap, fmt::Write};

#[allow(unused_imports)]
use soupy::{
    filter::{And, Attr, Filter, Or, Tag},
    Node, Pattern, Queryable, Soup,
};

/// Takes the cases of the blocks of an area.
struct Sink {
    only: Option<(String, usize)>,
    area: &'static str,
    block: usize,
    hash: u64,
    n: u64,
    buf: String,
}

impl Sink {
    fn area(&mut self, a: &'static str) {
        self.area = a;
        self.block = 0;
    }
    fn wants(&self) -> bool {
        self.only.as_ref().is_none_or(|(a, b)| a == self.area && *b == self.block)
    }
    /// One case: what it is, and what comes out.
    fn case(&mut self, what: impl FnOnce() -> String, out: impl FnOnce(&mut String)) {
        self.buf.clear();
        let mut b = std::mem::take(&mut self.buf);
        // a panic is an outcome like any other here
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| out(&mut b))).is_err() {
            b.push_str("PANIC");
        }
        if self.only.is_some() {
            println!("{}\t{b}", what().escape_debug());
        }
        for c in b.bytes() {
            self.hash = (self.hash ^ u64::from(c)).wrapping_mul(0x0100_0000_01b3);
        }
        self.hash = (self.hash ^ 0xff).wrapping_mul(0x0100_0000_01b3);
        self.n += 1;
        self.buf = b;
    }
    fn end(&mut self) {
        if self.only.is_none() {
            println!("{} {} {:016x} {}", self.area, self.block, self.hash, self.n);
        }
        self.hash = 0xcbf2_9ce4_8422_2325;
        self.n = 0;
        self.block += 1;
    }
}

// ---------------------------------------------------------------- what is looked at

/// Everything a soup tells about itself, by the API that exists in every configuration.
fn look<N>(s: &Soup<N>, o: &mut String)
where
    N: Node + Clone + std::fmt::Debug + PartialEq,
    N::Text: Ord + AsRef<str> + From<&'static str> + std::fmt::Display,
{
    for t in s.strict().all() {
        let _ = write!(o, "{:?} {:?};", *t, t.all_text());
    }
    let all: Vec<_> = s.iter().collect();
    let mut put = |it: &mut dyn Iterator<Item = &N>| {
        o.push('|');
        for x in it {
            let i = all.iter().position(|y| std::ptr::eq(&**y, x)).unwrap_or(usize::MAX);
            let _ = write!(o, "{i} ");
        }
    };
    macro_rules! q {
        ($q:expr) => {{
            let v: Vec<_> = $q.all().collect();
            put(&mut v.iter().map(|i| &**i));
        }};
    }
    q!(s.tag("a"));
    q!(s.tag(true));
    q!(s.tag("b").strict());
    q!(s.attr("x", "1"));
    q!(s.attr("x", true));
    q!(s.attr_name(true));
    q!(s.attr_name("x").tag("a"));
    q!(s.attr_value("1").recursive());
    q!(s.class("c"));
    q!(s.tag(false));
    q!(s.strict());
    q!(s.strict().recursive().tag("b"));
    for i in s {
        put(&mut std::iter::once(&*i));
    }
    // copies, and what is printed
    let q = s.strict();
    let (copy, c) = (q, s.clone());
    q!(Clone::clone(&q).recursive().tag("a"));
    q!(q.tag("a"));
    put(&mut s.tag("b").first().iter().map(|i| &**i));
    let _ = write!(o, "{:?} {:?} {:?}", copy, c, c.tag("a").first());
    let _ = write!(o, "{:?}", s.tag("a").first().map(|i| c.tag("a").first().map(|j| *i == *j)));
    for i in &all {
        let (d, k) = (i.descendants().count(), i.query());
        let _ = write!(o, "{d},{:?},{:?},{},", i.name().map(AsRef::as_ref), i.text().map(AsRef::as_ref), k.iter().count());
        let _ = write!(o, "{:?},{:?};", i.get("x").map(AsRef::as_ref), i.attrs().map(BTreeMap::len));
        let f = Or(And(Tag { tag: "a" }, Attr { name: "x", value: true }), Tag { tag: "b" });
        let _ = write!(o, "{}", f.matches(&**i));
    }
}

/// What only the nodes of HTML have.
#[cfg(any(feature = "c-strict", feature = "c-lenient"))]
fn look_html<S>(s: &Soup<soupy::parser::HTMLNode<S>>, o: &mut String) {
    for i in s.iter() {
        let mut twice = 0;
        for (a, b) in (&*i).into_iter().zip(i.iter()) {
            twice += usize::from(std::ptr::eq(a, b));
        }
        let _ = write!(o, "{} {twice} {};", i.iter().len(), i.iter().zip(i.children()).all(|(a, b)| std::ptr::eq(a, b)));
    }
}

/// What needs a text that can be made from any string slice.
fn look_owned<N>(s: &Soup<N>, o: &mut String)
where
    N: Node,
    N::Text: Ord + AsRef<str> + for<'a> From<&'a str>,
{
    let t = String::from("a");
    let _ = write!(
        o,
        "{} {} {} {}",
        s.tag(t.clone()).all().count(),
        s.tag(Cow::Borrowed(t.as_str())).all().count(),
        s.attr("x".to_string(), Cow::<str>::Owned("1".into())).all().count(),
        s.class("c".to_string()).all().count()
    );
}

#[cfg(feature = "c-regex")]
fn look_regex<N>(s: &Soup<N>, o: &mut String)
where
    N: Node,
    N::Text: Ord + AsRef<str> + From<&'static str>,
{
    thread_local!(static R: [regex::Regex; 4] = ["^a$", "[b-x]", "", "(?i)A|1"].map(|r| regex::Regex::new(r).unwrap()));
    R.with(|r| {
        for r in r {
            let _ = write!(
                o,
                "{} {} {} {};",
                s.tag(r.clone()).all().count(),
                s.attr(r.clone(), true).all().count(),
                s.attr_value(r.clone()).all().count(),
                s.class(r.clone()).strict().all().count()
            );
        }
    });
}

fn words(tokens: &[&str], max: usize, f: &mut dyn FnMut(usize, &str)) {
    // a block per first token
    fn go(tokens: &[&str], left: usize, block: usize, s: &mut String, f: &mut dyn FnMut(usize, &str)) {
        f(block, s);
        if left == 0 {
            return;
        }
        for t in tokens {
            let n = s.len();
            s.push_str(t);
            go(tokens, left - 1, block, s, f);
            s.truncate(n);
        }
    }
    let mut s = String::new();
    f(0, "");
    for (b, t) in tokens.iter().enumerate() {
        s.clear();
        s.push_str(t);
        go(tokens, max - 1, b, &mut s, f);
    }
}

/// Names of HTML elements, names of references, and the strings that stand in the code, as C21 passes them.
fn given(kind: usize) -> Vec<&'static str> {
    static W: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let w = W.get_or_init(|| std::env::var_os("FEAT_WORDS").map_or(String::new(), |p| std::fs::read_to_string(p).unwrap()));
    w.split('\u{2}').nth(kind).map_or(vec![], |l| l.split('\u{1}').collect())
}

/// What a soup says when asked for a word.
fn look_for<N>(s: &Soup<N>, w: &'static str, o: &mut String)
where
    N: Node,
    N::Text: Ord + AsRef<str> + From<&'static str>,
{
    let _ = write!(
        o,
        "{} {} {} {} {} {}",
        s.tag(w).all().count(),
        s.attr_name(w).all().count(),
        s.attr_value(w).all().count(),
        s.attr(w, w).all().count(),
        s.class(w).all().count(),
        s.tag(w).strict().first().is_some()
    );
    for i in s {
        let _ = write!(o, ",{:?}", i.get(w).map(AsRef::as_ref));
    }
}

/// What can be asked of a soup of any size; `digest` of what would be long.
fn look_large<N>(s: &Soup<N>, o: &mut String)
where
    N: Node + Clone,
    N::Text: Ord + AsRef<str> + From<&'static str> + std::fmt::Display,
{
    fn digest(b: &str) -> u64 {
        b.bytes().fold(0xcbf2_9ce4_8422_2325, |h, c| (h ^ u64::from(c)).wrapping_mul(0x0100_0000_01b3))
    }
    for i in s.strict().all() {
        let _ = write!(o, "{} {:x} ", i.descendants().count(), digest(&i.all_text()));
    }
    for i in s {
        let _ = write!(o, "{:?}", i.name().map(|n| digest(n.as_ref())));
        for (k, v) in i.attrs().into_iter().flatten() {
            let _ = write!(o, "{:x}={:x}", digest(k.as_ref()), digest(v.as_ref()));
        }
        let _ = write!(o, "{}", i.children().len());
    }
    let _ = write!(o, "{} {} {} {} ", s.tag("a").all().count(), s.tag("b").strict().all().count(), s.attr("x", "1").all().count(), s.class("c").all().count());
    let l = [s.tag("a").all().last(), s.tag("a").all().nth(1), s.tag("a").all().step_by(7).last(), s.iter().last(), s.iter().nth(100)];
    let _ = write!(o, "{:?} {:?}", l.map(|i| i.map(|i| i.children().len())), (s.tag("a").all().size_hint(), s.tag("a").all().skip(3).take(5).count()));
    let q = s.tag("a").first().map(|i| i.query());
    let _ = write!(o, "{:?}", q.map(|q| (q.iter().count(), q.tag("a").all().count())));
}

/// Each size up to 130, and those around round numbers.
fn sizes(top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=130).collect();
    for p in [200usize, 250, 255, 256, 257, 300, 400, 500, 511, 512, 513, 600, 700, 800, 900, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8192, 10_000] {
        v.push(p);
    }
    v.retain(|n| *n <= top);
    v
}

/// Documents of each size; `xml` has no end tags left out.
#[allow(dead_code)]
fn large(k: &mut Sink, area: &'static str, xml: bool, f: &mut dyn FnMut(&str, &mut String)) {
    k.area(area);
    let deep = if deep() { 5000 } else { 1025 };
    type Make = fn(usize) -> String;
    let makes: [(&str, Make, usize); 12] = [
        ("chain", |n| format!("{}y{}", "<a>".repeat(n + 1), "</a>".repeat(n + 1)), 130),
        ("children", |n| format!("<a>{}</a>", "<b/>".repeat(n)), deep),
        ("siblings", |n| format!("<a>{}</a>", "<b x='1'>y</b>".repeat(n)), deep),
        ("attributes", |n| format!("<a{}/>", (0..n).map(|i| format!(" x{i}='{i}'")).collect::<String>()), deep.min(2100)),
        ("name", |n| format!("<a{0}></a{0}>", "b".repeat(n)), deep),
        ("value", |n| format!("<a x='{}'></a>", "1".repeat(n)), 10_000),
        ("text", |n| format!("<a>{}</a>", "é ".repeat(n)), 10_000),
        ("references", |n| format!("<a x='{0}'>{0}</a>", "&lt;".repeat(n)), deep),
        ("comment", |n| format!("<a><!--{}--></a>", "c".repeat(n)), 10_000),
        ("classes", |n| format!("<a class='{} c'></a>", "d ".repeat(n)), 10_000),
        ("error", |n| format!("<a>{}<", "<b>y</b>".repeat(n)), deep),
        ("white", |n| format!("{0}<a{0} x{0}={0}'1'{0}>{0}</a{0}>{0}", " \n".repeat(n)), deep),
    ];
    for (name, make, top) in makes {
        for n in sizes(top) {
            if k.wants() {
                let d = make(n);
                k.case(|| format!("{name} {n}"), |o| f(&d, o));
            }
        }
        if xml && name == "chain" && k.wants() {
            let d = make(1000);
            k.case(|| format!("{name} 1000"), |o| f(&d, o));
        }
        k.end();
    }
}

/// Documents with each given name and string; XML where `xml`.
#[allow(dead_code)]
fn given_words(k: &mut Sink, area: &'static str, xml: bool, f: &mut dyn FnMut(&str, &'static str, &mut String)) {
    k.area(area);
    for kind in 0..3 {
        for w in given(kind) {
            if !k.wants() {
                continue;
            }
            let up = w.to_uppercase();
            let mut d = vec![
                format!("<{w}>y</{w}>"),
                format!("<{w} x='1'/>"),
                format!("<p><{w} {w}='{w}'><a>y</a></{w}></p>"),
                format!("<a {w}='1' x='{w}' class='{w} c'>{w}</a>"),
                format!("<a x='&{w};'>&{w};</a>"),
                format!("<a><!--{w}--></a>"),
                format!("<!DOCTYPE {w}><a/>"),
                w.to_string(),
            ];
            if xml {
                d.extend([
                    format!("<a><![CDATA[{w}]]></a>"),
                    format!("<a><?{w} {w}?></a>"),
                    format!("<{w}:a xmlns:{w}='{w}' {w}:x='1'/>"),
                    format!("<?xml version='1.0' encoding='{w}'?><a/>"),
                ]);
            } else {
                d.extend([
                    format!("<{w}>y"),
                    format!("<{up} {up}=1 {w}>y</{up}>"),
                    format!("<{w}>&lt;<!--c--><b></{w}></b>z"),
                    format!("<a x={w} y=\"{w}\">&{w}</a>"),
                    format!("</{w}>"),
                    format!("<!{w}>y"),
                ]);
            }
            for d in d {
                k.case(|| d.clone(), |o| f(&d, w, o));
            }
        }
        k.end();
    }
    // one name in another
    if deep() {
        for u in given(0) {
            if k.wants() {
                for w in given(0) {
                    let d = format!("<{u}>y<{w}>z</{w}></{u}>");
                    k.case(|| d.clone(), |o| f(&d, w, o));
                }
            }
        }
        k.end();
    }
}

/// Runs an area over words, a block per first token, and over all code points, a block per 65536.
#[allow(dead_code)]
fn documents(k: &mut Sink, area: &'static str, tokens: &[&str], max: usize, f: &mut dyn FnMut(&str, &mut String)) {
    k.area(area);
    let mut at = 0;
    words(tokens, max, &mut |b, w| {
        if b != at {
            k.end();
            at = b;
        }
        if k.wants() {
            k.case(|| w.to_string(), |o| f(w, o));
        }
    });
    k.end();
    let mut s = String::new();
    for c in '\0'..=char::MAX {
        // all of them, or those below U+0600 and the first and last of each 256
        if k.wants() && (deep() || (c as u32) < 0x600 || matches!(c as u32 & 0xff, 0 | 0xff)) {
            s.clear();
            let _ = write!(s, "<a x=\"{c}\">{c}</a>");
            k.case(|| s.clone(), |o| f(&s, o));
            if (c as u32) < 0x300 {
                for t in [format!("{c}"), format!("<{c}>"), format!("<a{c}x='1'/>"), format!("<a x{c}=1></a>"), format!("&{c};"), format!("<!{c}>")] {
                    k.case(|| t.clone(), |o| f(&t, o));
                }
            }
        }
        if c as u32 & 0xffff == 0xffff {
            k.end();
        }
    }
    k.end();
}

/// Set for the thorough tier.
fn deep() -> bool {
    std::env::var_os("FEAT_DEEP").is_some()
}
/// Length of the words.
#[allow(dead_code)]
fn depth() -> usize {
    if deep() { 4 } else { 3 }
}

#[allow(dead_code)]
const HTML: [&str; 18] = [
    "<a>", "</a>", "<b x=1>", "</b>", "<br>", "<BR/>", " ", "y", "&amp;", "&#65", "<!--c-->", "<!DOCTYPE html>", "<script>", "</script>", "<a class='c' x=\"&lt;\">",
    "<col", ">", "<p/>",
];
#[allow(dead_code)]
const XML: [&str; 16] = [
    "<a>", "</a>", "<b x='1'>", "</b>", "<a/>", " ", "y", "&amp;", "&#65;", "<!--c-->", "<?p q?>", "<![CDATA[<]]>", "<u:b xmlns:u='n' u:x='1'/>", "<a class='c'",
    ">", "<?xml version='1.0'?>",
];

#[cfg(feature = "c-strict")]
fn strict(k: &mut Sink) {
    // the soups borrow the document, and are gone before it is
    fn forever(d: &str) -> &'static str {
        unsafe { std::mem::transmute(d) }
    }
    fn run(d: &str, o: &mut String) {
        let d = forever(d);
        match Soup::html_strict(d) {
            Ok(s) => {
                look(&s, o);
                look_html(&s, o);
            }
            Err(e) => {
                let _ = write!(o, "{e:?} {e}");
            }
        }
        match Soup::new::<soupy::parser::StrictHTMLParser>(d) {
            Ok(s) => {
                let _ = write!(o, "{}", s.iter().count());
            }
            Err(_) => o.push('-'),
        }
    }
    documents(k, "html-strict", &HTML, depth(), &mut run);
    given_words(k, "html-strict/words", false, &mut |d, w, o| match Soup::html_strict(forever(d)) {
        Ok(s) => {
            look(&s, o);
            look_for(&s, w, o);
        }
        Err(e) => {
            let _ = write!(o, "{e:?} {e}");
        }
    });
    large(k, "html-strict/sizes", false, &mut |d, o| match Soup::html_strict(forever(d)) {
        Ok(s) => look_large(&s, o),
        Err(e) => {
            let _ = write!(o, "{e}");
        }
    });
    // every two-letter name, every number, names of references
    k.area("html-strict/references");
    for n in (0..0x400).chain([0xd7ff, 0xd800, 0xfffd, 0x10ffff, 0x0011_0000]) {
        let d = format!("&#{n};&#x{n:x};<a x='&#{n}' y=&#x{n:X};></a>");
        if k.wants() {
            k.case(|| d.clone(), |o| run(&d, o));
        }
    }
    k.end();
    for a in 'a'..='z' {
        if k.wants() {
            for b in ('a'..='z').chain('A'..='Z') {
                for c in ["", "t", "p", "cy", "ot", "elta"] {
                    let d = format!("&{a}{b}{c}; &{a}{b}{c} <{a}{b}{c}>&lt</{a}{b}{c}><{a}{b}{c}>");
                    k.case(|| d.clone(), |o| run(&d, o));
                }
            }
        }
        k.end();
    }
    #[cfg(feature = "c-regex")]
    documents(k, "html-strict+regex", &HTML, depth() - 1, &mut |d, o| match Soup::html_strict(forever(d)) {
        Ok(s) => look_regex(&s, o),
        Err(_) => o.push('-'),
    });
}

#[cfg(feature = "c-lenient")]
fn lenient(k: &mut Sink) {
    documents(k, "html-lenient", &HTML, depth() - 1, &mut |d, o| {
        let s = Soup::html(d);
        look(&s, o);
        look_html(&s, o);
        look_owned(&s, o);
        let t = Soup::new::<soupy::parser::LenientHTMLParser<String>>(d.to_string());
        let _ = write!(o, "{}", t.is_ok_and(|t| t.iter().count() == s.iter().count()));
    });
    given_words(k, "html-lenient/words", false, &mut |d, w, o| {
        let s = Soup::html(d);
        look(&s, o);
        look_for(&s, w, o);
    });
    large(k, "html-lenient/sizes", false, &mut |d, o| look_large(&Soup::html(d), o));
    #[cfg(feature = "c-regex")]
    documents(k, "html-lenient+regex", &HTML, depth() - 2, &mut |d, o| look_regex(&Soup::html(d), o));
}

#[cfg(feature = "c-xml")]
fn xml(k: &mut Sink) {
    documents(k, "xml", &XML, depth() + 1, &mut |d, o| match Soup::xml(d.as_bytes()) {
        Ok(s) => {
            look(&s, o);
            look_owned(&s, o);
        }
        Err(e) => {
            let _ = write!(o, "{e}");
        }
    });
    given_words(k, "xml/words", true, &mut |d, w, o| match Soup::xml(d.as_bytes()) {
        Ok(s) => {
            look(&s, o);
            look_for(&s, w, o);
        }
        Err(e) => {
            let _ = write!(o, "{e} {e:?}");
        }
    });
    large(k, "xml/sizes", true, &mut |d, o| match Soup::xml(d.as_bytes()) {
        Ok(s) => look_large(&s, o),
        Err(e) => {
            let _ = write!(o, "{e} {e:?}");
        }
    });
    // readers that give a byte at a time, fail, are interrupted, or do not hold UTF-8
    struct Bytes<'a>(&'a [u8], usize, bool);
    impl std::io::Read for Bytes<'_> {
        fn read(&mut self, to: &mut [u8]) -> std::io::Result<usize> {
            use std::io::ErrorKind::{Interrupted, Other};
            if to.is_empty() {
                return Ok(0);
            }
            self.2 = !self.2;
            if self.2 {
                return Err(Interrupted.into());
            }
            if self.1 == 0 {
                return Err(std::io::Error::new(Other, "broken"));
            }
            self.1 -= 1;
            match self.0.split_first() {
                Some((a, b)) => {
                    to[0] = *a;
                    self.0 = b;
                    Ok(1)
                }
                None => Ok(0),
            }
        }
    }
    k.area("xml/readers");
    for d in ["<a x='1'>y<b/>é</a>", "<?xml version='1.0' encoding='UTF-8'?>\n<a>&lt;<![CDATA[<]]><?p q?><!--c--></a>\n", "\u{feff}<u:a xmlns:u='n'/>", "<a><b></a>", ""] {
        if k.wants() {
            for n in 0..d.len() + 2 {
                for (what, at, end) in [("broken", n, d.len()), ("short", usize::MAX, n)] {
                    k.case(|| format!("{what} {n} {d}"), |o| match Soup::xml(Bytes(&d.as_bytes()[..end.min(d.len())], at, false)) {
                        Ok(s) => look(&s, o),
                        Err(e) => {
                            let _ = write!(o, "{e} {e:?}");
                        }
                    });
                }
                for b in [0u8, 0x80, 0xc3, 0xf5, 0xff] {
                    let mut v = d.as_bytes().to_vec();
                    v.insert(n.min(d.len()), b);
                    k.case(|| format!("byte {b:x} at {n} of {d}"), |o| match Soup::xml(&v[..]) {
                        Ok(s) => look(&s, o),
                        Err(e) => {
                            let _ = write!(o, "{e} {e:?}");
                        }
                    });
                }
            }
        }
        k.end();
    }
    #[cfg(feature = "c-regex")]
    documents(k, "xml+regex", &XML, depth() - 1, &mut |d, o| match Soup::xml(std::io::Cursor::new(d)) {
        Ok(s) => look_regex(&s, o),
        Err(_) => o.push('-'),
    });
    k.area("xml/nodes");
    forests(k, &mut |shape, lab, o| {
        use soupy::parser::{XMLElement, XMLNode};
        let mut mk = |l: usize, kids: Vec<XMLNode>| match l {
            4 => XMLNode::Text("a".into()),
            5 => XMLNode::Comment("b".into()),
            6 => XMLNode::CData("a".into()),
            7 => XMLNode::ProcessingInstruction("a".into(), None),
            l => XMLNode::Element(XMLElement { name: label(l).0.into(), attributes: label(l).1, children: kids, ..XMLElement::default() }),
        };
        let s = Soup::new::<Given<XMLNode>>(build(shape, lab, &mut mk)).unwrap();
        look(&s, o);
        look_owned(&s, o);
    });
}

#[cfg(any(feature = "c-strict", feature = "c-lenient"))]
fn html_nodes(k: &mut Sink) {
    use soupy::parser::HTMLNode;
    fn mk<S: Ord + for<'a> From<&'a str>>(l: usize, kids: Vec<HTMLNode<S>>) -> HTMLNode<S> {
        let (n, m) = label(l);
        let (name, attrs) = (S::from(n), m.iter().map(|(a, b)| (S::from(a.as_str()), S::from(b.as_str()))).collect());
        match l {
            4 => HTMLNode::Text(S::from("a")),
            5 => HTMLNode::Comment(S::from("b")),
            6 => HTMLNode::Void { name, attrs },
            7 => HTMLNode::RawElement { name, attrs, content: S::from("a") },
            _ => HTMLNode::Element { name, attrs, children: kids },
        }
    }
    k.area("html/nodes");
    forests(k, &mut |shape, lab, o| {
        let s = Soup::new::<Given<HTMLNode<String>>>(build(shape, lab, &mut mk)).unwrap();
        look(&s, o);
        look_owned(&s, o);
    });
    k.area("html/nodes+cow");
    forests(k, &mut |shape, lab, o| {
        let mut mk = |l: usize, kids: Vec<HTMLNode<Cow<'static, str>>>| match l {
            4 => HTMLNode::Text("a".into()),
            5 => HTMLNode::Doctype("b".into()),
            l => HTMLNode::Element { name: label(l).0.into(), attrs: label(l).1.into_iter().map(|(a, b)| (a.into(), b.into())).collect(), children: kids },
        };
        look(&Soup::new::<Given<HTMLNode<Cow<'static, str>>>>(build(shape, lab, &mut mk)).unwrap(), o);
    });
}

// ---------------------------------------------------------------- user nodes

#[derive(Clone, Debug, PartialEq)]
struct Own {
    name: Option<String>,
    text: Option<String>,
    attrs: Option<BTreeMap<String, String>>,
    kids: Vec<Own>,
}
impl Node for Own {
    type Text = String;
    fn name(&self) -> Option<&String> {
        self.name.as_ref()
    }
    fn text(&self) -> Option<&String> {
        self.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        self.attrs.as_ref()
    }
    fn children(&self) -> &[Self] {
        &self.kids
    }
}
struct Given<N>(N);
impl<N: Node> soupy::parser::Parser for Given<N> {
    type Input = Vec<N>;
    type Node = N;
    type Error = String;
    fn parse(v: Vec<N>) -> Result<Vec<N>, String> {
        Ok(v)
    }
}
/// The name and attributes of a label; 4 and 5 are no elements, 6 and 7 have no children.
fn label(l: usize) -> (&'static str, BTreeMap<String, String>) {
    let m = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    match l {
        0 => ("a", m(&[])),
        1 => ("b", m(&[])),
        2 => ("a", m(&[("x", "1")])),
        3 => ("b", m(&[("class", "c"), ("x", "2")])),
        6 => ("a", m(&[("x", "1")])),
        _ => ("b", m(&[("class", "x")])),
    }
}

fn build<N>(shape: &[usize], lab: &[usize], mk: &mut dyn FnMut(usize, Vec<N>) -> N) -> Vec<N> {
    fn level<N>(shape: &[usize], lab: &[usize], i: &mut usize, d: usize, mk: &mut dyn FnMut(usize, Vec<N>) -> N) -> Vec<N> {
        let mut out = vec![];
        while *i < shape.len() && shape[*i] == d {
            let l = lab[*i];
            *i += 1;
            let k = level(shape, lab, i, d + 1, mk);
            out.push(mk(l, k));
        }
        out
    }
    level(shape, lab, &mut 0, 0, mk)
}

/// Every forest of up to 3 (deep: 4) nodes, those with children having one of four labels; a block per shape.
fn forests(k: &mut Sink, f: &mut dyn FnMut(&[usize], &[usize], &mut String)) {
    fn shapes(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for d in 0..=cur.last().map_or(0, |d| d + 1) {
            cur.push(d);
            shapes(n, cur, out);
            cur.pop();
        }
    }
    for n in 0..=if deep() { 4 } else { 3 } {
        let mut all = vec![];
        shapes(n, &mut vec![], &mut all);
        for s in all {
            if k.wants() {
                let ks: Vec<usize> = (0..n).map(|i| if s.get(i + 1).is_some_and(|d| *d > s[i]) { 4 } else { 8 }).collect();
                for mut c in 0..ks.iter().product() {
                    let lab: Vec<usize> = ks
                        .iter()
                        .map(|m| {
                            let r = c % m;
                            c /= m;
                            r
                        })
                        .collect();
                    k.case(|| format!("{s:?} {lab:?}"), |o| f(&s, &lab, o));
                }
            }
            k.end();
        }
    }
}

fn user(k: &mut Sink) {
    let mut mk = |l: usize, kids: Vec<Own>| {
        let (n, m) = label(l);
        match l {
            4 | 5 => Own { name: None, text: (l == 4).then(|| "a".into()), attrs: None, kids },
            _ => Own { name: Some(n.into()), text: None, attrs: Some(m), kids },
        }
    };
    k.area("user");
    forests(k, &mut |shape, lab, o| {
        let s = Soup::new::<Given<Own>>(build(shape, lab, &mut mk)).unwrap();
        look(&s, o);
        look_owned(&s, o);
    });
    // chains, rows and combs of each size
    k.area("user/sizes");
    for kind in 0..4 {
        for n in sizes([2049, 10_000, 1025, 2049][kind]) {
            if !k.wants() {
                continue;
            }
            let leaf = |l: usize| mk(l % 8, vec![]);
            let mut leaf = leaf;
            let v = match kind {
                0 => {
                    let mut v = vec![leaf(4)];
                    for i in 0..n {
                        let (n, m) = label(i % 4);
                        v = vec![Own { name: Some(n.into()), text: None, attrs: Some(m), kids: v }];
                    }
                    v
                }
                1 => (0..n).map(leaf).collect(),
                2 => (0..n).map(|i| Own { kids: (0..i % 5).map(&mut leaf).collect(), ..mk(i % 4, vec![]) }).collect(),
                _ => vec![Own {
                    name: Some("a".into()),
                    text: None,
                    attrs: Some((0..n).map(|i| (format!("x{i}"), format!("{i}"))).collect()),
                    kids: vec![],
                }],
            };
            let s = Soup::new::<Given<Own>>(v).unwrap();
            k.case(|| format!("{kind} {n}"), |o| look_large(&s, o));
        }
        k.end();
    }
    k.area("user/words");
    for kind in 0..3 {
        for w in given(kind) {
            if k.wants() {
                let m = |a: &str, b: &str| Some(BTreeMap::from([(a.to_string(), b.to_string())]));
                let kids = vec![
                    Own { name: Some("b".into()), text: Some(w.into()), attrs: m("x", w), kids: vec![] },
                    Own { name: Some(w.to_uppercase()), text: Some("y".into()), attrs: m("class", &format!("c {w}")), kids: vec![] },
                ];
                let s = Soup::new::<Given<Own>>(vec![Own { name: Some(w.into()), text: None, attrs: m(w, w), kids }]).unwrap();
                k.case(|| w.to_string(), |o| {
                    look(&s, o);
                    look_for(&s, w, o);
                });
            }
        }
        k.end();
    }
    #[cfg(feature = "c-regex")]
    {
        k.area("user+regex");
        forests(k, &mut |shape, lab, o| look_regex(&Soup::new::<Given<Own>>(build(shape, lab, &mut mk)).unwrap(), o));
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let only = a.get(2).map(|b| (a[1].clone(), b.parse().unwrap()));
    let mut k = Sink { only, area: "", block: 0, hash: 0xcbf2_9ce4_8422_2325, n: 0, buf: String::new() };
    user(&mut k);
    #[cfg(any(feature = "c-strict", feature = "c-lenient"))]
    html_nodes(&mut k);
    #[cfg(feature = "c-strict")]
    strict(&mut k);
    #[cfg(feature = "c-lenient")]
    lenient(&mut k);
    #[cfg(feature = "c-xml")]
    xml(&mut k);
}
