//! Enumeration helpers.

/// Calls `f` with the index sequences of all words of length `len` over `k` letters that start with
/// `prefix` (depth-first, simplest first). `f` returns whether to extend the word further.
pub fn words(k: usize, max: usize, word: &mut Vec<usize>, f: &mut impl FnMut(&[usize]) -> bool) {
    if !f(word) || word.len() >= max {
        return;
    }
    for i in 0..k {
        word.push(i);
        words(k, max, word, f);
        word.pop();
    }
}

/// Number of words of length exactly `n` over `k` letters.
pub fn pow(k: usize, n: usize) -> usize {
    k.pow(n as u32)
}

/// The `i`-th word of length `n` over `k` letters.
pub fn word(k: usize, n: usize, mut i: usize) -> Vec<usize> {
    let mut w = vec![0; n];
    for x in w.iter_mut().rev() {
        *x = i % k;
        i /= k;
    }
    w
}

/// All ordered forests with exactly `n` nodes, as preorder depth sequences.
pub fn forests(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        let max = cur.last().map_or(0, |d| d + 1);
        for d in 0..=max {
            cur.push(d);
            go(n, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut out);
    out
}

/// Every number up to `all`, and up to `top` those around powers of two, powers of ten and some in
/// between, and around every number that stands in the code under test: what depends on a limit
/// shows on one side of it or the other.
pub fn sizes(all: usize, top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    let mut add = |n: usize| v.extend((n - 1..=n + 1).filter(|n| *n > all && *n <= top));
    for p in 1..40 {
        add(1 << p);
        add(3 << (p - 1));
    }
    for p in 0..12 {
        for k in [1, 2, 5] {
            add(k * 10usize.pow(p));
        }
    }
    for n in crate::lits::numbers() {
        if (1..=top).contains(n) {
            add(*n);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Every pair of two small sizes, and pairs around round ones: what depends on two limits at once.
pub fn grid(all: usize, top: usize, product: usize) -> Vec<(usize, usize)> {
    let mut v: Vec<usize> = (0..=all).collect();
    for n in [32, 40, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 10_000] {
        v.extend((n - 1..=n + 1).filter(|n| *n > all && *n <= top));
    }
    let mut out = vec![];
    for a in &v {
        out.extend(v.iter().filter(|b| a * *b <= product).map(|b| (*a, *b)));
    }
    // the largest first: they take longest
    out.sort_by_key(|(a, b)| std::cmp::Reverse(a * b + a + b));
    out
}

/// The number of forms of `two`.
pub const TWO: usize = 24;

/// A document of one root element that has `a` of one thing and `b` of another. Form 0 has several
/// attributes of a name; all others are well-formed XML, too.
pub fn two(f: usize, a: usize, b: usize) -> String {
    let deep = |a: usize, s: &str| format!("{}{s}{}", "<d>".repeat(a), "</d>".repeat(a));
    let attrs = |from: usize, n: usize| (from..from + n).map(|i| format!(" k{i}='{i}'")).collect::<String>();
    let x = |n: usize| "xyz w".chars().cycle().take(n).collect::<String>();
    let s = match f {
        0 => format!("<p{} same='1'{} same='2' z=''>t</p>", attrs(0, a), attrs(a, b)),
        1 => deep(a, &"<b>x</b>".repeat(b)),
        2 => format!("{}t{}", format!("<d>{}", "<b/>".repeat(b)).repeat(a), "</d>".repeat(a)),
        3 => format!("{}t{}", "<d>".repeat(a), format!("{}</d>", "x<!--c-->".repeat(b)).repeat(a)),
        4 => deep(a, &format!("<b{}>t</b>", attrs(0, b))),
        5 => format!("{}t{}", format!("<d{}>", attrs(0, b)).repeat(a), "</d>".repeat(a)),
        6 => deep(a, &format!("{}<b k='{}'/>", x(b), x(b))),
        7 => {
            let v = x(b);
            format!("<p{}>t</p>", (0..a).map(|i| format!(" k{i}='{v}'")).collect::<String>())
        }
        8 => format!("<g>{}</g>", "<i>x</i>".repeat(b)).repeat(a),
        9 => format!("<g{}/>", attrs(0, b)).repeat(a),
        10 => format!("<p{}>{}</p>", attrs(0, a), "&lt;é ".repeat(b)),
        11 => format!("<p k='{0}'>{0}</p>", format!("&amp;{}", x(b)).repeat(a)),
        12 => format!("{}<i>{}</i>", "<b/>".repeat(a), x(b)),
        13 => format!("{}<!--{}-->t", "<b/>".repeat(a), x(b)),
        14 => deep(a, &format!("<n{0}>t</n{0}>", "m".repeat(b))),
        15 => format!("{}t", format!("{}<!--c-->", x(b)).repeat(a)),
        16 => format!("<p{}>{}</p>", attrs(0, a), "<b>x</b>".repeat(b)),
        17 => format!("<p{}>{}</p>", attrs(0, a), x(b)),
        18 => format!("<p{}>{}</p>", attrs(0, a), deep(b, "t")),
        19 => format!("{}{}", deep(a, "t"), "<b>x</b>".repeat(b)),
        20 => format!("{}{}{}", deep(a, "t"), deep(b, "u"), deep(a, "v")),
        21 => format!("<p{}/>{}<b>u</b>", attrs(0, a), "<i k='v'/>".repeat(b)),
        22 => format!("{}<script>{}</script>", deep(a, "t"), x(b)),
        23 => format!("<p k='{}' l='{}'>t</p>", x(a), x(b)),
        _ => unreachable!(),
    };
    format!("<r>{s}</r>")
}

/// Documents that have every production, for `pumped`.
pub const PUMP_HTML: &[&str] = &[
    "<p a=\"b\" c='d' e=f g>x &amp; y<br/><b>z</b></p>",
    "<!DOCTYPE html><!-- c --><script s=t>r</script ><img u=v>&#65;",
    "<a><b c></b ><i/><STYLE/></a > t",
];
pub const PUMP_XML: &[&str] = &[
    "<?xml version=\"1.0\"?><r a=\"b\" c='d'>x &amp; y<s/><t>z</t></r>",
    "<!DOCTYPE r><!-- c --><n:r xmlns:n=\"u\"><![CDATA[q]]><?p i?>&#65;</n:r >\n",
];
const PUMP_UNITS: &[&str] = &[
    " ", "\n", "x", "é", "-", "/", "=", "\"", "'", "&amp;", "&", ">", "<", "!", "]", " k=v", "<b></b>", "<!--c-->", "<br/>", "</b>", "<b>",
];
pub const PUMP_RULE: &str = "every one of 21 units (white space, letters, punctuation, references, tags, comments, attributes) inserted n times at every place of documents that have every production, for n up to 12 and around powers of two and ten up to 4097 (thorough: 65537; end tags and start tags 257)";

/// The number of documents of `pumped`.
pub struct Pump {
    places: Vec<(usize, usize)>,
    docs: &'static [&'static str],
    sizes: Vec<usize>,
}
impl Pump {
    pub fn new(docs: &'static [&'static str], top: usize) -> Self {
        let mut sizes: Vec<usize> = (1..=12).collect();
        for n in [16, 20, 32, 50, 64, 100, 128, 200, 256, 512, 1000, 1024, 2048, 4096, 10_000, 16_384, 65_536] {
            sizes.extend([n - 1, n, n + 1].into_iter().filter(|n| *n <= top));
        }
        let places = docs.iter().enumerate().flat_map(|(k, d)| (0..=d.len()).map(move |i| (k, i))).collect();
        Pump { places, docs, sizes }
    }
    pub fn len(&self) -> usize {
        self.places.len() * PUMP_UNITS.len() * self.sizes.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn doc(&self, i: usize) -> Option<String> {
        let u = PUMP_UNITS[i % PUMP_UNITS.len()];
        let i = i / PUMP_UNITS.len();
        let (k, at) = self.places[i % self.places.len()];
        // the largest first: they take longest
        let n = self.sizes[self.sizes.len() - 1 - i / self.places.len()];
        if n > 257 && (u == "<b>" || u == "</b>") {
            return None;
        }
        let (a, b) = self.docs[k].split_at(at);
        Some([a, &u.repeat(n), b].concat())
    }
}

pub const LISTS_RULE: &str = "every pair of attribute lists over four names, each left out or with one of two values, on two elements, one after, in, or far from the other, and every triple over two names";

/// The number of documents of `lists`.
pub const LISTS: usize = 81 * 81 * 3 + 9 * 9 * 9 * 2;

/// A document with elements that have attributes; well-formed XML and conventional HTML.
pub fn lists(i: usize) -> String {
    let list = |mut c: usize, names: &[&str]| {
        let mut s = String::new();
        for n in names {
            if c % 3 > 0 {
                s += &format!(" {n}='{}'", c % 3);
            }
            c /= 3;
        }
        s
    };
    let four = |c| list(c, &["w", "x", "y", "z"]);
    if i < 81 * 81 * 3 {
        let (f, a, b) = (i % 3, four(i / 3 % 81), four(i / 3 / 81));
        return match f {
            0 => format!("<div><b{a}>t</b><b{b}>t</b></div>"),
            1 => format!("<div{a}><b{b}>t</b></div>"),
            _ => format!("<div><b{a}>t</b>{}<b{b}>t</b></div>", "<i>u</i>".repeat(20)),
        };
    }
    let i = i - 81 * 81 * 3;
    let two = |c| list(c % 9, &["x", "y"]);
    let (a, b, c) = (two(i / 2), two(i / 18), two(i / 162));
    if i % 2 == 0 {
        format!("<div><b{a}>t</b><b{b}>t</b><b{c}>t</b></div>")
    } else {
        format!("<div{a}><b{b}>t</b></div>").replace("</div>", &format!("<i{c}>t</i></div>"))
    }
}
