//! C15: every kind of pattern matches by its definition, wherever it is used.

use std::{borrow::Cow, collections::BTreeSet, rc::Rc, sync::atomic::Ordering::Relaxed, sync::Arc};

use mc::{
    engine::{fnv, seen, Ctx, Fam},
    gen,
    qmodel::*,
    tree::T,
};
use soupy::{Pattern, Queryable, Soup};

const LETTERS: [&str; 7] = ["a", "A", "b", "é", " ", "e\u{301}", "\0"];

fn all_words(letters: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![];
    gen::words(letters.len(), max, &mut vec![], &mut |w| {
        out.push(w.iter().map(|i| letters[*i]).collect());
        true
    });
    out
}

/// Whether the pattern matches, and whether its shortcut (if it offers one) is its own text.
fn one<S: AsRef<str>, X: Pattern<S>>(x: &X, p: &str, hay: &S, what: &str) -> Result<bool, String> {
    let got = x.matches(hay);
    if got != (p.as_bytes() == hay.as_ref().as_bytes()) {
        return Err(format!("{what} {p:?} matches {:?}: {got}", hay.as_ref()));
    }
    if let Some(v) = x.value() {
        if v.as_ref() != p {
            return Err(format!("{what} {p:?} offers {:?} as its exact value", v.as_ref()));
        }
    }
    Ok(got)
}

/// All string patterns with the text `p` on text of type `S`.
fn strings<S>(p: &str, hay: &str) -> Result<bool, String>
where
    S: Txt + for<'a> From<&'a str>,
{
    let h = S::mk(hay);
    let mut r = vec![
        one(&p, p, &h, "&str")?,
        one(&p.to_string(), p, &h, "String")?,
        one(&Cow::Borrowed(p), p, &h, "Cow::Borrowed")?,
        one(&Cow::<str>::Owned(p.to_string()), p, &h, "Cow::Owned")?,
    ];
    bools(&h)?;
    r.dedup();
    if r.len() > 1 {
        return Err("the string patterns differ".into());
    }
    Ok(r[0])
}

fn bools<S: AsRef<str>>(h: &S) -> Result<(), String> {
    if !Pattern::<S>::matches(&true, h) || Pattern::<S>::matches(&false, h) {
        return Err(format!("a bool pattern on {:?}", h.as_ref()));
    }
    Ok(())
}

fn statics<S: AsRef<str> + From<&'static str>>(p: &'static str, h: &'static str) -> Result<bool, String> {
    let h: S = h.into();
    bools(&h)?;
    one(&p, p, &h, "&str")
}

fn every_type(p: &str, hay: &str) -> Result<bool, String> {
    let a = strings::<String>(p, hay)?;
    strings::<Own>(p, hay)?;
    strings::<Tendril>(p, hay)?;
    strings::<Box<str>>(p, hay)?;
    strings::<Rc<str>>(p, hay)?;
    strings::<Arc<str>>(p, hay)?;
    Ok(a)
}

// ------------------------------------------------------------------ regular expressions

#[derive(Clone, Debug)]
enum Re {
    Ch(char),
    Dot,
    Not(char),
    Start,
    End,
    Empty,
    Cat(Box<Re>, Box<Re>),
    Alt(Box<Re>, Box<Re>),
    Star(Box<Re>),
    Opt(Box<Re>),
    Plus(Box<Re>),
}

impl Re {
    fn show(&self) -> String {
        match self {
            Re::Ch(c) => c.to_string(),
            Re::Dot => ".".into(),
            Re::Not(c) => format!("[^{c}]"),
            Re::Start => "^".into(),
            Re::End => "$".into(),
            Re::Empty => "(?:)".into(),
            Re::Cat(a, b) => format!("(?:{}{})", a.show(), b.show()),
            Re::Alt(a, b) => format!("(?:{}|{})", a.show(), b.show()),
            Re::Star(a) => format!("(?:{})*", a.show()),
            Re::Opt(a) => format!("(?:{})?", a.show()),
            Re::Plus(a) => format!("(?:{})+", a.show()),
        }
    }
    /// Where a match that starts at `i` may end.
    fn ends(&self, s: &[char], i: usize) -> BTreeSet<usize> {
        let ch = |f: &dyn Fn(char) -> bool| s.get(i).filter(|c| f(**c)).map(|_| i + 1).into_iter().collect();
        let star = |a: &Re, first: BTreeSet<usize>| {
            let mut all = first.clone();
            let mut new: Vec<usize> = first.into_iter().collect();
            while let Some(j) = new.pop() {
                for k in a.ends(s, j) {
                    if all.insert(k) {
                        new.push(k);
                    }
                }
            }
            all
        };
        match self {
            Re::Ch(c) => ch(&|x| x == *c),
            Re::Dot => ch(&|x| x != '\n'),
            Re::Not(c) => ch(&|x| x != *c),
            Re::Start => if i == 0 { [i].into() } else { [].into() },
            Re::End => if i == s.len() { [i].into() } else { [].into() },
            Re::Empty => [i].into(),
            Re::Cat(a, b) => a.ends(s, i).into_iter().flat_map(|j| b.ends(s, j)).collect(),
            Re::Alt(a, b) => a.ends(s, i).union(&b.ends(s, i)).copied().collect(),
            Re::Star(a) => star(a, [i].into()),
            Re::Opt(a) => { let mut e = a.ends(s, i); e.insert(i); e }
            Re::Plus(a) => star(a, a.ends(s, i)),
        }
    }
    fn find(&self, s: &str) -> bool {
        let s: Vec<char> = s.chars().collect();
        (0..=s.len()).any(|i| !self.ends(&s, i).is_empty())
    }
}

fn regexes(size: usize) -> Vec<Re> {
    if size == 1 {
        return vec![Re::Ch('a'), Re::Ch('é'), Re::Dot, Re::Not('a'), Re::Start, Re::End, Re::Empty];
    }
    let mut out = vec![];
    for a in regexes(size - 1) {
        out.push(Re::Star(Box::new(a.clone())));
        out.push(Re::Opt(Box::new(a.clone())));
        out.push(Re::Plus(Box::new(a)));
    }
    for l in 1..size - 1 {
        for a in regexes(l) {
            for b in regexes(size - 1 - l) {
                out.push(Re::Cat(Box::new(a.clone()), Box::new(b.clone())));
                out.push(Re::Alt(Box::new(a.clone()), Box::new(b)));
            }
        }
    }
    out
}

// ------------------------------------------------------------------ positions in nodes

/// A forest where every text of `hays` occurs as a name, attribute name, value and class.
fn everywhere(hays: &[String]) -> Vec<T> {
    let mut out = vec![];
    for h in hays {
        let kid = |name: &str, a: &[(&str, &str)]| T::El { name: name.into(), attrs: attrs(a), kids: vec![] };
        out.push(T::El {
            name: h.clone(),
            attrs: attrs(&[]),
            kids: vec![kid("-", &[(h, "-")]), kid("-", &[("-", h)]), kid("-", &[("class", h)]), kid("-", &[("-", "-"), (h, h)])],
        });
    }
    out
}

fn positions(p: &P) -> Vec<Op> {
    vec![
        Op::Tag(p.clone()),
        Op::Name(p.clone()),
        Op::Value(p.clone()),
        Op::Class(p.clone()),
        Op::Attr(p.clone(), P::True),
        Op::Attr(P::True, p.clone()),
        Op::Attr(P::Str("-"), p.clone()),
        Op::Attr(p.clone(), p.clone()),
    ]
}

fn in_positions(fam: &Fam, q: &dyn Queried, ts: &[T], kind: &str, p: &P) {
    if !q.offered(p) {
        return;
    }
    let pre = preorder(ts);
    for o in positions(p) {
        let o = [o];
        fam.case(&format!("{kind}: {}", show(&o)), || {
            let r = compare(q, &pre, &o)?;
            seen(!r.is_empty() && r.len() < pre.len(), &format!("{r:?}"))
        });
    }
}

fn esc(s: &str) -> String {
    s.escape_debug().to_string()
}

fn dictionary_words(ctx: &Ctx) {
    let d = mc::lits::dictionary();
    let k = d.len();
    let fam = ctx.family(
        "dictionary",
        "every pair of strings out of a dictionary (the literals of the code under test, and well-known names and values), as pattern and text, of 6 text types; as regular expressions (literal, anchored, and as they are) against what the regex crate finds",
    );
    if fam.active() {
        let res: Vec<Option<regex::Regex>> =
            d.iter().flat_map(|s| [regex::escape(s), format!("^{}$", regex::escape(s)), s.clone(), format!("(?i){}", regex::escape(s))]).map(|s| regex::Regex::new(&s).ok()).collect();
        ctx.par(k * k, |i| {
            let (p, h) = (&d[i / k], &d[i % k]);
            fam.case(&format!("pattern {}, text {}", esc(p), esc(h)), || {
                let r = every_type(p, h)?;
                every_type(&format!("{p}{h}"), &format!("{h}{p}"))?;
                every_type(p, &format!("{p}{h}"))?;
                every_type(p, &format!("{h}{p}"))?;
                for x in res[i / k * 4..i / k * 4 + 4].iter().flatten() {
                    for h in [h.clone(), format!("{h}{p}")] {
                        let want = x.is_match(&h);
                        let got = [
                            Pattern::<String>::matches(x, &h),
                            Pattern::<Own>::matches(x, &Own::mk(&h)),
                            Pattern::<Tendril>::matches(x, &Tendril::mk(&h)),
                            Pattern::<Cow<'_, str>>::matches(x, &Cow::Borrowed(&h)),
                        ];
                        if got != [want; 4] {
                            return Err(format!("regex {:?} matches {h:?}: {got:?}, expected {want}", x.as_str()));
                        }
                        // a shortcut would have to stand for everything that matches
                        if Pattern::<String>::value(x).is_some_and(|v| (v == h) != want) {
                            return Err(format!("regex {:?} offers an exact value that does not stand for it", x.as_str()));
                        }
                    }
                }
                seen(r, p)
            });
        });
    }
    let fam = ctx.family(
        "dictionary-in-every-position",
        "every string of the dictionary as every kind of string pattern, for tags, attribute names, values, pairs and classes, on a forest that has each of them in every place, every node type",
    );
    if fam.active() {
        let ts = everywhere(&d);
        ctx.par(k * KINDS.len(), |j| {
            let (w, kind) = (intern(&d[j / KINDS.len()]), KINDS[j % KINDS.len()]);
            let Ok(q) = kind.make(&ts) else {
                fam.case(kind.name(), || kind.make(&ts).map(|_| unreachable!()));
                return;
            };
            let v = kind.view(&ts);
            for p in [P::Str(w), P::Own(w.into()), P::CowB(w), P::CowO(w.into()), P::Exact(w), P::Short(w)] {
                ctx.traces.fetch_add(8, Relaxed);
                in_positions(&fam, &*q, &v, kind.name(), &p);
            }
        });
    }
}

fn run(ctx: &Ctx) {
    let fam = ctx.family(
        "words",
        "every pair of texts of up to 3 letters out of 7 (cases, accents composed and not, NUL), as pattern (&str, String, Cow borrowed and owned, bool) and haystack of 6 (shorter ones: 8) text types",
    );
    if fam.active() {
        let ws = all_words(&LETTERS, 3);
        let short = all_words(&LETTERS, 2).len();
        ctx.par(ws.len(), |i| {
            for (k, h) in ws.iter().enumerate() {
                fam.case(&format!("pattern {}, text {}", esc(&ws[i]), esc(h)), || {
                    let r = every_type(&ws[i], h)?;
                    if ws[i].len() + h.len() <= 6 && short > 0 {
                        statics::<&'static str>(intern(&ws[i]), intern(h))?;
                        statics::<Cow<'static, str>>(intern(&ws[i]), intern(h))?;
                    }
                    seen(r, &k.to_string())
                });
            }
        });
    }

    let fam = ctx.family(
        "in-every-position",
        "every text of up to 2 letters out of 7 as every kind of string pattern and user-defined pattern (with and without shortcut), for tags, attribute names, values, pairs and classes, on a forest that has every such text in every place, every node type",
    );
    if fam.active() {
        let ws = all_words(&LETTERS, 2);
        let ts = everywhere(&ws);
        ctx.par(ws.len() * KINDS.len(), |j| {
            let (w, kind) = (intern(&ws[j / KINDS.len()]), KINDS[j % KINDS.len()]);
            let Ok(q) = kind.make(&ts) else {
                fam.case(kind.name(), || kind.make(&ts).map(|_| unreachable!()));
                return;
            };
            let v = kind.view(&ts);
            for p in [P::Str(w), P::Own(w.into()), P::CowB(w), P::CowO(w.into()), P::Exact(w), P::Short(w)] {
                ctx.traces.fetch_add(8, Relaxed);
                in_positions(&fam, &*q, &v, kind.name(), &p);
            }
            if j < KINDS.len() {
                let preds: [(&'static str, fn(&str) -> bool); 5] = [
                    ("all", |_| true),
                    ("none", |_| false),
                    ("empty", str::is_empty),
                    ("starts with a", |s| s.starts_with('a')),
                    ("two bytes", |s| s.len() == 2),
                ];
                for (n, f) in preds {
                    in_positions(&fam, &*q, &v, kind.name(), &P::Pred(n, f));
                }
                for p in [P::True, P::False] {
                    in_positions(&fam, &*q, &v, kind.name(), &p);
                }
            }
        });
    }

    dictionary_words(ctx);
    let fam = ctx.family(
        "code-points",
        "every code point as a text of its own and inside another: equal to itself, different from the next one, from its upper and lower case, from itself repeated; all string patterns, 6 text types",
    );
    if fam.active() {
        ctx.par(0x1100, |hi| {
            for lo in 0..256u32 {
                let n = hi as u32 * 256 + lo;
                let Some(c) = char::from_u32(n) else { continue };
                let next = char::from_u32(n + 1).unwrap_or('a');
                fam.case(&format!("U+{n:04X}"), || {
                    let s = c.to_string();
                    let up: String = c.to_uppercase().collect();
                    let low: String = c.to_lowercase().collect();
                    for h in [s.clone(), next.to_string(), up, low, format!("{c}{c}"), format!(" {c}"), format!("{c} "), String::new()] {
                        every_type(&s, &h)?;
                        every_type(&format!("x{s}"), &format!("x{h}"))?;
                    }
                    seen(true, &s)
                });
            }
        });
    }

    let fam = ctx.family(
        "lengths",
        "texts of every length up to 300 (thorough: 1000) and around powers of two up to 65536: equal, one letter different at every (long ones: many) position, one shorter, one longer",
    );
    if fam.active() {
        let mut ls: Vec<usize> = (0..=ctx.bound(300, 1000)).collect();
        ls.extend((9..=16).flat_map(|p| [(1 << p) - 1, 1 << p, (1 << p) + 1]));
        ctx.par(ls.len(), |j| {
            let n = ls[ls.len() - 1 - j];
            fam.case(&n.to_string(), || {
                let s = "a".repeat(n);
                every_type(&s, &s)?;
                every_type(&s, &"a".repeat(n + 1))?;
                every_type(&"a".repeat(n + 1), &s)?;
                let step = (n / 300).max(1);
                for i in (0..n).step_by(step).chain(n.checked_sub(1)) {
                    let mut t = s.clone();
                    t.replace_range(i..=i, "b");
                    strings::<String>(&s, &t)?;
                    strings::<Tendril>(&t, &s)?;
                }
                seen(true, &n.to_string())
            });
        });
    }

    let fam = ctx.family(
        "similar-strings",
        "pairs of texts of every length up to 130 (thorough: 600) and around round numbers up to 140000 (1100000) that differ in one letter, its case or its last byte, in the order of two letters, or in length by one: each equal to itself and different from the other; all string patterns, 6 text types",
    );
    if fam.active() {
        let d = mc::lits::similar(ctx.bound(130, 600), ctx.bound(140_000, 1_100_000));
        ctx.par(d.len(), |i| {
            // the longest first
            let (a, b) = &d[d.len() - 1 - i];
            let what = || if a.len() < 200 { format!("{} and {}", esc(a), esc(b)) } else { format!("pair {i}: {} and {} bytes", a.len(), b.len()) };
            fam.case(&what(), || {
                every_type(a, b)?;
                every_type(b, a)?;
                seen(every_type(a, a)?, &i.to_string())
            });
        });
    }

    let fam = ctx.family(
        "two-lengths",
        "pairs of texts of which one is the beginning or the end of the other: of every two lengths up to 140 (thorough: 600), and of every length up to 140 (600) and around round numbers up to 10000 (100000) with any power of two up to 65536, or round number, more: each equal to itself and different from the other; all string patterns, 6 text types",
    );
    if fam.active() {
        let all = ctx.bound(140, 600);
        let mut d: Vec<(usize, usize)> = (0..all).flat_map(|a| (a + 1..=all).map(move |b| (a, b))).collect();
        for a in gen::sizes(all, ctx.bound(10_000, 100_000)) {
            d.extend((6..17).map(|p| (a, a + (1 << p))));
            d.extend([100, 1000, 10_000].map(|n| (a, a + n)));
        }
        ctx.par(d.len(), |i| {
            let (m, n) = d[d.len() - 1 - i];
            fam.case(&format!("{m} and {n} letters"), || {
                let same = "x".repeat(n);
                let kinds: String = ('a'..='z').cycle().take(n).collect();
                for (a, b) in [(&same[..m], &same[..]), (&kinds[..m], &kinds), (&kinds[n - m..], &kinds)] {
                    every_type(a, b)?;
                    every_type(b, a)?;
                }
                seen(true, &i.to_string())
            });
        });
    }

    let fam = ctx.family(
        "regexes",
        "every regular expression of up to 4 (thorough: 5) nodes over letters, any, negated class, anchors, empty, concatenation, alternation, repetition, on every text of up to 4 letters, against a matcher of this harness; as a pattern for 4 text types",
    );
    if fam.active() {
        let hays = all_words(&["a", "é", "\n"], 4);
        let res: Vec<Re> = (1..=ctx.bound(4, 5)).flat_map(regexes).collect();
        ctx.par(res.len(), |j| {
            let r = &res[j];
            ctx.states.fetch_add(1, Relaxed);
            ctx.transitions.fetch_add(hays.len() as u64, Relaxed);
            fam.case(&r.show(), || {
                let x = regex::Regex::new(&r.show()).map_err(|e| format!("machinery: {e}"))?;
                let mut h = 0;
                let mut both = (false, false);
                for s in &hays {
                    let want = r.find(s);
                    let got = [
                        Pattern::<String>::matches(&x, &String::mk(s)),
                        Pattern::<Own>::matches(&x, &Own::mk(s)),
                        Pattern::<Tendril>::matches(&x, &Tendril::mk(s)),
                        Pattern::<Cow<'_, str>>::matches(&x, &Cow::Borrowed(s)),
                    ];
                    if got != [want; 4] {
                        return Err(format!("matches {s:?}: {got:?}, expected {want}"));
                    }
                    if let Some(v) = Pattern::<String>::value(&x) {
                        // a shortcut would have to stand for everything that matches
                        if let Some(s) = hays.iter().find(|s| r.find(s) != (**s == v)) {
                            return Err(format!("offers {v:?} as its exact value, but {s:?} differs"));
                        }
                    }
                    h = fnv(h, &[u8::from(want)]);
                    if want { both.0 = true } else { both.1 = true }
                }
                seen(both.0 && both.1, &format!("{h:x}"))
            });
        });
    }

    let fam = ctx.family(
        "regex-options",
        "every word of up to 4 (thorough: 5) of 11 pieces that is a regular expression, built with every subset of five options of RegexBuilder (case_insensitive, multi_line, dot_matches_new_line, ignore_whitespace, swap_greed), on every text of up to 3 letters, against what the regex crate finds with the same expression and the options as flags in it",
    );
    if fam.active() {
        let pieces = ["^", "$", "a", "B", ".", "\n", " ", "#", "|", "+", "é"];
        let hays = all_words(&["a", "A", "b", "\n", " "], 3);
        let mut res: Vec<String> = vec![];
        gen::words(pieces.len(), ctx.bound(4, 5), &mut vec![], &mut |w| {
            res.push(w.iter().map(|i| pieces[*i]).collect());
            true
        });
        let extra = ["^a$", "^(?:a)$", "\\Aa\\z", "^ab$", "^a\\$", "^$", "^é$", "(?-i)^a$", "^a{1}$", "[a]", "^[a]$"];
        res.extend(extra.map(String::from));
        ctx.par(res.len(), |j| {
            let r = &res[j];
            for o in 0..32 {
                let on = |b: u32| o >> b & 1 == 1;
                let flags: String = "imsxU".chars().enumerate().filter(|(b, _)| on(*b as u32)).map(|(_, c)| c).collect();
                let built = regex::RegexBuilder::new(r)
                    .case_insensitive(on(0))
                    .multi_line(on(1))
                    .dot_matches_new_line(on(2))
                    .ignore_whitespace(on(3))
                    .swap_greed(on(4))
                    .build();
                // a comment of the verbose mode would swallow the closing parenthesis, hence the line break
                let inline = regex::Regex::new(&if o == 0 { r.clone() } else { format!("(?{flags}){r}") });
                let (Ok(built), Ok(inline)) = (built, inline) else { continue };
                fam.case(&format!("{r:?} with {flags:?}"), || {
                    let (mut h, mut both) = (0, (false, false));
                    for s in &hays {
                        let want = inline.is_match(s);
                        let got = [
                            Pattern::<String>::matches(&built, &String::mk(s)),
                            Pattern::<Own>::matches(&built, &Own::mk(s)),
                            Pattern::<Cow<'_, str>>::matches(&built, &Cow::Borrowed(s)),
                        ];
                        if got != [want; 3] {
                            return Err(format!("matches {s:?}: {got:?}, expected {want}"));
                        }
                        if let Some(v) = Pattern::<String>::value(&built) {
                            if want != (*s == v) {
                                return Err(format!("offers {v:?} as its exact value, but {s:?} differs"));
                            }
                        }
                        h = fnv(h, &[u8::from(want)]);
                        if want { both.0 = true } else { both.1 = true }
                    }
                    seen(both.0 && both.1, &format!("{h:x}"))
                });
            }
        });
    }

    let fam = ctx.family(
        "regexes-in-every-position",
        "regular expressions with anchors, flags, classes and Unicode, for tags, attribute names, values and classes on a forest with every text of up to 2 letters in every place, every node type",
    );
    if fam.active() {
        let ws: Vec<String> = [all_words(&LETTERS, 2), all_words(&["a", "\n"], 3)].concat();
        let ts = everywhere(&ws);
        let mut res: Vec<P> = vec![];
        for r in (1..=ctx.bound(2, 3)).flat_map(regexes) {
            // the predicate is a plain function, so the matcher goes by the text of the expression
            res.push(P::Re(regex::Regex::new(&r.show()).unwrap(), |_| true));
        }
        let list: Vec<(&str, fn(&str) -> bool)> = vec![
            ("", |_| true),
            ("a", |s| s.contains('a')),
            ("^a", |s| s.starts_with('a')),
            ("a$", |s| s.ends_with('a')),
            ("^a$", |s| s == "a"),
            ("(?m)^a$", |s| s.split('\n').any(|l| l == "a")),
            ("(?i)a", |s| s.contains(['a', 'A'])),
            ("(?i)^é$", |s| s == "é" || s == "É"),
            ("[ab]", |s| s.contains(['a', 'b'])),
            ("^[^a]*$", |s| !s.contains('a')),
            ("\\s", |s| s.contains(char::is_whitespace)),
            ("^\\w+$", |s| !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '\u{301}')),
            ("..", |s| s.split('\n').any(|l| l.chars().count() >= 2)),
            ("(?s)..", |s| s.chars().count() >= 2),
            ("a|b", |s| s.contains(['a', 'b'])),
            ("\\x00", |s| s.contains('\0')),
            ("class|-", |s| s.contains("class") || s.contains('-')),
            ("^class$", |s| s == "class"),
        ];
        let mut jobs: Vec<(P, Option<Re>)> = list.into_iter().map(|(r, f)| (re(r, f), None)).collect();
        for (r, p) in (1..=ctx.bound(2, 3)).flat_map(regexes).zip(res) {
            jobs.push((p, Some(r)));
        }
        ctx.par(jobs.len() * KINDS.len(), |j| {
            let ((p, r), kind) = (&jobs[j / KINDS.len()], KINDS[j % KINDS.len()]);
            let v = kind.view(&ts);
            let Ok(q) = kind.make(&ts) else {
                fam.case(kind.name(), || kind.make(&ts).map(|_| unreachable!()));
                return;
            };
            match r {
                None => in_positions(&fam, &*q, &v, kind.name(), p),
                Some(r) => {
                    let pre = preorder(&v);
                    for o in positions(p).into_iter().take(4) {
                        let holds = |t: &T| match &o {
                            Op::Tag(_) => t.name().is_some_and(|n| r.find(n)),
                            Op::Name(_) => t.attrs().is_some_and(|a| a.keys().any(|k| r.find(k))),
                            Op::Value(_) => t.attrs().is_some_and(|a| a.values().any(|k| r.find(k))),
                            _ => t.attrs().is_some_and(|a| a.get("class").is_some_and(|k| r.find(k))),
                        };
                        let want: Vec<usize> = (0..pre.len()).filter(|i| holds(pre[*i].0)).collect();
                        let o = [o.clone()];
                        fam.case(&format!("{}: {}", kind.name(), show(&o)), || {
                            compare_with(&*q, &want, &o)?;
                            seen(!want.is_empty() && want.len() < pre.len(), &format!("{want:?}"))
                        });
                    }
                }
            }
        });
    }

    let fam = ctx.family(
        "shortcut",
        "every set of attribute names out of 8, every name pattern in the forms with and without shortcut, three value patterns, 5 text types: the same nodes match, and by the definition",
    );
    if fam.active() {
        const NAMES: [&str; 8] = ["", "a", "A", "aa", "b", "é", "class", "data-a"];
        ctx.par(256, |set| {
            let a: Vec<(&str, &str)> =
                (0..8).filter(|i| set >> i & 1 == 1).map(|i| (NAMES[i], if i % 2 == 0 { "1" } else { "2" })).collect();
            let ts = vec![T::El { name: "e".into(), attrs: attrs(&a), kids: vec![T::Text("a".into())] }];
            for kind in KINDS {
                fam.case(&format!("{}: {a:?}", kind.name()), || {
                    let (q, v) = (kind.make(&ts)?, kind.view(&ts));
                    let pre = preorder(&v);
                    let mut h = 0;
                    for n in NAMES.iter().copied().chain(["B", "zz", "a\0"]) {
                        for w in [P::True, P::Str("1"), P::Pred("2", |s| s == "2")] {
                            for p in [P::Str(n), P::Exact(n), P::Short(n), P::Own(n.into()), P::CowB(n), P::CowO(n.into())] {
                                let o = [Op::Attr(p, w.clone())];
                                if offered(&*q, &o) {
                                    h = fnv(h, &[compare(&*q, &pre, &o)?.len() as u8]);
                                }
                            }
                        }
                    }
                    seen(!a.is_empty(), &format!("{h:x}"))
                });
            }
        });
    }

    let fam = ctx.family(
        "documents",
        "every text of up to 3 letters (letters of both cases, space, tab, hyphen) as a class and another attribute of a parsed document (strict, lenient, XML): found by exactly that text and by no other of these",
    );
    if fam.active() {
        let ws = all_words(&["a", "A", "b", " ", "-"], ctx.bound(3, 4));
        ctx.par(ws.len(), |j| {
            let w = &ws[j];
            fam.case(&format!("{w:?}"), || {
                let doc = format!("<html><head></head><body><i class=\"{w}\" data-x=\"{w}\"></i></body></html>");
                let strict = Soup::html_strict(intern(&doc)).map_err(|e| format!("{e:?}"))?;
                let lenient = Soup::html(&doc);
                let xml = Soup::xml(doc.as_bytes()).map_err(|e| format!("{e:?}"))?;
                for p in &ws {
                    let p: &'static str = intern(p);
                    let want = usize::from(p == w);
                    let got = [
                        strict.class(p).all().count(),
                        strict.attr("data-x", p).all().count(),
                        strict.attr_value(p).all().count(),
                        lenient.class(p).all().count(),
                        lenient.attr("data-x", p.to_string()).all().count(),
                        lenient.attr_value(Cow::Borrowed(p)).all().count(),
                        xml.class(p).all().count(),
                        xml.attr("data-x".to_string(), Cow::Borrowed(p)).all().count(),
                        xml.attr_value(p.to_string()).all().count(),
                    ];
                    if got != [want; 9] {
                        return Err(format!("searched for {p:?}: {got:?} results, expected {want} each"));
                    }
                }
                seen(true, w)
            });
        });
    }
}

fn main() {
    mc::runner::main("C15", "model_checking", run)
}
