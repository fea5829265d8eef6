//! Explorers for the XML parser against the reference in `xmlmodel`.

use soupy::{parser::XMLNode, Queryable, Soup};

use crate::{
    engine::{clip, fnv, seen, Ctx, Fam, Seen},
    gen,
    strictfam::{Counter, Want},
    xmlmodel::{judge, plain, same, Verdict, X},
};

/// Rejections that the XML library is known not to make; each is a finding of its own.
const LAX: &[&str] = &["duplicate-xmlns", "duplicate-expanded", "namespace-bound", "no-target", "value-lt", "duplicate-ninth"];

pub fn parse(doc: &[u8]) -> Result<Soup<XMLNode>, String> {
    Soup::xml(doc).map_err(|e| format!("{e}"))
}

pub fn tops(s: &Soup<XMLNode>) -> Vec<XMLNode> {
    s.strict().all().map(|i| (*i).clone()).collect()
}

pub fn expect_tree(doc: &[u8], want: &[X]) -> Result<Seen, String> {
    match parse(doc) {
        Ok(s) => {
            let t = tops(&s);
            same(want, &t.iter().collect::<Vec<_>>())?;
            seen(want.len() > 1 || !want.is_empty() && t[0].iter().next().is_some() || has_attrs(&want[0]), &format!("{t:?}"))
        }
        Err(e) => Err(format!("well-formed document rejected: {e}\nexpected {}", clip(&format!("{want:?}"), 600))),
    }
}

fn has_attrs(x: &X) -> bool {
    matches!(x, X::El { attrs, .. } if !attrs.is_empty())
}

pub fn expect_error(doc: &[u8], why: &str) -> Result<Seen, String> {
    match parse(doc) {
        Ok(s) => Err(format!("malformed document ({why}) accepted as {}", clip(&format!("{:?}", tops(&s)), 600))),
        Err(e) => seen(true, &e),
    }
}

fn reject(ctx: &Ctx, fam: &Fam, name: &str, doc: &str, why: &'static str) {
    if LAX.contains(&why) {
        let mut lax = false;
        fam.case(doc, || match parse(doc.as_bytes()) {
            Ok(_) => {
                lax = true;
                seen(true, why)
            }
            Err(e) => seen(true, &e),
        });
        if lax {
            let what = match why {
                "duplicate-xmlns" => "a namespace declared twice in one tag is accepted, e.g. <a xmlns='u' xmlns='v'/> (xml-rs checks declarations for duplicates in no way)",
                "duplicate-expanded" => "two attributes with different prefixes of the same namespace and the same local name are accepted, e.g. <a xmlns:x='u' xmlns:y='u' x:b='1' y:b='2'/>",
                "value-lt" => "the start of an end tag, comment or the like in an attribute value is accepted, e.g. <a b='</a>'/>",
                "duplicate-ninth" => "an attribute that repeats an earlier one is accepted if it is the ninth of its tag, e.g. <a b='' c='' d='' e='' f='' g='' h='' i='' b=''/>",
                "no-target" => "a processing instruction without a target is accepted, e.g. <a><? ?></a>",
                _ => "a prefix other than xml may be bound to the xml or xmlns namespace, e.g. <a xmlns:x='http://www.w3.org/XML/1998/namespace'/>",
            };
            ctx.finding(name, why, what);
        }
    } else {
        fam.case(doc, || expect_error(doc.as_bytes(), why));
    }
}

/// Declares the default namespace to be the one named "xml" or "xmlns", somewhere.
fn default_is_xml(x: &X) -> bool {
    match x {
        X::El { scope, kids, .. } => scope.get("").is_some_and(|u| u == "xml" || u == "xmlns") || kids.iter().any(default_is_xml),
        _ => false,
    }
}

pub fn check(ctx: &Ctx, fam: &Fam, name: &str, doc: &str, want: Want) -> Verdict {
    let v = judge(doc);
    match &v {
        Verdict::Tree(t) if want != Want::Reject => {
            let mut known = false;
            fam.case(doc, || match expect_tree(doc.as_bytes(), t) {
                Err(e) if t.iter().any(default_is_xml) && e.contains("cannot be default") => {
                    known = true;
                    seen(true, "known")
                }
                r => r,
            });
            if known {
                ctx.finding(
                    name,
                    "default-named-xml",
                    "a default namespace whose name is just \"xml\" or \"xmlns\" is rejected, e.g. <r xmlns='xml'/> (xml-rs compares the namespace's name with these prefixes)",
                );
            }
        }
        Verdict::Cut if want != Want::Tree => fam.case(doc, || expect_error(doc.as_bytes(), "cut off")),
        Verdict::Reject(w) if want != Want::Tree => reject(ctx, fam, name, doc, w),
        _ => {}
    }
    v
}

/// A document together with the nodes it was written from. The reference has to agree, otherwise the
/// machinery itself is wrong.
pub fn spelled(fam: &Fam, doc: &str, want: &[X]) {
    fam.case(doc, || {
        match judge(doc) {
            Verdict::Tree(t) if plain(&t) == want => return expect_tree(doc.as_bytes(), &t),
            Verdict::Skip => {}
            v => {
                eprintln!("the reference disagrees with the generator on {doc:?}: {v:?} instead of {want:?}");
                std::process::exit(3);
            }
        }
        expect_tree(doc.as_bytes(), want)
    });
}

struct Explorer<'a> {
    ctx: &'a Ctx,
    fam: &'a Fam<'a>,
    name: &'a str,
    cnt: &'a Counter,
    tokens: &'a [&'a str],
    prefix: &'a str,
    suffix: &'a str,
    want: Want,
}

impl Explorer<'_> {
    fn visit(&self, doc: &str) -> bool {
        self.cnt.trace();
        let v = if self.suffix.is_empty() {
            check(self.ctx, self.fam, self.name, doc, self.want)
        } else {
            check(self.ctx, self.fam, self.name, &format!("{doc}{}", self.suffix), self.want);
            judge(doc)
        };
        self.cnt.state(fnv(3, format!("{v:?}").as_bytes()));
        matches!(v, Verdict::Reject(_))
    }

    fn dfs(&self, doc: &mut String, left: usize) {
        let dead = self.visit(doc);
        if !self.fam.active() || (!dead && left == 0) || (dead && self.want == Want::Tree) {
            return;
        }
        let n = doc.len();
        for t in self.tokens {
            *doc += t;
            self.cnt.step();
            if dead {
                self.visit(doc);
            } else {
                self.dfs(doc, left - 1);
            }
            doc.truncate(n);
        }
    }
}

/// Judges every word of at most `len` tokens after `prefix`, each continued by `suffix`. A word that
/// no continuation can save is tried with every single token after it, and not extended further.
pub fn explore(ctx: &Ctx, name: &str, rule: &str, (prefix, tokens, suffix): (&str, &[&str], &str), len: usize, want: Want) {
    let fam = ctx.family(name, rule);
    if !fam.active() {
        return;
    }
    let cnt = Counter::default();
    let e = Explorer { ctx, fam: &fam, name, cnt: &cnt, tokens, prefix, suffix, want };
    let split = len.min(2);
    e.dfs(&mut String::from(e.prefix), split - 1);
    ctx.par(tokens.len().pow(split as u32), |i| {
        let w = gen::word(tokens.len(), split, i);
        let mut doc = String::from(prefix);
        for (j, t) in w.iter().enumerate() {
            if j > 0 && matches!(judge(&doc), Verdict::Reject(_)) {
                return;
            }
            doc += tokens[*t];
        }
        cnt.step();
        e.dfs(&mut doc, len - split);
    });
    cnt.flush(ctx);
}

/// Judges the documents `doc(0)..doc(n-1)`.
pub fn sweep(ctx: &Ctx, name: &str, rule: &str, n: usize, want: Want, doc: impl Fn(usize) -> Option<String> + Sync) {
    let fam = ctx.family(name, rule);
    if !fam.active() {
        return;
    }
    let chunk = if n > 100_000 { 64 } else { 1 };
    ctx.par(n.div_ceil(chunk), |c| {
        for i in c * chunk..((c + 1) * chunk).min(n) {
            if let Some(d) = doc(i) {
                check(ctx, &fam, name, &d, want);
                ctx.traces.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
        }
    });
}

/// The places of an XML document that a string may stand in.
pub const PLACES: &[&str] = &[
    "<r>{0}</r>", "<r>x{0}y{1}</r>", "<r><a/>{0}<b/>{1}</r>", "<r a='{0}' b=\"{1}\"/>", "<r a='{1}{0}'>t</r>", "<r a=\"x{0}y\" c='d'/>", "<r><!--{0}{1}--></r>",
    "<!--{0}--><r/><!--{1}-->", "<r><![CDATA[{0}{1}]]></r>", "<r><![CDATA[{0}]]>{1}</r>", "<r><?p {0}{1}?></r>", "<?{0} {1}?><r/>", "<r><?{0}?></r>",
    "<{0}/>", "<{0} {1}='v'/>", "<r><{0} a='{1}'>{1}</{0}></r>", "<r {0}='1' {1}='2'/>", "<r {0}='{1}'/>", "<{0}:{1} xmlns:{0}='u'/>",
    "<r xmlns='{0}'/>", "<r xmlns='{0}'><s xmlns='{1}'><t/></s><u/></r>", "<r xmlns:x='{0}'><x:s y='{1}'/></r>", "<r xmlns:x='{0}' xmlns='{1}' a='b'><x:s/><s/></r>",
    "<r xmlns:{0}='{1}'/>", "<r xmlns:{0}='u'><{0}:{1}>t</{0}:{1}></r>", "<r xmlns:x='{0}'><s xmlns:x='{1}'><x:t x:a='b'/></s></r>", "<!DOCTYPE {0}><r>{1}</r>", "<r>&{0};</r>", "<r a='&{0};'>{1}</r>",
    "<r>{0}x{1}</r>", "<r a='{0}x{1}'/>", "<r><!--{0}x{1}--></r>", "<r><![CDATA[{0}x{1}]]></r>", "<r><?p {0}x{1}?></r>", "<r><{0}>t</{1}></r>",
    "{0}<r/>{1}", "<r/>{0}", "{0}{1}", "<r>{0}", "<{0}>{1}</r>", "<a>{0}</a>{1}<b/>",
];

/// Documents made of two strings out of the dictionary, and of strings of special characters.
pub fn dictionary(ctx: &Ctx, want: Want) {
    let d = crate::lits::dictionary();
    let k = d.len();
    let n = PLACES.len();
    let s = crate::lits::similar(ctx.bound(130, 600), ctx.bound(2500, 20_000));
    sweep(
        ctx,
        "similar-strings",
        "pairs of strings of every length up to 130 (thorough: 600) and around round numbers up to 2500 (20000) that differ in one letter, its case or its last byte, in the order of two letters, or in length by one, in every place of a document; judged by the reference",
        s.len() * n,
        want,
        |i| Some(PLACES[i % n].replace("{0}", &s[i / n].0).replace("{1}", &s[i / n].1)),
    );
    sweep(
        ctx,
        "dictionary",
        "every pair of strings out of a dictionary (the literals of the code under test, and well-known names, values, namespaces and separators), each pair in some and each single string in every place of a document (thorough: pairs in every place); judged by the reference",
        k * k * n,
        want,
        |i| {
            let (p, a, b) = (i % n, i / n / k, i / n % k);
            (ctx.thorough() || a == b || b == 0 || b == 17 % k || p % 4 == (a + b) % 4).then(|| PLACES[p].replace("{0}", &d[a]).replace("{1}", &d[b]))
        },
    );
    let c = crate::strictfam::ascii_special();
    let len = ctx.bound(3, 4);
    sweep(
        ctx,
        "special-strings",
        "every string of three (thorough: four) special characters in every place of a document",
        gen::pow(c.len(), len) * n,
        want,
        |i| {
            let s: String = gen::word(c.len(), len, i / n).into_iter().map(|j| c[j]).collect();
            (ctx.thorough() || i % n % 3 == i / n % 3).then(|| PLACES[i % n].replace("{0}", &s).replace("{1}", "v"))
        },
    );
}

/// What depends on two sizes at once.
pub fn two_sizes(ctx: &Ctx, want: Want) {
    let grid = gen::grid(ctx.bound(16, 40), ctx.bound(1025, 10_001), ctx.bound(20_000, 600_000));
    sweep(ctx, "two-sizes", crate::strictfam::TWO_RULE, grid.len() * gen::TWO, want, |i| {
        let (f, (a, b)) = (i % gen::TWO, grid[i / gen::TWO]);
        let d = gen::two(f, a, b);
        Some(if want == Want::Reject && f > 0 { crate::strictfam::spoil(d, a + b + f) } else { d })
    });
}

pub fn pumped(ctx: &Ctx, want: Want) {
    let p = gen::Pump::new(gen::PUMP_XML, ctx.bound(4097, 65_537));
    sweep(ctx, "pumped", gen::PUMP_RULE, p.len(), want, |i| p.doc(i));
}

pub fn attribute_lists(ctx: &Ctx) {
    sweep(ctx, "attribute-lists", gen::LISTS_RULE, gen::LISTS, Want::Tree, |i| Some(gen::lists(i)));
}
