//! Reference for XML 1.0 (5th edition) with namespaces: an independent recursive-descent recognizer
//! that says for a text whether it is a well-formed document, and which nodes it spells out.
//!
//! Not covered (verdict `Skip`, never judged): document types with an internal subset (checked with
//! generated documents instead), version 1.1, and names that plain XML allows but the namespaces
//! recommendation does not (colons in targets, local parts such as `1`).

use std::collections::{BTreeMap, HashMap};

use soupy::parser::XMLNode;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum X {
    El {
        prefix: Option<String>,
        ns: Option<String>,
        name: String,
        /// local name to the values stored under it, in document order
        attrs: BTreeMap<String, Vec<String>>,
        /// prefixes in scope ("" is the default namespace)
        scope: BTreeMap<String, String>,
        kids: Vec<X>,
    },
    Text(String),
    /// White space directly after a CDATA section. The XML library reports it, other than elsewhere;
    /// the property leaves both open.
    Space(String),
    CData(String),
    Comment(String),
    Pi(String, String),
}

pub fn xel(name: &str, attrs: &[(&str, &str)], kids: Vec<X>) -> X {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in attrs {
        m.entry((*k).into()).or_default().push((*v).into());
    }
    X::El { prefix: None, ns: None, name: name.into(), attrs: m, scope: BTreeMap::new(), kids }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Tree(Vec<X>),
    /// Not well-formed, whatever follows. The text says why.
    Reject(&'static str),
    /// Not well-formed, but a prefix of something that may be.
    Cut,
    /// Not judged.
    Skip,
}

pub fn is_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}
pub fn is_space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}
/// NameStartChar without the colon
pub fn is_start(c: char) -> bool {
    matches!(c, 'A'..='Z' | '_' | 'a'..='z' | '\u{c0}'..='\u{d6}' | '\u{d8}'..='\u{f6}' | '\u{f8}'..='\u{2ff}'
        | '\u{370}'..='\u{37d}' | '\u{37f}'..='\u{1fff}' | '\u{200c}'..='\u{200d}' | '\u{2070}'..='\u{218f}'
        | '\u{2c00}'..='\u{2fef}' | '\u{3001}'..='\u{d7ff}' | '\u{f900}'..='\u{fdcf}' | '\u{fdf0}'..='\u{fffd}'
        | '\u{10000}'..='\u{effff}')
}
/// NameChar without the colon
pub fn is_name(c: char) -> bool {
    is_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{b7}' | '\u{300}'..='\u{36f}' | '\u{203f}'..='\u{2040}')
}

enum Stop {
    Reject(&'static str),
    Cut,
    Skip,
}
use Stop::{Cut, Reject, Skip};
type R<A> = Result<A, Stop>;

struct P<'a> {
    s: &'a str,
    i: usize,
}

const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";
const XMLNS_NS: &str = "http://www.w3.org/2000/xmlns/";

struct Open {
    qname: (Option<String>, String),
    attrs: BTreeMap<String, Vec<String>>,
    scope: BTreeMap<String, String>,
    kids: Vec<X>,
}

impl P<'_> {
    fn rest(&self) -> &str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn next(&mut self) -> R<char> {
        let c = self.peek().ok_or(Cut)?;
        self.i += c.len_utf8();
        Ok(c)
    }
    fn eat(&mut self, t: &str) -> bool {
        let ok = self.rest().starts_with(t);
        if ok {
            self.i += t.len();
        }
        ok
    }
    /// Whether the text ends within `t`.
    fn cut_in(&self, t: &str) -> bool {
        t.len() > self.rest().len() && t.starts_with(self.rest())
    }
    fn expect(&mut self, t: &str, why: &'static str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else if self.cut_in(t) {
            Err(Cut)
        } else {
            Err(Reject(why))
        }
    }
    fn spaces(&mut self) -> usize {
        let n = self.rest().chars().take_while(|c| is_space(*c)).count();
        self.i += n;
        n
    }
    fn name(&mut self) -> R<String> {
        let at = self.i;
        let c = self.next()?;
        if !is_start(c) {
            return Err(Reject("name"));
        }
        while self.peek().is_some_and(is_name) {
            self.next()?;
        }
        Ok(self.s[at..self.i].into())
    }
    fn qname(&mut self) -> R<(Option<String>, String)> {
        let a = self.name()?;
        if !self.eat(":") {
            return Ok((None, a));
        }
        // plain XML allows it, the namespaces recommendation does not
        if self.peek().is_some_and(|c| is_name(c) && !is_start(c)) {
            return Err(Skip);
        }
        let b = self.name()?;
        if self.peek() == Some(':') {
            return Err(Reject("name"));
        }
        Ok((Some(a), b))
    }
    fn reference(&mut self) -> R<char> {
        // after '&'
        if self.eat("#") {
            let hex = self.eat("x");
            let at = self.i;
            loop {
                let c = self.next()?;
                if c == ';' {
                    break;
                }
                if !(if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() }) {
                    return Err(Reject("reference"));
                }
            }
            let d = self.s[at..self.i - 1].trim_start_matches('0');
            if self.s[at..self.i - 1].is_empty() || d.len() > 9 {
                return Err(Reject("reference"));
            }
            let n = if d.is_empty() { 0 } else { u32::from_str_radix(d, if hex { 16 } else { 10 }).map_err(|_| Reject("reference"))? };
            return char::from_u32(n).filter(|c| is_char(*c)).ok_or(Reject("reference"));
        }
        let at = self.i;
        self.name()?;
        let name = self.s[at..self.i].to_string();
        match self.next()? {
            ';' => {}
            ':' => return Err(Skip),
            _ => return Err(Reject("reference")),
        }
        Ok(match name.as_str() {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "apos" => '\'',
            "quot" => '"',
            _ => return Err(Reject("entity")),
        })
    }
    /// Text up to `end`; `end` is consumed.
    fn until(&mut self, end: &str) -> R<String> {
        let at = self.i;
        loop {
            if self.rest().starts_with(end) {
                let t = self.s[at..self.i].to_string();
                self.i += end.len();
                return Ok(t);
            }
            if !is_char(self.next()?) {
                return Err(Reject("character"));
            }
        }
    }
    fn comment(&mut self) -> R<X> {
        let t = self.until("--")?;
        self.expect(">", "comment")?;
        Ok(X::Comment(t))
    }
    fn pi(&mut self) -> R<X> {
        if self.peek().is_some_and(is_space) {
            return Err(Reject("no-target"));
        }
        if self.peek() == Some(':') {
            return Err(Skip);
        }
        let target = self.name()?;
        if self.peek() == Some(':') {
            return Err(Skip);
        }
        if target.eq_ignore_ascii_case("xml") {
            return Err(if self.peek().is_none() { Cut } else { Reject("target") });
        }
        if self.spaces() == 0 {
            self.expect("?>", "pi")?;
            return Ok(X::Pi(target, String::new()));
        }
        Ok(X::Pi(target, self.until("?>")?))
    }
    fn decl(&mut self) -> R<()> {
        // after "<?xml" and white space
        self.spaces();
        self.expect("version", "decl")?;
        let v = self.pseudo()?;
        if v != "1.0" {
            return Err(Skip);
        }
        let mut sp = self.spaces();
        if sp > 0 && !self.rest().starts_with("s") && !self.rest().starts_with("?") {
            self.expect("encoding", "decl")?;
            let v = self.pseudo()?;
            if !v.eq_ignore_ascii_case("utf-8") {
                return Err(Skip);
            }
            sp = self.spaces();
        }
        if sp > 0 && !self.rest().starts_with('?') {
            self.expect("standalone", "decl")?;
            let v = self.pseudo()?;
            if v != "yes" && v != "no" {
                return Err(Reject("decl"));
            }
            self.spaces();
        }
        self.expect("?>", "decl")
    }
    fn pseudo(&mut self) -> R<String> {
        self.spaces();
        self.expect("=", "decl")?;
        self.spaces();
        let q = self.next()?;
        if q != '"' && q != '\'' {
            return Err(Reject("decl"));
        }
        let at = self.i;
        loop {
            let c = self.next()?;
            if c == q {
                return Ok(self.s[at..self.i - 1].into());
            }
            if !is_char(c) || c == '<' {
                return Err(Reject("decl"));
            }
        }
    }
    fn doctype(&mut self) -> R<()> {
        // after "<!DOCTYPE": only `S Name S? >` is judged
        let cut = |p: &Self| p.rest().find('>').is_none();
        let stop = if cut(self) { Cut } else { Skip };
        let go = |p: &mut Self| -> R<()> {
            if p.spaces() == 0 {
                return Err(Skip);
            }
            p.name()?;
            p.spaces();
            if p.eat(">") { Ok(()) } else { Err(Skip) }
        };
        match go(self) {
            Ok(()) => Ok(()),
            // an unterminated one is judged, another one is not
            Err(_) => Err(stop),
        }
    }
    fn attrs(&mut self, outer: &BTreeMap<String, String>) -> R<(Vec<((Option<String>, String), String)>, BTreeMap<String, String>, bool)> {
        let mut list: Vec<((Option<String>, String), String)> = vec![];
        let empty = loop {
            let sp = self.spaces();
            if self.eat(">") {
                break false;
            }
            if self.rest().starts_with('/') {
                self.expect("/>", "tag")?;
                break true;
            }
            if self.peek().is_none() {
                return Err(Cut);
            }
            if sp == 0 {
                return Err(Reject("tag"));
            }
            let q = self.qname()?;
            self.spaces();
            self.expect("=", "attribute")?;
            self.spaces();
            let quote = self.next()?;
            if quote != '"' && quote != '\'' {
                return Err(Reject("attribute"));
            }
            let mut v = String::new();
            loop {
                let c = self.next()?;
                if c == quote {
                    break;
                }
                match c {
                    '<' if self.rest().starts_with(['/', '?', '!']) => return Err(Reject("value-lt")),
                    '<' => return Err(Reject("attribute")),
                    '&' => v.push(self.reference()?),
                    c if !is_char(c) => return Err(Reject("character")),
                    c => v.push(c),
                }
            }
            if list.iter().any(|(x, _)| *x == q) {
                let decl = |q: &(Option<String>, String)| q.0.as_deref() == Some("xmlns") || (q.0.is_none() && q.1 == "xmlns");
                let nth = list.iter().filter(|(x, _)| !decl(x)).count() + 1;
                return Err(Reject(if decl(&q) {
                    "duplicate-xmlns"
                } else if nth == 9 {
                    "duplicate-ninth"
                } else {
                    "duplicate"
                }));
            }
            list.push((q, v));
        };
        let mut scope = outer.clone();
        let mut rest = vec![];
        for ((p, n), v) in list {
            match (p.as_deref(), n.as_str()) {
                (None, "xmlns") => {
                    if v == XML_NS || v == XMLNS_NS {
                        return Err(Reject("namespace"));
                    }
                    scope.insert(String::new(), v);
                }
                (Some("xmlns"), n) => {
                    if n == "xmlns" || (n == "xml") != (v == XML_NS) || v == XMLNS_NS || v.is_empty() {
                        return Err(Reject(if n != "xmlns" && n != "xml" && (v == XML_NS || v == XMLNS_NS) { "namespace-bound" } else { "namespace" }));
                    }
                    scope.insert(n.into(), v);
                }
                _ => rest.push(((p, n), v)),
            }
        }
        Ok((rest, scope, empty))
    }
}

/// Interprets a text as a document.
pub fn judge(s: &str) -> Verdict {
    match document(s) {
        Ok(t) => Verdict::Tree(t),
        Err(Reject(w)) => Verdict::Reject(w),
        Err(Cut) => Verdict::Cut,
        Err(Skip) => Verdict::Skip,
    }
}

fn document(s: &str) -> R<Vec<X>> {
    let mut p = P { s: s.strip_prefix('\u{feff}').unwrap_or(s), i: 0 };
    let mut out: Vec<X> = vec![];
    let mut stack: Vec<Open> = vec![];
    let (mut root, mut doctype) = (false, false);
    let mut text = String::new();
    let global: BTreeMap<String, String> = BTreeMap::new();
    if p.rest().starts_with("<?xml") && p.rest()[5..].chars().next().is_none_or(is_space) {
        p.eat("<?xml");
        if p.peek().is_none() {
            return Err(Cut);
        }
        p.decl()?;
    }
    fn put(x: X, stack: &mut [Open], out: &mut Vec<X>) {
        stack.last_mut().map_or(out, |o| &mut o.kids).push(x);
    }
    fn flush(text: &mut String, stack: &mut [Open], out: &mut Vec<X>) {
        let t = std::mem::take(text);
        if !t.chars().all(is_space) {
            put(X::Text(t), stack, out);
        } else if !t.is_empty() && matches!(stack.last().map(|o| o.kids.last()), Some(Some(X::CData(_)))) {
            put(X::Space(t), stack, out);
        }
    }
    loop {
        let inside = !stack.is_empty();
        let Some(c) = p.peek() else {
            return if root && !inside { Ok(out) } else { Err(Cut) };
        };
        if c != '<' {
            p.next()?;
            if !inside {
                if !is_space(c) {
                    return Err(Reject("outside"));
                }
                continue;
            }
            match c {
                '&' => text.push(p.reference()?),
                ']' if p.rest().starts_with("]>") => return Err(Reject("cdata-end")),
                c if !is_char(c) => return Err(Reject("character")),
                c => text.push(c),
            }
            continue;
        }
        if p.eat("<!--") {
            flush(&mut text, &mut stack, &mut out);
            let c = p.comment()?;
            put(c, &mut stack, &mut out);
        } else if inside && p.eat("<![CDATA[") {
            flush(&mut text, &mut stack, &mut out);
            let c = p.until("]]>")?;
            put(X::CData(c), &mut stack, &mut out);
        } else if !root && !doctype && p.eat("<!DOCTYPE") {
            p.doctype()?;
            doctype = true;
        } else if p.cut_in("<!--") || (inside && p.cut_in("<![CDATA[")) || (!root && !doctype && p.cut_in("<!DOCTYPE")) {
            return Err(Cut);
        } else if p.rest().starts_with("<!") {
            return Err(Reject("markup"));
        } else if p.eat("<?") {
            flush(&mut text, &mut stack, &mut out);
            let x = p.pi()?;
            put(x, &mut stack, &mut out);
        } else if p.eat("</") {
            let Some(o) = stack.last() else { return Err(Reject("stray end")) };
            // the name has to be the one that is open
            let want = o.qname.0.iter().map(|p| format!("{p}:")).collect::<String>() + &o.qname.1;
            p.expect(&want, "mismatch")?;
            p.spaces();
            p.expect(">", "mismatch")?;
            flush(&mut text, &mut stack, &mut out);
            let o = stack.pop().unwrap();
            let x = close(o);
            put(x, &mut stack, &mut out);
        } else {
            p.eat("<");
            if !inside && root {
                // a second root element, or the start of something that cannot be any other thing
                return Err(if p.peek().is_none() { Cut } else { Reject("several roots") });
            }
            let qname = p.qname()?;
            let (list, scope, empty) = p.attrs(stack.last().map_or(&global, |o| &o.scope))?;
            if let Some(x) = &qname.0 {
                if x == "xmlns" || (x != "xml" && !scope.contains_key(x)) {
                    return Err(Reject("prefix"));
                }
                if x == "xml" {
                    return Err(Skip);
                }
            }
            let mut seen: HashMap<(String, String), ()> = HashMap::new();
            let mut attrs: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for ((x, n), v) in list {
                if let Some(x) = &x {
                    let uri = match x.as_str() {
                        "xml" => XML_NS,
                        x => scope.get(x).ok_or(Reject("prefix"))?,
                    };
                    if seen.insert((uri.into(), n.clone()), ()).is_some() {
                        return Err(Reject("duplicate-expanded"));
                    }
                }
                attrs.entry(n).or_default().push(v);
            }
            flush(&mut text, &mut stack, &mut out);
            root = true;
            let o = Open { qname, attrs, scope, kids: vec![] };
            if empty {
                let x = close(o);
                put(x, &mut stack, &mut out);
            } else {
                stack.push(o);
            }
        }
    }
}

fn close(o: Open) -> X {
    let ns = o.scope.get(o.qname.0.as_deref().unwrap_or("")).filter(|u| !u.is_empty()).cloned();
    X::El { prefix: o.qname.0, ns, name: o.qname.1, attrs: o.attrs, scope: o.scope, kids: o.kids }
}

/// Line ends and white space in values may come normalized, as the standard says, or as written.
fn lines(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\r', "\n")
}
fn same_text(a: &str, b: &str) -> bool {
    a == b || (a.contains('\r') && lines(a) == lines(b))
}
fn same_value(a: &str, b: &str) -> bool {
    let n = |s: &str| lines(s).replace(['\t', '\n'], " ");
    a == b || n(a) == n(b)
}

/// The tree without optional white space.
pub fn plain(t: &[X]) -> Vec<X> {
    t.iter()
        .filter(|x| !matches!(x, X::Space(_)))
        .map(|x| match x {
            X::El { prefix, ns, name, attrs, scope, kids } => X::El {
                prefix: prefix.clone(),
                ns: ns.clone(),
                name: name.clone(),
                attrs: attrs.clone(),
                scope: scope.clone(),
                kids: plain(kids),
            },
            x => x.clone(),
        })
        .collect()
}

/// Whether the nodes are the ones expected. Of attributes with the same local name, any may be there.
pub fn same(want: &[X], got: &[&XMLNode]) -> Result<(), String> {
    let mut all = vec![];
    for w in want {
        match (w, got.get(all.len())) {
            (X::Space(a), Some(XMLNode::Text(b))) if same_text(a, b) => all.push(w),
            (X::Space(_), _) => {}
            _ => all.push(w),
        }
    }
    let want = all;
    if want.len() != got.len() {
        return Err(format!("{} nodes instead of {}: {got:?}, expected {want:?}", got.len(), want.len()));
    }
    for (w, g) in want.iter().zip(got) {
        let bad = |what: &str| Err(format!("{what}: got {g:?}, expected {w:?}"));
        match (w, g) {
            (X::Text(a) | X::Space(a), XMLNode::Text(b)) if same_text(a, b) => {}
            (X::CData(a), XMLNode::CData(b)) if same_text(a, b) => {}
            (X::Comment(a), XMLNode::Comment(b)) if same_text(a, b) => {}
            (X::Pi(a, d), XMLNode::ProcessingInstruction(b, e))
                if a == b && same_text(d.trim_start_matches(is_space), e.as_deref().unwrap_or("").trim_start_matches(is_space)) => {}
            (X::El { prefix, ns, name, attrs, scope, kids }, XMLNode::Element(e)) => {
                if *prefix != e.prefix || *ns != e.namespace || *name != e.name {
                    return bad("name");
                }
                if attrs.len() != e.attributes.len() || !attrs.keys().eq(e.attributes.keys()) {
                    return bad("attribute names");
                }
                for (vs, v) in attrs.values().zip(e.attributes.values()) {
                    if !vs.iter().any(|x| same_value(x, v)) {
                        return bad("attribute value");
                    }
                }
                let bound = |k: &str, v: &str| k != "xml" && k != "xmlns" && !(k.is_empty() && v.is_empty());
                let a: Vec<_> = scope.iter().filter(|(k, v)| bound(k, v)).collect();
                let b: Vec<_> = e.namespaces.iter().flat_map(|n| n.0.iter()).filter(|(k, v)| bound(k, v)).collect();
                if a != b {
                    return bad("namespaces in scope");
                }
                same(kids, &e.children.iter().collect::<Vec<_>>())?;
            }
            _ => return bad("node"),
        }
    }
    Ok(())
}
