//! The reference model of strict HTML: a character-level automaton with a stack of open elements,
//! written from the properties' wording and the HTML standard's syntax rules. Its verdict on a
//! document is a tree, a rejection, or that the properties do not say (corners of the syntax that
//! the HTML standard itself calls errors without soupy promising anything about them).

use std::collections::BTreeMap;

use crate::{charref::decode, tree::T};

pub const VOID: &[&str] = &[
    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr",
];
pub const RAW: &[&str] = &["script", "style"];

pub fn is_void(name: &str) -> bool {
    VOID.iter().any(|v| v.eq_ignore_ascii_case(name))
}
pub fn is_raw(name: &str) -> bool {
    RAW.iter().any(|v| v.eq_ignore_ascii_case(name))
}
fn is_ws(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\x0c' | '\r' | ' ')
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Tree(Vec<T>),
    Reject,
    DontCare,
}

type Attrs = BTreeMap<String, String>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum St {
    Data,
    Lt,
    Bang,
    Comment,
    DoctypeWs,
    Doctype,
    TagName,
    /// in a tag, between attributes; whether whitespace separates from what came before
    Before(bool),
    AttrName,
    AfterName,
    BeforeValue,
    Quoted(char),
    Unquoted,
    Slash,
    Raw,
    EndName,
    EndWs,
    Rejected,
    Unspecified,
}

#[derive(Clone, Debug)]
struct Open {
    name: String,
    attrs: Attrs,
    kids: Vec<T>,
}

#[derive(Clone, Debug)]
pub struct Model {
    st: St,
    buf: String,
    tag: String,
    attr: String,
    attrs: Attrs,
    stack: Vec<Open>,
    top: Vec<T>,
}

impl Default for Model {
    fn default() -> Self {
        Self::new()
    }
}

impl Model {
    pub fn new() -> Self {
        Model {
            st: St::Data,
            buf: String::new(),
            tag: String::new(),
            attr: String::new(),
            attrs: Attrs::new(),
            stack: vec![],
            top: vec![],
        }
    }

    /// No continuation can change the verdict any more.
    pub fn dead(&self) -> bool {
        matches!(self.st, St::Rejected | St::Unspecified)
    }

    pub fn rejected(&self) -> bool {
        self.st == St::Rejected
    }

    /// Whether the document could end here, and how deep it is
    pub fn complete(&self) -> bool {
        self.st == St::Data && self.stack.is_empty()
    }

    /// The control state: what decides which continuations are accepted. Contents are abstracted
    /// away, except for what the automaton still compares.
    pub fn control(&self) -> u64 {
        let names: Vec<_> = self.stack.iter().map(|o| o.name.to_ascii_lowercase()).collect();
        let tail: String = match self.st {
            St::Data | St::Quoted(_) | St::Unquoted | St::Doctype => String::new(),
            St::Comment => {
                let n = self.buf.chars().count();
                self.buf.chars().skip(n.saturating_sub(3)).collect::<String>() + if n < 3 { "^" } else { "" }
            }
            _ => self.buf.clone(),
        };
        let s = format!("{:?}|{tail}|{names:?}|{}", self.st, if matches!(self.st, St::Data) { "" } else { &self.tag });
        crate::engine::fnv(3, s.as_bytes())
    }

    fn push(&mut self, n: T) {
        match self.stack.last_mut() {
            Some(o) => o.kids.push(n),
            None => self.top.push(n),
        }
    }

    fn flush_text(&mut self) {
        if !self.buf.is_empty() {
            let t = decode(&self.buf, false);
            self.buf.clear();
            self.push(T::Text(t));
        }
    }

    fn put_attr(&mut self, value: &str) {
        let name = std::mem::take(&mut self.attr);
        let value = decode(value, true);
        self.attrs.entry(name).or_insert(value);
    }

    fn open(&mut self, closed: bool) -> St {
        let name = std::mem::take(&mut self.tag);
        let attrs = std::mem::take(&mut self.attrs);
        self.buf.clear();
        if is_void(&name) {
            self.push(T::Void { name, attrs });
        } else if is_raw(&name) {
            if closed {
                self.push(T::Raw { name, attrs, content: String::new() });
            } else {
                self.tag = name;
                self.attrs = attrs;
                return St::Raw;
            }
        } else if closed {
            self.push(T::El { name, attrs, kids: vec![] });
        } else {
            self.stack.push(Open { name, attrs, kids: vec![] });
        }
        St::Data
    }

    fn close(&mut self) -> St {
        let name = std::mem::take(&mut self.buf);
        match self.stack.pop() {
            Some(o) if o.name.eq_ignore_ascii_case(&name) => {
                self.push(T::El { name: o.name, attrs: o.attrs, kids: o.kids });
                St::Data
            }
            _ => St::Rejected,
        }
    }

    pub fn feed(&mut self, s: &str) {
        for c in s.chars() {
            self.step(c);
        }
    }

    pub fn step(&mut self, c: char) {
        self.st = match std::mem::replace(&mut self.st, St::Rejected) {
            St::Data => {
                if c == '<' {
                    self.flush_text();
                    St::Lt
                } else {
                    self.buf.push(c);
                    St::Data
                }
            }
            St::Lt => match c {
                '!' => {
                    self.buf.clear();
                    St::Bang
                }
                '/' => {
                    self.buf.clear();
                    St::EndName
                }
                c if c.is_ascii_digit() => St::Unspecified,
                c if c.is_ascii_alphabetic() => {
                    self.tag.clear();
                    self.tag.push(c);
                    self.attrs.clear();
                    St::TagName
                }
                _ => St::Rejected,
            },
            St::Bang => {
                self.buf.push(c);
                if self.buf == "--" {
                    self.buf.clear();
                    St::Comment
                } else if self.buf.eq_ignore_ascii_case("doctype") {
                    self.buf.clear();
                    St::DoctypeWs
                } else if "--".starts_with(&self.buf)
                    || (self.buf.is_ascii() && "doctype".starts_with(&self.buf.to_ascii_lowercase()))
                {
                    St::Bang
                } else {
                    St::Rejected
                }
            }
            St::Comment => {
                self.buf.push(c);
                if self.buf == ">" || self.buf == "->" || self.buf.ends_with("--!>") {
                    St::Unspecified
                } else if self.buf.ends_with("-->") {
                    self.buf.truncate(self.buf.len() - 3);
                    let t = std::mem::take(&mut self.buf);
                    self.push(T::Comment(t));
                    St::Data
                } else {
                    St::Comment
                }
            }
            St::DoctypeWs => {
                if is_ws(c) {
                    St::Doctype
                } else {
                    St::Rejected
                }
            }
            St::Doctype => {
                if c == '>' {
                    if self.buf.is_empty() {
                        St::Unspecified
                    } else {
                        let t = std::mem::take(&mut self.buf);
                        self.push(T::Doctype(t));
                        St::Data
                    }
                } else {
                    if !(self.buf.is_empty() && is_ws(c)) {
                        self.buf.push(c);
                    }
                    St::Doctype
                }
            }
            St::TagName => match c {
                c if is_ws(c) => St::Before(true),
                '/' => St::Slash,
                '>' => self.open(false),
                '"' | '\'' | '=' => St::Rejected,
                '<' => St::Unspecified,
                c => {
                    self.tag.push(c);
                    St::TagName
                }
            },
            St::Before(sep) => match c {
                c if is_ws(c) => St::Before(true),
                '/' => St::Slash,
                '>' => self.open(false),
                '"' | '\'' | '=' => St::Rejected,
                '<' => St::Unspecified,
                _ if !sep => St::Unspecified,
                c => {
                    self.attr = c.into();
                    St::AttrName
                }
            },
            St::AttrName => match c {
                c if is_ws(c) => St::AfterName,
                '=' => St::BeforeValue,
                '/' => {
                    self.put_attr("");
                    St::Slash
                }
                '>' => {
                    self.put_attr("");
                    self.open(false)
                }
                '"' | '\'' => St::Rejected,
                '<' => St::Unspecified,
                c => {
                    self.attr.push(c);
                    St::AttrName
                }
            },
            St::AfterName => match c {
                c if is_ws(c) => St::AfterName,
                '=' => St::BeforeValue,
                '/' => {
                    self.put_attr("");
                    St::Slash
                }
                '>' => {
                    self.put_attr("");
                    self.open(false)
                }
                '"' | '\'' => St::Rejected,
                '<' => St::Unspecified,
                c => {
                    self.put_attr("");
                    self.attr = c.into();
                    St::AttrName
                }
            },
            St::BeforeValue => {
                self.buf.clear();
                match c {
                    c if is_ws(c) => St::BeforeValue,
                    '"' | '\'' => St::Quoted(c),
                    '>' | '=' | '<' | '`' => St::Rejected,
                    c => {
                        self.buf.push(c);
                        St::Unquoted
                    }
                }
            }
            St::Quoted(q) => {
                if c == q {
                    let v = std::mem::take(&mut self.buf);
                    self.put_attr(&v);
                    St::Before(false)
                } else {
                    self.buf.push(c);
                    St::Quoted(q)
                }
            }
            St::Unquoted => {
                let done = |m: &mut Self| {
                    let v = std::mem::take(&mut m.buf);
                    m.put_attr(&v);
                };
                match c {
                    c if is_ws(c) => {
                        done(self);
                        St::Before(true)
                    }
                    '>' => {
                        done(self);
                        self.open(false)
                    }
                    '"' | '\'' | '=' => St::Rejected,
                    '<' | '`' => St::Unspecified,
                    c => {
                        self.buf.push(c);
                        St::Unquoted
                    }
                }
            }
            St::Slash => {
                if c == '>' {
                    self.open(true)
                } else {
                    St::Rejected
                }
            }
            St::Raw => {
                self.buf.push(c);
                if c == '>' && self.ends_raw() {
                    let at = self.buf.rfind("</").unwrap();
                    let content = &self.buf[..at];
                    let trimmed = content.trim();
                    if trimmed == content.trim_matches(is_ws) {
                        let content = trimmed.to_string();
                        let name = std::mem::take(&mut self.tag);
                        let attrs = std::mem::take(&mut self.attrs);
                        self.buf.clear();
                        self.push(T::Raw { name, attrs, content });
                        St::Data
                    } else {
                        St::Unspecified
                    }
                } else {
                    St::Raw
                }
            }
            St::EndName => match c {
                '>' if !self.buf.is_empty() => self.close(),
                c if is_ws(c) && !self.buf.is_empty() => St::EndWs,
                '"' | '\'' | '<' | '/' | '=' | '>' => St::Rejected,
                c if self.buf.is_empty() && !c.is_ascii_alphabetic() => St::Rejected,
                c => {
                    self.buf.push(c);
                    St::EndName
                }
            },
            St::EndWs => match c {
                c if is_ws(c) => St::EndWs,
                '>' => self.close(),
                _ => St::Rejected,
            },
            s @ (St::Rejected | St::Unspecified) => s,
        };
    }

    /// Whether `buf`, which ends with '>', ends with the raw element's own end tag.
    fn ends_raw(&self) -> bool {
        let b = self.buf[..self.buf.len() - 1].trim_end_matches(is_ws);
        let n = self.tag.len();
        b.len() >= n + 2
            && b.is_char_boundary(b.len() - n)
            && b[b.len() - n..].eq_ignore_ascii_case(&self.tag)
            && b[..b.len() - n].ends_with("</")
    }

    pub fn finish(mut self) -> Verdict {
        match self.st {
            St::Unspecified => Verdict::DontCare,
            St::Data if self.stack.is_empty() => {
                self.flush_text();
                Verdict::Tree(self.top)
            }
            // `<!-->`, `<!--->`: an empty comment for browsers
            _ => Verdict::Reject,
        }
    }
}

pub fn verdict(doc: &str) -> Verdict {
    let mut m = Model::new();
    m.feed(doc);
    m.finish()
}
