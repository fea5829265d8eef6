//! Alphabets taken from the code under test: the string, character and number literals of /repo/src
//! (tests left out), together with well-known strings. A constant that the code singles out is
//! thereby always part of what is enumerated; what is right for it is up to the oracles.

use std::{path::Path, sync::OnceLock};

#[derive(Default)]
pub struct Lits {
    pub strings: Vec<String>,
    pub numbers: Vec<usize>,
}

fn visit(dir: &Path, out: &mut Lits) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    let mut paths: Vec<_> = entries.filter_map(|e| Some(e.ok()?.path())).collect();
    paths.sort();
    for p in paths {
        if p.is_dir() {
            visit(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(text) = std::fs::read_to_string(&p) {
                // unit tests come last in a file
                let text = text.split("#[cfg(test)]").next().unwrap_or("");
                // the table of named references is C04's own alphabet
                let text: String =
                    text.lines().filter(|l| !(l.trim_start().starts_with("\"&") && l.contains("=>"))).map(|l| format!("{l}\n")).collect();
                scan(&text, out);
            }
        }
    }
}

fn ident(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// A lexer that is good enough to find the literals; what it gets wrong only changes which inputs
/// are tried.
fn scan(text: &str, out: &mut Lits) {
    let s: Vec<char> = text.chars().collect();
    let at = |i: usize| s.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    let mut last_number: Option<(usize, usize)> = None;
    while i < s.len() {
        let c = s[i];
        if c == '/' && at(i + 1) == '/' {
            while i < s.len() && s[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < s.len() && !(s[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if c == '#' && (at(i + 1) == '[' || at(i + 1) == '!' && at(i + 2) == '[') {
            // an attribute
            let mut depth = 0;
            while i < s.len() {
                match s[i] {
                    '[' => depth += 1,
                    ']' => {
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    _ => {}
                }
                i += 1;
            }
            i += 1;
        } else if c == 'r' && (at(i + 1) == '"' || at(i + 1) == '#') && (i == 0 || !ident(s[i - 1]) || s[i - 1] == 'b') {
            let mut hashes = 0;
            while at(i + 1 + hashes) == '#' {
                hashes += 1;
            }
            if at(i + 1 + hashes) != '"' {
                i += 1;
                continue;
            }
            i += 2 + hashes;
            let start = i;
            while i < s.len() && !(s[i] == '"' && (0..hashes).all(|k| at(i + 1 + k) == '#')) {
                i += 1;
            }
            out.strings.push(s[start..i.min(s.len())].iter().collect());
            i += 1 + hashes;
        } else if c == '"' {
            i += 1;
            let mut lit = String::new();
            while i < s.len() && s[i] != '"' {
                i += escape(&s, i, &mut lit);
            }
            out.strings.push(lit);
            i += 1;
        } else if c == '\'' {
            let mut lit = String::new();
            let n = escape(&s, i + 1, &mut lit);
            if at(i + 1 + n) == '\'' && at(i + 1) != '\'' {
                out.strings.push(lit);
                i += n + 2;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let start = i;
            while ident(at(i)) {
                i += 1;
            }
            let mut w: String = s[start..i].iter().filter(|c| **c != '_').collect();
            for suffix in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
                if let Some(x) = w.strip_suffix(suffix) {
                    w = x.into();
                    break;
                }
            }
            let v = if let Some(h) = w.strip_prefix("0x") {
                usize::from_str_radix(h, 16)
            } else if let Some(b) = w.strip_prefix("0b") {
                usize::from_str_radix(b, 2)
            } else {
                w.parse()
            };
            if let Ok(v) = v {
                out.numbers.push(v);
                // `a << b`, `a * b`, `a + b`, `a - b`
                if let Some((end, a)) = last_number {
                    let between: String = s[end..start].iter().filter(|c| !c.is_whitespace()).collect();
                    let r = match between.as_str() {
                        "<<" => a.checked_shl(v as u32),
                        "*" => a.checked_mul(v),
                        "+" => a.checked_add(v),
                        "-" => a.checked_sub(v),
                        _ => None,
                    };
                    out.numbers.extend(r);
                }
                last_number = Some((i, v));
            }
        } else if ident(c) {
            while ident(at(i)) {
                i += 1;
                // r"..." and b'..' start with a letter, but come after something else
                if i < s.len() && (s[i] == '"' || s[i] == '#') && s[i - 1] == 'r' && i >= 2 && !ident(s[i - 2]) {
                    break;
                }
            }
        } else {
            i += 1;
        }
    }
}

/// Appends the character at `i`, which may be escaped; returns its length in the source.
fn escape(s: &[char], i: usize, out: &mut String) -> usize {
    let at = |i: usize| s.get(i).copied().unwrap_or('\0');
    if at(i) != '\\' {
        out.push(at(i));
        return 1;
    }
    match at(i + 1) {
        'n' => out.push('\n'),
        't' => out.push('\t'),
        'r' => out.push('\r'),
        '0' => out.push('\0'),
        'x' => {
            let h: String = s[(i + 2).min(s.len())..(i + 4).min(s.len())].iter().collect();
            out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            return 4;
        }
        'u' => {
            let mut n = i + 3;
            let mut h = String::new();
            while n < s.len() && s[n] != '}' {
                h.push(s[n]);
                n += 1;
            }
            out.extend(u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32));
            return n + 1 - i;
        }
        '\n' => {
            let mut n = i + 1;
            while at(n).is_whitespace() {
                n += 1;
            }
            return n - i;
        }
        c => out.push(c),
    }
    2
}

fn lits() -> &'static Lits {
    static LITS: OnceLock<Lits> = OnceLock::new();
    LITS.get_or_init(|| {
        let mut l = Lits::default();
        visit(Path::new("/repo/src"), &mut l);
        // how a constant looks inside a regular expression or format string is of no use
        l.strings.retain(|s| s.len() <= 80);
        l.strings.sort();
        l.strings.dedup();
        l.numbers.sort_unstable();
        l.numbers.dedup();
        l
    })
}

/// The numbers that stand in the code, as sizes: each with its neighbours.
pub fn numbers() -> &'static [usize] {
    &lits().numbers
}

/// The strings that stand in the code.
pub fn code() -> &'static [String] {
    &lits().strings
}

/// Strings that programs like to single out.
const KNOWN: &[&str] = &[
    "", " ", "  ", "\n", "\r\n", "\r", "\t", "\u{c}", "\u{a0}", "\u{feff}", "\u{200b}", "\u{2028}", "\u{fffd}", "\u{85}", "\0", "\u{b}",
    "a", "A", "1", "0", "-1", "+", "true", "false", "null", "undefined", "None", "NaN", "yes", "é", "ß", "İ", "ſ", "K", "😀", "e\u{301}",
    "id", "class", "href", "src", "style", "title", "lang", "type", "value", "name", "content", "data-x", "data", "alt", "rel", "checked",
    "disabled", "xml", "xml:lang", "xml:space", "lang", "xlink:href", "xmlns", "xmlns:x", "x:y", ":", "aria-label", "onclick", "is",
    "html", "head", "body", "p", "div", "span", "br", "img", "script", "style", "svg", "math", "template", "table", "li", "pre", "textarea",
    "http://www.w3.org/1999/xhtml", "http://www.w3.org/2000/svg", "http://www.w3.org/1998/Math/MathML", "http://www.w3.org/1999/xlink",
    "urn:x", "https://example.com/?a=1&amp;b=2#c", "/index.html", "javascript:x", "a b", " a", "a ", "a  b", "a\nb", "text/html", "utf-8",
    "UTF-8", "html PUBLIC \"-//W3C//DTD HTML 4.01//EN\"", "default", "preserve", "_blank", ".x", "#x", "*", "a.b", "a-b", "a_b", "^a$", "[a]",
    "\\", "`", "$1", "%20", "{}", "{0}", "//", "/*", "*/", "<!--", "-->", "--", "-", "<![CDATA[", "]]>", "]]", "<?x?>", "?>", "?", "<x>", "</x>", "</",
    "<x/>", "<", ">", "&", "&amp;", "&lt;", "&#65;", "&amp;amp;", "&nbsp;", "&nbsp", "&x;", "&&", ";", "=", "\"", "'", "/", "!", "<!", "<!doctype x>",
];

/// `KNOWN` and the strings in the code, each once.
pub fn dictionary() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for s in KNOWN.iter().map(|s| (*s).to_string()).chain(code().iter().cloned()) {
        if !v.contains(&s) {
            v.push(s);
        }
    }
    // so many constants are no longer a few that are singled out
    v.truncate(600);
    v
}

/// Pairs of strings of every length up to `all` and some longer, up to `top`, that differ in one letter
/// (in the letter, its case or its last byte) or the order of two at either end, in the middle or next to a
/// power of two, or in length by one.
pub fn similar(all: usize, top: usize) -> Vec<(String, String)> {
    let mut v = vec![];
    for n in crate::gen::sizes(all, top) {
        let mut at = vec![0, n / 2, n.saturating_sub(1)];
        at.extend((2..20).map(|p| 1usize << p).flat_map(|p| [p - 1, p]));
        at.retain(|p| *p < n);
        at.sort_unstable();
        at.dedup();
        let x = "x".repeat(n);
        for p in at {
            for (k, c) in [("x", "y"), ("x", "X"), ("é", "è")] {
                let with = |c: &str| format!("{}{c}{}", &x[..p], &x[p + 1..]);
                v.push((with(k), with(c)));
            }
            // the same letters, sum or bits in another order
            if p + 1 < n {
                for (k, c) in [("ab", "ba"), ("ac", "bb")] {
                    let with = |c: &str| format!("{}{c}{}", &x[..p], &x[p + 2..]);
                    v.push((with(k), with(c)));
                }
            }
        }
        if n > 1 {
            v.push((format!("a{}b", &x[2..]), format!("b{}a", &x[2..])));
            v.push((format!("ab{}", &x[2..]), format!("{}ab", &x[2..])));
        }
        v.push((format!("{x}x"), x.clone()));
        v.push((format!("{x}\0"), x.clone()));
        v.push((format!("{x} "), x));
    }
    v
}
