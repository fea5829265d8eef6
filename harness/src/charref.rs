//! Reference decoder for character references, written from the HTML standard (13.2.5.72 ff.). The
//! table of names is the one of the html5ever project, not that of soupy.

use std::collections::BTreeMap;
use std::sync::OnceLock;

/// name (without '&', with ';' if it has one) -> characters
pub fn names() -> &'static BTreeMap<&'static str, String> {
    static N: OnceLock<BTreeMap<&'static str, String>> = OnceLock::new();
    N.get_or_init(|| {
        markup5ever::data::NAMED_ENTITIES
            .entries()
            .filter(|(_, v)| v.0 != 0)
            .map(|(k, v)| {
                let mut s = String::from(char::from_u32(v.0).unwrap());
                if v.1 != 0 {
                    s.push(char::from_u32(v.1).unwrap());
                }
                (*k, s)
            })
            .collect()
    })
}

/// The standard's table for numbers 0x80 to 0x9F.
const C1: &[(u32, u32)] = &[
    (0x80, 0x20ac), (0x82, 0x201a), (0x83, 0x0192), (0x84, 0x201e), (0x85, 0x2026), (0x86, 0x2020),
    (0x87, 0x2021), (0x88, 0x02c6), (0x89, 0x2030), (0x8a, 0x0160), (0x8b, 0x2039), (0x8c, 0x0152),
    (0x8e, 0x017d), (0x91, 0x2018), (0x92, 0x2019), (0x93, 0x201c), (0x94, 0x201d), (0x95, 0x2022),
    (0x96, 0x2013), (0x97, 0x2014), (0x98, 0x02dc), (0x99, 0x2122), (0x9a, 0x0161), (0x9b, 0x203a),
    (0x9c, 0x0153), (0x9e, 0x017e), (0x9f, 0x0178),
];

/// Character of a numeric reference; `None` is a number beyond u64.
pub fn number(n: Option<u64>) -> char {
    let Some(n) = n else { return '\u{fffd}' };
    if n == 0 || n > 0x10ffff || (0xd800..=0xdfff).contains(&n) {
        return '\u{fffd}';
    }
    let n = n as u32;
    if let Some(x) = C1.iter().find(|x| x.0 == n) {
        return char::from_u32(x.1).unwrap();
    }
    char::from_u32(n).unwrap()
}

pub fn decode(s: &str, attr: bool) -> String {
    let mut out = String::with_capacity(s.len());
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'&' {
            let c = s[i..].chars().next().unwrap();
            out.push(c);
            i += c.len_utf8();
            continue;
        }
        let rest = &s[i + 1..];
        let rb = rest.as_bytes();
        if rb.first().is_some_and(u8::is_ascii_alphanumeric) {
            // the longest name that the text continues with
            let mut best = None;
            for n in 1..=rest.len().min(40) {
                if !rest.is_char_boundary(n) {
                    continue;
                }
                if let Some(v) = names().get(&rest[..n]) {
                    best = Some((n, v));
                }
            }
            if let Some((n, v)) = best {
                let semi = rb[n - 1] == b';';
                let next = rb.get(n).copied().unwrap_or(0);
                if attr && !semi && (next == b'=' || next.is_ascii_alphanumeric()) {
                    out.push('&');
                    out += &rest[..n];
                } else {
                    out += v;
                }
                i += 1 + n;
                continue;
            }
        } else if rb.first() == Some(&b'#') {
            let hex = matches!(rb.get(1), Some(b'x' | b'X'));
            let start = if hex { 2 } else { 1 };
            let radix = if hex { 16 } else { 10 };
            let mut end = start;
            let mut n: Option<u64> = Some(0);
            while end < rb.len() && (rb[end] as char).is_digit(radix) {
                let d = u64::from((rb[end] as char).to_digit(radix).unwrap());
                n = n.and_then(|n| n.checked_mul(u64::from(radix))).and_then(|n| n.checked_add(d));
                end += 1;
            }
            if end > start {
                out.push(number(n));
                if rb.get(end) == Some(&b';') {
                    end += 1;
                }
                i += 1 + end;
                continue;
            }
        }
        out.push('&');
        i += 1;
    }
    out
}
