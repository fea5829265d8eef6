From 99f9b8ec933150cad222a10f104defdfb58cbb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 01/13] fix: strict HTML unquoted attribute values may contain
 the letters t, n, f, r and a backslash

The excluded set was a raw string, so the escapes in it stood for letters:
<input type=text> and <a href=foo> were rejected as malformed.
---
 src/parser/html/strict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index 16359c3..6b01382 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -108,7 +108,7 @@ where
                 multispace0,
                 alt((
                     // unquoted
-                    separated_pair(attr, ws(char('=')), is_not(r#"\t\n\f\r "'=<>`"#)),
+                    separated_pair(attr, ws(char('=')), is_not("\t\n\x0C\r \"'=<>`")),
                     // quoted
                     separated_pair(
                         attr,
-- 
2.43.0


From 0eb4994464a7a22598d7b58a138fd21d3b3d851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 02/13] fix: strict HTML attribute names end at any whitespace

Only a space ended a name, so <a disabled\nid="x"> had one attribute
called "disabled\nid". Form feed is whitespace in HTML, too.
---
 src/parser/html/strict.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index 6b01382..329c564 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -13,11 +13,11 @@ use nom::{
         tag,
         tag_no_case,
         take_until,
+        take_while,
     },
     character::complete::{
         alphanumeric1,
         char,
-        multispace0,
     },
     combinator::map,
     multi::many0,
@@ -60,11 +60,19 @@ impl<'a> crate::parser::Parser for StrictHTMLParser<'a> {
     }
 }
 
+/// Skips any number of whitespace characters, as defined by HTML
+fn ws0<'a, E>(i: &'a str) -> IResult<&'a str, &'a str, E>
+where
+    E: nom::error::ParseError<&'a str>,
+{
+    take_while(|c| matches!(c, '\t' | '\n' | '\x0C' | '\r' | ' '))(i)
+}
+
 fn attr<'a, E>(i: &'a str) -> IResult<&'a str, &'a str, E>
 where
     E: nom::error::ParseError<&'a str>,
 {
-    is_not(r#" "'>/="#)(i)
+    is_not("\t\n\x0C\r \"'>/=")(i)
 }
 
 fn ws<'a, F, O, E: nom::error::ParseError<&'a str>>(
@@ -73,7 +81,7 @@ fn ws<'a, F, O, E: nom::error::ParseError<&'a str>>(
 where
     F: Fn(&'a str) -> IResult<&'a str, O, E>,
 {
-    delimited(multispace0, inner, multispace0)
+    delimited(ws0, inner, ws0)
 }
 
 fn take_to<'a, E: nom::error::ParseError<&'a str>>(
@@ -105,7 +113,7 @@ where
         tuple((
             inner,
             many0(preceded(
-                multispace0,
+                ws0,
                 alt((
                     // unquoted
                     separated_pair(attr, ws(char('=')), is_not("\t\n\x0C\r \"'=<>`")),
@@ -123,7 +131,7 @@ where
                 )),
             )),
             preceded(
-                multispace0,
+                ws0,
                 alt((map(tag("/>"), |_| true), map(tag(">"), |_| false))),
             ),
         )),
@@ -172,7 +180,7 @@ fn raw_element(i: &str) -> IResult<&str, HTMLNode<&str>> {
         delimited(
             tag("</"),
             tag_no_case(name),
-            preceded(multispace0, char('>')),
+            preceded(ws0, char('>')),
         ),
     )(left)?;
 
@@ -201,7 +209,7 @@ fn element(i: &str) -> IResult<&str, HTMLNode<&str>> {
         delimited(
             tag("</"),
             tag_no_case(name),
-            preceded(multispace0, char('>')),
+            preceded(ws0, char('>')),
         ),
     )(left)?;
 
-- 
2.43.0


From 41cefd96cd1340b8113f7d14d190a1cafc11a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:29 +0000
Subject: [PATCH 03/13] fix: strict HTML tag names are matched whole and
 ASCII-case-insensitively

Void and raw names matched any name they begin (<colgroup> was a void
<col group>), names stopped at the first non-alphanumeric character
(<my-element></my-element> was malformed), and comparing them with
tag_no_case panicked where a name held U+212A, the Kelvin sign.
---
 src/parser/html/strict.rs | 95 +++++++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 38 deletions(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index 329c564..89b06fd 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -19,7 +19,11 @@ use nom::{
         alphanumeric1,
         char,
     },
-    combinator::map,
+    combinator::{
+        map,
+        recognize,
+        verify,
+    },
     multi::many0,
     sequence::{
         delimited,
@@ -138,32 +142,61 @@ where
     )
 }
 
+/// Elements that are unable to contain children
+const VOID: &[&str] = &[
+    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track",
+    "wbr",
+];
+
+/// Elements that contain code
+const RAW: &[&str] = &["script", "style"];
+
+/// The whole name of a tag, like `p` or `my-element`
+fn tag_name<'a, E>(i: &'a str) -> IResult<&'a str, &'a str, E>
+where
+    E: nom::error::ParseError<&'a str>,
+{
+    recognize(pair(
+        alphanumeric1,
+        take_while(|c| !"\t\n\x0C\r \"'</=>".contains(c)),
+    ))(i)
+}
+
+/// The name of a tag, if it is one of `names`
+fn tag_name_in<'a, E>(
+    names: &'static [&'static str],
+) -> impl FnMut(&'a str) -> IResult<&'a str, &'a str, E>
+where
+    E: nom::error::ParseError<&'a str>,
+{
+    verify(tag_name, |name: &str| {
+        names.iter().any(|n| name.eq_ignore_ascii_case(n))
+    })
+}
+
+/// The end tag of the element called `name`
+fn end_tag<'a, E>(name: &'a str) -> impl FnMut(&'a str) -> IResult<&'a str, &'a str, E>
+where
+    E: nom::error::ParseError<&'a str>,
+{
+    delimited(
+        tag("</"),
+        verify(tag_name, |end: &str| end.eq_ignore_ascii_case(name)),
+        preceded(ws0, char('>')),
+    )
+}
+
 fn void(i: &str) -> IResult<&str, HTMLNode<&str>> {
-    map(
-        start_tag(alt((
-            tag_no_case("area"),
-            tag_no_case("base"),
-            tag_no_case("br"),
-            tag_no_case("col"),
-            tag_no_case("embed"),
-            tag_no_case("hr"),
-            tag_no_case("img"),
-            tag_no_case("input"),
-            tag_no_case("link"),
-            tag_no_case("meta"),
-            tag_no_case("source"),
-            tag_no_case("track"),
-            tag_no_case("wbr"),
-        ))),
-        |(name, attrs, _)| HTMLNode::Void {
+    map(start_tag(tag_name_in(VOID)), |(name, attrs, _)| {
+        HTMLNode::Void {
             name,
             attrs: attrs.into_iter().collect(),
-        },
-    )(i)
+        }
+    })(i)
 }
 
 fn raw_element(i: &str) -> IResult<&str, HTMLNode<&str>> {
-    let start = start_tag(alt((tag_no_case("script"), tag_no_case("style"))))(i)?;
+    let start = start_tag(tag_name_in(RAW))(i)?;
 
     let (left, (name, attrs, closed)) = start;
 
@@ -175,14 +208,7 @@ fn raw_element(i: &str) -> IResult<&str, HTMLNode<&str>> {
         }));
     }
 
-    let (left, content) = terminated(
-        take_until(&*format!("</{name}")),
-        delimited(
-            tag("</"),
-            tag_no_case(name),
-            preceded(ws0, char('>')),
-        ),
-    )(left)?;
+    let (left, content) = terminated(take_until(&*format!("</{name}")), end_tag(name))(left)?;
 
     Ok((left, HTMLNode::RawElement {
         name,
@@ -192,7 +218,7 @@ fn raw_element(i: &str) -> IResult<&str, HTMLNode<&str>> {
 }
 
 fn element(i: &str) -> IResult<&str, HTMLNode<&str>> {
-    let start = start_tag(alphanumeric1)(i)?;
+    let start = start_tag(tag_name)(i)?;
 
     let (left, (name, attrs, closed)) = start;
 
@@ -204,14 +230,7 @@ fn element(i: &str) -> IResult<&str, HTMLNode<&str>> {
         }));
     }
 
-    let (left, children) = terminated(
-        parse,
-        delimited(
-            tag("</"),
-            tag_no_case(name),
-            preceded(ws0, char('>')),
-        ),
-    )(left)?;
+    let (left, children) = terminated(parse, end_tag(name))(left)?;
 
     Ok((left, HTMLNode::Element {
         name,
-- 
2.43.0


From fbea4020d8cd7ad59c58f8af72711ab41b4ca091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 04/13] fix: strict HTML script and style content ends at its
 own end tag

The content was cut at the first "</script", in the case of the start
tag: <script>a</SCRIPT> became an element with parsed children, and
a "</scripts" in the code made the document malformed.
---
 src/parser/html/strict.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index 89b06fd..a796e77 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -208,7 +208,16 @@ fn raw_element(i: &str) -> IResult<&str, HTMLNode<&str>> {
         }));
     }
 
-    let (left, content) = terminated(take_until(&*format!("</{name}")), end_tag(name))(left)?;
+    let (left, content) = left
+        .match_indices("</")
+        .find_map(|(at, _)| {
+            let (after, _) = end_tag::<nom::error::Error<&str>>(name)(&left[at..]).ok()?;
+            Some((after, &left[..at]))
+        })
+        .ok_or_else(|| {
+            let error = nom::error::Error::new(left, nom::error::ErrorKind::TakeUntil);
+            nom::Err::Error(error)
+        })?;
 
     Ok((left, HTMLNode::RawElement {
         name,
-- 
2.43.0


From 5a67bf0d3b9e0bfea3775f45902094a1562653dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 05/13] fix: strict HTML doctype keyword may be followed by any
 whitespace

HTML allows one or more whitespace characters there, such as a newline;
only a single space was accepted.
---
 src/parser/html/strict.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index a796e77..40e5e9f 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -72,6 +72,14 @@ where
     take_while(|c| matches!(c, '\t' | '\n' | '\x0C' | '\r' | ' '))(i)
 }
 
+/// Skips at least one whitespace character, as defined by HTML
+fn ws1<'a, E>(i: &'a str) -> IResult<&'a str, &'a str, E>
+where
+    E: nom::error::ParseError<&'a str>,
+{
+    verify(ws0, |space: &str| !space.is_empty())(i)
+}
+
 fn attr<'a, E>(i: &'a str) -> IResult<&'a str, &'a str, E>
 where
     E: nom::error::ParseError<&'a str>,
@@ -100,7 +108,7 @@ fn comment(i: &str) -> IResult<&str, HTMLNode<&str>> {
 
 fn doctype(i: &str) -> IResult<&str, HTMLNode<&str>> {
     map(
-        preceded(tag_no_case("<!doctype "), take_to(">")),
+        preceded(pair(tag_no_case("<!doctype"), ws1), take_to(">")),
         HTMLNode::Doctype,
     )(i)
 }
-- 
2.43.0


From 9a8ab81960f479cdb4b14f4a6aa5805c580c561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 06/13] fix: strict HTML decodes &nbsp;, &shy;, &NewLine; and
 other invisible entities to their characters

Their values were editor-mangled: \u{...} inside raw strings, which stay
literal text there, a plain space for U+00A0, and indentation.
---
 src/parser/html/entities.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/parser/html/entities.rs b/src/parser/html/entities.rs
index 5051826..a1db69e 100644
--- a/src/parser/html/entities.rs
+++ b/src/parser/html/entities.rs
@@ -320,17 +320,16 @@ pub(crate) const ENTITIES: phf::Map<&'static str, &'static str> = phf::phf_map!
     "&Ncaron;" => r#"Ň"#,
     "&Ncedil;" => r#"Ņ"#,
     "&Ncy;" => r#"Н"#,
-    "&NegativeMediumSpace;" => r#"\u{200B}"#,
-    "&NegativeThickSpace;" => r#"\u{200B}"#,
-    "&NegativeThinSpace;" => r#"\u{200B}"#,
-    "&NegativeVeryThinSpace;" => r#"\u{200B}"#,
+    "&NegativeMediumSpace;" => "\u{200B}",
+    "&NegativeThickSpace;" => "\u{200B}",
+    "&NegativeThinSpace;" => "\u{200B}",
+    "&NegativeVeryThinSpace;" => "\u{200B}",
     "&NestedGreaterGreater;" => r#"≫"#,
     "&NestedLessLess;" => r#"≪"#,
-    "&NewLine;" => r#"
-    "#,
+    "&NewLine;" => "\n",
     "&Nfr;" => r#"𝔑"#,
-    "&NoBreak;" => r#"\u{2060}"#,
-    "&NonBreakingSpace;" => r#" "#,
+    "&NoBreak;" => "\u{2060}",
+    "&NonBreakingSpace;" => "\u{A0}",
     "&Nopf;" => r#"ℕ"#,
     "&Not;" => r#"⫬"#,
     "&NotCongruent;" => r#"≢"#,
@@ -531,7 +530,7 @@ pub(crate) const ENTITIES: phf::Map<&'static str, &'static str> = phf::phf_map!
     "&TRADE;" => r#"™"#,
     "&TSHcy;" => r#"Ћ"#,
     "&TScy;" => r#"Ц"#,
-    "&Tab;" => r#"  "#,
+    "&Tab;" => "\t",
     "&Tau;" => r#"Τ"#,
     "&Tcaron;" => r#"Ť"#,
     "&Tcedil;" => r#"Ţ"#,
@@ -631,7 +630,7 @@ pub(crate) const ENTITIES: phf::Map<&'static str, &'static str> = phf::phf_map!
     "&Zcaron;" => r#"Ž"#,
     "&Zcy;" => r#"З"#,
     "&Zdot;" => r#"Ż"#,
-    "&ZeroWidthSpace;" => r#"\u{200B}"#,
+    "&ZeroWidthSpace;" => "\u{200B}",
     "&Zeta;" => r#"Ζ"#,
     "&Zfr;" => r#"ℨ"#,
     "&Zopf;" => r#"ℤ"#,
@@ -1470,8 +1469,8 @@ pub(crate) const ENTITIES: phf::Map<&'static str, &'static str> = phf::phf_map!
     "&natur;" => r#"♮"#,
     "&natural;" => r#"♮"#,
     "&naturals;" => r#"ℕ"#,
-    "&nbsp" => r#" "#,
-    "&nbsp;" => r#" "#,
+    "&nbsp" => "\u{A0}",
+    "&nbsp;" => "\u{A0}",
     "&nbump;" => r#"≎̸"#,
     "&nbumpe;" => r#"≏̸"#,
     "&ncap;" => r#"⩃"#,
@@ -1898,8 +1897,8 @@ pub(crate) const ENTITIES: phf::Map<&'static str, &'static str> = phf::phf_map!
     "&shcy;" => r#"ш"#,
     "&shortmid;" => r#"∣"#,
     "&shortparallel;" => r#"∥"#,
-    "&shy" => r#"\u{AD}"#,
-    "&shy;" => r#"\u{AD}"#,
+    "&shy" => "\u{AD}",
+    "&shy;" => "\u{AD}",
     "&sigma;" => r#"σ"#,
     "&sigmaf;" => r#"ς"#,
     "&sigmav;" => r#"ς"#,
-- 
2.43.0


From bec9e0a75ea35a128731c83beba8d047b95824dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 07/13] fix: strict HTML decodes numeric character references
 by their number

Only the code points of named entities were decoded (&#65; stayed as it
is), and some to something else: &#61; to "=" and a combining mark, &#102;
to "fj". HTML replaces invalid numbers and C1 controls.
---
 src/parser/html/entities.rs | 1464 +----------------------------------
 src/parser/html/strict.rs   |   37 +-
 2 files changed, 24 insertions(+), 1477 deletions(-)

diff --git a/src/parser/html/entities.rs b/src/parser/html/entities.rs
index a1db69e..fa0df46 100644
--- a/src/parser/html/entities.rs
+++ b/src/parser/html/entities.rs
@@ -2234,1460 +2234,10 @@ pub(crate) const ENTITIES: phf::Map<&'static str, &'static str> = phf::phf_map!
     "&zwnj;" => r#"‌"#,
 };
 
-pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
-    0xc6u32 => r#"Æ"#,
-    0x26u32 => r#"&"#,
-    0xc1u32 => r#"Á"#,
-    0x102u32 => r#"Ă"#,
-    0xc2u32 => r#"Â"#,
-    0x410u32 => r#"А"#,
-    0x1d504u32 => r#"𝔄"#,
-    0xc0u32 => r#"À"#,
-    0x391u32 => r#"Α"#,
-    0x100u32 => r#"Ā"#,
-    0x2a53u32 => r#"⩓"#,
-    0x104u32 => r#"Ą"#,
-    0x1d538u32 => r#"𝔸"#,
-    0x2061u32 => r#"⁡"#,
-    0xc5u32 => r#"Å"#,
-    0x1d49cu32 => r#"𝒜"#,
-    0x2254u32 => r#"≔"#,
-    0xc3u32 => r#"Ã"#,
-    0xc4u32 => r#"Ä"#,
-    0x2216u32 => r#"∖"#,
-    0x2ae7u32 => r#"⫧"#,
-    0x2306u32 => r#"⌆"#,
-    0x411u32 => r#"Б"#,
-    0x2235u32 => r#"∵"#,
-    0x212cu32 => r#"ℬ"#,
-    0x392u32 => r#"Β"#,
-    0x1d505u32 => r#"𝔅"#,
-    0x1d539u32 => r#"𝔹"#,
-    0x2d8u32 => r#"˘"#,
-    0x224eu32 => r#"≎"#,
-    0x427u32 => r#"Ч"#,
-    0xa9u32 => r#"©"#,
-    0x106u32 => r#"Ć"#,
-    0x22d2u32 => r#"⋒"#,
-    0x2145u32 => r#"ⅅ"#,
-    0x212du32 => r#"ℭ"#,
-    0x10cu32 => r#"Č"#,
-    0xc7u32 => r#"Ç"#,
-    0x108u32 => r#"Ĉ"#,
-    0x2230u32 => r#"∰"#,
-    0x10au32 => r#"Ċ"#,
-    0xb8u32 => r#"¸"#,
-    0xb7u32 => r#"·"#,
-    0x3a7u32 => r#"Χ"#,
-    0x2299u32 => r#"⊙"#,
-    0x2296u32 => r#"⊖"#,
-    0x2295u32 => r#"⊕"#,
-    0x2297u32 => r#"⊗"#,
-    0x2232u32 => r#"∲"#,
-    0x201du32 => r#"”"#,
-    0x2019u32 => r#"’"#,
-    0x2237u32 => r#"∷"#,
-    0x2a74u32 => r#"⩴"#,
-    0x2261u32 => r#"≡"#,
-    0x222fu32 => r#"∯"#,
-    0x222eu32 => r#"∮"#,
-    0x2102u32 => r#"ℂ"#,
-    0x2210u32 => r#"∐"#,
-    0x2233u32 => r#"∳"#,
-    0x2a2fu32 => r#"⨯"#,
-    0x1d49eu32 => r#"𝒞"#,
-    0x22d3u32 => r#"⋓"#,
-    0x224du32 => r#"≍"#,
-    0x2911u32 => r#"⤑"#,
-    0x402u32 => r#"Ђ"#,
-    0x405u32 => r#"Ѕ"#,
-    0x40fu32 => r#"Џ"#,
-    0x2021u32 => r#"‡"#,
-    0x21a1u32 => r#"↡"#,
-    0x2ae4u32 => r#"⫤"#,
-    0x10eu32 => r#"Ď"#,
-    0x414u32 => r#"Д"#,
-    0x2207u32 => r#"∇"#,
-    0x394u32 => r#"Δ"#,
-    0x1d507u32 => r#"𝔇"#,
-    0xb4u32 => r#"´"#,
-    0x2d9u32 => r#"˙"#,
-    0x2ddu32 => r#"˝"#,
-    0x60u32 => r#"`"#,
-    0x2dcu32 => r#"˜"#,
-    0x22c4u32 => r#"⋄"#,
-    0x2146u32 => r#"ⅆ"#,
-    0x1d53bu32 => r#"𝔻"#,
-    0xa8u32 => r#"¨"#,
-    0x20dcu32 => r#"⃜"#,
-    0x2250u32 => r#"≐"#,
-    0x21d3u32 => r#"⇓"#,
-    0x21d0u32 => r#"⇐"#,
-    0x21d4u32 => r#"⇔"#,
-    0x27f8u32 => r#"⟸"#,
-    0x27fau32 => r#"⟺"#,
-    0x27f9u32 => r#"⟹"#,
-    0x21d2u32 => r#"⇒"#,
-    0x22a8u32 => r#"⊨"#,
-    0x21d1u32 => r#"⇑"#,
-    0x21d5u32 => r#"⇕"#,
-    0x2225u32 => r#"∥"#,
-    0x2193u32 => r#"↓"#,
-    0x2913u32 => r#"⤓"#,
-    0x21f5u32 => r#"⇵"#,
-    0x311u32 => r#"̑"#,
-    0x2950u32 => r#"⥐"#,
-    0x295eu32 => r#"⥞"#,
-    0x21bdu32 => r#"↽"#,
-    0x2956u32 => r#"⥖"#,
-    0x295fu32 => r#"⥟"#,
-    0x21c1u32 => r#"⇁"#,
-    0x2957u32 => r#"⥗"#,
-    0x22a4u32 => r#"⊤"#,
-    0x21a7u32 => r#"↧"#,
-    0x1d49fu32 => r#"𝒟"#,
-    0x110u32 => r#"Đ"#,
-    0x14au32 => r#"Ŋ"#,
-    0xd0u32 => r#"Ð"#,
-    0xc9u32 => r#"É"#,
-    0x11au32 => r#"Ě"#,
-    0xcau32 => r#"Ê"#,
-    0x42du32 => r#"Э"#,
-    0x116u32 => r#"Ė"#,
-    0x1d508u32 => r#"𝔈"#,
-    0xc8u32 => r#"È"#,
-    0x2208u32 => r#"∈"#,
-    0x112u32 => r#"Ē"#,
-    0x25fbu32 => r#"◻"#,
-    0x25abu32 => r#"▫"#,
-    0x118u32 => r#"Ę"#,
-    0x1d53cu32 => r#"𝔼"#,
-    0x395u32 => r#"Ε"#,
-    0x2a75u32 => r#"⩵"#,
-    0x2242u32 => r#"≂"#,
-    0x21ccu32 => r#"⇌"#,
-    0x2130u32 => r#"ℰ"#,
-    0x2a73u32 => r#"⩳"#,
-    0x397u32 => r#"Η"#,
-    0xcbu32 => r#"Ë"#,
-    0x2203u32 => r#"∃"#,
-    0x2147u32 => r#"ⅇ"#,
-    0x424u32 => r#"Ф"#,
-    0x1d509u32 => r#"𝔉"#,
-    0x25fcu32 => r#"◼"#,
-    0x25aau32 => r#"▪"#,
-    0x1d53du32 => r#"𝔽"#,
-    0x2200u32 => r#"∀"#,
-    0x2131u32 => r#"ℱ"#,
-    0x403u32 => r#"Ѓ"#,
-    0x3eu32 => r#">"#,
-    0x393u32 => r#"Γ"#,
-    0x3dcu32 => r#"Ϝ"#,
-    0x11eu32 => r#"Ğ"#,
-    0x122u32 => r#"Ģ"#,
-    0x11cu32 => r#"Ĝ"#,
-    0x413u32 => r#"Г"#,
-    0x120u32 => r#"Ġ"#,
-    0x1d50au32 => r#"𝔊"#,
-    0x22d9u32 => r#"⋙"#,
-    0x1d53eu32 => r#"𝔾"#,
-    0x2265u32 => r#"≥"#,
-    0x22dbu32 => r#"⋛"#,
-    0x2267u32 => r#"≧"#,
-    0x2aa2u32 => r#"⪢"#,
-    0x2277u32 => r#"≷"#,
-    0x2a7eu32 => r#"⩾"#,
-    0x2273u32 => r#"≳"#,
-    0x1d4a2u32 => r#"𝒢"#,
-    0x226bu32 => r#"≫"#,
-    0x42au32 => r#"Ъ"#,
-    0x2c7u32 => r#"ˇ"#,
-    0x5eu32 => r#"^"#,
-    0x124u32 => r#"Ĥ"#,
-    0x210cu32 => r#"ℌ"#,
-    0x210bu32 => r#"ℋ"#,
-    0x210du32 => r#"ℍ"#,
-    0x2500u32 => r#"─"#,
-    0x126u32 => r#"Ħ"#,
-    0x224fu32 => r#"≏"#,
-    0x415u32 => r#"Е"#,
-    0x132u32 => r#"Ĳ"#,
-    0x401u32 => r#"Ё"#,
-    0xcdu32 => r#"Í"#,
-    0xceu32 => r#"Î"#,
-    0x418u32 => r#"И"#,
-    0x130u32 => r#"İ"#,
-    0x2111u32 => r#"ℑ"#,
-    0xccu32 => r#"Ì"#,
-    0x12au32 => r#"Ī"#,
-    0x2148u32 => r#"ⅈ"#,
-    0x222cu32 => r#"∬"#,
-    0x222bu32 => r#"∫"#,
-    0x22c2u32 => r#"⋂"#,
-    0x2063u32 => r#"⁣"#,
-    0x2062u32 => r#"⁢"#,
-    0x12eu32 => r#"Į"#,
-    0x1d540u32 => r#"𝕀"#,
-    0x399u32 => r#"Ι"#,
-    0x2110u32 => r#"ℐ"#,
-    0x128u32 => r#"Ĩ"#,
-    0x406u32 => r#"І"#,
-    0xcfu32 => r#"Ï"#,
-    0x134u32 => r#"Ĵ"#,
-    0x419u32 => r#"Й"#,
-    0x1d50du32 => r#"𝔍"#,
-    0x1d541u32 => r#"𝕁"#,
-    0x1d4a5u32 => r#"𝒥"#,
-    0x408u32 => r#"Ј"#,
-    0x404u32 => r#"Є"#,
-    0x425u32 => r#"Х"#,
-    0x40cu32 => r#"Ќ"#,
-    0x39au32 => r#"Κ"#,
-    0x136u32 => r#"Ķ"#,
-    0x41au32 => r#"К"#,
-    0x1d50eu32 => r#"𝔎"#,
-    0x1d542u32 => r#"𝕂"#,
-    0x1d4a6u32 => r#"𝒦"#,
-    0x409u32 => r#"Љ"#,
-    0x3cu32 => r#"<"#,
-    0x139u32 => r#"Ĺ"#,
-    0x39bu32 => r#"Λ"#,
-    0x27eau32 => r#"⟪"#,
-    0x2112u32 => r#"ℒ"#,
-    0x219eu32 => r#"↞"#,
-    0x13du32 => r#"Ľ"#,
-    0x13bu32 => r#"Ļ"#,
-    0x41bu32 => r#"Л"#,
-    0x27e8u32 => r#"⟨"#,
-    0x2190u32 => r#"←"#,
-    0x21e4u32 => r#"⇤"#,
-    0x21c6u32 => r#"⇆"#,
-    0x2308u32 => r#"⌈"#,
-    0x27e6u32 => r#"⟦"#,
-    0x2961u32 => r#"⥡"#,
-    0x21c3u32 => r#"⇃"#,
-    0x2959u32 => r#"⥙"#,
-    0x230au32 => r#"⌊"#,
-    0x2194u32 => r#"↔"#,
-    0x294eu32 => r#"⥎"#,
-    0x22a3u32 => r#"⊣"#,
-    0x21a4u32 => r#"↤"#,
-    0x295au32 => r#"⥚"#,
-    0x22b2u32 => r#"⊲"#,
-    0x29cfu32 => r#"⧏"#,
-    0x22b4u32 => r#"⊴"#,
-    0x2951u32 => r#"⥑"#,
-    0x2960u32 => r#"⥠"#,
-    0x21bfu32 => r#"↿"#,
-    0x2958u32 => r#"⥘"#,
-    0x21bcu32 => r#"↼"#,
-    0x2952u32 => r#"⥒"#,
-    0x22dau32 => r#"⋚"#,
-    0x2266u32 => r#"≦"#,
-    0x2276u32 => r#"≶"#,
-    0x2aa1u32 => r#"⪡"#,
-    0x2a7du32 => r#"⩽"#,
-    0x2272u32 => r#"≲"#,
-    0x1d50fu32 => r#"𝔏"#,
-    0x22d8u32 => r#"⋘"#,
-    0x21dau32 => r#"⇚"#,
-    0x13fu32 => r#"Ŀ"#,
-    0x27f5u32 => r#"⟵"#,
-    0x27f7u32 => r#"⟷"#,
-    0x27f6u32 => r#"⟶"#,
-    0x1d543u32 => r#"𝕃"#,
-    0x2199u32 => r#"↙"#,
-    0x2198u32 => r#"↘"#,
-    0x21b0u32 => r#"↰"#,
-    0x141u32 => r#"Ł"#,
-    0x226au32 => r#"≪"#,
-    0x2905u32 => r#"⤅"#,
-    0x41cu32 => r#"М"#,
-    0x205fu32 => r#" "#,
-    0x2133u32 => r#"ℳ"#,
-    0x1d510u32 => r#"𝔐"#,
-    0x2213u32 => r#"∓"#,
-    0x1d544u32 => r#"𝕄"#,
-    0x39cu32 => r#"Μ"#,
-    0x40au32 => r#"Њ"#,
-    0x143u32 => r#"Ń"#,
-    0x147u32 => r#"Ň"#,
-    0x145u32 => r#"Ņ"#,
-    0x41du32 => r#"Н"#,
-    0x200bu32 => r#"\u{200B}"#,
-    0xau32 => r#"
-    "#,
-    0x1d511u32 => r#"𝔑"#,
-    0x2060u32 => r#"\u{2060}"#,
-    0xa0u32 => r#" "#,
-    0x2115u32 => r#"ℕ"#,
-    0x2aecu32 => r#"⫬"#,
-    0x2262u32 => r#"≢"#,
-    0x226du32 => r#"≭"#,
-    0x2226u32 => r#"∦"#,
-    0x2209u32 => r#"∉"#,
-    0x2260u32 => r#"≠"#,
-    0x338u32 => r#"≂̸"#,
-    0x2204u32 => r#"∄"#,
-    0x226fu32 => r#"≯"#,
-    0x2271u32 => r#"≱"#,
-    0x2279u32 => r#"≹"#,
-    0x2275u32 => r#"≵"#,
-    0x22eau32 => r#"⋪"#,
-    0x22ecu32 => r#"⋬"#,
-    0x226eu32 => r#"≮"#,
-    0x2270u32 => r#"≰"#,
-    0x2278u32 => r#"≸"#,
-    0x2274u32 => r#"≴"#,
-    0x2280u32 => r#"⊀"#,
-    0x2aafu32 => r#"⪯̸"#,
-    0x22e0u32 => r#"⋠"#,
-    0x220cu32 => r#"∌"#,
-    0x22ebu32 => r#"⋫"#,
-    0x29d0u32 => r#"⧐̸"#,
-    0x22edu32 => r#"⋭"#,
-    0x228fu32 => r#"⊏̸"#,
-    0x22e2u32 => r#"⋢"#,
-    0x2290u32 => r#"⊐̸"#,
-    0x22e3u32 => r#"⋣"#,
-    0x2282u32 => r#"⊂⃒"#,
-    0x20d2u32 => r#"⊂⃒"#,
-    0x2288u32 => r#"⊈"#,
-    0x2281u32 => r#"⊁"#,
-    0x2ab0u32 => r#"⪰̸"#,
-    0x22e1u32 => r#"⋡"#,
-    0x227fu32 => r#"≿̸"#,
-    0x2283u32 => r#"⊃⃒"#,
-    0x2289u32 => r#"⊉"#,
-    0x2241u32 => r#"≁"#,
-    0x2244u32 => r#"≄"#,
-    0x2247u32 => r#"≇"#,
-    0x2249u32 => r#"≉"#,
-    0x2224u32 => r#"∤"#,
-    0x1d4a9u32 => r#"𝒩"#,
-    0xd1u32 => r#"Ñ"#,
-    0x39du32 => r#"Ν"#,
-    0x152u32 => r#"Œ"#,
-    0xd3u32 => r#"Ó"#,
-    0xd4u32 => r#"Ô"#,
-    0x41eu32 => r#"О"#,
-    0x150u32 => r#"Ő"#,
-    0x1d512u32 => r#"𝔒"#,
-    0xd2u32 => r#"Ò"#,
-    0x14cu32 => r#"Ō"#,
-    0x3a9u32 => r#"Ω"#,
-    0x39fu32 => r#"Ο"#,
-    0x1d546u32 => r#"𝕆"#,
-    0x201cu32 => r#"“"#,
-    0x2018u32 => r#"‘"#,
-    0x2a54u32 => r#"⩔"#,
-    0x1d4aau32 => r#"𝒪"#,
-    0xd8u32 => r#"Ø"#,
-    0xd5u32 => r#"Õ"#,
-    0x2a37u32 => r#"⨷"#,
-    0xd6u32 => r#"Ö"#,
-    0x203eu32 => r#"‾"#,
-    0x23deu32 => r#"⏞"#,
-    0x23b4u32 => r#"⎴"#,
-    0x23dcu32 => r#"⏜"#,
-    0x2202u32 => r#"∂"#,
-    0x41fu32 => r#"П"#,
-    0x1d513u32 => r#"𝔓"#,
-    0x3a6u32 => r#"Φ"#,
-    0x3a0u32 => r#"Π"#,
-    0xb1u32 => r#"±"#,
-    0x2119u32 => r#"ℙ"#,
-    0x2abbu32 => r#"⪻"#,
-    0x227au32 => r#"≺"#,
-    0x227cu32 => r#"≼"#,
-    0x227eu32 => r#"≾"#,
-    0x2033u32 => r#"″"#,
-    0x220fu32 => r#"∏"#,
-    0x221du32 => r#"∝"#,
-    0x1d4abu32 => r#"𝒫"#,
-    0x3a8u32 => r#"Ψ"#,
-    0x22u32 => r#"""#,
-    0x1d514u32 => r#"𝔔"#,
-    0x211au32 => r#"ℚ"#,
-    0x1d4acu32 => r#"𝒬"#,
-    0x2910u32 => r#"⤐"#,
-    0xaeu32 => r#"®"#,
-    0x154u32 => r#"Ŕ"#,
-    0x27ebu32 => r#"⟫"#,
-    0x21a0u32 => r#"↠"#,
-    0x2916u32 => r#"⤖"#,
-    0x158u32 => r#"Ř"#,
-    0x156u32 => r#"Ŗ"#,
-    0x420u32 => r#"Р"#,
-    0x211cu32 => r#"ℜ"#,
-    0x220bu32 => r#"∋"#,
-    0x21cbu32 => r#"⇋"#,
-    0x296fu32 => r#"⥯"#,
-    0x3a1u32 => r#"Ρ"#,
-    0x27e9u32 => r#"⟩"#,
-    0x2192u32 => r#"→"#,
-    0x21e5u32 => r#"⇥"#,
-    0x21c4u32 => r#"⇄"#,
-    0x2309u32 => r#"⌉"#,
-    0x27e7u32 => r#"⟧"#,
-    0x295du32 => r#"⥝"#,
-    0x21c2u32 => r#"⇂"#,
-    0x2955u32 => r#"⥕"#,
-    0x230bu32 => r#"⌋"#,
-    0x22a2u32 => r#"⊢"#,
-    0x21a6u32 => r#"↦"#,
-    0x295bu32 => r#"⥛"#,
-    0x22b3u32 => r#"⊳"#,
-    0x22b5u32 => r#"⊵"#,
-    0x294fu32 => r#"⥏"#,
-    0x295cu32 => r#"⥜"#,
-    0x21beu32 => r#"↾"#,
-    0x2954u32 => r#"⥔"#,
-    0x21c0u32 => r#"⇀"#,
-    0x2953u32 => r#"⥓"#,
-    0x211du32 => r#"ℝ"#,
-    0x2970u32 => r#"⥰"#,
-    0x21dbu32 => r#"⇛"#,
-    0x211bu32 => r#"ℛ"#,
-    0x21b1u32 => r#"↱"#,
-    0x29f4u32 => r#"⧴"#,
-    0x429u32 => r#"Щ"#,
-    0x428u32 => r#"Ш"#,
-    0x42cu32 => r#"Ь"#,
-    0x15au32 => r#"Ś"#,
-    0x2abcu32 => r#"⪼"#,
-    0x160u32 => r#"Š"#,
-    0x15eu32 => r#"Ş"#,
-    0x15cu32 => r#"Ŝ"#,
-    0x421u32 => r#"С"#,
-    0x1d516u32 => r#"𝔖"#,
-    0x2191u32 => r#"↑"#,
-    0x3a3u32 => r#"Σ"#,
-    0x2218u32 => r#"∘"#,
-    0x1d54au32 => r#"𝕊"#,
-    0x221au32 => r#"√"#,
-    0x25a1u32 => r#"□"#,
-    0x2293u32 => r#"⊓"#,
-    0x2291u32 => r#"⊑"#,
-    0x2292u32 => r#"⊒"#,
-    0x2294u32 => r#"⊔"#,
-    0x1d4aeu32 => r#"𝒮"#,
-    0x22c6u32 => r#"⋆"#,
-    0x22d0u32 => r#"⋐"#,
-    0x2286u32 => r#"⊆"#,
-    0x227bu32 => r#"≻"#,
-    0x227du32 => r#"≽"#,
-    0x2211u32 => r#"∑"#,
-    0x22d1u32 => r#"⋑"#,
-    0x2287u32 => r#"⊇"#,
-    0xdeu32 => r#"Þ"#,
-    0x2122u32 => r#"™"#,
-    0x40bu32 => r#"Ћ"#,
-    0x426u32 => r#"Ц"#,
-    0x9u32 => r#"   "#,
-    0x3a4u32 => r#"Τ"#,
-    0x164u32 => r#"Ť"#,
-    0x162u32 => r#"Ţ"#,
-    0x422u32 => r#"Т"#,
-    0x1d517u32 => r#"𝔗"#,
-    0x2234u32 => r#"∴"#,
-    0x398u32 => r#"Θ"#,
-    0x200au32 => r#"  "#,
-    0x2009u32 => r#" "#,
-    0x223cu32 => r#"∼"#,
-    0x2243u32 => r#"≃"#,
-    0x2245u32 => r#"≅"#,
-    0x2248u32 => r#"≈"#,
-    0x1d54bu32 => r#"𝕋"#,
-    0x20dbu32 => r#"⃛"#,
-    0x1d4afu32 => r#"𝒯"#,
-    0x166u32 => r#"Ŧ"#,
-    0xdau32 => r#"Ú"#,
-    0x219fu32 => r#"↟"#,
-    0x2949u32 => r#"⥉"#,
-    0x40eu32 => r#"Ў"#,
-    0x16cu32 => r#"Ŭ"#,
-    0xdbu32 => r#"Û"#,
-    0x423u32 => r#"У"#,
-    0x170u32 => r#"Ű"#,
-    0x1d518u32 => r#"𝔘"#,
-    0xd9u32 => r#"Ù"#,
-    0x16au32 => r#"Ū"#,
-    0x5fu32 => r#"_"#,
-    0x23dfu32 => r#"⏟"#,
-    0x23b5u32 => r#"⎵"#,
-    0x23ddu32 => r#"⏝"#,
-    0x22c3u32 => r#"⋃"#,
-    0x228eu32 => r#"⊎"#,
-    0x172u32 => r#"Ų"#,
-    0x1d54cu32 => r#"𝕌"#,
-    0x2912u32 => r#"⤒"#,
-    0x21c5u32 => r#"⇅"#,
-    0x2195u32 => r#"↕"#,
-    0x296eu32 => r#"⥮"#,
-    0x22a5u32 => r#"⊥"#,
-    0x21a5u32 => r#"↥"#,
-    0x2196u32 => r#"↖"#,
-    0x2197u32 => r#"↗"#,
-    0x3d2u32 => r#"ϒ"#,
-    0x3a5u32 => r#"Υ"#,
-    0x16eu32 => r#"Ů"#,
-    0x1d4b0u32 => r#"𝒰"#,
-    0x168u32 => r#"Ũ"#,
-    0xdcu32 => r#"Ü"#,
-    0x22abu32 => r#"⊫"#,
-    0x2aebu32 => r#"⫫"#,
-    0x412u32 => r#"В"#,
-    0x22a9u32 => r#"⊩"#,
-    0x2ae6u32 => r#"⫦"#,
-    0x22c1u32 => r#"⋁"#,
-    0x2016u32 => r#"‖"#,
-    0x2223u32 => r#"∣"#,
-    0x7cu32 => r#"|"#,
-    0x2758u32 => r#"❘"#,
-    0x2240u32 => r#"≀"#,
-    0x1d519u32 => r#"𝔙"#,
-    0x1d54du32 => r#"𝕍"#,
-    0x1d4b1u32 => r#"𝒱"#,
-    0x22aau32 => r#"⊪"#,
-    0x174u32 => r#"Ŵ"#,
-    0x22c0u32 => r#"⋀"#,
-    0x1d51au32 => r#"𝔚"#,
-    0x1d54eu32 => r#"𝕎"#,
-    0x1d4b2u32 => r#"𝒲"#,
-    0x1d51bu32 => r#"𝔛"#,
-    0x39eu32 => r#"Ξ"#,
-    0x1d54fu32 => r#"𝕏"#,
-    0x1d4b3u32 => r#"𝒳"#,
-    0x42fu32 => r#"Я"#,
-    0x407u32 => r#"Ї"#,
-    0x42eu32 => r#"Ю"#,
-    0xddu32 => r#"Ý"#,
-    0x176u32 => r#"Ŷ"#,
-    0x42bu32 => r#"Ы"#,
-    0x1d51cu32 => r#"𝔜"#,
-    0x1d550u32 => r#"𝕐"#,
-    0x1d4b4u32 => r#"𝒴"#,
-    0x178u32 => r#"Ÿ"#,
-    0x416u32 => r#"Ж"#,
-    0x179u32 => r#"Ź"#,
-    0x17du32 => r#"Ž"#,
-    0x417u32 => r#"З"#,
-    0x17bu32 => r#"Ż"#,
-    0x396u32 => r#"Ζ"#,
-    0x2128u32 => r#"ℨ"#,
-    0x2124u32 => r#"ℤ"#,
-    0x1d4b5u32 => r#"𝒵"#,
-    0xe1u32 => r#"á"#,
-    0x103u32 => r#"ă"#,
-    0x223eu32 => r#"∾"#,
-    0x333u32 => r#"∾̳"#,
-    0x223fu32 => r#"∿"#,
-    0xe2u32 => r#"â"#,
-    0x430u32 => r#"а"#,
-    0xe6u32 => r#"æ"#,
-    0x1d51eu32 => r#"𝔞"#,
-    0xe0u32 => r#"à"#,
-    0x2135u32 => r#"ℵ"#,
-    0x3b1u32 => r#"α"#,
-    0x101u32 => r#"ā"#,
-    0x2a3fu32 => r#"⨿"#,
-    0x2227u32 => r#"∧"#,
-    0x2a55u32 => r#"⩕"#,
-    0x2a5cu32 => r#"⩜"#,
-    0x2a58u32 => r#"⩘"#,
-    0x2a5au32 => r#"⩚"#,
-    0x2220u32 => r#"∠"#,
-    0x29a4u32 => r#"⦤"#,
-    0x2221u32 => r#"∡"#,
-    0x29a8u32 => r#"⦨"#,
-    0x29a9u32 => r#"⦩"#,
-    0x29aau32 => r#"⦪"#,
-    0x29abu32 => r#"⦫"#,
-    0x29acu32 => r#"⦬"#,
-    0x29adu32 => r#"⦭"#,
-    0x29aeu32 => r#"⦮"#,
-    0x29afu32 => r#"⦯"#,
-    0x221fu32 => r#"∟"#,
-    0x22beu32 => r#"⊾"#,
-    0x299du32 => r#"⦝"#,
-    0x2222u32 => r#"∢"#,
-    0x237cu32 => r#"⍼"#,
-    0x105u32 => r#"ą"#,
-    0x1d552u32 => r#"𝕒"#,
-    0x2a70u32 => r#"⩰"#,
-    0x2a6fu32 => r#"⩯"#,
-    0x224au32 => r#"≊"#,
-    0x224bu32 => r#"≋"#,
-    0x27u32 => r#"'"#,
-    0xe5u32 => r#"å"#,
-    0x1d4b6u32 => r#"𝒶"#,
-    0x2au32 => r#"*"#,
-    0xe3u32 => r#"ã"#,
-    0xe4u32 => r#"ä"#,
-    0x2a11u32 => r#"⨑"#,
-    0x2aedu32 => r#"⫭"#,
-    0x224cu32 => r#"≌"#,
-    0x3f6u32 => r#"϶"#,
-    0x2035u32 => r#"‵"#,
-    0x223du32 => r#"∽"#,
-    0x22cdu32 => r#"⋍"#,
-    0x22bdu32 => r#"⊽"#,
-    0x2305u32 => r#"⌅"#,
-    0x23b6u32 => r#"⎶"#,
-    0x431u32 => r#"б"#,
-    0x201eu32 => r#"„"#,
-    0x29b0u32 => r#"⦰"#,
-    0x3b2u32 => r#"β"#,
-    0x2136u32 => r#"ℶ"#,
-    0x226cu32 => r#"≬"#,
-    0x1d51fu32 => r#"𝔟"#,
-    0x25efu32 => r#"◯"#,
-    0x2a00u32 => r#"⨀"#,
-    0x2a01u32 => r#"⨁"#,
-    0x2a02u32 => r#"⨂"#,
-    0x2a06u32 => r#"⨆"#,
-    0x2605u32 => r#"★"#,
-    0x25bdu32 => r#"▽"#,
-    0x25b3u32 => r#"△"#,
-    0x2a04u32 => r#"⨄"#,
-    0x290du32 => r#"⤍"#,
-    0x29ebu32 => r#"⧫"#,
-    0x25b4u32 => r#"▴"#,
-    0x25beu32 => r#"▾"#,
-    0x25c2u32 => r#"◂"#,
-    0x25b8u32 => r#"▸"#,
-    0x2423u32 => r#"␣"#,
-    0x2592u32 => r#"▒"#,
-    0x2591u32 => r#"░"#,
-    0x2593u32 => r#"▓"#,
-    0x2588u32 => r#"█"#,
-    0x3du32 => r#"=⃥"#,
-    0x20e5u32 => r#"=⃥"#,
-    0x2310u32 => r#"⌐"#,
-    0x1d553u32 => r#"𝕓"#,
-    0x22c8u32 => r#"⋈"#,
-    0x2557u32 => r#"╗"#,
-    0x2554u32 => r#"╔"#,
-    0x2556u32 => r#"╖"#,
-    0x2553u32 => r#"╓"#,
-    0x2550u32 => r#"═"#,
-    0x2566u32 => r#"╦"#,
-    0x2569u32 => r#"╩"#,
-    0x2564u32 => r#"╤"#,
-    0x2567u32 => r#"╧"#,
-    0x255du32 => r#"╝"#,
-    0x255au32 => r#"╚"#,
-    0x255cu32 => r#"╜"#,
-    0x2559u32 => r#"╙"#,
-    0x2551u32 => r#"║"#,
-    0x256cu32 => r#"╬"#,
-    0x2563u32 => r#"╣"#,
-    0x2560u32 => r#"╠"#,
-    0x256bu32 => r#"╫"#,
-    0x2562u32 => r#"╢"#,
-    0x255fu32 => r#"╟"#,
-    0x29c9u32 => r#"⧉"#,
-    0x2555u32 => r#"╕"#,
-    0x2552u32 => r#"╒"#,
-    0x2510u32 => r#"┐"#,
-    0x250cu32 => r#"┌"#,
-    0x2565u32 => r#"╥"#,
-    0x2568u32 => r#"╨"#,
-    0x252cu32 => r#"┬"#,
-    0x2534u32 => r#"┴"#,
-    0x229fu32 => r#"⊟"#,
-    0x229eu32 => r#"⊞"#,
-    0x22a0u32 => r#"⊠"#,
-    0x255bu32 => r#"╛"#,
-    0x2558u32 => r#"╘"#,
-    0x2518u32 => r#"┘"#,
-    0x2514u32 => r#"└"#,
-    0x2502u32 => r#"│"#,
-    0x256au32 => r#"╪"#,
-    0x2561u32 => r#"╡"#,
-    0x255eu32 => r#"╞"#,
-    0x253cu32 => r#"┼"#,
-    0x2524u32 => r#"┤"#,
-    0x251cu32 => r#"├"#,
-    0xa6u32 => r#"¦"#,
-    0x1d4b7u32 => r#"𝒷"#,
-    0x204fu32 => r#"⁏"#,
-    0x5cu32 => r#"\"#,
-    0x29c5u32 => r#"⧅"#,
-    0x27c8u32 => r#"⟈"#,
-    0x2022u32 => r#"•"#,
-    0x2aaeu32 => r#"⪮"#,
-    0x107u32 => r#"ć"#,
-    0x2229u32 => r#"∩"#,
-    0x2a44u32 => r#"⩄"#,
-    0x2a49u32 => r#"⩉"#,
-    0x2a4bu32 => r#"⩋"#,
-    0x2a47u32 => r#"⩇"#,
-    0x2a40u32 => r#"⩀"#,
-    0xfe00u32 => r#"∩︀"#,
-    0x2041u32 => r#"⁁"#,
-    0x2a4du32 => r#"⩍"#,
-    0x10du32 => r#"č"#,
-    0xe7u32 => r#"ç"#,
-    0x109u32 => r#"ĉ"#,
-    0x2a4cu32 => r#"⩌"#,
-    0x2a50u32 => r#"⩐"#,
-    0x10bu32 => r#"ċ"#,
-    0x29b2u32 => r#"⦲"#,
-    0xa2u32 => r#"¢"#,
-    0x1d520u32 => r#"𝔠"#,
-    0x447u32 => r#"ч"#,
-    0x2713u32 => r#"✓"#,
-    0x3c7u32 => r#"χ"#,
-    0x25cbu32 => r#"○"#,
-    0x29c3u32 => r#"⧃"#,
-    0x2c6u32 => r#"ˆ"#,
-    0x2257u32 => r#"≗"#,
-    0x21bau32 => r#"↺"#,
-    0x21bbu32 => r#"↻"#,
-    0x24c8u32 => r#"Ⓢ"#,
-    0x229bu32 => r#"⊛"#,
-    0x229au32 => r#"⊚"#,
-    0x229du32 => r#"⊝"#,
-    0x2a10u32 => r#"⨐"#,
-    0x2aefu32 => r#"⫯"#,
-    0x29c2u32 => r#"⧂"#,
-    0x2663u32 => r#"♣"#,
-    0x3au32 => r#":"#,
-    0x2cu32 => r#","#,
-    0x40u32 => r#"@"#,
-    0x2201u32 => r#"∁"#,
-    0x2a6du32 => r#"⩭"#,
-    0x1d554u32 => r#"𝕔"#,
-    0x2117u32 => r#"℗"#,
-    0x21b5u32 => r#"↵"#,
-    0x2717u32 => r#"✗"#,
-    0x1d4b8u32 => r#"𝒸"#,
-    0x2acfu32 => r#"⫏"#,
-    0x2ad1u32 => r#"⫑"#,
-    0x2ad0u32 => r#"⫐"#,
-    0x2ad2u32 => r#"⫒"#,
-    0x22efu32 => r#"⋯"#,
-    0x2938u32 => r#"⤸"#,
-    0x2935u32 => r#"⤵"#,
-    0x22deu32 => r#"⋞"#,
-    0x22dfu32 => r#"⋟"#,
-    0x21b6u32 => r#"↶"#,
-    0x293du32 => r#"⤽"#,
-    0x222au32 => r#"∪"#,
-    0x2a48u32 => r#"⩈"#,
-    0x2a46u32 => r#"⩆"#,
-    0x2a4au32 => r#"⩊"#,
-    0x228du32 => r#"⊍"#,
-    0x2a45u32 => r#"⩅"#,
-    0x21b7u32 => r#"↷"#,
-    0x293cu32 => r#"⤼"#,
-    0x22ceu32 => r#"⋎"#,
-    0x22cfu32 => r#"⋏"#,
-    0xa4u32 => r#"¤"#,
-    0x2231u32 => r#"∱"#,
-    0x232du32 => r#"⌭"#,
-    0x2965u32 => r#"⥥"#,
-    0x2020u32 => r#"†"#,
-    0x2138u32 => r#"ℸ"#,
-    0x2010u32 => r#"‐"#,
-    0x290fu32 => r#"⤏"#,
-    0x10fu32 => r#"ď"#,
-    0x434u32 => r#"д"#,
-    0x21cau32 => r#"⇊"#,
-    0x2a77u32 => r#"⩷"#,
-    0xb0u32 => r#"°"#,
-    0x3b4u32 => r#"δ"#,
-    0x29b1u32 => r#"⦱"#,
-    0x297fu32 => r#"⥿"#,
-    0x1d521u32 => r#"𝔡"#,
-    0x2666u32 => r#"♦"#,
-    0x3ddu32 => r#"ϝ"#,
-    0x22f2u32 => r#"⋲"#,
-    0xf7u32 => r#"÷"#,
-    0x22c7u32 => r#"⋇"#,
-    0x452u32 => r#"ђ"#,
-    0x231eu32 => r#"⌞"#,
-    0x230du32 => r#"⌍"#,
-    0x24u32 => r#"$"#,
-    0x1d555u32 => r#"𝕕"#,
-    0x2251u32 => r#"≑"#,
-    0x2238u32 => r#"∸"#,
-    0x2214u32 => r#"∔"#,
-    0x22a1u32 => r#"⊡"#,
-    0x231fu32 => r#"⌟"#,
-    0x230cu32 => r#"⌌"#,
-    0x1d4b9u32 => r#"𝒹"#,
-    0x455u32 => r#"ѕ"#,
-    0x29f6u32 => r#"⧶"#,
-    0x111u32 => r#"đ"#,
-    0x22f1u32 => r#"⋱"#,
-    0x25bfu32 => r#"▿"#,
-    0x29a6u32 => r#"⦦"#,
-    0x45fu32 => r#"џ"#,
-    0x27ffu32 => r#"⟿"#,
-    0xe9u32 => r#"é"#,
-    0x2a6eu32 => r#"⩮"#,
-    0x11bu32 => r#"ě"#,
-    0x2256u32 => r#"≖"#,
-    0xeau32 => r#"ê"#,
-    0x2255u32 => r#"≕"#,
-    0x44du32 => r#"э"#,
-    0x117u32 => r#"ė"#,
-    0x2252u32 => r#"≒"#,
-    0x1d522u32 => r#"𝔢"#,
-    0x2a9au32 => r#"⪚"#,
-    0xe8u32 => r#"è"#,
-    0x2a96u32 => r#"⪖"#,
-    0x2a98u32 => r#"⪘"#,
-    0x2a99u32 => r#"⪙"#,
-    0x23e7u32 => r#"⏧"#,
-    0x2113u32 => r#"ℓ"#,
-    0x2a95u32 => r#"⪕"#,
-    0x2a97u32 => r#"⪗"#,
-    0x113u32 => r#"ē"#,
-    0x2205u32 => r#"∅"#,
-    0x2004u32 => r#" "#,
-    0x2005u32 => r#" "#,
-    0x2003u32 => r#" "#,
-    0x14bu32 => r#"ŋ"#,
-    0x2002u32 => r#" "#,
-    0x119u32 => r#"ę"#,
-    0x1d556u32 => r#"𝕖"#,
-    0x22d5u32 => r#"⋕"#,
-    0x29e3u32 => r#"⧣"#,
-    0x2a71u32 => r#"⩱"#,
-    0x3b5u32 => r#"ε"#,
-    0x3f5u32 => r#"ϵ"#,
-    0x225fu32 => r#"≟"#,
-    0x2a78u32 => r#"⩸"#,
-    0x29e5u32 => r#"⧥"#,
-    0x2253u32 => r#"≓"#,
-    0x2971u32 => r#"⥱"#,
-    0x212fu32 => r#"ℯ"#,
-    0x3b7u32 => r#"η"#,
-    0xf0u32 => r#"ð"#,
-    0xebu32 => r#"ë"#,
-    0x20acu32 => r#"€"#,
-    0x21u32 => r#"!"#,
-    0x444u32 => r#"ф"#,
-    0x2640u32 => r#"♀"#,
-    0xfb03u32 => r#"ﬃ"#,
-    0xfb00u32 => r#"ﬀ"#,
-    0xfb04u32 => r#"ﬄ"#,
-    0x1d523u32 => r#"𝔣"#,
-    0xfb01u32 => r#"ﬁ"#,
-    0x66u32 => r#"fj"#,
-    0x6au32 => r#"fj"#,
-    0x266du32 => r#"♭"#,
-    0xfb02u32 => r#"ﬂ"#,
-    0x25b1u32 => r#"▱"#,
-    0x192u32 => r#"ƒ"#,
-    0x1d557u32 => r#"𝕗"#,
-    0x22d4u32 => r#"⋔"#,
-    0x2ad9u32 => r#"⫙"#,
-    0x2a0du32 => r#"⨍"#,
-    0xbdu32 => r#"½"#,
-    0x2153u32 => r#"⅓"#,
-    0xbcu32 => r#"¼"#,
-    0x2155u32 => r#"⅕"#,
-    0x2159u32 => r#"⅙"#,
-    0x215bu32 => r#"⅛"#,
-    0x2154u32 => r#"⅔"#,
-    0x2156u32 => r#"⅖"#,
-    0xbeu32 => r#"¾"#,
-    0x2157u32 => r#"⅗"#,
-    0x215cu32 => r#"⅜"#,
-    0x2158u32 => r#"⅘"#,
-    0x215au32 => r#"⅚"#,
-    0x215du32 => r#"⅝"#,
-    0x215eu32 => r#"⅞"#,
-    0x2044u32 => r#"⁄"#,
-    0x2322u32 => r#"⌢"#,
-    0x1d4bbu32 => r#"𝒻"#,
-    0x2a8cu32 => r#"⪌"#,
-    0x1f5u32 => r#"ǵ"#,
-    0x3b3u32 => r#"γ"#,
-    0x2a86u32 => r#"⪆"#,
-    0x11fu32 => r#"ğ"#,
-    0x11du32 => r#"ĝ"#,
-    0x433u32 => r#"г"#,
-    0x121u32 => r#"ġ"#,
-    0x2aa9u32 => r#"⪩"#,
-    0x2a80u32 => r#"⪀"#,
-    0x2a82u32 => r#"⪂"#,
-    0x2a84u32 => r#"⪄"#,
-    0x2a94u32 => r#"⪔"#,
-    0x1d524u32 => r#"𝔤"#,
-    0x2137u32 => r#"ℷ"#,
-    0x453u32 => r#"ѓ"#,
-    0x2a92u32 => r#"⪒"#,
-    0x2aa5u32 => r#"⪥"#,
-    0x2aa4u32 => r#"⪤"#,
-    0x2269u32 => r#"≩"#,
-    0x2a8au32 => r#"⪊"#,
-    0x2a88u32 => r#"⪈"#,
-    0x22e7u32 => r#"⋧"#,
-    0x1d558u32 => r#"𝕘"#,
-    0x210au32 => r#"ℊ"#,
-    0x2a8eu32 => r#"⪎"#,
-    0x2a90u32 => r#"⪐"#,
-    0x2aa7u32 => r#"⪧"#,
-    0x2a7au32 => r#"⩺"#,
-    0x22d7u32 => r#"⋗"#,
-    0x2995u32 => r#"⦕"#,
-    0x2a7cu32 => r#"⩼"#,
-    0x2978u32 => r#"⥸"#,
-    0x44au32 => r#"ъ"#,
-    0x2948u32 => r#"⥈"#,
-    0x21adu32 => r#"↭"#,
-    0x210fu32 => r#"ℏ"#,
-    0x125u32 => r#"ĥ"#,
-    0x2665u32 => r#"♥"#,
-    0x2026u32 => r#"…"#,
-    0x22b9u32 => r#"⊹"#,
-    0x1d525u32 => r#"𝔥"#,
-    0x2925u32 => r#"⤥"#,
-    0x2926u32 => r#"⤦"#,
-    0x21ffu32 => r#"⇿"#,
-    0x223bu32 => r#"∻"#,
-    0x21a9u32 => r#"↩"#,
-    0x21aau32 => r#"↪"#,
-    0x1d559u32 => r#"𝕙"#,
-    0x2015u32 => r#"―"#,
-    0x1d4bdu32 => r#"𝒽"#,
-    0x127u32 => r#"ħ"#,
-    0x2043u32 => r#"⁃"#,
-    0xedu32 => r#"í"#,
-    0xeeu32 => r#"î"#,
-    0x438u32 => r#"и"#,
-    0x435u32 => r#"е"#,
-    0xa1u32 => r#"¡"#,
-    0x1d526u32 => r#"𝔦"#,
-    0xecu32 => r#"ì"#,
-    0x2a0cu32 => r#"⨌"#,
-    0x222du32 => r#"∭"#,
-    0x29dcu32 => r#"⧜"#,
-    0x2129u32 => r#"℩"#,
-    0x133u32 => r#"ĳ"#,
-    0x12bu32 => r#"ī"#,
-    0x131u32 => r#"ı"#,
-    0x22b7u32 => r#"⊷"#,
-    0x1b5u32 => r#"Ƶ"#,
-    0x2105u32 => r#"℅"#,
-    0x221eu32 => r#"∞"#,
-    0x29ddu32 => r#"⧝"#,
-    0x22bau32 => r#"⊺"#,
-    0x2a17u32 => r#"⨗"#,
-    0x2a3cu32 => r#"⨼"#,
-    0x451u32 => r#"ё"#,
-    0x12fu32 => r#"į"#,
-    0x1d55au32 => r#"𝕚"#,
-    0x3b9u32 => r#"ι"#,
-    0xbfu32 => r#"¿"#,
-    0x1d4beu32 => r#"𝒾"#,
-    0x22f9u32 => r#"⋹"#,
-    0x22f5u32 => r#"⋵"#,
-    0x22f4u32 => r#"⋴"#,
-    0x22f3u32 => r#"⋳"#,
-    0x129u32 => r#"ĩ"#,
-    0x456u32 => r#"і"#,
-    0xefu32 => r#"ï"#,
-    0x135u32 => r#"ĵ"#,
-    0x439u32 => r#"й"#,
-    0x1d527u32 => r#"𝔧"#,
-    0x237u32 => r#"ȷ"#,
-    0x1d55bu32 => r#"𝕛"#,
-    0x1d4bfu32 => r#"𝒿"#,
-    0x458u32 => r#"ј"#,
-    0x454u32 => r#"є"#,
-    0x3bau32 => r#"κ"#,
-    0x3f0u32 => r#"ϰ"#,
-    0x137u32 => r#"ķ"#,
-    0x43au32 => r#"к"#,
-    0x1d528u32 => r#"𝔨"#,
-    0x138u32 => r#"ĸ"#,
-    0x445u32 => r#"х"#,
-    0x45cu32 => r#"ќ"#,
-    0x1d55cu32 => r#"𝕜"#,
-    0x1d4c0u32 => r#"𝓀"#,
-    0x291bu32 => r#"⤛"#,
-    0x290eu32 => r#"⤎"#,
-    0x2a8bu32 => r#"⪋"#,
-    0x2962u32 => r#"⥢"#,
-    0x13au32 => r#"ĺ"#,
-    0x29b4u32 => r#"⦴"#,
-    0x3bbu32 => r#"λ"#,
-    0x2991u32 => r#"⦑"#,
-    0x2a85u32 => r#"⪅"#,
-    0xabu32 => r#"«"#,
-    0x291fu32 => r#"⤟"#,
-    0x291du32 => r#"⤝"#,
-    0x21abu32 => r#"↫"#,
-    0x2939u32 => r#"⤹"#,
-    0x2973u32 => r#"⥳"#,
-    0x21a2u32 => r#"↢"#,
-    0x2aabu32 => r#"⪫"#,
-    0x2919u32 => r#"⤙"#,
-    0x2aadu32 => r#"⪭"#,
-    0x290cu32 => r#"⤌"#,
-    0x2772u32 => r#"❲"#,
-    0x7bu32 => r#"{"#,
-    0x5bu32 => r#"["#,
-    0x298bu32 => r#"⦋"#,
-    0x298fu32 => r#"⦏"#,
-    0x298du32 => r#"⦍"#,
-    0x13eu32 => r#"ľ"#,
-    0x13cu32 => r#"ļ"#,
-    0x43bu32 => r#"л"#,
-    0x2936u32 => r#"⤶"#,
-    0x2967u32 => r#"⥧"#,
-    0x294bu32 => r#"⥋"#,
-    0x21b2u32 => r#"↲"#,
-    0x2264u32 => r#"≤"#,
-    0x21c7u32 => r#"⇇"#,
-    0x22cbu32 => r#"⋋"#,
-    0x2aa8u32 => r#"⪨"#,
-    0x2a7fu32 => r#"⩿"#,
-    0x2a81u32 => r#"⪁"#,
-    0x2a83u32 => r#"⪃"#,
-    0x2a93u32 => r#"⪓"#,
-    0x22d6u32 => r#"⋖"#,
-    0x297cu32 => r#"⥼"#,
-    0x1d529u32 => r#"𝔩"#,
-    0x2a91u32 => r#"⪑"#,
-    0x296au32 => r#"⥪"#,
-    0x2584u32 => r#"▄"#,
-    0x459u32 => r#"љ"#,
-    0x296bu32 => r#"⥫"#,
-    0x25fau32 => r#"◺"#,
-    0x140u32 => r#"ŀ"#,
-    0x23b0u32 => r#"⎰"#,
-    0x2268u32 => r#"≨"#,
-    0x2a89u32 => r#"⪉"#,
-    0x2a87u32 => r#"⪇"#,
-    0x22e6u32 => r#"⋦"#,
-    0x27ecu32 => r#"⟬"#,
-    0x21fdu32 => r#"⇽"#,
-    0x27fcu32 => r#"⟼"#,
-    0x21acu32 => r#"↬"#,
-    0x2985u32 => r#"⦅"#,
-    0x1d55du32 => r#"𝕝"#,
-    0x2a2du32 => r#"⨭"#,
-    0x2a34u32 => r#"⨴"#,
-    0x2217u32 => r#"∗"#,
-    0x25cau32 => r#"◊"#,
-    0x28u32 => r#"("#,
-    0x2993u32 => r#"⦓"#,
-    0x296du32 => r#"⥭"#,
-    0x200eu32 => r#"‎"#,
-    0x22bfu32 => r#"⊿"#,
-    0x2039u32 => r#"‹"#,
-    0x1d4c1u32 => r#"𝓁"#,
-    0x2a8du32 => r#"⪍"#,
-    0x2a8fu32 => r#"⪏"#,
-    0x201au32 => r#"‚"#,
-    0x142u32 => r#"ł"#,
-    0x2aa6u32 => r#"⪦"#,
-    0x2a79u32 => r#"⩹"#,
-    0x22c9u32 => r#"⋉"#,
-    0x2976u32 => r#"⥶"#,
-    0x2a7bu32 => r#"⩻"#,
-    0x2996u32 => r#"⦖"#,
-    0x25c3u32 => r#"◃"#,
-    0x294au32 => r#"⥊"#,
-    0x2966u32 => r#"⥦"#,
-    0x223au32 => r#"∺"#,
-    0xafu32 => r#"¯"#,
-    0x2642u32 => r#"♂"#,
-    0x2720u32 => r#"✠"#,
-    0x25aeu32 => r#"▮"#,
-    0x2a29u32 => r#"⨩"#,
-    0x43cu32 => r#"м"#,
-    0x2014u32 => r#"—"#,
-    0x1d52au32 => r#"𝔪"#,
-    0x2127u32 => r#"℧"#,
-    0xb5u32 => r#"µ"#,
-    0x2af0u32 => r#"⫰"#,
-    0x2212u32 => r#"−"#,
-    0x2a2au32 => r#"⨪"#,
-    0x2adbu32 => r#"⫛"#,
-    0x22a7u32 => r#"⊧"#,
-    0x1d55eu32 => r#"𝕞"#,
-    0x1d4c2u32 => r#"𝓂"#,
-    0x3bcu32 => r#"μ"#,
-    0x22b8u32 => r#"⊸"#,
-    0x21cdu32 => r#"⇍"#,
-    0x21ceu32 => r#"⇎"#,
-    0x21cfu32 => r#"⇏"#,
-    0x22afu32 => r#"⊯"#,
-    0x22aeu32 => r#"⊮"#,
-    0x144u32 => r#"ń"#,
-    0x149u32 => r#"ŉ"#,
-    0x266eu32 => r#"♮"#,
-    0x2a43u32 => r#"⩃"#,
-    0x148u32 => r#"ň"#,
-    0x146u32 => r#"ņ"#,
-    0x2a42u32 => r#"⩂"#,
-    0x43du32 => r#"н"#,
-    0x2013u32 => r#"–"#,
-    0x21d7u32 => r#"⇗"#,
-    0x2924u32 => r#"⤤"#,
-    0x2928u32 => r#"⤨"#,
-    0x1d52bu32 => r#"𝔫"#,
-    0x21aeu32 => r#"↮"#,
-    0x2af2u32 => r#"⫲"#,
-    0x22fcu32 => r#"⋼"#,
-    0x22fau32 => r#"⋺"#,
-    0x45au32 => r#"њ"#,
-    0x219au32 => r#"↚"#,
-    0x2025u32 => r#"‥"#,
-    0x1d55fu32 => r#"𝕟"#,
-    0xacu32 => r#"¬"#,
-    0x22f7u32 => r#"⋷"#,
-    0x22f6u32 => r#"⋶"#,
-    0x22feu32 => r#"⋾"#,
-    0x22fdu32 => r#"⋽"#,
-    0x2afdu32 => r#"⫽⃥"#,
-    0x2a14u32 => r#"⨔"#,
-    0x219bu32 => r#"↛"#,
-    0x2933u32 => r#"⤳̸"#,
-    0x219du32 => r#"↝̸"#,
-    0x1d4c3u32 => r#"𝓃"#,
-    0x2284u32 => r#"⊄"#,
-    0x2ac5u32 => r#"⫅̸"#,
-    0x2285u32 => r#"⊅"#,
-    0x2ac6u32 => r#"⫆̸"#,
-    0xf1u32 => r#"ñ"#,
-    0x3bdu32 => r#"ν"#,
-    0x23u32 => r#"#"#,
-    0x2116u32 => r#"№"#,
-    0x2007u32 => r#" "#,
-    0x22adu32 => r#"⊭"#,
-    0x2904u32 => r#"⤄"#,
-    0x22acu32 => r#"⊬"#,
-    0x29deu32 => r#"⧞"#,
-    0x2902u32 => r#"⤂"#,
-    0x2903u32 => r#"⤃"#,
-    0x21d6u32 => r#"⇖"#,
-    0x2923u32 => r#"⤣"#,
-    0x2927u32 => r#"⤧"#,
-    0xf3u32 => r#"ó"#,
-    0xf4u32 => r#"ô"#,
-    0x43eu32 => r#"о"#,
-    0x151u32 => r#"ő"#,
-    0x2a38u32 => r#"⨸"#,
-    0x29bcu32 => r#"⦼"#,
-    0x153u32 => r#"œ"#,
-    0x29bfu32 => r#"⦿"#,
-    0x1d52cu32 => r#"𝔬"#,
-    0x2dbu32 => r#"˛"#,
-    0xf2u32 => r#"ò"#,
-    0x29c1u32 => r#"⧁"#,
-    0x29b5u32 => r#"⦵"#,
-    0x29beu32 => r#"⦾"#,
-    0x29bbu32 => r#"⦻"#,
-    0x29c0u32 => r#"⧀"#,
-    0x14du32 => r#"ō"#,
-    0x3c9u32 => r#"ω"#,
-    0x3bfu32 => r#"ο"#,
-    0x29b6u32 => r#"⦶"#,
-    0x1d560u32 => r#"𝕠"#,
-    0x29b7u32 => r#"⦷"#,
-    0x29b9u32 => r#"⦹"#,
-    0x2228u32 => r#"∨"#,
-    0x2a5du32 => r#"⩝"#,
-    0x2134u32 => r#"ℴ"#,
-    0xaau32 => r#"ª"#,
-    0xbau32 => r#"º"#,
-    0x22b6u32 => r#"⊶"#,
-    0x2a56u32 => r#"⩖"#,
-    0x2a57u32 => r#"⩗"#,
-    0x2a5bu32 => r#"⩛"#,
-    0xf8u32 => r#"ø"#,
-    0x2298u32 => r#"⊘"#,
-    0xf5u32 => r#"õ"#,
-    0x2a36u32 => r#"⨶"#,
-    0xf6u32 => r#"ö"#,
-    0x233du32 => r#"⌽"#,
-    0xb6u32 => r#"¶"#,
-    0x2af3u32 => r#"⫳"#,
-    0x43fu32 => r#"п"#,
-    0x25u32 => r#"%"#,
-    0x2eu32 => r#"."#,
-    0x2030u32 => r#"‰"#,
-    0x2031u32 => r#"‱"#,
-    0x1d52du32 => r#"𝔭"#,
-    0x3c6u32 => r#"φ"#,
-    0x3d5u32 => r#"ϕ"#,
-    0x260eu32 => r#"☎"#,
-    0x3c0u32 => r#"π"#,
-    0x3d6u32 => r#"ϖ"#,
-    0x210eu32 => r#"ℎ"#,
-    0x2bu32 => r#"+"#,
-    0x2a23u32 => r#"⨣"#,
-    0x2a22u32 => r#"⨢"#,
-    0x2a25u32 => r#"⨥"#,
-    0x2a72u32 => r#"⩲"#,
-    0x2a26u32 => r#"⨦"#,
-    0x2a27u32 => r#"⨧"#,
-    0x2a15u32 => r#"⨕"#,
-    0x1d561u32 => r#"𝕡"#,
-    0xa3u32 => r#"£"#,
-    0x2ab3u32 => r#"⪳"#,
-    0x2ab7u32 => r#"⪷"#,
-    0x2ab9u32 => r#"⪹"#,
-    0x2ab5u32 => r#"⪵"#,
-    0x22e8u32 => r#"⋨"#,
-    0x2032u32 => r#"′"#,
-    0x232eu32 => r#"⌮"#,
-    0x2312u32 => r#"⌒"#,
-    0x2313u32 => r#"⌓"#,
-    0x22b0u32 => r#"⊰"#,
-    0x1d4c5u32 => r#"𝓅"#,
-    0x3c8u32 => r#"ψ"#,
-    0x2008u32 => r#" "#,
-    0x1d52eu32 => r#"𝔮"#,
-    0x1d562u32 => r#"𝕢"#,
-    0x2057u32 => r#"⁗"#,
-    0x1d4c6u32 => r#"𝓆"#,
-    0x2a16u32 => r#"⨖"#,
-    0x3fu32 => r#"?"#,
-    0x291cu32 => r#"⤜"#,
-    0x2964u32 => r#"⥤"#,
-    0x331u32 => r#"∽̱"#,
-    0x155u32 => r#"ŕ"#,
-    0x29b3u32 => r#"⦳"#,
-    0x2992u32 => r#"⦒"#,
-    0x29a5u32 => r#"⦥"#,
-    0xbbu32 => r#"»"#,
-    0x2975u32 => r#"⥵"#,
-    0x2920u32 => r#"⤠"#,
-    0x291eu32 => r#"⤞"#,
-    0x2945u32 => r#"⥅"#,
-    0x2974u32 => r#"⥴"#,
-    0x21a3u32 => r#"↣"#,
-    0x291au32 => r#"⤚"#,
-    0x2236u32 => r#"∶"#,
-    0x2773u32 => r#"❳"#,
-    0x7du32 => r#"}"#,
-    0x5du32 => r#"]"#,
-    0x298cu32 => r#"⦌"#,
-    0x298eu32 => r#"⦎"#,
-    0x2990u32 => r#"⦐"#,
-    0x159u32 => r#"ř"#,
-    0x157u32 => r#"ŗ"#,
-    0x440u32 => r#"р"#,
-    0x2937u32 => r#"⤷"#,
-    0x2969u32 => r#"⥩"#,
-    0x21b3u32 => r#"↳"#,
-    0x25adu32 => r#"▭"#,
-    0x297du32 => r#"⥽"#,
-    0x1d52fu32 => r#"𝔯"#,
-    0x296cu32 => r#"⥬"#,
-    0x3c1u32 => r#"ρ"#,
-    0x3f1u32 => r#"ϱ"#,
-    0x21c9u32 => r#"⇉"#,
-    0x22ccu32 => r#"⋌"#,
-    0x2dau32 => r#"˚"#,
-    0x200fu32 => r#"‏"#,
-    0x23b1u32 => r#"⎱"#,
-    0x2aeeu32 => r#"⫮"#,
-    0x27edu32 => r#"⟭"#,
-    0x21feu32 => r#"⇾"#,
-    0x2986u32 => r#"⦆"#,
-    0x1d563u32 => r#"𝕣"#,
-    0x2a2eu32 => r#"⨮"#,
-    0x2a35u32 => r#"⨵"#,
-    0x29u32 => r#")"#,
-    0x2994u32 => r#"⦔"#,
-    0x2a12u32 => r#"⨒"#,
-    0x203au32 => r#"›"#,
-    0x1d4c7u32 => r#"𝓇"#,
-    0x22cau32 => r#"⋊"#,
-    0x25b9u32 => r#"▹"#,
-    0x29ceu32 => r#"⧎"#,
-    0x2968u32 => r#"⥨"#,
-    0x211eu32 => r#"℞"#,
-    0x15bu32 => r#"ś"#,
-    0x2ab4u32 => r#"⪴"#,
-    0x2ab8u32 => r#"⪸"#,
-    0x161u32 => r#"š"#,
-    0x15fu32 => r#"ş"#,
-    0x15du32 => r#"ŝ"#,
-    0x2ab6u32 => r#"⪶"#,
-    0x2abau32 => r#"⪺"#,
-    0x22e9u32 => r#"⋩"#,
-    0x2a13u32 => r#"⨓"#,
-    0x441u32 => r#"с"#,
-    0x22c5u32 => r#"⋅"#,
-    0x2a66u32 => r#"⩦"#,
-    0x21d8u32 => r#"⇘"#,
-    0xa7u32 => r#"§"#,
-    0x3bu32 => r#";"#,
-    0x2929u32 => r#"⤩"#,
-    0x2736u32 => r#"✶"#,
-    0x1d530u32 => r#"𝔰"#,
-    0x266fu32 => r#"♯"#,
-    0x449u32 => r#"щ"#,
-    0x448u32 => r#"ш"#,
-    0xadu32 => r#"\u{AD}"#,
-    0x3c3u32 => r#"σ"#,
-    0x3c2u32 => r#"ς"#,
-    0x2a6au32 => r#"⩪"#,
-    0x2a9eu32 => r#"⪞"#,
-    0x2aa0u32 => r#"⪠"#,
-    0x2a9du32 => r#"⪝"#,
-    0x2a9fu32 => r#"⪟"#,
-    0x2246u32 => r#"≆"#,
-    0x2a24u32 => r#"⨤"#,
-    0x2972u32 => r#"⥲"#,
-    0x2a33u32 => r#"⨳"#,
-    0x29e4u32 => r#"⧤"#,
-    0x2323u32 => r#"⌣"#,
-    0x2aaau32 => r#"⪪"#,
-    0x2aacu32 => r#"⪬"#,
-    0x44cu32 => r#"ь"#,
-    0x2fu32 => r#"/"#,
-    0x29c4u32 => r#"⧄"#,
-    0x233fu32 => r#"⌿"#,
-    0x1d564u32 => r#"𝕤"#,
-    0x2660u32 => r#"♠"#,
-    0x1d4c8u32 => r#"𝓈"#,
-    0x2606u32 => r#"☆"#,
-    0x2abdu32 => r#"⪽"#,
-    0x2ac3u32 => r#"⫃"#,
-    0x2ac1u32 => r#"⫁"#,
-    0x2acbu32 => r#"⫋"#,
-    0x228au32 => r#"⊊"#,
-    0x2abfu32 => r#"⪿"#,
-    0x2979u32 => r#"⥹"#,
-    0x2ac7u32 => r#"⫇"#,
-    0x2ad5u32 => r#"⫕"#,
-    0x2ad3u32 => r#"⫓"#,
-    0x266au32 => r#"♪"#,
-    0xb9u32 => r#"¹"#,
-    0xb2u32 => r#"²"#,
-    0xb3u32 => r#"³"#,
-    0x2abeu32 => r#"⪾"#,
-    0x2ad8u32 => r#"⫘"#,
-    0x2ac4u32 => r#"⫄"#,
-    0x27c9u32 => r#"⟉"#,
-    0x2ad7u32 => r#"⫗"#,
-    0x297bu32 => r#"⥻"#,
-    0x2ac2u32 => r#"⫂"#,
-    0x2accu32 => r#"⫌"#,
-    0x228bu32 => r#"⊋"#,
-    0x2ac0u32 => r#"⫀"#,
-    0x2ac8u32 => r#"⫈"#,
-    0x2ad4u32 => r#"⫔"#,
-    0x2ad6u32 => r#"⫖"#,
-    0x21d9u32 => r#"⇙"#,
-    0x292au32 => r#"⤪"#,
-    0xdfu32 => r#"ß"#,
-    0x2316u32 => r#"⌖"#,
-    0x3c4u32 => r#"τ"#,
-    0x165u32 => r#"ť"#,
-    0x163u32 => r#"ţ"#,
-    0x442u32 => r#"т"#,
-    0x2315u32 => r#"⌕"#,
-    0x1d531u32 => r#"𝔱"#,
-    0x3b8u32 => r#"θ"#,
-    0x3d1u32 => r#"ϑ"#,
-    0xfeu32 => r#"þ"#,
-    0xd7u32 => r#"×"#,
-    0x2a31u32 => r#"⨱"#,
-    0x2a30u32 => r#"⨰"#,
-    0x2336u32 => r#"⌶"#,
-    0x2af1u32 => r#"⫱"#,
-    0x1d565u32 => r#"𝕥"#,
-    0x2adau32 => r#"⫚"#,
-    0x2034u32 => r#"‴"#,
-    0x25b5u32 => r#"▵"#,
-    0x225cu32 => r#"≜"#,
-    0x25ecu32 => r#"◬"#,
-    0x2a3au32 => r#"⨺"#,
-    0x2a39u32 => r#"⨹"#,
-    0x29cdu32 => r#"⧍"#,
-    0x2a3bu32 => r#"⨻"#,
-    0x23e2u32 => r#"⏢"#,
-    0x1d4c9u32 => r#"𝓉"#,
-    0x446u32 => r#"ц"#,
-    0x45bu32 => r#"ћ"#,
-    0x167u32 => r#"ŧ"#,
-    0x2963u32 => r#"⥣"#,
-    0xfau32 => r#"ú"#,
-    0x45eu32 => r#"ў"#,
-    0x16du32 => r#"ŭ"#,
-    0xfbu32 => r#"û"#,
-    0x443u32 => r#"у"#,
-    0x171u32 => r#"ű"#,
-    0x297eu32 => r#"⥾"#,
-    0x1d532u32 => r#"𝔲"#,
-    0xf9u32 => r#"ù"#,
-    0x2580u32 => r#"▀"#,
-    0x231cu32 => r#"⌜"#,
-    0x230fu32 => r#"⌏"#,
-    0x25f8u32 => r#"◸"#,
-    0x16bu32 => r#"ū"#,
-    0x173u32 => r#"ų"#,
-    0x1d566u32 => r#"𝕦"#,
-    0x3c5u32 => r#"υ"#,
-    0x21c8u32 => r#"⇈"#,
-    0x231du32 => r#"⌝"#,
-    0x230eu32 => r#"⌎"#,
-    0x16fu32 => r#"ů"#,
-    0x25f9u32 => r#"◹"#,
-    0x1d4cau32 => r#"𝓊"#,
-    0x22f0u32 => r#"⋰"#,
-    0x169u32 => r#"ũ"#,
-    0xfcu32 => r#"ü"#,
-    0x29a7u32 => r#"⦧"#,
-    0x2ae8u32 => r#"⫨"#,
-    0x2ae9u32 => r#"⫩"#,
-    0x299cu32 => r#"⦜"#,
-    0x432u32 => r#"в"#,
-    0x22bbu32 => r#"⊻"#,
-    0x225au32 => r#"≚"#,
-    0x22eeu32 => r#"⋮"#,
-    0x1d533u32 => r#"𝔳"#,
-    0x1d567u32 => r#"𝕧"#,
-    0x1d4cbu32 => r#"𝓋"#,
-    0x299au32 => r#"⦚"#,
-    0x175u32 => r#"ŵ"#,
-    0x2a5fu32 => r#"⩟"#,
-    0x2259u32 => r#"≙"#,
-    0x2118u32 => r#"℘"#,
-    0x1d534u32 => r#"𝔴"#,
-    0x1d568u32 => r#"𝕨"#,
-    0x1d4ccu32 => r#"𝓌"#,
-    0x1d535u32 => r#"𝔵"#,
-    0x3beu32 => r#"ξ"#,
-    0x22fbu32 => r#"⋻"#,
-    0x1d569u32 => r#"𝕩"#,
-    0x1d4cdu32 => r#"𝓍"#,
-    0xfdu32 => r#"ý"#,
-    0x44fu32 => r#"я"#,
-    0x177u32 => r#"ŷ"#,
-    0x44bu32 => r#"ы"#,
-    0xa5u32 => r#"¥"#,
-    0x1d536u32 => r#"𝔶"#,
-    0x457u32 => r#"ї"#,
-    0x1d56au32 => r#"𝕪"#,
-    0x1d4ceu32 => r#"𝓎"#,
-    0x44eu32 => r#"ю"#,
-    0xffu32 => r#"ÿ"#,
-    0x17au32 => r#"ź"#,
-    0x17eu32 => r#"ž"#,
-    0x437u32 => r#"з"#,
-    0x17cu32 => r#"ż"#,
-    0x3b6u32 => r#"ζ"#,
-    0x1d537u32 => r#"𝔷"#,
-    0x436u32 => r#"ж"#,
-    0x21ddu32 => r#"⇝"#,
-    0x1d56bu32 => r#"𝕫"#,
-    0x1d4cfu32 => r#"𝓏"#,
-    0x200du32 => r#"‍"#,
-    0x200cu32 => r#"‌"#,
-};
+/// What HTML decodes references to the C1 control codes `0x80..=0x9f` to
+pub(crate) const C1_CODEPOINTS: [char; 32] = [
+    '\u{20ac}', '\u{81}', '\u{201a}', '\u{192}', '\u{201e}', '\u{2026}', '\u{2020}', '\u{2021}',
+    '\u{2c6}', '\u{2030}', '\u{160}', '\u{2039}', '\u{152}', '\u{8d}', '\u{17d}', '\u{8f}',
+    '\u{90}', '\u{2018}', '\u{2019}', '\u{201c}', '\u{201d}', '\u{2022}', '\u{2013}', '\u{2014}',
+    '\u{2dc}', '\u{2122}', '\u{161}', '\u{203a}', '\u{153}', '\u{9d}', '\u{17e}', '\u{178}',
+];
diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index 40e5e9f..7f8c4f1 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -40,7 +40,7 @@ use regex::Regex;
 
 use crate::parser::html::{
     entities::{
-        CODEPOINTS,
+        C1_CODEPOINTS,
         ENTITIES,
     },
     HTMLNode,
@@ -269,35 +269,32 @@ fn parse(i: &str) -> IResult<&str, Vec<HTMLNode<&str>>> {
 }
 
 lazy_static::lazy_static! {
-    static ref ESCAPE: Regex = Regex::new(r"&(([a-zA-Z]+;?)|(#[0-9]+;)|(#[xX][a-fA-F0-9]+;))").unwrap();
+    static ref ESCAPE: Regex = Regex::new(r"&(([a-zA-Z]+;?)|#([0-9]+);?|#[xX]([a-fA-F0-9]+);?)").unwrap();
 }
 
-fn escape_ref(text: &str) -> Option<&str> {
-    if let Some(text) = ENTITIES.get(text) {
-        Some(text)
-    } else {
-        let val = text.trim_start_matches("&#").trim_end_matches(';');
-
-        let codepoint = if let Some(hex) = val.strip_prefix(['x', 'X']) {
-            u32::from_str_radix(hex, 16)
-        } else {
-            val.parse::<u32>()
-        }
-        .ok()?;
-
-        CODEPOINTS.get(&codepoint).copied()
+/// Decodes a numeric character reference
+///
+/// `None` stands for a number that is too large to be represented.
+fn escape_codepoint(codepoint: Option<u32>) -> char {
+    match codepoint {
+        Some(c @ 0x80..=0x9f) => C1_CODEPOINTS[c as usize - 0x80],
+        Some(0) | None => char::REPLACEMENT_CHARACTER,
+        Some(c) => char::from_u32(c).unwrap_or(char::REPLACEMENT_CHARACTER),
     }
 }
 
 fn escape_text(text: &str) -> Cow<str> {
     let mut new = String::with_capacity(text.len());
     let mut last = 0;
-    for m in ESCAPE.find_iter(text) {
+    for c in ESCAPE.captures_iter(text) {
+        let m = c.get(0).unwrap();
         new.push_str(&text[last..m.start()]);
-        if let Some(escape) = escape_ref(m.as_str()) {
-            new.push_str(escape);
+        if let Some(dec) = c.get(3) {
+            new.push(escape_codepoint(dec.as_str().parse().ok()));
+        } else if let Some(hex) = c.get(4) {
+            new.push(escape_codepoint(u32::from_str_radix(hex.as_str(), 16).ok()));
         } else {
-            new.push_str(&text[m.start()..m.end()]);
+            new.push_str(ENTITIES.get(m.as_str()).copied().unwrap_or(m.as_str()));
         }
         last = m.end();
     }
-- 
2.43.0


From 79f8b3c2838e5a245a9c05948f5ca5db2fcbe563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:49 +0000
Subject: [PATCH 08/13] fix: strict HTML decodes named references with digits
 and unterminated ones as HTML does

Names like &frac12; were never looked up. As in HTML, the longest name
counts (&notit; is a not sign and "it;"), and in an attribute an
unterminated one followed by = or an alphanumeric is no reference:
href="?a=1&copy=2" was decoded to a copyright sign.
---
 src/parser/html/strict.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index 7f8c4f1..a403d4d 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -269,7 +269,9 @@ fn parse(i: &str) -> IResult<&str, Vec<HTMLNode<&str>>> {
 }
 
 lazy_static::lazy_static! {
-    static ref ESCAPE: Regex = Regex::new(r"&(([a-zA-Z]+;?)|#([0-9]+);?|#[xX]([a-fA-F0-9]+);?)").unwrap();
+    static ref ESCAPE: Regex = Regex::new(
+        r"&(?:([a-zA-Z][a-zA-Z0-9]{0,31};?)|#([0-9]+);?|#[xX]([a-fA-F0-9]+);?)"
+    ).unwrap();
 }
 
 /// Decodes a numeric character reference
@@ -283,18 +285,41 @@ fn escape_codepoint(codepoint: Option<u32>) -> char {
     }
 }
 
-fn escape_text(text: &str) -> Cow<str> {
+/// Decodes the named character reference `text` starts with, the longest there is, and returns what
+/// is left of `text`
+///
+/// `next` is the character after `text`. In an attribute, a reference that is not closed by `;` is
+/// none if `=` or an alphanumeric follows, like in `?a=1&copy=2`.
+fn escape_name(text: &str, next: Option<char>, attr: bool) -> Option<(&'static str, &str)> {
+    let (escape, name, left) = (1..=text.len()).rev().find_map(|end| {
+        let (name, left) = text.split_at(end);
+        Some((*ENTITIES.get(name)?, name, left))
+    })?;
+
+    let follows = |c: char| c == '=' || c.is_ascii_alphanumeric();
+
+    if attr && !name.ends_with(';') && left.chars().next().or(next).is_some_and(follows) {
+        None
+    } else {
+        Some((escape, left))
+    }
+}
+
+fn escape_text(text: &str, attr: bool) -> Cow<str> {
     let mut new = String::with_capacity(text.len());
     let mut last = 0;
     for c in ESCAPE.captures_iter(text) {
         let m = c.get(0).unwrap();
         new.push_str(&text[last..m.start()]);
-        if let Some(dec) = c.get(3) {
+        if let Some(dec) = c.get(2) {
             new.push(escape_codepoint(dec.as_str().parse().ok()));
-        } else if let Some(hex) = c.get(4) {
+        } else if let Some(hex) = c.get(3) {
             new.push(escape_codepoint(u32::from_str_radix(hex.as_str(), 16).ok()));
         } else {
-            new.push_str(ENTITIES.get(m.as_str()).copied().unwrap_or(m.as_str()));
+            let next = text[m.end()..].chars().next();
+            let (escape, left) = escape_name(m.as_str(), next, attr).unwrap_or(("", m.as_str()));
+            new.push_str(escape);
+            new.push_str(left);
         }
         last = m.end();
     }
@@ -305,7 +330,7 @@ fn escape_text(text: &str) -> Cow<str> {
 fn escape_attrs<'a>(attrs: BTreeMap<&'a str, &'a str>) -> BTreeMap<Cow<'a, str>, Cow<'a, str>> {
     attrs
         .into_iter()
-        .map(|(k, v)| (k.into(), escape_text(v)))
+        .map(|(k, v)| (k.into(), escape_text(v, true)))
         .collect()
 }
 
@@ -338,7 +363,7 @@ fn escape_node(node: HTMLNode<&str>) -> HTMLNode<Cow<str>> {
             name: name.into(),
             attrs: escape_attrs(attrs),
         },
-        Text(t) => Text(escape_text(t)),
+        Text(t) => Text(escape_text(t, false)),
     }
 }
 
-- 
2.43.0


From 9e574433e7e4c994e06cd93e574d83948e2ef3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:08 +0000
Subject: [PATCH 09/13] fix: strict HTML keeps the first of attributes with the
 same name, as HTML does

The last one won, and the same document parsed leniently kept the first.
---
 src/parser/html/strict.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index a403d4d..3d6d027 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -150,6 +150,11 @@ where
     )
 }
 
+/// Collects attributes. The first one of a name counts, as in HTML
+fn attr_map<'a>(attrs: Vec<(&'a str, &'a str)>) -> BTreeMap<&'a str, &'a str> {
+    attrs.into_iter().rev().collect()
+}
+
 /// Elements that are unable to contain children
 const VOID: &[&str] = &[
     "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track",
@@ -198,7 +203,7 @@ fn void(i: &str) -> IResult<&str, HTMLNode<&str>> {
     map(start_tag(tag_name_in(VOID)), |(name, attrs, _)| {
         HTMLNode::Void {
             name,
-            attrs: attrs.into_iter().collect(),
+            attrs: attr_map(attrs),
         }
     })(i)
 }
@@ -211,7 +216,7 @@ fn raw_element(i: &str) -> IResult<&str, HTMLNode<&str>> {
     if closed {
         return Ok((left, HTMLNode::RawElement {
             name,
-            attrs: attrs.into_iter().collect(),
+            attrs: attr_map(attrs),
             content: "",
         }));
     }
@@ -229,7 +234,7 @@ fn raw_element(i: &str) -> IResult<&str, HTMLNode<&str>> {
 
     Ok((left, HTMLNode::RawElement {
         name,
-        attrs: attrs.into_iter().collect(),
+        attrs: attr_map(attrs),
         content: content.trim(),
     }))
 }
@@ -242,7 +247,7 @@ fn element(i: &str) -> IResult<&str, HTMLNode<&str>> {
     if closed {
         return Ok((left, HTMLNode::Element {
             name,
-            attrs: attrs.into_iter().collect(),
+            attrs: attr_map(attrs),
             children: vec![],
         }));
     }
@@ -251,7 +256,7 @@ fn element(i: &str) -> IResult<&str, HTMLNode<&str>> {
 
     Ok((left, HTMLNode::Element {
         name,
-        attrs: attrs.into_iter().collect(),
+        attrs: attr_map(attrs),
         children,
     }))
 }
-- 
2.43.0


From 67b831e28eb8418648b58126c261659bd0774ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 10/13] fix: lenient HTML keeps the contents of <template>

The fragment that holds them was dropped, so nothing in a template could
be found.
---
 src/parser/html/lenient.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/parser/html/lenient.rs b/src/parser/html/lenient.rs
index c3f3bf3..5c3aa93 100644
--- a/src/parser/html/lenient.rs
+++ b/src/parser/html/lenient.rs
@@ -34,6 +34,21 @@ where
     }
 }
 
+/// Converts the children of `node`. The contents of a `<template>` are held by a fragment.
+fn child_nodes(node: ego_tree::NodeRef<scraper::Node>) -> Vec<HTMLNode<scraper::StrTendril>> {
+    let mut children = vec![];
+
+    for child in node.children() {
+        if child.value().is_fragment() {
+            children.extend(child_nodes(child));
+        } else {
+            children.extend(child.try_into().ok());
+        }
+    }
+
+    children
+}
+
 #[allow(clippy::mutable_key_type)]
 impl<'a> TryFrom<ego_tree::NodeRef<'a, scraper::Node>> for HTMLNode<scraper::StrTendril> {
     type Error = ();
@@ -56,7 +71,7 @@ impl<'a> TryFrom<ego_tree::NodeRef<'a, scraper::Node>> for HTMLNode<scraper::Str
                     _ => HTMLNode::Element {
                         name,
                         attrs,
-                        children: node.children().filter_map(|e| e.try_into().ok()).collect(),
+                        children: child_nodes(node),
                     },
                 })
             }
-- 
2.43.0


From 49ecbcc5b2000bfa7791555794f9090317a18ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 11/13] fix: lenient HTML keeps the children of SVG and MathML
 elements named like a void element

<svg><link>text</link></svg> lost its text.
---
 src/parser/html/lenient.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/html/lenient.rs b/src/parser/html/lenient.rs
index 5c3aa93..643a4f2 100644
--- a/src/parser/html/lenient.rs
+++ b/src/parser/html/lenient.rs
@@ -67,7 +67,12 @@ impl<'a> TryFrom<ego_tree::NodeRef<'a, scraper::Node>> for HTMLNode<scraper::Str
 
                 Ok(match element.name() {
                     "area" | "base" | "br" | "col" | "embed" | "hr" | "img" | "input" | "link"
-                    | "meta" | "source" | "track" | "wbr" => HTMLNode::Void { name, attrs },
+                    | "meta" | "source" | "track" | "wbr"
+                        // An SVG or MathML element of that name can have children
+                        if !node.has_children() =>
+                    {
+                        HTMLNode::Void { name, attrs }
+                    }
                     _ => HTMLNode::Element {
                         name,
                         attrs,
-- 
2.43.0


From ea1d72a057db7c115bd139cf8a3c37f59834b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 12/13] fix: reject XML documents with several root elements

---
 src/parser/xml/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser/xml/mod.rs b/src/parser/xml/mod.rs
index d8401bc..404e8d0 100644
--- a/src/parser/xml/mod.rs
+++ b/src/parser/xml/mod.rs
@@ -28,10 +28,15 @@ where
     type Error = xmltree::ParseError;
 
     fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {
-        Ok(xmltree::Element::parse_all(reader)?
-            .into_iter()
-            .map(Into::into)
-            .collect())
+        let nodes = xmltree::Element::parse_all(reader)?;
+
+        // A document has exactly one root element; `xmltree` lets several of them pass.
+        let roots = nodes.iter().filter(|n| n.as_element().is_some()).count();
+        if roots != 1 {
+            return Err(xmltree::ParseError::CannotParse);
+        }
+
+        Ok(nodes.into_iter().map(Into::into).collect())
     }
 }
 
-- 
2.43.0


From b18cb6e718dd66d20ab8ade036dc9d23ce7973c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:30 +0000
Subject: [PATCH 13/13] fix: traverse trees of any depth without recursion

Iterating a deeply nested tree took quadratic time and overflowed the stack.
---
 src/node.rs | 48 +++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index ac313af..4f0a8bf 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -58,10 +58,15 @@ pub enum NodeIter<'x, N> {
     Direct {
         iter: std::slice::Iter<'x, N>,
     },
+    /// Walks the tree with a stack of its own, so that the depth of the tree is not limited by the
+    /// size of the call stack.
     Tree {
-        node: &'x N,
-        child: Option<Box<NodeIter<'x, N>>>,
-        next: Option<usize>,
+        /// Root of the tree, until it is returned
+        root: Option<&'x N>,
+        /// Node returned last, whose children come next
+        last: Option<&'x N>,
+        /// Remaining siblings on each level
+        stack: Vec<std::slice::Iter<'x, N>>,
     },
 }
 
@@ -75,9 +80,9 @@ where
 
     pub(crate) fn tree(node: &'x N) -> Self {
         Self::Tree {
-            node,
-            child: None,
-            next: None,
+            root: Some(node),
+            last: None,
+            stack: Vec::new(),
         }
     }
 }
@@ -91,27 +96,24 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         match self {
             NodeIter::Direct { iter } => iter.next(),
-            NodeIter::Tree { node, child, next } => loop {
-                if let Some(c) = child.as_mut() {
-                    if let Some(next) = c.next() {
-                        return Some(next);
-                    }
+            NodeIter::Tree { root, last, stack } => {
+                if let Some(node) = last.take() {
+                    stack.push(node.children().iter());
+                }
 
-                    *child = None;
-                } else if let Some(n) = next {
-                    let children = node.children();
+                let mut next = root.take();
 
-                    if let Some(c) = children.get(*n) {
-                        *child = Some(Box::new(Self::tree(c)));
-                        *next = Some(*n + 1);
-                    } else {
-                        return None;
+                while next.is_none() {
+                    next = stack.last_mut()?.next();
+
+                    if next.is_none() {
+                        stack.pop();
                     }
-                } else {
-                    *next = Some(0);
-                    return Some(*node);
                 }
-            },
+
+                *last = next;
+                next
+            }
         }
     }
 }
-- 
2.43.0

