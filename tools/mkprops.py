#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

S = "src/parser/html/strict.rs"; L = "src/parser/html/lenient.rs"; X = "src/parser/xml/mod.rs"
Q = "src/query.rs"; N = "src/node.rs"; H = "src/parser/html/node.rs"; E = "src/parser/html/entities.rs"

p("C01", "Strict HTML parsing returns exactly the tree the document spells out",
  "For every well-formed document (balanced elements, void elements, script/style, comments, doctypes, text, in any nesting and order), strict HTML parsing succeeds and the nodes it returns are exactly those written: the same kinds, names as written, order, nesting, text and comment contents. Nothing is dropped, duplicated, merged across markup, split, trimmed (except around script/style content) or moved. This holds at every depth, width and length and for every character content may hold.",
  ["inputs"], "all well-formed documents: token sequences, trees, nesting depths, widths, lengths and characters",
  "Unit tests parse a handful of fixed documents, three levels deep, with ASCII text.",
  [S], [("recursive-descent grammar: single/parse/element", S), ("whole input must be consumed", S)],
  ["Soup::html_strict", "parser::StrictHTMLParser::parse"])

p("C02", "Strict HTML parsing rejects malformed documents as a whole",
  "A document with an unclosed element, an end tag that matches no open element or another one than the innermost (void elements included), an unterminated tag, comment, doctype, quoted value or script/style, a stray '<', or an attribute without a valid name or value makes strict HTML parsing return an error. It never returns a repaired, truncated or partial tree, so every proper prefix of a document that ends inside an open construct is an error, too.",
  ["inputs"], "all malformed documents: every truncation and every token or character sequence that is not well-formed",
  "No existing test parses a malformed document; acceptance is only sampled on valid ones.",
  [S], [("all_consuming at the top level", S), ("end tag must match the start tag", S)],
  ["Soup::html_strict"])

p("C03", "Strict HTML attributes are reported exactly as written, in every syntax",
  "Every attribute of a start tag (double-quoted, single-quoted, unquoted or without value, with any HTML whitespace around names and '=', on ordinary, void, self-closed and script/style elements) is reported once under its exact name with its exact value, character references aside. A valueless attribute has the empty string, quoted values may contain any character but their quote ('>', '/', '<', '=', newlines included), and of attributes with the same name the first counts. The number, order and length of attributes and the characters in them do not matter.",
  ["inputs"], "all start tags: every combination of attribute syntaxes, whitespace, names, values, counts and element kinds",
  "Tests try about a dozen start tags; none with a letter such as 't' in an unquoted value, or a newline between attributes.",
  [S], [("start_tag, attr, ws0", S), ("attr_map, escape_attrs", S)],
  ["Node::attrs", "Node::get"])

p("C04", "Strict HTML decodes character references exactly as the HTML standard says",
  "In text and attribute values every named and numeric character reference the HTML standard defines is replaced by exactly the character(s) the standard assigns to it, once, wherever it stands; text that is not a reference is left as it is. Missing semicolons, attribute values, and invalid or out-of-range numbers follow the standard as well. Comments, doctypes, names and script/style contents are never decoded.",
  ["inputs"], "all texts and attribute values: every entity name, every code point, every context and following character",
  "Tests decode two references (&amp; and &#x2F;) out of 2231 names and 1.1 million numbers.",
  [S, E], [("escape_text / escape_name / escape_codepoint", S), ("ENTITIES table", E)],
  ["Node::text", "Node::attrs"])

p("C05", "Strict HTML treats void and script/style elements by whole name",
  "Exactly the elements named area, base, br, col, embed, hr, img, input, link, meta, source, track or wbr (ASCII case-insensitively, whole name) are void: they end with their start tag and never take children or an end tag. Exactly script and style hold raw content: everything up to their own end tag (any ASCII case, optional whitespace before '>') verbatim apart from surrounding whitespace, never parsed as markup. Any other name, however similar, is an ordinary element.",
  ["inputs"], "all element names (near misses included), all letter cases, all raw contents",
  "Tests use a few void tags in one syntax and one script; no name that merely starts like a void or raw one.",
  [S], [("void, raw_element, tag_name_in, end_tag", S)],
  ["Soup::html_strict"])

p("C06", "The strict and the lenient HTML parser agree on valid documents",
  "For a valid, complete HTML document (doctype, html, head, body and every end tag spelled out, elements nested as the standard allows, lower-case names), both HTML parsers yield the same tree: the same elements in the same places with the same names, attributes, text, comments and script/style contents. Only whitespace directly around the html, head and body elements, a newline that starts a pre or textarea, and markup written inside title, textarea, noscript and the like may come out differently. Hence the same query on either soup finds corresponding elements in the same order.",
  ["inputs"], "all valid documents over the shared subset, and all queries on them",
  "No test compares the two parsers; each has its own fixed examples.",
  [S, L], [("nom grammar", S), ("conversion of the html5ever tree", L)],
  ["Soup::html", "Soup::html_strict"])

p("C07", "Lenient HTML parsing yields the HTML standard's document tree, nothing lost",
  "For every input text, lenient HTML parsing yields exactly the document tree that the HTML standard's parsing algorithm builds: every element (with all its children, whatever its name or namespace, template contents included), text, comment and doctype, in order, with every attribute under its local name. Elements named like a void element that have no children are reported as void. The type of the input (string slice, owned string or anything that can be viewed as one) makes no difference.",
  ["inputs"], "all texts, malformed ones included; all input string types",
  "Tests parse three documents; none contains a table, template, foreign or misnested element.",
  [L], [("TryFrom<NodeRef> for HTMLNode, child_nodes", L)],
  ["Soup::html", "parser::LenientHTMLParser::parse"])

p("C08", "No input makes a parser panic, abort or hang",
  "For every text (and for XML every byte sequence), each parser returns in finite time with a value: strict HTML and XML with nodes or an error, lenient HTML always with nodes. No input, however malformed, truncated, non-ASCII, repetitive or deeply nested, causes a panic, a process abort or an endless or exponentially long run.",
  ["inputs"], "all strings and byte strings, well-formed or not; all nesting depths",
  "Tests feed well-formed ASCII documents only.",
  [S, L, X], [("index arithmetic on character boundaries", S), ("recursion over the document", L), ("recursion over the document", X)],
  ["Soup::html_strict", "Soup::html", "Soup::xml"])

p("C09", "XML parsing returns exactly the tree the document spells out",
  "For every well-formed XML document, XML parsing succeeds and yields exactly its elements (local name, prefix, namespace, attributes with decoded values under their local names), text with references decoded, CDATA sections, comments and processing instructions, in document order and nesting, including those before and after the root. Only whitespace-only text, the XML declaration and the document type declaration yield no node.",
  ["inputs"], "all well-formed documents: token sequences, trees, depths, widths, characters, namespaces",
  "Tests parse one fixed document without CDATA, comments, instructions, namespaces or references.",
  [X], [("From<xmltree::Element>, From<xmltree::XMLNode>", X)],
  ["Soup::xml", "parser::XMLParser::parse"])

p("C10", "XML parsing rejects malformed and truncated documents as a whole",
  "XML input that is not well-formed (unclosed, mismatched or stray tags, no or several root elements, text outside the root, duplicate or unquoted attributes, undefined entities, unbound prefixes, unterminated constructs, invalid UTF-8), or that is cut off anywhere before the end of the root element, makes XML parsing return an error. It never returns a partial or repaired tree.",
  ["inputs"], "all malformed documents, every truncation of a well-formed one",
  "No existing test parses malformed XML.",
  [X], [("errors of xmltree::Element::parse_all are passed on", X)],
  ["Soup::xml"])

p("C11", "How a reader delivers XML makes no difference, and its errors surface",
  "The outcome of XML parsing depends only on the bytes the reader delivers, not on how they are split over reads (one byte at a time, across a multi-byte character, any buffer sizes), on interrupted reads that are to be retried, or on the type of reader. If the reader fails with any other error before the end of the root element, parsing returns an error, never a tree of what arrived before.",
  ["fault_sequences", "inputs"], "all ways to split a document over reads, all points and kinds of read failure",
  "Tests only read from byte slices, which deliver everything at once and never fail.",
  [X], [("reader handed to xmltree::Element::parse_all", X)],
  ["Soup::xml", "parser::XMLParser::parse"])

p("C12", "A query returns exactly the matching nodes, each once, in document order",
  "For every tree and every combination of tag, attribute, attribute-name, attribute-value and class conditions, running a query yields exactly those nodes in its scope that satisfy all conditions: no match is missed, none is returned twice, non-matching nodes are never returned, and the order is document order (parents before children, siblings in order). A query without conditions (also iterating the soup itself) yields every node, text and comments included.",
  ["inputs", "programs"], "all trees, all query expressions, for every node type (strict HTML, lenient HTML, XML, user-defined)",
  "Tests run about fifteen queries on three small documents and look at the first few results.",
  [Q, N, "src/filter.rs", "src/soup.rs"], [("QueryIter/MapNodeIter", Q), ("NodeIter::tree", N), ("Filter impls", "src/filter.rs")],
  ["Queryable::all", "Queryable::first", "Soup::iter", "IntoIterator for Query and &Soup"])

p("C13", "Queries search all descendants by default and only the top level when strict",
  "By default, and after recursive(), a query considers every node of the soup at any depth; after strict() it considers only the soup's top-level nodes, and the last of these calls decides. The scope is independent of the conditions and of where in the chain it was set, and a strict query's results are always those results of the recursive query that are top-level nodes, in the same order.",
  ["inputs", "programs"], "all trees and all chains of scope and condition calls",
  "Two tests compare one strict query with one recursive query; no chain sets the scope twice or after conditions.",
  [Q, N], [("recursive flag carried through Query", Q), ("MapNodeIter", Q)],
  ["Queryable::strict", "Queryable::recursive"])

p("C14", "Conditions combine by boolean logic, in any order, without side effects",
  "Chaining conditions is conjunction: the result is the intersection of the single conditions' results, independent of the order of the calls, unaffected by repeating one, and adding one never adds a result. The public combinators behave as boolean and, or and true on every node, for any nesting and for user-defined filters.",
  ["inputs", "programs"], "all nodes and all filter expressions up to the bound",
  "No test chains two conditions; Or is not tested at all.",
  ["src/filter.rs", Q], [("And, Or, ()", "src/filter.rs"), ("And built by Query::tag/attr", Q)],
  ["filter::Filter::matches", "Queryable"])

p("C15", "Every kind of pattern matches by its definition, wherever it is used",
  "Strings in every form (&str, String, borrowed or owned Cow) match exactly the equal value, case-sensitively and in full; true matches every value and false none; a regex matches where the regular expression finds a match; a user-defined pattern matches where its own matches() says so. This holds identically for tags, attribute names, attribute values and classes and for every node type, and offering or withholding the exact-value shortcut never changes a result.",
  ["inputs", "programs"], "all patterns of every type, all haystacks, all positions in a query",
  "Tests use one String, one regex and `true`, on tags (and `true` on one attribute).",
  ["src/pattern.rs", "src/filter.rs"], [("Pattern impls", "src/pattern.rs"), ("Pattern::value used as a map key", "src/filter.rs")],
  ["pattern::Pattern", "Queryable"])

p("C16", "An attribute condition needs one attribute that matches both name and value",
  "An attribute condition holds for a node exactly if it has some attribute whose name matches the name pattern and whose value matches the value pattern, both on the same attribute, whichever it is among the node's attributes; attr_name ignores the value, attr_value the name, class is the condition on the attribute named class, compared as a whole. Nodes without attributes (text, comments, other non-elements) never match.",
  ["inputs", "programs"], "all attribute sets (any number of attributes) and all pairs of name and value patterns",
  "Tests only use conditions where the first or only attribute decides.",
  ["src/filter.rs", Q], [("Attr::matches: map lookup or scan", "src/filter.rs")],
  ["Queryable::attr", "Queryable::attr_name", "Queryable::attr_value", "Queryable::class"])

p("C17", "Querying a result searches exactly its contents",
  "The soup made from a query result contains exactly the children of that node with all their descendants, equal and in order, and not the node itself; a result without children gives an empty soup. It is a copy that stays valid and unchanged on its own, and sub-queries compose to any depth: querying step by step finds exactly the matching descendants of each result.",
  ["inputs", "programs"], "all trees, all results, all chains of sub-queries",
  "Two tests make one sub-query and look at its first result.",
  [Q], [("QueryItem::query", Q)],
  ["QueryItem::query"])

p("C18", "Node accessors and traversals describe the same tree",
  "For every node, however it was made, name and attributes are present exactly for elements of every kind, text exactly for text nodes, children exactly for elements that have them; get returns the value stored under exactly that name; iterating a node yields its children in order. Descendants are the node itself followed by its descendants in document order, each once, and all_text is the text of those that have any, in that order, joined by newlines.",
  ["inputs"], "all trees of HTML, XML and user-defined nodes, of every shape, depth and width",
  "Tests look at the first five descendants of two documents.",
  [N, H, X], [("Node for HTMLNode", H), ("Node for XMLNode", X), ("NodeIter", N)],
  ["Node::name", "Node::text", "Node::attrs", "Node::get", "Node::children", "Node::descendants", "Node::all_text", "HTMLNode::iter", "XMLNode::iter"])

p("C19", "Result iterators can be stopped, resumed and repeated at will",
  "A query result iterator yields the same sequence whether it is drained at once, step by step, or through any of the standard iterator methods; its size hint always bounds what is left, and once exhausted it stays so. first() is its first item, a query can be copied and run any number of times with the same result, and running queries never changes the soup or another iterator.",
  ["histories", "programs"], "all sequences of iterator and query operations on all trees up to the bound",
  "One test copies a query; otherwise iterators are only drained once from the start.",
  [Q, N], [("QueryIter, MapNodeIter (Flatten)", Q), ("NodeIter state", N), ("Copy/Clone for Query", Q)],
  ["QueryIter", "Node::descendants", "Queryable::first", "Query: Copy + Clone"],
  [("NodeIter::Tree{child,next}", "cursor of a traversal", N), ("MapNodeIter::iter", "cursor over the top level", Q)])

p("C20", "Parses and queries do not influence each other, in any interleaving or history",
  "What a parse or query returns depends only on its own arguments: not on what was parsed or queried before, on other soups or iterators being used in between, on calls made from within a pattern, reader or node of its own, or on other threads doing the same at the same time. The same input gives an equal result every time.",
  ["schedules", "histories"], "all interleavings of concurrent, re-entrant and sequential parses and queries up to the bound",
  "Tests run one parse and one query at a time.",
  [S, L, X, Q, N], [("no state outside the values; lazily built global regex", S), ("iterators borrow the soup immutably", Q)],
  ["Soup::html_strict", "Soup::html", "Soup::xml", "QueryIter::next"],
  [("ESCAPE", "the only global: a lazily built regex", S)])

p("C21", "Every feature combination builds, and features do not change behaviour",
  "The crate builds with every combination of its features (html-lenient, html-strict, xml, regex). Whatever parser, node and pattern a combination offers behaves exactly as it does with all features enabled; a feature only adds API.",
  ["configurations"], "all 16 feature combinations, each on the same corpus",
  "Tests run with the default features only.",
  ["Cargo.toml", "src/parser/mod.rs", "src/parser/html/mod.rs", "src/soup.rs", "src/pattern.rs"], [("cfg(feature) gates", "src/parser/mod.rs")],
  ["crate API per feature set"])

p("C22", "User-defined parsers, nodes, patterns and filters are served like built-in ones",
  "A soup made with a user's parser hands it the input unchanged and exactly once, holds exactly the nodes it returned in order, and returns its error unchanged if it fails. Queries, traversals and text extraction on user-defined nodes rely only on what the node's own methods report, so they see the same as on a built-in node of the same content, whatever text type the nodes use.",
  ["inputs", "programs"], "all user-defined trees up to the bound, text types, parsers that succeed or fail",
  "Tests use the built-in parsers and nodes only.",
  ["src/parser/mod.rs", "src/soup.rs", N, Q], [("Soup::new", "src/soup.rs"), ("provided methods of Node", N)],
  ["Soup::new", "parser::Parser", "Node"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
