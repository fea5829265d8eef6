//! C11: how a reader delivers XML makes no difference, and its errors surface.

use std::{
    cell::Cell,
    collections::VecDeque,
    io::{self, BufRead, BufReader, Cursor, ErrorKind, Read, Seek, Write},
    rc::Rc,
};

use mc::{
    engine::{fnv, seen, Ctx, Fam, Seen},
    gen,
    xmlfam::tops,
};
use soupy::Soup;

/// What a read call does, in order. Once the plan is used up, the rest is delivered at once.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Give(usize),
    Interrupt,
    Fail(ErrorKind),
    /// end of input, whatever was not delivered yet
    Eof,
}
use Do::{Eof, Fail, Give, Interrupt};

struct Plan<'a> {
    data: &'a [u8],
    plan: VecDeque<Do>,
    /// an error is repeated for good
    sticky: bool,
    /// number of calls
    calls: Rc<Cell<usize>>,
}

impl Read for Plan<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls.set(self.calls.get() + 1);
        if buf.is_empty() {
            return Ok(0);
        }
        let n = match self.plan.front().copied() {
            None => self.data.len(),
            Some(Give(n)) => {
                if n > buf.len() {
                    self.plan[0] = Give(n - buf.len());
                    buf.len()
                } else {
                    self.plan.pop_front();
                    n
                }
            }
            Some(Interrupt) => {
                self.plan.pop_front();
                return Err(ErrorKind::Interrupted.into());
            }
            Some(Fail(k)) => {
                if !self.sticky {
                    self.plan.pop_front();
                }
                return Err(io::Error::new(k, "injected"));
            }
            Some(Eof) => return Ok(0),
        };
        let n = n.min(buf.len()).min(self.data.len());
        // a reader may write behind what it reports
        let m = buf.len().min(n + 16);
        buf[n..m].fill(b'<');
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

type Out = Result<String, String>;

fn outcome(r: impl Read) -> Out {
    match Soup::xml(r) {
        Ok(s) => Ok(format!("{:?}", tops(&s))),
        Err(e) => Err(format!("{e}")),
    }
}

fn planned(data: &[u8], plan: &[Do], sticky: bool) -> Out {
    outcome(Plan { data, plan: plan.iter().copied().collect(), sticky, calls: Rc::default() })
}

fn same(want: &Out, got: Out) -> Result<Seen, String> {
    if *want == got {
        let (Ok(s) | Err(s)) = &got;
        return seen(want.is_ok(), s);
    }
    Err(format!("with this reader {got:?}\nfrom a slice {want:?}"))
}

/// Where the end tag of the root element ends, in bytes.
struct Doc {
    name: &'static str,
    bytes: Vec<u8>,
    root_end: usize,
    want: Out,
}

fn doc(name: &'static str, head: &str, tail: &str, enc: fn(&str) -> Vec<u8>) -> Doc {
    let h = enc(head);
    let bytes = enc(&format!("{head}{tail}"));
    let want = outcome(&bytes[..]);
    Doc { name, root_end: h.len(), bytes, want }
}

fn utf8(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(u16::to_be_bytes).collect()
}
fn latin(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

fn docs() -> Vec<Doc> {
    vec![
        doc("tiny", "<é b='1'/>", "", utf8),
        doc("text", "<a>é€😀</a>", "\n", utf8),
        doc("nested", "<?xml version=\"1.0\"?><a b='c'>t<!--k--><b>&amp;<![CDATA[x]]></b></a>", "<?p q?>", utf8),
        doc("large", "<!DOCTYPE a [<!ENTITY e 'v'>]>\n<a xmlns:x='u' x:b='&#x1F600;'>\r\n <x:c/>é\u{10ffff}&e;<?p?></a >", " <!-- end -->\n", utf8),
        doc("bom", "\u{feff}<a>é</a>", "", utf8),
        doc("utf-16", "\u{feff}<a b='é'>😀t</a>", "\n", utf16),
        doc("latin-1", "<?xml version='1.0' encoding='ISO-8859-1'?><a>éÿ</a>", "", latin),
    ]
}

fn bad_docs() -> Vec<Doc> {
    vec![
        doc("unclosed", "<a>té<b></a>", "", utf8),
        doc("cut", "<a>té", "", utf8),
        doc("invalid UTF-8", "<a>t\u{e9}</a>", "", latin),
        doc("two roots", "<a/>", "<b/>", utf8),
        doc("nothing", "", "", utf8),
        doc("entity", "<a>&x;</a>", "", utf8),
        doc("half a unit", "\u{feff}<a>é</a", "", |s| {
            let mut v = utf16(s);
            v.push(0);
            v
        }),
    ]
}

fn run(ctx: &Ctx) {
    chunks(ctx);
    interrupts(ctx);
    failures(ctx);
    early_end(ctx);
    readers(ctx);
    large(ctx);
    huge(ctx);
    error_makes(ctx);
    mixed(ctx);
}

fn chunks(ctx: &Ctx) {
    let fam = ctx.family("chunkings", "every way to cut a short document into reads (all 2^(n-1)), into two and three reads for longer ones, every fixed read size");
    if !fam.active() {
        return;
    }
    for d in docs().into_iter().chain(bad_docs()) {
        let n = d.bytes.len();
        let all = ctx.bound(16, 20);
        if n == 0 {
            continue;
        }
        if n <= all {
            ctx.par(1usize << (n - 1), |m| {
                let mut plan = vec![];
                let mut len = 1;
                for i in 0..n - 1 {
                    if m >> i & 1 == 1 {
                        plan.push(Give(len));
                        len = 0;
                    }
                    len += 1;
                }
                plan.push(Give(len));
                fam.case(&format!("{} {plan:?}", d.name), || same(&d.want, planned(&d.bytes, &plan, false)));
            });
        }
        ctx.par(n + 1, |i| {
            for j in i..=n {
                let plan = [Give(i.max(1)), Give((j - i).max(1))];
                fam.case(&format!("{} {plan:?}", d.name), || same(&d.want, planned(&d.bytes, &plan, false)));
            }
            if i > 0 {
                let plan = vec![Give(i); n];
                fam.case(&format!("{} reads of {i}", d.name), || same(&d.want, planned(&d.bytes, &plan, false)));
            }
        });
        // the rule of a growing and shrinking size
        for m in 1..=n {
            let plan: Vec<Do> = (0..n).map(|i| Give(1 + (i * m) % 5)).collect();
            fam.case(&format!("{} {plan:?}", d.name), || same(&d.want, planned(&d.bytes, &plan, false)));
        }
    }
}

fn interrupts(ctx: &Ctx) {
    let fam = ctx.family("interrupts", "an interrupted read before every set of bytes (short documents), before every one and every pair (longer ones), up to 40 times in a row, and at the end of input");
    if !fam.active() {
        return;
    }
    let build = |n: usize, at: &dyn Fn(usize) -> usize, chunk: usize| -> Vec<Do> {
        let mut plan = vec![];
        for i in 0..=n {
            plan.extend(std::iter::repeat_n(Interrupt, at(i)));
            if i < n && i % chunk == 0 {
                plan.push(Give(chunk));
            }
        }
        plan
    };
    for d in docs().into_iter().chain(bad_docs()) {
        let n = d.bytes.len();
        if n <= ctx.bound(12, 16) {
            ctx.par(1 << (n + 1), |m| {
                let plan = build(n, &|i| m >> i & 1, 1);
                fam.case(&format!("{} interrupts {m:b}", d.name), || same(&d.want, planned(&d.bytes, &plan, false)));
            });
        }
        ctx.par(n + 1, |i| {
            for chunk in [1, 2, 3, 7] {
                for j in i..=n {
                    let plan = build(n, &|k| usize::from(k == i) + usize::from(k == j), chunk);
                    fam.case(&format!("{} interrupts at {i} {j}, reads of {chunk}", d.name), || same(&d.want, planned(&d.bytes, &plan, false)));
                }
                for times in [3, 10, 40] {
                    let plan = build(n, &|k| if k == i { times } else { 0 }, chunk);
                    fam.case(&format!("{} {times} interrupts at {i}, reads of {chunk}", d.name), || same(&d.want, planned(&d.bytes, &plan, false)));
                }
            }
        });
        for times in 1..6 {
            let plan = build(n, &|_| times, 1);
            fam.case(&format!("{} {times} interrupts before every byte", d.name), || same(&d.want, planned(&d.bytes, &plan, false)));
        }
    }
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted, ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::NotConnected,
    ErrorKind::AddrInUse, ErrorKind::AlreadyExists, ErrorKind::WriteZero, ErrorKind::Unsupported, ErrorKind::OutOfMemory, ErrorKind::ConnectionRefused,
    ErrorKind::AddrNotAvailable, ErrorKind::HostUnreachable, ErrorKind::NetworkDown, ErrorKind::IsADirectory, ErrorKind::StaleNetworkFileHandle,
    ErrorKind::Deadlock, ErrorKind::ResourceBusy, ErrorKind::StorageFull, ErrorKind::NotSeekable,
];

fn fails(fam: &Fam, what: &str, bytes: &[u8], plan: &[Do], sticky: bool) {
    fam.case(what, || match planned(bytes, plan, sticky) {
        Err(e) => seen(true, &e),
        Ok(t) => Err(format!("the reader failed before the end of the root element, but parsing returned {t}")),
    });
}

fn failures(ctx: &Ctx) {
    let fam = ctx.family("failures", "a failing read at every byte before the end of the root element, of every kind of error, once (with the rest, or the end of input, delivered afterwards) or for good, after every read size and with interrupts around it: always an error");
    if !fam.active() {
        return;
    }
    for d in docs() {
        ctx.par(d.root_end, |i| {
            for kind in KINDS {
                for chunk in [1, 2, 5, i.max(1)] {
                    let mut base: Vec<Do> = (0..i / chunk).map(|_| Give(chunk)).collect();
                    if i % chunk > 0 {
                        base.push(Give(i % chunk));
                    }
                    for (tail, what) in [(vec![], "then the rest"), (vec![Give(1), Give(1)], "then the rest slowly"), (vec![Eof], "then the end"), (vec![Interrupt, Fail(*kind)], "twice"), (vec![Fail(ErrorKind::Other); 3], "and others")] {
                        for pre in [false, true] {
                            let mut plan = base.clone();
                            if pre {
                                plan.push(Interrupt);
                            }
                            plan.push(Fail(*kind));
                            plan.extend(&tail);
                            fails(&fam, &format!("{} {kind:?} after {i} bytes in reads of {chunk}, {what} {pre}", d.name), &d.bytes, &plan, false);
                        }
                    }
                    let mut plan = base.clone();
                    plan.push(Fail(*kind));
                    fails(&fam, &format!("{} {kind:?} after {i} bytes in reads of {chunk}, for good", d.name), &d.bytes, &plan, true);
                }
            }
        });
    }
    // through adapters
    let fam = ctx.family("failures-adapted", "the same through buffered, chained and limited readers");
    for d in docs() {
        ctx.par(d.root_end, |i| {
            for kind in [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock] {
                for sticky in [false, true] {
                    for cap in [1, 3, 8, 64] {
                        for a in 0..4 {
                            let plan = VecDeque::from(vec![Give(i.max(1)), Fail(kind)]);
                            // nothing before the failure
                            let plan = if i == 0 { VecDeque::from(vec![Fail(kind)]) } else { plan };
                            let p = Plan { data: &d.bytes, plan, sticky, calls: Rc::default() };
                            fam.case(&format!("{} {kind:?} after {i}, {sticky}, capacity {cap}, adapter {a}", d.name), || {
                                let r = match a {
                                    0 => outcome(BufReader::with_capacity(cap, p)),
                                    1 => outcome(p.chain(&b"</a>"[..])),
                                    2 => outcome(Box::new(p.take(10_000)) as Box<dyn Read>),
                                    _ => outcome(BufReader::with_capacity(cap, BufReader::with_capacity(7, p))),
                                };
                                match r {
                                    Err(e) => seen(true, &e),
                                    Ok(t) => Err(format!("returned {t}")),
                                }
                            });
                        }
                    }
                }
            }
        });
    }
}

fn early_end(ctx: &Ctx) {
    let fam = ctx.family("early-end", "the input ends at every byte before the end of the root element, after every read size and with interrupts, even if more would follow: an error");
    for d in docs() {
        ctx.par(d.root_end, |i| {
            for chunk in 1..=i.clamp(1, 9) {
                for intr in [false, true] {
                    let mut plan: Vec<Do> = (0..i / chunk).map(|_| Give(chunk)).collect();
                    if i % chunk > 0 {
                        plan.push(Give(i % chunk));
                    }
                    if intr {
                        plan.push(Interrupt);
                    }
                    plan.push(Eof);
                    fam.case(&format!("{} ends after {i} in reads of {chunk} {intr}", d.name), || match planned(&d.bytes, &plan, false) {
                        Err(e) => {
                            if i > 0 && e.contains("injected") {
                                return Err("no failure was injected".into());
                            }
                            seen(true, &e)
                        }
                        Ok(t) => Err(format!("returned {t}")),
                    });
                }
            }
        });
    }
}

/// Hands out its data through `BufRead` in small pieces.
struct Slow<'a>(&'a [u8], usize);
impl Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.fill_buf()?.len().min(buf.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Slow<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        Ok(&self.0[..self.1.min(self.0.len())])
    }
    fn consume(&mut self, n: usize) {
        self.0 = &self.0[n..];
    }
}

fn readers(ctx: &Ctx) {
    let fam = ctx.family("readers", "every document through every type of reader: slices, cursors, buffers of every capacity, boxed, borrowed, chained at every place, limited, deques, files, sockets, pipes");
    if !fam.active() {
        return;
    }
    let dir = std::env::temp_dir().join(format!("mc-c11-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    for d in docs().into_iter().chain(bad_docs()) {
        let b = &d.bytes;
        let n = b.len();
        let case = |what: String, f: &dyn Fn() -> Out| fam.case(&format!("{} {what}", d.name), || same(&d.want, f()));
        case("again".into(), &|| outcome(&b[..]));
        case("cursor of a slice".into(), &|| outcome(Cursor::new(&b[..])));
        case("cursor of a vector".into(), &|| outcome(Cursor::new(b.clone())));
        case("advanced cursor".into(), &|| {
            let mut v = b"<junk>".to_vec();
            v.extend(b);
            let mut c = Cursor::new(v);
            c.set_position(6);
            outcome(c)
        });
        case("borrowed".into(), &|| {
            let mut s = &b[..];
            outcome(&mut s)
        });
        case("twice borrowed".into(), &|| {
            let mut s = &b[..];
            let mut t = &mut s;
            outcome(&mut t)
        });
        case("boxed".into(), &|| outcome(Box::new(Cursor::new(b.clone())) as Box<dyn Read>));
        case("deque".into(), &|| outcome(b.iter().copied().collect::<VecDeque<u8>>()));
        case("wrapped deque".into(), &|| {
            let mut q: VecDeque<u8> = VecDeque::with_capacity(n + 3);
            for _ in 0..n / 2 + 1 {
                q.push_back(0);
            }
            for _ in 0..n / 2 + 1 {
                q.pop_front();
            }
            q.extend(b);
            outcome(q)
        });
        for cap in 0..=n + 2 {
            case(format!("buffer of {cap}"), &|| outcome(BufReader::with_capacity(cap.max(1), &b[..])));
            case(format!("slow {cap}"), &|| outcome(Slow(b, cap.max(1))));
            case(format!("buffered slow {cap}"), &|| outcome(BufReader::with_capacity(5, Slow(b, cap.max(1)))));
        }
        for i in 0..=n {
            case(format!("chained at {i}"), &|| outcome(b[..i].chain(&b[i..])));
            case(format!("chained with an empty one at {i}"), &|| outcome(b[..i].chain(io::empty()).chain(Cursor::new(&b[i..]))));
            case(format!("limited, with more behind, {i}"), &|| {
                let mut v = b.clone();
                v.extend(b"<x>".iter().cycle().take(i));
                outcome(Cursor::new(v).take(n as u64))
            });
        }
        let path = dir.join("doc.xml");
        std::fs::write(&path, b).expect("scratch file");
        case("file".into(), &|| outcome(std::fs::File::open(&path).unwrap()));
        case("buffered file".into(), &|| outcome(BufReader::new(std::fs::File::open(&path).unwrap())));
        case("borrowed file".into(), &|| outcome(&std::fs::File::open(&path).unwrap()));
        case("file from an offset".into(), &|| {
            let p2 = dir.join("doc2.xml");
            std::fs::write(&p2, [b"junk>", &b[..]].concat()).unwrap();
            let mut f = std::fs::File::open(&p2).unwrap();
            f.seek(io::SeekFrom::Start(5)).unwrap();
            outcome(f)
        });
        case("socket".into(), &|| {
            let (r, mut w) = std::os::unix::net::UnixStream::pair().unwrap();
            let v = b.clone();
            let h = std::thread::spawn(move || {
                for c in v.chunks(3) {
                    // the reader may have seen enough
                    if w.write_all(c).is_err() {
                        break;
                    }
                    std::thread::yield_now();
                }
            });
            let o = outcome(r);
            h.join().unwrap();
            o
        });
        case("pipe".into(), &|| {
            let (r, mut w) = io::pipe().unwrap();
            let v = b.clone();
            let h = std::thread::spawn(move || {
                for c in v.chunks(2) {
                    if w.write_all(c).is_err() {
                        break;
                    }
                    std::thread::yield_now();
                }
            });
            let o = outcome(r);
            h.join().unwrap();
            o
        });
    }
    let _ = std::fs::remove_dir_all(&dir);
    // failing readers of the standard library
    fam.case("a directory", || match outcome(std::fs::File::open("/").unwrap()) {
        Err(e) => seen(true, &e),
        Ok(t) => Err(t),
    });
    fam.case("empty", || match outcome(io::empty()) {
        Err(e) => seen(true, &e),
        Ok(t) => Err(t),
    });
}

fn large(ctx: &Ctx) {
    // beyond every usual buffer size
    let size = ctx.bound(20_000, 150_000);
    let body: String = (0..).map(|i| format!("<i n='{i}'>é😀{i}</i>\n")).scan(0, |l, s| {
        *l += s.len();
        (*l < size).then_some(s)
    }).collect();
    let d = format!("<r>{body}</r><!-- end -->");
    let b = d.as_bytes();
    let end = b.len() - 12;
    let want = outcome(b);
    let want_hash = fnv(1, format!("{want:?}").as_bytes());
    let fam = ctx.family("large-chunks", "a document beyond every usual buffer size in reads of every size up to a thousand, of powers of two and around, and in two reads");
    let sizes: Vec<usize> = (1..ctx.bound(300, 1000)).chain((9..18).flat_map(|p| [(1usize << p) - 1, 1 << p, (1 << p) + 1])).collect();
    ctx.par(sizes.len(), |i| {
        let plan = vec![Give(sizes[i]); b.len() / sizes[i] + 1];
        fam.case(&format!("reads of {}", sizes[i]), || {
            let o = planned(b, &plan, false);
            if fnv(1, format!("{o:?}").as_bytes()) == want_hash { seen(true, &sizes[i].to_string()) } else { same(&want, o) }
        });
        let intr: Vec<Do> = plan.iter().flat_map(|g| [Interrupt, *g, Interrupt]).collect();
        fam.case(&format!("reads of {} with interrupts", sizes[i]), || {
            let o = planned(b, &intr, false);
            if fnv(1, format!("{o:?}").as_bytes()) == want_hash { seen(true, &sizes[i].to_string()) } else { same(&want, o) }
        });
        fam.case(&format!("buffer of {}", sizes[i]), || {
            let o = outcome(BufReader::with_capacity(sizes[i], b));
            if fnv(1, format!("{o:?}").as_bytes()) == want_hash { seen(true, &sizes[i].to_string()) } else { same(&want, o) }
        });
    });
    let fam = ctx.family("large-failures", "a failure (once, for good) and the end of input at every third byte of it");
    ctx.par(end / 3, |i| {
        let i = i * 3 + 1;
        for kind in [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock] {
            let sticky = i % 2 == 0;
            fails(&fam, &format!("{kind:?} after {i}, sticky {sticky}"), b, &[Give(i), Fail(kind)], sticky);
        }
        fam.case(&format!("ends after {i}"), || match planned(b, &[Give(i), Eof], false) {
            Err(e) => seen(true, &e),
            Ok(_) => Err("a tree of a part of the document".into()),
        });
    });
}

/// Documents of megabytes.
fn huge(ctx: &Ctx) {
    let fam = ctx.family(
        "huge",
        "documents of 1 KiB to 4 MiB (thorough: 32 MiB), around every power of two and of ten, of text, elements or one value, in reads of 7 sizes and from a buffer; cut short and failing at 9 places",
    );
    if !fam.active() {
        return;
    }
    let sizes: Vec<usize> = gen::sizes(0, ctx.bound(4_300_000, 34_000_000)).into_iter().filter(|n| *n >= 1000 && (*n < 140_000 || (n - 1..=n + 1).any(|n| n.is_power_of_two() || [200_000, 500_000, 1_000_000, 2_000_000].contains(&n)))).collect();
    ctx.par(sizes.len() * 3, |j| {
        let (n, f) = (sizes[sizes.len() - 1 - j / 3], j % 3);
        // exactly n bytes
        let d = match f {
            0 => format!("<r>{}{}</r>", "é".repeat((n - 7) / 2), "x".repeat((n - 7) % 2)),
            1 => format!("<r>{}{}</r>", "<b>y</b>".repeat((n - 7) / 8), "x".repeat((n - 7) % 8)),
            _ => format!("<r a='{}'/>", "z ".repeat((n - 9) / 2) + if (n - 9) % 2 == 1 { "z" } else { "" }),
        };
        assert_eq!(d.len(), n);
        let b = d.as_bytes();
        // the whole tree is compared once, with the generator's idea of it
        let content = match f {
            0 => d[3..n - 4].to_string(),
            1 => String::new(),
            _ => d[6..n - 3].to_string(),
        };
        let right = |r: Result<Soup<soupy::parser::XMLNode>, String>| -> Result<Seen, String> {
            use soupy::{Node, Queryable};
            let s = r.map_err(|e| format!("{n} bytes of form {f}: {e}"))?;
            let root = s.tag("r").first().ok_or("no root")?;
            let ok = match f {
                0 => root.children().len() == 1 && root.children()[0].text() == Some(&content),
                1 => {
                    let k = (n - 7) / 8;
                    let kids = root.children();
                    kids.len() == k + usize::from((n - 7) % 8 > 0) && kids[..k].iter().all(|c| c.name().is_some_and(|t| t == "b") && c.children().len() == 1)
                }
                _ => root.get("a") == Some(&content) && root.children().is_empty(),
            };
            if ok { seen(true, &format!("{n} {f}")) } else { Err(format!("{n} bytes of form {f}: not the document's tree")) }
        };
        for size in [usize::MAX, 511, 512, 4096, 65_536, 65_537, 1_000_000].into_iter().take(if n > 1_100_000 { 2 } else { 7 }) {
            fam.case(&format!("{n} bytes of form {f} in reads of {size}"), || right(Soup::xml(Slow(b, size)).map_err(|e| e.to_string())));
        }
        fam.case(&format!("{n} bytes of form {f}, buffered"), || right(Soup::xml(BufReader::with_capacity(1 << 16, b)).map_err(|e| e.to_string())));
        if j / 3 % 4 == 0 || n < 100_000 {
            fam.case(&format!("{n} bytes of form {f}, one by one"), || right(Soup::xml(Slow(b, 1)).map_err(|e| e.to_string())));
        }
        for at in if n > 1_100_000 { vec![n - 2, n - n / 512] } else { vec![n - 1, n - 2, n - 5, n / 2, n - n / 64, n - n / 512, n - n.min(8192), n - n.min(70_000), 5] } {
            let at = at.clamp(1, n - 1);
            fails(&fam, &format!("{n} bytes of form {f} fail at {at}"), b, &[Give(at), Fail(ErrorKind::Other)], at % 2 == 0);
            fam.case(&format!("{n} bytes of form {f} end at {at}"), || match planned(b, &[Give(at), Eof], false) {
                Err(e) => seen(true, &e),
                Ok(_) => Err("a tree of a part of the document".into()),
            });
        }
    });
}

/// Delivers bytes one at a time up to a place, then an error made by a function, then the rest.
struct Made<'a>(&'a [u8], usize, usize, fn() -> io::Error);
impl Read for Made<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.1 == 0 && self.2 > 0 {
            self.2 -= 1;
            return Err((self.3)());
        }
        let n = usize::from(!buf.is_empty()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.1 = self.1.saturating_sub(n);
        Ok(n)
    }
}

/// The same kind of error can be made in several ways.
fn error_makes(ctx: &Ctx) {
    let fam = ctx.family(
        "error-makes",
        "interruptions and failures at every byte, made of a kind, of the operating system's number, with a message and with an error of the user's own; interruptions 1 to 130 times (thorough: 1100) and around powers of two and ten up to 70000 times in a row",
    );
    if !fam.active() {
        return;
    }
    #[derive(Debug)]
    struct Own;
    impl std::fmt::Display for Own {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("own")
        }
    }
    impl std::error::Error for Own {}
    let interrupts: [fn() -> io::Error; 4] = [
        || ErrorKind::Interrupted.into(),
        || io::Error::from_raw_os_error(4),
        || io::Error::new(ErrorKind::Interrupted, "interrupted"),
        || io::Error::new(ErrorKind::Interrupted, Own),
    ];
    assert!(interrupts.iter().all(|e| e().kind() == ErrorKind::Interrupted));
    let failures: [fn() -> io::Error; 9] = [
        || io::Error::from_raw_os_error(5),
        || io::Error::from_raw_os_error(11),
        || io::Error::from_raw_os_error(0),
        || io::Error::from_raw_os_error(-4),
        || io::Error::other(Own),
        || io::Error::new(ErrorKind::UnexpectedEof, Own),
        || io::Error::other(io::Error::from(ErrorKind::Interrupted)),
        || io::Error::other(""),
        || io::Error::new(ErrorKind::WouldBlock, io::Error::from_raw_os_error(4)),
    ];
    let times = gen::sizes(ctx.bound(130, 1100), 70_000);
    for d in docs() {
        let n = d.bytes.len();
        ctx.par(d.root_end, |at| {
            for (k, e) in interrupts.iter().enumerate() {
                for t in [1, 2, 5] {
                    fam.case(&format!("{}: interruption {k}, {t} times at {at}", d.name), || same(&d.want, outcome(Made(&d.bytes, at, t, *e))));
                }
            }
            for (k, e) in failures.iter().enumerate() {
                for t in [1, 3, usize::MAX] {
                    fam.case(&format!("{}: failure {k}, {t} times at {at}", d.name), || match outcome(Made(&d.bytes, at, t, *e)) {
                        Err(e) => seen(true, &e),
                        Ok(t) => Err(format!("the reader failed before the end of the root element, but parsing returned {t}")),
                    });
                }
            }
        });
        ctx.par(times.len(), |j| {
            for at in [0, 1, n / 2, n - 1, n] {
                fam.case(&format!("{}: {} interruptions at {at}", d.name, times[j]), || same(&d.want, outcome(Made(&d.bytes, at, times[j], interrupts[j % 4]))));
            }
        });
    }
}

/// Every word of reader behaviours, on one short document.
fn mixed(ctx: &Ctx) {
    let fam = ctx.family("mixed", "every sequence of up to n reader behaviours (reads of several sizes, interrupts, failures, the end) at the start, in the middle and near the end of a document");
    let steps = [Give(1), Give(2), Give(5), Interrupt, Fail(ErrorKind::Other), Fail(ErrorKind::UnexpectedEof), Fail(ErrorKind::WouldBlock), Eof];
    let d = doc("m", "<a b='é'>t<c/>€</a>", "", utf8);
    let n = ctx.bound(5, 6);
    for start in [0, 3, 8, 9, 14, 18, 19, d.root_end - 1] {
        ctx.par(gen::pow(steps.len(), n), |i| {
            let mut plan = vec![];
            if start > 0 {
                plan.push(Give(start));
            }
            plan.extend(gen::word(steps.len(), n, i).into_iter().map(|t| steps[t]));
            // what the plan delivers before it fails or ends
            let mut got = 0;
            let mut stop = false;
            for p in &plan {
                match p {
                    Give(k) => got += k,
                    Interrupt => {}
                    Fail(_) | Eof => {
                        stop = true;
                        break;
                    }
                }
            }
            let r = || planned(&d.bytes, &plan, false);
            if !stop || got >= d.bytes.len() && plan.iter().all(|p| !matches!(p, Fail(_))) {
                fam.case(&format!("{plan:?}"), || same(&d.want, r()));
            } else if got < d.root_end {
                fam.case(&format!("{plan:?}"), || match r() {
                    Err(e) => seen(true, &e),
                    Ok(t) => Err(format!("returned {t}")),
                });
            }
        });
        ctx.states.fetch_add(gen::pow(steps.len(), n) as u64, std::sync::atomic::Ordering::Relaxed);
        ctx.transitions.fetch_add((gen::pow(steps.len(), n) * n) as u64, std::sync::atomic::Ordering::Relaxed);
        ctx.traces.fetch_add(gen::pow(steps.len(), n) as u64, std::sync::atomic::Ordering::Relaxed);
    }
}

fn main() {
    mc::runner::main("C11", "fault_enumeration", run);
}
