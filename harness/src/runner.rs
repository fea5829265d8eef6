//! Runs a check in a child process and turns its outcome into a verdict.

use std::{
    os::{fd::AsRawFd, unix::process::ExitStatusExt},
    path::PathBuf,
    process::{exit, Command},
    sync::atomic::{AtomicBool, Ordering::SeqCst},
};

use crate::engine::{clip, fnv, json_str, read_slot, Ctx, Tier, SLOT, SLOTS};

pub const ASSUMPTIONS: &[&str] = &[
    "bounded: holds for every element of the enumerated spaces, nothing is claimed beyond their bounds",
    "the reference models (strict HTML automaton, character reference decoder, DOM sink, XML and query models) state the property correctly",
    "the Rust compiler, std, html5ever's tokenizer and tree builder, xml-rs and regex behave deterministically",
];

pub fn verif() -> PathBuf {
    std::env::var_os("MC_VERIF").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn map_slots(path: &str) -> *mut u8 {
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("slots file");
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            SLOTS * SLOT,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p.cast()
}

fn write_replay(id: &str, tier: Tier, family: &str, hash: u64, case: &str, what: &str) -> String {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{:016x}.json", hash ^ fnv(1, family.as_bytes())));
    let tier = tier.name();
    let text = format!(
        "{{\n \"property\": \"{id}\",\n \"tier\": \"{tier}\",\n \"only\": \"{family}:{hash:016x}\",\n \"case\": {},\n \"what\": {},\n \"replay\": \"bash /verif/check.sh {id} --replay {}\"\n}}\n",
        json_str(case),
        json_str(what),
        path.display(),
    );
    let _ = std::fs::write(&path, text);
    path.display().to_string()
}

fn write_evidence(id: &str, tier: Tier, text: &str) {
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if tier == Tier::Release {
        // the second pass: part of the coverage of the first
        let path = dir.join(format!("{id}.json"));
        let first = std::fs::read_to_string(&path).unwrap_or_default();
        if let Some(at) = first.find("\"exhaustive\":") {
            let mut rest = first[at..].to_string();
            if !text.trim_end().ends_with("\"violations\":0}") {
                rest = rest.replace("\"exhaustive\":true", "\"exhaustive\":false").replace("\"violations\":0", "\"violations\":1");
            }
            let text = format!("{}\"release_build\":{},{rest}", &first[..at], text.trim_end());
            std::fs::write(path, text).expect("write evidence");
        }
        return;
    }
    std::fs::write(dir.join(format!("{id}.json")), text).expect("write evidence");
}

/// Lines of known_findings.txt: `finding: property=<id> key=<key> <text>`. Only these are known;
/// `fixed:` lines suppress nothing.
pub fn known_key(id: &str, key: &str) -> bool {
    let text = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    text.lines().any(|l| {
        let mut w = l.split_whitespace();
        w.next() == Some("finding:")
            && w.next() == Some(&format!("property={id}"))
            && w.next() == Some(&format!("key={key}"))
    })
}

impl Ctx {
    /// Reports a violation that is identified by `key`, unless it is listed as a known finding.
    pub fn finding(&self, family: &str, key: &str, what: &str) {
        if known_key(self.id, key) {
            let mut k = self.known.lock().unwrap();
            if !k.iter().any(|x| x.0 == key) {
                k.push((key.into(), what.into()));
            }
        } else if !self.violations.lock().unwrap().iter().any(|v| v.case == key && v.family == family) {
            self.violate(family, key, fnv(0, key.as_bytes()), what.into());
        }
    }
}

/// Prints the verdict, writes the evidence file and ends the process.
pub fn finish(ctx: &Ctx) -> ! {
    static DONE: AtomicBool = AtomicBool::new(false);
    if DONE.swap(true, SeqCst) {
        loop {
            std::thread::park();
        }
    }
    if !ctx.replaying() {
        write_evidence(ctx.id, ctx.tier, &ctx.evidence());
    }
    for (_, what) in ctx.known.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {what}", ctx.id);
    }
    let mut v = ctx.violations.lock().unwrap();
    v.sort_by_key(|v| (v.case.len(), v.case.clone()));
    for v in v.iter().take(5) {
        let replay = write_replay(ctx.id, ctx.tier, &v.family, v.hash, &v.case, &v.what);
        println!("VIOLATION property={} replay={replay}", ctx.id);
        println!("  family: {}\n  case:   {}\n  {}", v.family, clip(&v.case, 400), clip(&v.what, 1200));
    }
    let code = i32::from(!v.is_empty());
    use std::io::Write;
    let _ = std::io::stdout().flush();
    exit(code)
}

fn child(id: &'static str, level: &'static str, run: fn(&Ctx), tier: Tier, only: Option<(String, u64)>) -> ! {
    let slots = map_slots(&std::env::var("MC_SLOTS").expect("MC_SLOTS"));
    // Fail allocation-heavy runaways inside the process instead of bringing the sandbox down.
    let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(id, level, tier, only, slots)));
    ctx.watchdog();
    // Run on a thread with a large stack, so that the explorer itself never overflows.
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || run(ctx))
        .expect("spawn");
    if h.join().is_err() {
        eprintln!("the machinery panicked");
        exit(3);
    }
    let ev = ctx.evidence();
    if !ctx.replaying() {
        println!("{}", clip(&ev, 3000).trim_end());
    }
    finish(ctx)
}

/// The main function of a check: `cNN [--tier quick|thorough] [--only FAMILY:HASH] [--replay FILE]`.
pub fn main(id: &'static str, level: &'static str, run: fn(&Ctx)) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let mut tier = Tier::of(get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref());
    let mut only_s = get("--only");
    if let Some(f) = get("--replay") {
        let t = std::fs::read_to_string(&f).expect("replay file");
        let field = |k: &str| {
            let a = t.find(&format!("\"{k}\": \"")).expect("field") + k.len() + 5;
            t[a..a + t[a..].find('"').unwrap()].to_string()
        };
        only_s = Some(field("only"));
        tier = Tier::of(Some(&field("tier")));
    }
    let only = only_s.as_ref().map(|s| {
        let (f, h) = s.rsplit_once(':').expect("FAMILY:HASH");
        (f.to_string(), u64::from_str_radix(h, 16).expect("hash"))
    });
    if args.iter().any(|a| a == "--child") {
        child(id, level, run, tier, only);
    }
    // Parent: run the exploration in a child, and find out which case it was if it crashes.
    let slots = std::env::temp_dir().join(format!("mc-slots-{}", std::process::id()));
    let explore = |only: Option<&str>| {
        let f = std::fs::File::create(&slots).expect("slots");
        f.set_len((SLOTS * SLOT) as u64).expect("slots");
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("--child").env("MC_SLOTS", &slots).env("RUST_BACKTRACE", "0");
        c.arg("--tier").arg(tier.name());
        if let Some(o) = only {
            c.arg("--only").arg(o);
        }
        c.status().expect("child")
    };
    let st = explore(only_s.as_deref());
    let mut code = st.code().unwrap_or(3);
    if st.signal().is_some() {
        let data = std::fs::read(&slots).unwrap_or_default();
        code = 3;
        for b in data.chunks(SLOT) {
            let (active, fam, hash, desc) = read_slot(b);
            if !active {
                continue;
            }
            let again = explore(Some(&format!("{fam}:{hash:016x}")));
            if let Some(sig) = again.signal() {
                let what = format!("the process was aborted by signal {sig} (reproduced in isolation)");
                let replay = write_replay(id, tier, &fam, hash, &desc, &what);
                println!("VIOLATION property={id} replay={replay}");
                println!("  family: {fam}\n  case:   {}\n  {what}", clip(&desc, 400));
                write_evidence(
                    id,
                    tier,
                    &format!(
                        "{{\"property\":\"{id}\",\"tier\":\"{}\",\"seed\":0,\"level\":\"{}\",\"coverage\":{{\"evaluations\":1,\"distinct_nontrivial\":1,\"states\":1,\"transitions\":1,\"traces_validated_against_impl\":1,\"rule\":\"stopped by an abort of the code under test\",\"samples\":[{}],\"exhaustive\":false}},\"wall_s\":0,\"violations\":1}}\n",
                        tier.name(),
                        level,
                        json_str(&clip(&desc, 400)),
                    ),
                );
                code = 1;
                break;
            } else if again.code() == Some(1) {
                code = 1;
                break;
            }
        }
    }
    let _ = std::fs::remove_file(&slots);
    exit(code);
}


