//! The exploration engine: exhaustive, deterministic enumeration of cases on all cores, with
//! counters, a watchdog, crash attribution and replay of a single case.
//!
//! A *family* is one bounded space (named). A *case* is one element of it, identified by a textual
//! descriptor; its 64-bit FNV hash is the case id used for replay. The engine never samples: every
//! case that a family enumerates is evaluated (or, in replay mode, exactly the one asked for).

use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed},
        Mutex,
    },
    time::{Duration, Instant},
};

pub const SLOTS: usize = 64;
pub const SLOT: usize = 4096;
/// A single case may run this long before it counts as never returning.
pub const CASE_LIMIT: Duration = Duration::from_secs(60);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    /// The second pass of the quick tier, with a build without debug assertions and overflow checks
    /// (as users have in release mode) and with smaller bounds
    Release,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
            Tier::Release => "release",
        }
    }

    pub fn of(name: Option<&str>) -> Self {
        match name {
            Some("thorough") => Tier::Thorough,
            Some("release") => Tier::Release,
            _ => Tier::Quick,
        }
    }
}

/// Bounds that can be made smaller
pub trait Reduce {
    #[must_use]
    fn reduce(self) -> Self;
}

macro_rules! reduce {
    ($($t:ty)*) => {$(
        impl Reduce for $t {
            fn reduce(self) -> Self {
                match self {
                    0..=2 => self,
                    3..=30 => self - 1,
                    _ => (self / 8).max(30),
                }
            }
        }
    )*};
}
reduce!(usize u32 i32 u64);

impl<A: Reduce, B: Reduce> Reduce for (A, B) {
    fn reduce(self) -> Self {
        (self.0.reduce(), self.1.reduce())
    }
}

pub fn fnv(seed: u64, bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325 ^ seed;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// What evaluating a case observed.
pub struct Seen {
    /// Hash of the observation, to count distinct outcomes.
    pub hash: u64,
    /// Whether the outcome is non-trivial by the family's rule.
    pub nontrivial: bool,
}

pub fn seen(nontrivial: bool, what: &str) -> Result<Seen, String> {
    Ok(Seen { hash: fnv(7, what.as_bytes()), nontrivial })
}

#[derive(Default)]
struct FamStats {
    evals: AtomicU64,
    nontrivial: AtomicU64,
    outcomes: Mutex<HashSet<u64>>,
    sample: Mutex<Vec<String>>,
}

pub struct Violation {
    pub family: String,
    pub case: String,
    pub hash: u64,
    pub what: String,
}

pub struct Ctx {
    pub id: &'static str,
    pub level: &'static str,
    pub tier: Tier,
    only: Option<(String, u64)>,
    fams: Mutex<BTreeMap<String, std::sync::Arc<FamStats>>>,
    order: Mutex<Vec<(String, String, f64)>>,
    pub violations: Mutex<Vec<Violation>>,
    nviol: AtomicUsize,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub notes: Mutex<Vec<String>>,
    pub known: Mutex<Vec<(String, String)>>,
    slots: *mut u8,
    starts: Vec<AtomicU64>,
    t0: Instant,
    stop: AtomicBool,
}
unsafe impl Sync for Ctx {}
unsafe impl Send for Ctx {}

thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
    static LOCAL: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

const MAX_OUTCOMES: usize = 1 << 18;

pub struct Fam<'c> {
    ctx: &'c Ctx,
    name: String,
    stats: std::sync::Arc<FamStats>,
    active: bool,
}

impl Ctx {
    pub fn new(id: &'static str, level: &'static str, tier: Tier, only: Option<(String, u64)>, slots: *mut u8) -> Self {
        std::panic::set_hook(Box::new(|info| {
            let quiet = IN_CASE.try_with(Cell::get).unwrap_or(false);
            let _ = PANIC.try_with(|p| *p.borrow_mut() = info.to_string());
            if !quiet {
                eprintln!("panic outside a case: {info}");
            }
        }));
        Ctx {
            id,
            level,
            tier,
            only,
            fams: Mutex::default(),
            order: Mutex::default(),
            violations: Mutex::default(),
            nviol: AtomicUsize::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            notes: Mutex::default(),
            known: Mutex::default(),
            slots,
            starts: (0..SLOTS).map(|_| AtomicU64::new(0)).collect(),
            t0: Instant::now(),
            stop: AtomicBool::new(false),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// The second, smaller pass on a build without debug assertions
    pub fn release(&self) -> bool {
        self.tier == Tier::Release
    }

    /// Picks the bound of the tier.
    pub fn bound<T: Reduce>(&self, quick: T, thorough: T) -> T {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
            Tier::Release => quick.reduce(),
        }
    }

    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }

    /// Opens a family. `rule` says how its cases are made and what makes one non-trivial.
    pub fn family(&self, name: &str, rule: &str) -> Fam<'_> {
        let active = match &self.only {
            Some((f, _)) => f == name,
            None => true,
        };
        let stats = self.fams.lock().unwrap().entry(name.into()).or_default().clone();
        if active {
            let mut o = self.order.lock().unwrap();
            if !o.iter().any(|x| x.0 == name) {
                o.push((name.into(), rule.into(), self.t0.elapsed().as_secs_f64()));
            }
        }
        Fam { ctx: self, name: name.into(), stats, active }
    }

    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }

    pub fn violate(&self, family: &str, case: &str, hash: u64, what: String) {
        if self.nviol.fetch_add(1, Relaxed) < 20 {
            self.violations.lock().unwrap().push(Violation {
                family: family.into(),
                case: case.into(),
                hash,
                what,
            });
        } else {
            self.stop.store(true, Relaxed);
        }
    }

    pub fn violation_count(&self) -> usize {
        self.nviol.load(Relaxed)
    }

    /// True once so many violations were found that enumerating on tells nothing new.
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }

    /// Runs `f` for 0..n on all cores. Work is handed out by an atomic counter; results do not
    /// depend on who gets what.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let workers = std::thread::available_parallelism().map_or(8, |x| x.get()).min(SLOTS - 2);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for t in 0..workers {
                let (f, next) = (&f, &next);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(512 << 20)
                        .spawn_scoped(s, move || {
                            TID.set(t + 1);
                            loop {
                                let i = next.fetch_add(1, Relaxed);
                                if i >= n || self.stopped() {
                                    break;
                                }
                                f(i);
                            }
                        })
                        .expect("spawn worker"),
                );
            }
            for h in hs {
                if h.join().is_err() {
                    // A panic outside of a case is a bug of this machinery, not a verdict.
                    eprintln!("worker panicked outside a case");
                    std::process::exit(3);
                }
            }
        });
    }

    /// Starts the watchdog. A case that does not return in time is a violation: the operation it
    /// checks never produced its result.
    pub fn watchdog(&'static self) {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = self.t0.elapsed().as_millis() as u64;
            for (i, s) in self.starts.iter().enumerate() {
                let st = s.load(Relaxed);
                if st != 0 && now.saturating_sub(st) > CASE_LIMIT.as_millis() as u64 {
                    let (fam, hash, desc) = self.slot(i);
                    // still the same case?
                    if s.load(Relaxed) == st {
                        self.violate(
                            &fam,
                            &desc,
                            hash,
                            format!("did not return within {} s", CASE_LIMIT.as_secs()),
                        );
                        crate::runner::finish(self);
                    }
                }
            }
        });
    }

    fn slot_write(&self, tid: usize, fam: &str, hash: u64, desc: &str) {
        let base = unsafe { self.slots.add(tid * SLOT) };
        let name = fam.as_bytes();
        let nl = name.len().min(200);
        let dl = desc.len().min(SLOT - 300);
        unsafe {
            std::ptr::copy_nonoverlapping(hash.to_le_bytes().as_ptr(), base.add(8), 8);
            *base.add(16) = nl as u8;
            std::ptr::copy_nonoverlapping(name.as_ptr(), base.add(17), nl);
            std::ptr::copy_nonoverlapping((dl as u16).to_le_bytes().as_ptr(), base.add(250), 2);
            std::ptr::copy_nonoverlapping(desc.as_ptr(), base.add(252), dl);
            *base = 1;
        }
    }

    fn slot(&self, tid: usize) -> (String, u64, String) {
        let b = unsafe { std::slice::from_raw_parts(self.slots.add(tid * SLOT), SLOT) };
        let (_, f, h, d) = read_slot(b);
        (f, h, d)
    }

    pub fn evidence(&self) -> String {
        let fams = self.fams.lock().unwrap();
        let mut evals = 0;
        let mut distinct = 0;
        let mut list = vec![];
        let mut samples = vec![];
        for (name, rule, start) in self.order.lock().unwrap().iter() {
            let st = &fams[name];
            let e = st.evals.load(Relaxed);
            let o = st.outcomes.lock().unwrap().len();
            evals += e;
            distinct += o as u64;
            for s in st.sample.lock().unwrap().iter().take(1) {
                samples.push(json_str(&format!("{name}: {}", clip(s, 160))));
            }
            list.push(format!(
                "{{\"family\":{},\"rule\":{},\"evaluations\":{e},\"nontrivial\":{},\"distinct_nontrivial_outcomes\":{o},\"started_s\":{start:.2}}}",
                json_str(name),
                json_str(rule),
                st.nontrivial.load(Relaxed),
            ));
        }
        let notes: Vec<_> = self.notes.lock().unwrap().iter().map(|s| json_str(s)).collect();
        let known: Vec<_> = self.known.lock().unwrap().iter().map(|s| json_str(&s.1)).collect();
        let (states, trans) = (self.states.load(Relaxed), self.transitions.load(Relaxed));
        let traces = self.traces.load(Relaxed);
        let mut cov = format!(
            "\"evaluations\":{evals},\"distinct_nontrivial\":{distinct},\"rule\":{},\"samples\":[{}],\"families\":[{}],\"known_findings\":[{}],\"notes\":[{}],\"exhaustive\":true",
            json_str("every case of every family below is evaluated on the real code; distinct_nontrivial counts distinct observed outcomes of non-trivial cases (at most 2^18 counted per family and thread)"),
            samples.join(","),
            list.join(","),
            known.join(","),
            notes.join(","),
        );
        if states > 0 {
            cov += &format!(",\"states\":{states},\"transitions\":{trans},\"traces_validated_against_impl\":{traces}");
        }
        let nv = self.violation_count();
        if nv > 0 {
            cov = cov.replace("\"exhaustive\":true", "\"exhaustive\":false");
        }
        format!(
            "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\"coverage\":{{{cov}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{nv}}}\n",
            self.id,
            self.tier.name(),
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
            self.level,
            crate::runner::ASSUMPTIONS.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
            self.t0.elapsed().as_secs_f64(),
        )
    }
}

pub fn read_slot(b: &[u8]) -> (bool, String, u64, String) {
    let hash = u64::from_le_bytes(b[8..16].try_into().unwrap());
    let nl = b[16] as usize;
    let dl = u16::from_le_bytes(b[250..252].try_into().unwrap()) as usize;
    (
        b[0] == 1,
        String::from_utf8_lossy(&b[17..17 + nl]).into_owned(),
        hash,
        String::from_utf8_lossy(&b[252..252 + dl.min(SLOT - 300)]).into_owned(),
    )
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.into()
    } else {
        let head: String = s.chars().take(n).collect();
        format!("{head}... [{} bytes]", s.len())
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            '\r' => o += "\\r",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Fam<'_> {
    pub fn active(&self) -> bool {
        self.active && !self.ctx.stopped()
    }

    /// Evaluates one case: `f` runs the real code and compares it with the oracle.
    pub fn case(&self, desc: &str, f: impl FnOnce() -> Result<Seen, String>) {
        if !self.active {
            return;
        }
        let hash = fnv(0, desc.as_bytes());
        if let Some((_, h)) = &self.ctx.only {
            if *h != hash {
                return;
            }
        }
        let tid = TID.get();
        self.ctx.slot_write(tid, &self.name, hash, desc);
        self.ctx.starts[tid].store((self.ctx.t0.elapsed().as_millis() as u64).max(1), Relaxed);
        IN_CASE.set(true);
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CASE.set(false);
        self.ctx.starts[tid].store(0, Relaxed);
        unsafe { *self.ctx.slots.add(tid * SLOT) = 0 };
        let n = self.stats.evals.fetch_add(1, Relaxed);
        match r {
            Ok(Ok(s)) => {
                if s.nontrivial {
                    self.stats.nontrivial.fetch_add(1, Relaxed);
                    let key = fnv(s.hash, self.name.as_bytes());
                    LOCAL.with_borrow_mut(|l| {
                        if l.len() < MAX_OUTCOMES && l.insert(key) {
                            self.stats.outcomes.lock().unwrap().insert(key);
                        }
                    });
                }
                if (s.nontrivial && n < 64) || n == 0 {
                    let mut v = self.stats.sample.lock().unwrap();
                    if v.is_empty() || (s.nontrivial && v.len() < 2) {
                        v.insert(0, desc.into());
                    }
                }
            }
            Ok(Err(what)) => self.ctx.violate(&self.name, desc, hash, what),
            Err(_) => {
                let what = PANIC.with_borrow(|p| format!("panicked: {p}"));
                self.ctx.violate(&self.name, desc, hash, what);
            }
        }
    }
}
