//! C21: every feature combination builds, and features do not change behaviour.
//!
//! Builds the crate in `../features` once per combination, runs the same corpus in each, and compares the
//! outcomes block by block with those of the full combination.

use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
    process::{exit, Command},
    sync::{
        atomic::{AtomicUsize, Ordering::Relaxed},
        Mutex, OnceLock,
    },
};

use mc::{
    engine::{clip, seen, Ctx},
    runner::verif,
};

const FEATURES: [&str; 4] = ["html-lenient", "html-strict", "xml", "regex"];

struct Config {
    name: String,
    features: Vec<&'static str>,
    /// the same set in terms of `FEATURES`
    mask: usize,
}

fn configs() -> Vec<Config> {
    let mut v: Vec<Config> = (0..16usize)
        .rev()
        .map(|mask| {
            let features: Vec<&'static str> = (0..4).filter(|i| mask >> i & 1 == 1).map(|i| FEATURES[i]).collect();
            Config { name: if mask == 0 { "none".into() } else { features.join("+") }, features, mask }
        })
        .collect();
    // the features that stand for several
    for (f, mask) in [(vec!["html"], 3), (vec!["html", "xml"], 7), (vec!["default-features"], 15)] {
        v.push(Config { name: f.join("+"), features: f, mask });
    }
    v
}

/// The areas of the corpus and the features each needs.
fn areas(mask: usize) -> Vec<&'static str> {
    let (l, s, x, r) = (mask & 1 != 0, mask & 2 != 0, mask & 4 != 0, mask & 8 != 0);
    [
        ("user", true),
        ("user/sizes", true),
        ("user/words", true),
        ("user+regex", r),
        ("html/nodes", l || s),
        ("html/nodes+cow", l || s),
        ("html-strict", s),
        ("html-strict/references", s),
        ("html-strict/words", s),
        ("html-strict/sizes", s),
        ("html-strict+regex", s && r),
        ("html-lenient", l),
        ("html-lenient/words", l),
        ("html-lenient/sizes", l),
        ("html-lenient+regex", l && r),
        ("xml", x),
        ("xml/words", x),
        ("xml/sizes", x),
        ("xml/readers", x),
        ("xml/nodes", x),
        ("xml+regex", x && r),
    ]
    .into_iter()
    .filter(|a| a.1)
    .map(|a| a.0)
    .collect()
}

fn target(k: usize) -> PathBuf {
    PathBuf::from(std::env::var_os("CARGO_TARGET_DIR").unwrap_or_else(|| verif().join("target").into())).join(format!("features-{k}"))
}

/// The words that the corpus gets: names of HTML elements, names of references, strings that stand in the code.
fn words() -> &'static Path {
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| {
        let refs: Vec<String> = mc::charref::names().keys().map(|k| k.trim_end_matches(';').to_string()).collect();
        let lists = [mc::strictfam::NAMES.iter().map(ToString::to_string).collect(), refs, mc::lits::dictionary()];
        let text = lists
            .map(|mut l: Vec<String>| {
                l.dedup();
                l.retain(|w| !w.contains(['\u{1}', '\u{2}']));
                l.join("\u{1}")
            })
            .join("\u{2}");
        let _ = std::fs::create_dir_all(target(0));
        let p = target(0).join("words");
        std::fs::write(&p, text).unwrap_or_else(|e| {
            eprintln!("{}: {e}", p.display());
            exit(3)
        });
        p
    })
}

/// Builds a combination; `Err` is what the compiler says.
fn build(c: &Config, dir: &Path) -> Result<PathBuf, String> {
    let mut cmd = Command::new("cargo");
    cmd.current_dir(verif().join("features"))
        .args(["build", "--offline", "--locked", "--message-format", "short", "--features", &c.features.join(",")])
        .env("CARGO_TARGET_DIR", dir)
        .env_remove("MC_SLOTS");
    let o = cmd.output().unwrap_or_else(|e| {
        eprintln!("cargo: {e}");
        exit(3)
    });
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if !o.status.success() {
        if !err.contains("could not compile") {
            // not a verdict about the code
            eprintln!("building {} failed:\n{err}", c.name);
            exit(3);
        }
        let lines: Vec<&str> = err.lines().filter(|l| l.contains("error")).collect();
        return Err(lines.join("\n"));
    }
    let to = dir.join(format!("feat-{}", c.name));
    let _ = std::fs::remove_file(&to);
    std::fs::copy(dir.join("debug/feat"), &to).map_err(|e| e.to_string()).unwrap_or_else(|e| {
        eprintln!("{e}");
        exit(3)
    });
    Ok(to)
}

type Blocks = BTreeMap<(String, usize), (String, u64)>;

fn corpus(exe: &Path, deep: bool) -> Result<Blocks, String> {
    let mut c = Command::new(exe);
    c.env("FEAT_WORDS", words());
    if deep {
        c.env("FEAT_DEEP", "1");
    }
    let o = c.output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("the corpus ended with {}: {}", o.status, clip(&String::from_utf8_lossy(&o.stderr), 600)));
    }
    let mut out = BTreeMap::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let [a, b, h, n] = w[..] else { return Err(format!("output {l:?}")) };
        out.insert((a.to_string(), b.parse().unwrap_or(usize::MAX)), (h.to_string(), n.parse().unwrap_or(0)));
    }
    Ok(out)
}

/// The cases of a block, with their outcomes.
fn cases(exe: &Path, area: &str, block: usize, deep: bool) -> Vec<String> {
    let mut c = Command::new(exe);
    c.args([area, &block.to_string()]).env("FEAT_WORDS", words());
    if deep {
        c.env("FEAT_DEEP", "1");
    }
    c.output().map_or(vec![], |o| String::from_utf8_lossy(&o.stdout).lines().map(ToString::to_string).collect())
}

fn run(ctx: &Ctx) {
    let all = configs();
    let deep = ctx.thorough();
    const DIRS: usize = 4;
    for k in 0..DIRS {
        // cargo goes by mtimes, and would miss a file put back with an older one
        if let Ok(d) = std::fs::read_dir(target(k).join("debug/.fingerprint")) {
            for e in d.flatten().filter(|e| e.file_name().to_string_lossy().starts_with("soupy-")) {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
    let built: Vec<Mutex<Option<Result<PathBuf, String>>>> = all.iter().map(|_| Mutex::new(None)).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for k in 0..DIRS {
            let (next, all, built) = (&next, &all, &built);
            s.spawn(move || loop {
                let i = next.fetch_add(1, Relaxed);
                let Some(c) = all.get(i) else { break };
                *built[i].lock().unwrap() = Some(build(c, &target(k)));
            });
        }
    });
    let built: Vec<Result<PathBuf, String>> = built.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect();
    if let Err(e) = &built[0] {
        eprintln!("the corpus does not build with all features:\n{e}");
        exit(3);
    }

    let fam = ctx.family("builds", "all 16 combinations of the four features, and the three that stand for several (html, html+xml, default): each builds, with all of the API it offers used");
    for (c, b) in all.iter().zip(&built) {
        fam.case(&c.name, || {
            b.clone().map_err(|e| format!("does not build: {}", clip(&e, 900)))?;
            seen(true, &c.name)
        });
        ctx.states.fetch_add(1, Relaxed);
    }

    let outs: Vec<Mutex<Option<Result<Blocks, String>>>> = all.iter().map(|_| Mutex::new(None)).collect();
    ctx.par(all.len(), |i| {
        if let Ok(exe) = &built[i] {
            *outs[i].lock().unwrap() = Some(corpus(exe, deep));
        }
    });
    let outs: Vec<Option<Result<Blocks, String>>> = outs.into_iter().map(|m| m.into_inner().unwrap()).collect();
    let full = match &outs[0] {
        Some(Ok(f)) => f,
        Some(Err(e)) => {
            // a panic on some input is a violation of another property; here it leaves nothing to compare with
            eprintln!("all features: {e}");
            exit(3);
        }
        None => unreachable!(),
    };

    let fam = ctx.family(
        "same-behaviour",
        "every block of the corpus (all words of up to 3 tokens, XML 4 (thorough: 4 and 5), code points, references, every HTML element name, every name of a reference and every string that stands in the code in 14 (XML: 12) places, documents of each size up to 130 and around round numbers, readers that fail or give invalid bytes, all forests of up to 3 (4) nodes over 8 labels of each node type, trees of each size; trees, errors, 11 queries, traversals, filters of each), in every combination that offers it: the outcomes are those with all features",
    );
    for (i, c) in all.iter().enumerate().skip(1) {
        let mask = c.mask;
        match &outs[i] {
            None => continue,
            Some(Err(e)) => fam.case(&format!("{} runs", c.name), || Err(e.clone())),
            Some(Ok(o)) => {
                let offered = areas(mask);
                for ((area, block), (hash, n)) in full {
                    if !offered.contains(&area.as_str()) {
                        continue;
                    }
                    fam.case(&format!("{}: {area} block {block}", c.name), || {
                        match o.get(&(area.clone(), *block)) {
                            None => return Err("the block is missing".into()),
                            Some((h, m)) if h == hash && m == n => {}
                            Some(_) => {
                                let (a, b) = (built[0].as_ref().unwrap(), built[i].as_ref().unwrap());
                                let (x, y) = (cases(a, area, *block, deep), cases(b, area, *block, deep));
                                let d = x.iter().zip(&y).find(|(x, y)| x != y);
                                return Err(match d {
                                    Some((x, y)) => format!("with all features: {}\nwith {}: {}", clip(x, 500), c.name, clip(y, 500)),
                                    None => "the outcomes differ from one run to the next".into(),
                                });
                            }
                        }
                        seen(*n > 0, &format!("{area}{block}"))
                    });
                    ctx.transitions.fetch_add(1, Relaxed);
                    ctx.traces.fetch_add(*n, Relaxed);
                }
                if o.len() != full.keys().filter(|k| offered.contains(&k.0.as_str())).count() {
                    fam.case(&format!("{}: blocks", c.name), || Err("it has another number of blocks".into()));
                }
            }
        }
    }
}

fn main() {
    mc::runner::main("C21", "model_checking", run)
}
