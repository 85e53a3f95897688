//! Search driver: deterministic, sharded, with panic / crash / non-termination
//! capture, tape shrinking, replay files and evidence output.

use crate::gen::Gen;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// signature looked up in known_findings.txt
    pub key: Option<String>,
}

impl From<String> for Fail {
    fn from(msg: String) -> Fail {
        Fail { msg, key: None }
    }
}
impl<'a> From<&'a str> for Fail {
    fn from(msg: &'a str) -> Fail {
        Fail { msg: msg.to_owned(), key: None }
    }
}

pub fn keyed<T>(key: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { msg, key: Some(key.to_owned()) })
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c { return Err($crate::driver::Fail::from(format!($($arg)*))); }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub want_desc: bool,
    pub desc: String,
    pub nontrivial: Option<u64>,
    pub classes: Vec<&'static str>,
    pub thorough: bool,
    /// the case is tried for a smaller reproduction: waiting for the file system is cut short
    pub shrinking: bool,
    /// extra oracle evaluations inside the case
    pub evals: u64,
    pub max: BTreeMap<&'static str, u64>,
}

impl Ctx {
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if std::env::var_os("VERIF_DESC").is_some() {
                println!("{}", f());
                return;
            }
            if !self.desc.is_empty() {
                self.desc.push('\n');
            }
            self.desc.push_str(&f());
        }
    }
    pub fn nontrivial<K: Hash>(&mut self, k: K) {
        let mut h = DefaultHasher::new();
        k.hash(&mut h);
        self.nontrivial = Some(h.finish());
    }
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c)
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        let e = self.max.entry(k).or_insert(0);
        *e = (*e).max(v);
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Gen, &mut Ctx) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub tape: usize,
    /// number of worker threads (0: one per core)
    pub threads: usize,
    /// listed findings of this property: exemplar checks run on every invocation;
    /// returns Some(description) while the exemplar still fails
    pub exemplars: &'static [(&'static str, fn() -> Option<String>)],
    pub assumptions: &'static [&'static str],
    /// minimal fraction (percent) of non-trivial cases for the run to count
    pub min_nontrivial_pct: u64,
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
    static QUIET: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

pub fn install_hook() {
    let old = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if QUIET.with(|q| q.get()) {
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {}: {}", loc, msg)));
        } else {
            old(info)
        }
    }));
}

/// Runs f, turning a panic into Err(message with location)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked".into())),
    }
}

pub fn run_case(p: &Prop, tape: &[u32], ctx: &mut Ctx) -> Res {
    let mut g = Gen::new(tape);
    match guarded(|| (p.run)(&mut g, ctx)) {
        Ok(r) => r,
        Err(msg) => Err(Fail { msg, key: None }),
    }
}

fn tape_for(p: &Prop, seed: u64, index: u64) -> Vec<u32> {
    let mut s = [0u8; 32];
    s[0..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&index.to_le_bytes());
    let mut h = DefaultHasher::new();
    p.id.hash(&mut h);
    s[16..24].copy_from_slice(&h.finish().to_le_bytes());
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &s);
    let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
    // a third of the cases are small, so that shallow structures are covered densely
    let max = match index % 3 {
        0 => (p.tape / 8).max(8),
        1 => (p.tape / 2).max(8),
        _ => p.tape,
    };
    let strat = proptest::collection::vec(proptest::num::u32::ANY, max / 4..=max);
    strat.new_tree(&mut runner).unwrap().current()
}

pub struct Known {
    entries: Vec<(String, String, String)>,
}

impl Known {
    pub fn load() -> Known {
        let path = verif_dir().join("known_findings.txt");
        let text = std::fs::read_to_string(path).unwrap_or_default();
        let mut entries = Vec::new();
        for l in text.lines() {
            // known: property=C03 key=<key> <description>
            if let Some(rest) = l.strip_prefix("known: property=") {
                let mut it = rest.splitn(3, ' ');
                let id = it.next().unwrap_or("").to_owned();
                let key = it.next().unwrap_or("").trim_start_matches("key=").to_owned();
                entries.push((id, key, it.next().unwrap_or("").to_owned()));
            }
        }
        Known { entries }
    }
    pub fn has(&self, id: &str, key: &str) -> bool {
        self.entries.iter().any(|e| e.0 == id && e.1 == key)
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn shrink(mut best: Vec<u32>, mut fails: impl FnMut(&[u32]) -> bool, max_tries: usize) -> Vec<u32> {
    let mut tries = 0;
    let mut attempt = |cand: &[u32], tries: &mut usize| -> bool {
        if *tries >= max_tries {
            return false;
        }
        *tries += 1;
        fails(cand)
    };
    loop {
        let before = best.clone();
        // truncate
        let mut n = best.len() / 2;
        while n > 0 {
            if best.len() >= n {
                let cand = best[..best.len() - n].to_vec();
                if attempt(&cand, &mut tries) {
                    best = cand;
                    continue;
                }
            }
            n /= 2;
        }
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size > 0 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if attempt(&cand, &mut tries) {
                    best = cand;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size = match size {
                0 | 1 => 0,
                s if s > 8 => s / 2,
                s => s - 1,
            };
        }
        // zero chunks, then lower single values
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|&x| x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..end] {
                        *x = 0;
                    }
                    if attempt(&cand, &mut tries) {
                        best = cand;
                    }
                }
                i = end;
            }
        }
        for i in 0..best.len() {
            let (mut lo, mut hi) = (0u64, best[i] as u64);
            let mut steps = 0;
            while lo < hi && steps < 12 {
                steps += 1;
                let mid = (lo + hi) / 2;
                let mut cand = best.clone();
                cand[i] = mid as u32;
                if attempt(&cand, &mut tries) {
                    best = cand;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
        }
        if best == before || tries >= max_tries {
            return best;
        }
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    extra_evals: u64,
    nontrivial_hits: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    max: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    excluded: BTreeMap<String, u64>,
}

pub enum Outcome {
    Held,
    Violation(Vec<u32>, Fail),
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub cases: Option<u64>,
    pub progress: Option<PathBuf>,
}

/// one thread's share, writing the index in flight to `slots`
fn worker(
    p: &Prop,
    opts: &Opts,
    known: &Known,
    t: usize,
    threads: usize,
    cases: u64,
    stop: &AtomicBool,
    first_fail: &Mutex<Option<(u64, Vec<u32>, Fail)>>,
    slots: Option<&std::fs::File>,
    done: &AtomicU64,
) -> Stats {
    use std::os::unix::fs::FileExt;
    let mut st = Stats::default();
    let mut i = t as u64;
    while i < cases {
        if stop.load(Ordering::Relaxed) {
            // finish deterministic prefix: only lower indices than the failing one matter
            if first_fail.lock().unwrap().as_ref().map_or(true, |f| f.0 < i) {
                break;
            }
        }
        if let Some(f) = slots {
            let _ = f.write_at(&(i + 1).to_le_bytes(), (t * 8) as u64);
        }
        let tape = tape_for(p, opts.seed, i);
        let mut ctx = Ctx::default();
        ctx.thorough = opts.tier == "thorough";
        ctx.want_desc = st.samples.len() < 2;
        let r = run_case(p, &tape, &mut ctx);
        st.evals += 1;
        st.extra_evals += ctx.evals;
        for c in ctx.classes.drain(..) {
            *st.classes.entry(c).or_insert(0) += 1;
        }
        for (k, v) in ctx.max.iter() {
            let e = st.max.entry(k).or_insert(0);
            *e = (*e).max(*v);
        }
        match r {
            Ok(()) => {
                if let Some(h) = ctx.nontrivial {
                    st.nontrivial_hits += 1;
                    st.distinct.insert(h);
                    if st.samples.len() < 2 && !ctx.desc.is_empty() {
                        let mut d = ctx.desc;
                        if d.len() > 700 {
                            let mut cut = 700;
                            while !d.is_char_boundary(cut) {
                                cut -= 1;
                            }
                            d.truncate(cut);
                            d.push_str("…");
                        }
                        st.samples.push(format!("case {}: {}", i, d));
                    }
                }
            }
            Err(f) => {
                let listed = f.key.as_ref().map_or(false, |k| known.has(p.id, k));
                if listed {
                    *st.excluded.entry(f.key.unwrap()).or_insert(0) += 1;
                } else {
                    let mut ff = first_fail.lock().unwrap();
                    if ff.as_ref().map_or(true, |x| i < x.0) {
                        *ff = Some((i, tape, f));
                    }
                    stop.store(true, Ordering::Relaxed);
                    break;
                }
            }
        }
        done.fetch_add(1, Ordering::Relaxed);
        i += threads as u64;
    }
    if let Some(f) = slots {
        let _ = f.write_at(&0u64.to_le_bytes(), (t * 8) as u64);
    }
    st
}

const STACK: usize = 256 << 20;

pub fn with_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

/// the whole search, in this process
pub fn search(p: &Prop, opts: &Opts) -> i32 {
    let t0 = std::time::Instant::now();
    let known = Known::load();
    let threads = if p.threads == 0 { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16) } else { p.threads };
    let cases = opts.cases.unwrap_or(if opts.tier == "thorough" { p.thorough } else { p.quick });
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let first_fail = Mutex::new(None);
    let slots = opts.progress.as_ref().map(|f| {
        std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(f).unwrap()
    });
    let mut all = Stats::default();

    crate::props::codegen::prepare(p.id, opts.seed, &opts.tier);

    let mut known_lines: Vec<String> = Vec::new();
    let mut exemplar_fail: Option<(String, String)> = None;
    for (key, f) in p.exemplars {
        let r = with_stack(|| guarded(|| f()));
        let desc = match r {
            Ok(None) => None,
            Ok(Some(d)) => Some(d),
            Err(panic) => Some(panic),
        };
        if let Some(d) = desc {
            if known.has(p.id, key) {
                known_lines.push(format!("KNOWN-FINDING: property={} [{}] {}", p.id, key, d.replace('\n', " ")));
            } else {
                exemplar_fail = Some((key.to_string(), d));
            }
        }
    }
    for l in &known_lines {
        println!("{}", l);
    }

    // the code under test may print; only the driver's own lines belong on stdout
    let muted = Muted::new();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (known, stop, ff, slots, done) = (&known, &stop, &first_fail, slots.as_ref(), &done);
                std::thread::Builder::new()
                    .stack_size(if p.threads > 16 { 16 << 20 } else { STACK })
                    .spawn_scoped(s, move || worker(p, opts, known, t, threads, cases, stop, ff, slots, done))
                    .unwrap()
            })
            .collect();
        for h in hs {
            let st = h.join().unwrap();
            all.evals += st.evals;
            all.extra_evals += st.extra_evals;
            all.nontrivial_hits += st.nontrivial_hits;
            all.distinct.extend(st.distinct);
            for (k, v) in st.classes {
                *all.classes.entry(k).or_insert(0) += v;
            }
            for (k, v) in st.max {
                let e = all.max.entry(k).or_insert(0);
                *e = (*e).max(v);
            }
            for (k, v) in st.excluded {
                *all.excluded.entry(k).or_insert(0) += v;
            }
            if all.samples.len() < 6 {
                all.samples.extend(st.samples);
            }
        }
    });
    drop(muted);
    all.samples.truncate(6);

    let mut violation = None;
    if let Some((key, d)) = exemplar_fail {
        let path = write_replay(p, &[], &format!("exemplar {}: {}", key, d), "");
        violation = Some((path, d));
    }
    if violation.is_none() {
        if let Some((_, tape, fail)) = first_fail.into_inner().unwrap() {
            // classes of failure are compared by their key and by whether they are panics
            let muted = Muted::new();
            let (tape, fail, desc) = with_stack(|| {
                let is_panic = fail.msg.starts_with("panicked at");
                let began = std::time::Instant::now();
                let best = shrink(
                    tape,
                    |cand| {
                        if began.elapsed().as_secs() >= 90 {
                            return false;
                        }
                        let mut ctx = Ctx { shrinking: true, ..Ctx::default() };
                        match run_case(p, cand, &mut ctx) {
                            Ok(()) => false,
                            Err(f) => {
                                f.msg.starts_with("panicked at") == is_panic
                                    && !f.key.as_ref().map_or(false, |k| known.has(p.id, k))
                            }
                        }
                    },
                    4000,
                );
                let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
                let f = run_case(p, &best, &mut ctx).err().unwrap_or(fail);
                (best, f, ctx.desc)
            });
            drop(muted);
            let path = write_replay(p, &tape, &fail.msg, &desc);
            violation = Some((path, format!("{}{}\n{}", fail.key.as_ref().map(|k| format!("[{}] ", k)).unwrap_or_default(), fail.msg, desc)));
        }
    }

    if violation.is_none() && all.nontrivial_hits * 100 < all.evals * p.min_nontrivial_pct {
        eprintln!(
            "internal: only {} of {} cases were non-trivial (rule: {}), the run does not count",
            all.nontrivial_hits, all.evals, p.rule
        );
        write_evidence(p, opts, &all, t0.elapsed().as_secs_f64(), &known_lines, violation.as_ref().map(|v| v.0.clone()), false);
        return 2;
    }
    write_evidence(p, opts, &all, t0.elapsed().as_secs_f64(), &known_lines, violation.as_ref().map(|v| v.0.clone()), true);
    println!(
        "property={} tier={} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s classes={:?} max={:?} excluded={:?}",
        p.id, opts.tier, opts.seed, all.evals + all.extra_evals, all.distinct.len(), t0.elapsed().as_secs_f64(), all.classes, all.max, all.excluded
    );
    match violation {
        None => 0,
        Some((path, msg)) => {
            println!("{}", msg);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
    }
}

pub static TIER: std::sync::OnceLock<String> = std::sync::OnceLock::new();

pub fn write_replay(p: &Prop, tape: &[u32], msg: &str, desc: &str) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut h = DefaultHasher::new();
    tape.hash(&mut h);
    let path = dir.join(format!("{}-{:016x}.json", p.id, h.finish()));
    let v = serde_json::json!({
        "property": p.id,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        "tier": TIER.get().cloned().unwrap_or_else(|| "quick".into()),
        "tape": tape,
        "failure": msg,
        "case": desc,
        "how_to_replay": format!("/verif/check.sh replay {}", path.display()),
    });
    let mut f = std::fs::File::create(&path).unwrap();
    f.write_all(serde_json::to_string_pretty(&v).unwrap().as_bytes()).unwrap();
    path
}

fn write_evidence(p: &Prop, opts: &Opts, st: &Stats, wall: f64, known: &[String], violation: Option<PathBuf>, counted: bool) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut samples = st.samples.clone();
    if samples.is_empty() {
        samples.push("(no non-trivial case was completed)".into());
    }
    let v = serde_json::json!({
        "property": p.id,
        "tier": if opts.tier == "thorough" { "thorough" } else { "quick" },
        "seed": opts.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evals + st.extra_evals,
            "distinct_nontrivial": st.distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "generated_cases": st.evals,
            "nontrivial_cases": st.nontrivial_hits,
            "classes": st.classes,
            "maxima": st.max,
            "excluded_as_known_findings": st.excluded,
            "counted": counted,
        },
        "wall_s": wall,
        "assumptions": p.assumptions,
        "known_findings": known,
        "violations": violation.iter().map(|p| p.display().to_string()).collect::<Vec<_>>(),
    });
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
}

// ---------------------------------------------------------------------------------------
// supervision: the search runs in a child process; a child that dies by a signal or stops
// making progress is re-run on the case in flight, alone, before anything is reported.

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// redirects stdout to /dev/null while alive
pub struct Muted(i32);
impl Muted {
    pub fn new() -> Muted {
        use std::os::unix::io::AsRawFd;
        let _ = std::io::stdout().flush();
        unsafe {
            let saved = dup(1);
            if let Ok(null) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
                dup2(null.as_raw_fd(), 1);
            }
            Muted(saved)
        }
    }
}
impl Drop for Muted {
    fn drop(&mut self) {
        let _ = std::io::stdout().flush();
        unsafe {
            dup2(self.0, 1);
            close(self.0);
        }
    }
}

const RLIMIT_CPU: i32 = 0;
const RLIMIT_AS: i32 = 9;
const RLIMIT_CORE: i32 = 4;

pub fn limit_self(cpu_s: u64, mem: u64) {
    unsafe {
        if cpu_s > 0 {
            setrlimit(RLIMIT_CPU, &[cpu_s, cpu_s]);
        }
        setrlimit(RLIMIT_AS, &[mem, mem]);
        setrlimit(RLIMIT_CORE, &[0, 0]);
    }
}

const CASE_CPU_S: u64 = 60;

pub fn supervise(p: &Prop, opts: &Opts) -> i32 {
    use std::process::Command;
    let exe = std::env::current_exe().unwrap();
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let progress = dir.join(format!(".progress.{}.{}", p.id, std::process::id()));
    let mut cmd = Command::new(&exe);
    cmd.arg("search").arg(p.id).arg(&opts.tier).env("VERIF_SEED", opts.seed.to_string()).env("VERIF_PROGRESS", &progress);
    if let Some(c) = opts.cases {
        cmd.env("VERIF_CASES", c.to_string());
    }
    let mut child = cmd.spawn().unwrap();
    // stall detection: slots unchanged for a long time
    let mut last: Vec<u8> = Vec::new();
    let mut changed = std::time::Instant::now();
    let mut stalled = false;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
        let now = std::fs::read(&progress).unwrap_or_default();
        if now != last || now.iter().all(|&b| b == 0) {
            last = now;
            changed = std::time::Instant::now();
        } else if changed.elapsed().as_secs() > 90 {
            stalled = true;
            let _ = child.kill();
            break child.wait().unwrap();
        }
    };
    let slots = std::fs::read(&progress).unwrap_or_default();
    let _ = std::fs::remove_file(&progress);
    // scratch directories of cases that were cut off
    let prefix = format!("fall-verif-{}-", child.id());
    for e in std::fs::read_dir(std::env::temp_dir()).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with(&prefix) {
            let _ = std::fs::remove_dir_all(e.path());
        }
    }
    if let (false, Some(code)) = (stalled, status.code()) {
        if code == 0 || code == 1 {
            return code;
        }
        if code != 101 {
            return code;
        }
    }
    // candidates: the cases in flight
    let mut idx: Vec<u64> = slots
        .chunks(8)
        .filter(|c| c.len() == 8)
        .map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]))
        .filter(|&v| v > 0)
        .map(|v| v - 1)
        .collect();
    idx.sort();
    eprintln!("search process ended abnormally ({:?}, stalled: {}), re-running the cases in flight {:?}", status, stalled, idx);
    let dies = |tape: &[u32], cpu: u64| -> Option<String> {
        let file = dir.join(format!(".case.{}.{}", p.id, std::process::id()));
        std::fs::write(&file, serde_json::to_string(tape).unwrap()).unwrap();
        let out = Command::new(&exe).arg("one").arg(p.id).arg(&file).arg(cpu.to_string()).arg(&opts.tier).output().unwrap();
        let _ = std::fs::remove_file(&file);
        use std::os::unix::process::ExitStatusExt;
        match out.status.signal() {
            Some(s) => Some(match s {
                24 | 9 => format!("did not terminate within {} s of CPU time (signal {})", cpu, s),
                _ => format!(
                    "the process died with signal {}: {}",
                    s,
                    String::from_utf8_lossy(&out.stderr).lines().last().unwrap_or("")
                ),
            }),
            None => None,
        }
    };
    for i in idx {
        let tape = tape_for(p, opts.seed, i);
        if let Some(msg) = dies(&tape, CASE_CPU_S) {
            let hang = msg.starts_with("did not");
            let best = shrink(tape, |c| dies(c, if hang { 10 } else { 20 }).is_some(), if hang { 25 } else { 150 });
            let msg = dies(&best, CASE_CPU_S).unwrap_or(msg);
            let desc = describe_only(&exe, p, &best, &dir);
            let path = write_replay(p, &best, &msg, &desc);
            let st = Stats { evals: i + 1, ..Stats::default() };
            write_evidence(p, opts, &st, 0.0, &[], Some(path.clone()), false);
            println!("{}\n{}", msg, desc);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            return 1;
        }
    }
    eprintln!("no single case reproduces the abnormal end: no verdict");
    3
}

fn describe_only(exe: &std::path::Path, p: &Prop, tape: &[u32], dir: &std::path::Path) -> String {
    // the description is printed before the code under test runs
    let file = dir.join(format!(".case.{}.{}", p.id, std::process::id()));
    std::fs::write(&file, serde_json::to_string(tape).unwrap()).unwrap();
    let out = std::process::Command::new(exe)
        .arg("one").arg(p.id).arg(&file).arg("10").arg("quick").env("VERIF_DESC", "1").output().unwrap();
    let _ = std::fs::remove_file(&file);
    String::from_utf8_lossy(&out.stdout).into_owned()
}
