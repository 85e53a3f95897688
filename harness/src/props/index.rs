//! The symbol index, the file index and concurrent use.
use crate::driver::*;
use crate::ensure;
use crate::fallmodel;
use crate::gen::Gen;
use crate::langs;
use crate::rustmodel;
use crate::tree::*;
use fall_editor::EditorFileImpl;
use fall_tree::{tu, TextRange};
use lang_fall::FileWithAnalysis;
use lang_rust::editor::{RustEditorFile, SymbolIndex};
use lang_rust::syntax::{ENUM_DEF, FN_DEF, MOD_DEF, STRUCT_DEF, TRAIT_DEF, TYPE_DEF};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------ server
extern "C" {
    fn inotify_init1(flags: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// Is there a watch to be had? Their number is limited per user, whatever the other processes do.
fn watch_available() -> bool {
    unsafe {
        let fd = inotify_init1(0);
        fd >= 0 && close(fd) == 0
    }
}

fn has_watch() -> bool {
    std::fs::read_dir("/proc/self/fd").map_or(true, |d| d.flatten().any(|e| std::fs::read_link(e.path()).map_or(false, |l| l.to_string_lossy().contains("inotify"))))
}

/// One index per process: its threads and watches live as long as the process does.
pub fn serve(args: &[String]) {
    let roots: Vec<PathBuf> = args[1..].iter().map(Into::into).collect();
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    let began = Instant::now();
    while !watch_available() && began.elapsed() < Duration::from_secs(60) {
        std::thread::sleep(Duration::from_millis(50));
    }
    match args[0].as_str() {
        "symbols" => {
            let index = SymbolIndex::new(roots);
            for line in stdin.lock().lines() {
                let q: String = match line {
                    Ok(l) => serde_json::from_str(&l).unwrap(),
                    Err(_) => return,
                };
                let got: Vec<Value> = index.query(&q).into_iter().map(|(p, s)| {
                    json!([p.to_str().unwrap(), s.ty.0, s.name, s.range.start().utf8_len(), s.range.end().utf8_len(),
                        s.lc_range[0].line, s.lc_range[0].col, s.lc_range[1].line, s.lc_range[1].col])
                }).collect();
                if writeln!(out, "{}", Value::Array(got)).is_err() {
                    return;
                }
                let _ = out.flush();
            }
        }
        "files" => {
            let set = indxr::IndexableFileSet::new(roots, "rs");
            let index = indxr::FileIndex::new(set, Box::new(|p: &Path| {
                let s = std::fs::read_to_string(p).ok()?;
                if s.starts_with("none") { None } else { Some(s) }
            }));
            let began = Instant::now();
            let mut starved = false;
            while !has_watch() && began.elapsed() < Duration::from_secs(5) {
                starved |= !watch_available();
                std::thread::sleep(Duration::from_millis(5));
            }
            starved &= !has_watch();
            for line in stdin.lock().lines() {
                if line.is_err() {
                    return;
                }
                if starved {
                    let _ = writeln!(out, "null").and_then(|_| out.flush());
                    continue;
                }
                let mut got: Vec<Value> = Vec::new();
                index.process_files(&mut |f| {
                    got.push(json!([f.path.to_str().unwrap(), f.value]));
                    false
                });
                // and once more, stopping at the first one
                let mut n = 0;
                index.process_files(&mut |_| {
                    n += 1;
                    true
                });
                if writeln!(out, "{}", json!([got, n])).is_err() {
                    return;
                }
                let _ = out.flush();
            }
        }
        _ => {}
    }
}

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Server {
    fn new(kind: &str, roots: &[PathBuf]) -> Server {
        let mut child = Command::new(std::env::current_exe().unwrap()).arg("serve").arg(kind).args(roots)
            .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start the server");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Server { child, to, from }
    }
    fn ask(&mut self, q: &str) -> Result<Value, Fail> {
        let mut line = String::new();
        let ok = writeln!(self.to, "{}", serde_json::to_string(q).unwrap()).and_then(|_| self.to.flush()).is_ok()
            && self.from.read_line(&mut line).map_or(false, |n| n > 0);
        ensure!(ok, "the index died when asked for {:?}", q);
        Ok(serde_json::from_str(&line).unwrap())
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// a directory removed when dropped
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("fall-verif-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------------------------------------------ C30
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Sym(String, u32, String, [usize; 6]);

fn line_col(text: &str, at: usize) -> (usize, usize) {
    let before = &text[..at];
    let line = before.rsplit('\n').next().unwrap();
    (before.matches('\n').count(), line.encode_utf16().count())
}

fn subsequence(q: &str, name: &str) -> bool {
    let mut cs = name.chars();
    q.chars().all(|c| cs.any(|d| d == c))
}

fn c30(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let roots: Vec<PathBuf> = (0..g.range(1, 3)).map(|i| scratch.0.join(format!("root{}", i))).collect();
    for r in &roots {
        std::fs::create_dir_all(r.join("sub/dir")).unwrap();
    }
    let mut all: Vec<Sym> = Vec::new();
    let copies = if g.chance(1, 12) { g.range(10, 120) } else { 1 };
    for i in 0..g.range(1, 7) {
        let m = rustmodel::generate(g);
        let root = g.pick(&roots).clone();
        let dir = *g.pick(&["", "sub", "sub/dir"]);
        let ext = if g.chance(1, 8) { *g.pick(&["txt", "rs~", "srs", ""]) } else { "rs" };
        if has_error(&lang_rust::syntax::lang_rust().parse(m.text.as_str())) {
            continue;
        }
        for c in 0..copies {
            let name = if ext.is_empty() { format!("f{}_{}", i, c) } else { format!("f{}_{}.{}", i, c, ext) };
            let path = root.join(dir).join(name);
            std::fs::write(&path, &m.text).unwrap();
            if c == 0 {
                ctx.describe(|| format!("{:?} (and {} copies): {:?}", path.strip_prefix(&scratch.0).unwrap(), copies - 1, m.text));
            }
            if ext != "rs" {
                continue;
            }
            for it in m.items.iter().filter(|i| i.kind != "impl") {
                let ty = match it.kind {
                    "fn" => FN_DEF,
                    "struct" => STRUCT_DEF,
                    "enum" => ENUM_DEF,
                    "trait" => TRAIT_DEF,
                    "type" => TYPE_DEF,
                    _ => MOD_DEF,
                };
                let (a, b) = (line_col(&m.text, it.range.0), line_col(&m.text, it.range.1));
                all.push(Sym(path.to_str().unwrap().into(), ty.0, it.name.clone(), [it.range.0, it.range.1, a.0, a.1, b.0, b.1]));
            }
        }
    }
    let mut server = Server::new("symbols", &roots);
    let is_type = |s: &Sym| [STRUCT_DEF.0, ENUM_DEF.0, TRAIT_DEF.0, TYPE_DEF.0].contains(&s.1);
    let mut patient = true;
    for k in 0..g.range(8, 80) {
        let mut q = String::new();
        if k == 0 {
            q.push('#');
        } else {
            if !all.is_empty() && g.chance(4, 5) {
                let n = all[g.below(all.len())].2.clone();
                let keep = g.range(1, 4);
                for c in n.chars() {
                    if g.chance(keep, 4) {
                        if g.bool() { q.extend(c.to_lowercase()) } else { q.extend(c.to_uppercase()) }
                    }
                }
            }
            while g.chance(1, 4) {
                let at = langs::floor(&q, g.below(q.len() + 1));
                q.insert(at, *g.pick(&['a', 'o', 'B', '_', '2', '\u{f6}', '\u{d6}', ' ', '\u{44f}', '\u{b6}']));
            }
            if g.chance(1, 4) {
                let at = langs::floor(&q, g.below(q.len() + 1));
                q.insert(at, '#');
            }
        }
        let low: String = q.chars().filter(|&c| c != '#').flat_map(char::to_lowercase).collect();
        let hit: Vec<&Sym> = all.iter().filter(|s| subsequence(&low, &s.2.to_lowercase())).collect();
        let types: Vec<&Sym> = hit.iter().cloned().filter(|s| is_type(s)).collect();
        let mut want = if q.contains('#') || types.is_empty() { hit } else { types };
        want.sort();
        // the index is built in the background
        let began = Instant::now();
        let limit = Duration::from_millis(if !patient { 0 } else if ctx.shrinking { 2_000 } else { 20_000 });
        loop {
            let v = server.ask(&q)?;
            let mut got: Vec<Sym> = v.as_array().unwrap().iter().map(|s| {
                let n = |i: usize| s[i].as_u64().unwrap() as usize;
                Sym(s[0].as_str().unwrap().into(), n(1) as u32, s[2].as_str().unwrap().into(), [n(3), n(4), n(5), n(6), n(7), n(8)])
            }).collect();
            got.sort();
            let ok = if want.len() <= 512 {
                got.iter().eq(want.iter().cloned())
            } else {
                // a long list is cut short, but what is in it is right
                let mut w = want.iter();
                got.len() > 512 && got.iter().all(|s| w.any(|x| *x == s))
            };
            if ok {
                break;
            }
            if began.elapsed() > limit {
                let name = |s: &Sym| format!("{} {} {:?}", Path::new(&s.0).strip_prefix(&scratch.0).unwrap().display(), s.2, s.3);
                let missing: Vec<String> = want.iter().filter(|s| !got.contains(s)).take(4).map(|s| name(s)).collect();
                let extra: Vec<String> = got.iter().filter(|s| !want.contains(s)).take(4).map(name).collect();
                return Err(format!("the query {:?} finds {} symbols, expected {}; missing {:?}, unexpected {:?}", q, got.len(), want.len(), missing, extra).into());
            }
            std::thread::sleep(Duration::from_millis(if began.elapsed().as_millis() < 50 { 2 } else { 50 }));
        }
        // everything is there once the first, complete, query was answered
        if k == 0 && want.len() <= 512 {
            patient = false;
        }
        ctx.evals += 1;
        if want.len() > 512 {
            ctx.class("cut-short");
        }
        if !want.is_empty() && want.len() < all.len() {
            ctx.class("selective");
        }
        if !want.is_empty() && !is_type(want[0]) && !q.contains('#') {
            ctx.class("fallback");
        }
    }
    if all.len() >= 3 {
        ctx.nontrivial(all.iter().map(|s| (s.2.clone(), s.3)).collect::<Vec<_>>());
    }
    Ok(())
}
pub const C30: Prop = Prop {
    id: "C30",
    rule: "at least three symbols are indexed; distinct lists of symbols",
    run: c30,
    quick: 2_500,
    thorough: 120_000,
    tape: 900,
    threads: 0,
    exemplars: &[],
    assumptions: &["the index is given 20 s to read the files", "files are free of syntax errors; names contain no character whose lower case depends on its neighbours"],
    min_nontrivial_pct: 40,
};

// ------------------------------------------------------------------------------------ C31
fn walk(dir: &Path, out: &mut BTreeMap<String, String>) {
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            let s = std::fs::read_to_string(&p).unwrap();
            if !s.starts_with("none") {
                out.insert(p.to_str().unwrap().into(), s);
            }
        }
    }
}

fn all_paths(dir: &Path, dirs: &mut Vec<PathBuf>, files: &mut Vec<PathBuf>) {
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            dirs.push(p.clone());
            all_paths(&p, dirs, files);
        } else {
            files.push(p);
        }
    }
}

fn fresh_path(g: &mut Gen, dirs: &[PathBuf], dir: bool) -> PathBuf {
    let d = g.pick(dirs).clone();
    let n = if dir { *g.pick(&["d", "e", "f.rs.d"]) } else { *g.pick(&["a.rs", "b.rs", "c.rs", "a.txt", "rs", ".rs", "b.rs~", "\u{f6}.rs"]) };
    d.join(n)
}

/// one random change to the file system below the roots; false if there was nothing to do
fn change(g: &mut Gen, roots: &[PathBuf], outside: &Path, step: usize) -> Option<String> {
    let (mut dirs, mut files) = (roots.to_vec(), Vec::new());
    for r in roots {
        all_paths(r, &mut dirs, &mut files);
    }
    let own: Vec<PathBuf> = dirs[roots.len()..].to_vec();
    let content = if g.chance(1, 8) { format!("none {}", step) } else { format!("v{}", step) };
    let show = |p: &Path| p.strip_prefix(outside.parent().unwrap()).unwrap().display().to_string();
    let done = |r: std::io::Result<()>, s: String| r.ok().map(|_| s);
    match g.weighted(&[6, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2]) {
        0 | 1 if !files.is_empty() && g.bool() => {
            let p = g.pick(&files).clone();
            done(std::fs::write(&p, &content), format!("write {} {:?}", show(&p), content))
        }
        0 | 1 => {
            let p = fresh_path(g, &dirs, false);
            if p.exists() {
                return None;
            }
            done(std::fs::write(&p, &content), format!("create {} {:?}", show(&p), content))
        }
        2 if !files.is_empty() => {
            let p = g.pick(&files).clone();
            done(std::fs::remove_file(&p), format!("remove {}", show(&p)))
        }
        3 if !files.is_empty() => {
            let p = g.pick(&files).clone();
            let q = fresh_path(g, &dirs, false);
            if q.is_dir() {
                return None;
            }
            done(std::fs::rename(&p, &q), format!("rename {} to {}", show(&p), show(&q)))
        }
        4 => {
            let p = fresh_path(g, &dirs, true);
            if p.exists() {
                return None;
            }
            std::fs::create_dir(&p).ok()?;
            let mut s = format!("mkdir {}", show(&p));
            if g.bool() {
                let q = p.join("n.rs");
                std::fs::write(&q, &content).ok()?;
                s += &format!(", create {}", show(&q));
            }
            Some(s)
        }
        5 if !own.is_empty() => {
            let p = g.pick(&own).clone();
            done(std::fs::remove_dir_all(&p), format!("remove directory {}", show(&p)))
        }
        6 if !own.is_empty() => {
            let p = g.pick(&own).clone();
            let q = fresh_path(g, &dirs, true);
            if q.exists() || q.starts_with(&p) {
                return None;
            }
            done(std::fs::rename(&p, &q), format!("rename directory {} to {}", show(&p), show(&q)))
        }
        7 => {
            // moved in from outside
            let p = outside.join(format!("in{}", step));
            let dir = g.bool();
            let q = fresh_path(g, &dirs, dir);
            if q.exists() && (dir || q.is_dir()) {
                return None;
            }
            if dir {
                std::fs::create_dir_all(p.join("x")).ok()?;
                std::fs::write(p.join("x/m.rs"), &content).ok()?;
            } else {
                std::fs::write(&p, &content).ok()?;
            }
            done(std::fs::rename(&p, &q), format!("move in {}", show(&q)))
        }
        8 if !own.is_empty() => {
            let p = g.pick(&own).clone();
            done(std::fs::rename(&p, outside.join(format!("out{}", step))), format!("move out directory {}", show(&p)))
        }
        9 if !files.is_empty() => {
            let p = g.pick(&files).clone();
            done(std::fs::rename(&p, outside.join(format!("out{}", step))), format!("move out {}", show(&p)))
        }
        _ if !files.is_empty() => {
            // the way editors save
            let p = g.pick(&files).clone();
            let t = p.with_file_name(format!("{}.tmp", p.file_name().unwrap().to_str().unwrap()));
            std::fs::write(&t, &content).ok()?;
            done(std::fs::rename(&t, &p), format!("save {} {:?}", show(&p), content))
        }
        _ => None,
    }
}

fn c31(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let outside = scratch.0.join("outside");
    std::fs::create_dir_all(&outside).unwrap();
    let roots: Vec<PathBuf> = (0..if g.chance(1, 4) { 2 } else { 1 }).map(|i| scratch.0.join(format!("root{}", i))).collect();
    for r in &roots {
        std::fs::create_dir_all(r).unwrap();
    }
    let mut log = Vec::new();
    let mut step = 0;
    for _ in 0..g.range(0, 6) {
        step += 1;
        log.extend(change(g, &roots, &outside, step));
    }
    log.push("the index starts".to_string());
    let mut server = Server::new("files", &roots);
    let mut kinds = 0;
    if server.ask("")?.is_null() {
        // other processes hold all the watches
        ctx.class("no-watch");
        return Ok(());
    }
    for phase in 0..g.range(1, 4) {
        if phase > 0 || g.bool() {
            for _ in 0..g.range(1, 5) {
                // let the watcher see one change before the next one
                let pause = *g.pick(&[60u64, 100, 300, 1000, 2300]);
                std::thread::sleep(Duration::from_millis(pause));
                step += 1;
                if let Some(s) = change(g, &roots, &outside, step) {
                    log.push(format!("after {} ms {}", pause, s));
                    kinds += 1;
                }
            }
        }
        let mut want = BTreeMap::new();
        for r in &roots {
            walk(r, &mut want);
        }
        let began = Instant::now();
        let mut right_since: Option<Instant> = None;
        loop {
            let v = server.ask("")?;
            let list = v[0].as_array().unwrap();
            let got: BTreeMap<String, String> = list.iter().map(|f| (f[0].as_str().unwrap().into(), f[1].as_str().unwrap().into())).collect();
            ensure!(got.len() == list.len(), "a file is listed twice: {}", v[0]);
            ensure!(v[1].as_u64().unwrap() == got.len().min(1) as u64, "the listing does not stop when told to");
            ctx.evals += 1;
            if got == want {
                // and it stays so while nothing changes
                let since = *right_since.get_or_insert_with(Instant::now);
                if since.elapsed() > Duration::from_millis(2500) {
                    break;
                }
            } else {
                right_since = None;
                if began.elapsed() > Duration::from_secs(if ctx.shrinking { 8 } else { 30 }) {
                    let rel = |p: &String| Path::new(p).strip_prefix(&scratch.0).unwrap().display().to_string();
                    let missing: Vec<_> = want.iter().filter(|x| got.get(x.0) != Some(x.1)).map(|x| (rel(x.0), x.1)).collect();
                    let extra: Vec<_> = got.iter().filter(|x| want.get(x.0) != Some(x.1)).map(|x| (rel(x.0), x.1)).collect();
                    return Err(format!("{:.0?} after the last change the index lacks {:?} and still has {:?}\nhistory:\n  {}", began.elapsed(), missing, extra, log.join("\n  ")).into());
                }
            }
            std::thread::sleep(Duration::from_millis(100));
        }
        log.push(format!("the index is right, with {} files", want.len()));
    }
    ctx.describe(|| log.join("\n"));
    if kinds >= 2 {
        ctx.nontrivial(log.join("\n"));
    }
    Ok(())
}
pub const C31: Prop = Prop {
    id: "C31",
    rule: "at least two changes were made while the index was running; distinct histories",
    run: c31,
    quick: 500,
    thorough: 6_000,
    tape: 160,
    threads: 64,
    exemplars: &[],
    assumptions: &["changes are at least 60 ms apart", "the index is given 30 s after the last change (the watcher gathers events for 2 s)"],
    min_nontrivial_pct: 30,
};

// ------------------------------------------------------------------------------------ C32
enum Shared {
    Fall(FileWithAnalysis),
    Rust(RustEditorFile),
}

fn parse(l: &str, t: &str) -> Shared {
    if l == "fall" { Shared::Fall(FileWithAnalysis::parse(t)) } else { Shared::Rust(RustEditorFile::parse(t)) }
}

fn ask(f: &Shared, text: &str, q: (usize, usize)) -> String {
    let off = tu(q.1 as u32);
    let r = TextRange::from_to(off, off);
    match f {
        Shared::Fall(f) => match q.0 {
            0 => format!("{:?}", f.highlight().into_iter().map(|h| (h.0, (h.1).0)).collect::<Vec<_>>()),
            1 => {
                let mut v: Vec<String> = f.diagnostics().into_iter().map(|d| format!("{:?} {:?} {}", d.range, d.severity, d.message)).collect();
                v.sort();
                format!("{:?}", v)
            }
            2 => format!("{:?}", f.structure().into_iter().map(|s| (s.name, s.range)).collect::<Vec<_>>()),
            3 => format!("{:?}", f.resolve_reference(off)),
            4 => format!("{:?}", f.find_usages(off)),
            5 => format!("{:?}", f.extend_selection(r)),
            6 => format!("{:?}", f.context_actions(r)),
            7 => f.syntax_tree(),
            8 => format!("{:?}", snap(FileWithAnalysis::parse(text).file())),
            9 => f.analyse(|a| format!("{:?}", fall_gen::generate(a).is_ok())),
            10 => format!("{:?}", f.test_at_offset(off)),
            _ => format!("{:?}", f.reformat().apply(f.file().text()).as_text().to_string()),
        },
        Shared::Rust(f) => match q.0 {
            0 => format!("{:?}", f.highlight().into_iter().map(|h| (h.0, (h.1).0)).collect::<Vec<_>>()),
            1 => format!("{:?}", f.breadcrumbs(off)),
            2 => format!("{:?}", f.structure().into_iter().map(|s| (s.name, s.range)).collect::<Vec<_>>()),
            5 => format!("{:?}", f.extend_selection(r)),
            6 => format!("{:?}", f.context_actions(r)),
            7 => f.syntax_tree(),
            8 => format!("{:?}", snap(RustEditorFile::parse(text).file())),
            9 => format!("{:?}", f.apply_context_action(r, "Add impl").map(|e| e.apply(f.file().text()).as_text().to_string())),
            _ => {
                // an edit of the shared file
                let mut e = fall_tree::TextEditBuilder::new(f.file().text());
                e.insert(off, "fn x() {}");
                format!("{:?}", snap(f.edit(&e.build()).file()))
            }
        },
    }
}

fn c32(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let mut files = Vec::new();
    for _ in 0..g.range(1, 3) {
        let l = if g.chance(2, 3) { "fall" } else { "rust" };
        let text = match g.below(3) {
            0 => langs::by_name(l).text(g, 40),
            _ => if l == "fall" { fallmodel::generate(g).text } else { rustmodel::generate(g).text },
        };
        ctx.describe(|| format!("{} file {:?}", l, text));
        files.push((l, text));
    }
    let n = g.range(2, 6);
    let plans: Vec<Vec<(usize, (usize, usize))>> = (0..n).map(|_| {
        (0..g.range(2, 12)).map(|_| {
            let f = g.below(files.len());
            let off = langs::floor(&files[f].1, g.below(files[f].1.len() + 1));
            (f, (g.below(12), off))
        }).collect()
    }).collect();
    // one after the other, each on a file of its own
    let want: Vec<Vec<String>> = plans.iter().map(|p| p.iter().map(|&(f, q)| ask(&parse(files[f].0, &files[f].1), &files[f].1, q)).collect()).collect();
    // all at once, on shared files
    let shared: Vec<Shared> = files.iter().map(|f| parse(f.0, &f.1)).collect();
    let gate = std::sync::Barrier::new(n);
    let got: Vec<Result<Vec<String>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans.iter().map(|p| {
            let (shared, files, gate) = (&shared, &files, &gate);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                gate.wait();
                guarded(|| p.iter().map(|&(f, q)| ask(&shared[f], &files[f].1, q)).collect())
            }).unwrap()
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
    });
    let mut total = 0;
    for (t, (g, w)) in got.into_iter().zip(want).enumerate() {
        let g = match g {
            Ok(g) => g,
            Err(e) => return Err(e.into()),
        };
        for (k, (a, b)) in g.iter().zip(&w).enumerate() {
            total += 1;
            ensure!(a == b, "thread {} asked {:?} (file, (question, offset)) and got\n{}\nasked alone it gets\n{}", t, plans[t][k], a, b);
        }
    }
    ctx.evals += total;
    if total >= 6 {
        ctx.nontrivial((files, plans));
    }
    Ok(())
}
pub const C32: Prop = Prop {
    id: "C32",
    rule: "at least six questions from two or more threads; distinct (files, questions)",
    run: c32,
    quick: 12_000,
    thorough: 1_000_000,
    tape: 1000,
    threads: 0,
    exemplars: &[],
    assumptions: &["thread schedules are those the operating system happens to produce"],
    min_nontrivial_pct: 40,
};
