//! The examples of a grammar (`test` sections), rendered by a parser built from it.
use super::codegen::{self, Module};
use crate::driver::*;
use crate::dynlang;
use crate::ensure;
use crate::gen::Gen;
use crate::gengram;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn root() -> PathBuf {
    verif_dir().join("target").join("render")
}

fn env(c: &mut Command, slot: &Path) {
    c.env("TMPDIR", slot.join("tmp"))
        .env("CARGO_TARGET_DIR", slot.join("target"))
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_PROFILE_DEV_DEBUG", "0")
        .env("CARGO_INCREMENTAL", "0")
        .env("CARGO_BUILD_JOBS", "8")
        .env("RUSTFLAGS", "--cap-lints allow")
        .env_remove("CARGO_MAKEFLAGS")
        .env_remove("MAKEFLAGS")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
}

const FIRST: &str = "tokenizer { t 'a' }\npub rule file { 'a'* }\ntest r\"a\"\n";

/// builds the crates every rendering needs, so that a case only builds its own parser
pub fn prepare() {
    let base = root().join("base");
    let work = base.join("tmp/fall-tests");
    std::fs::create_dir_all(&work).unwrap();
    std::fs::copy(verif_dir().join("harness/Cargo.lock"), work.join("Cargo.lock")).unwrap();
    // whatever the rendering answers here, the crates below it are built now
    let r = run(&base, FIRST, None, Duration::from_secs(600));
    if !base.join("target/debug/deps").exists() {
        eprintln!("internal: the crates a generated parser needs cannot be built");
        std::process::exit(4);
    }
    if let Err(e) = r {
        eprintln!("note: {}", e);
    }
}

/// a directory of this process and thread with the built crates in it
struct Slot {
    dir: PathBuf,
    _lock: std::fs::File,
}

fn slot() -> Slot {
    for i in 0.. {
        let dir = root().join(format!("slot{}", i));
        std::fs::create_dir_all(&dir).unwrap();
        let lock = std::fs::OpenOptions::new().create(true).write(true).open(dir.join("lock")).unwrap();
        if lock.try_lock().is_err() {
            continue;
        }
        for d in ["tmp", "target"] {
            let _ = std::fs::remove_dir_all(dir.join(d));
            let ok = Command::new("cp").arg("-a").arg(root().join("base").join(d)).arg(dir.join(d)).status().map_or(false, |s| s.success());
            assert!(ok, "internal: cannot copy {}", d);
        }
        return Slot { dir, _lock: lock };
    }
    unreachable!()
}

thread_local! {
    static SLOT: std::cell::RefCell<Option<Slot>> = std::cell::RefCell::new(None);
}

/// renders in a child process (the directory is chosen by its environment)
fn run(slot: &Path, grammar: &str, test: Option<usize>, limit: Duration) -> Result<Option<String>, String> {
    let file = slot.join("g.v1.fall");
    let out = slot.join("g.v1.txt");
    let _ = std::fs::remove_file(&out);
    std::fs::write(&file, grammar).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("render").arg(&file).arg(&out).arg(test.map_or("all".into(), |t| t.to_string()));
    env(&mut c, slot);
    let mut child = c.spawn().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    let status = loop {
        match child.try_wait().unwrap() {
            Some(s) => break s,
            None if t0.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                return Ok(None);
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    if !status.success() {
        return Err("rendering the examples fails".into());
    }
    std::fs::read_to_string(&out).map(Some).map_err(|_| "rendering the examples leaves no file".into())
}

/// the child process of `run`
pub fn child(args: &[String]) -> i32 {
    let (grammar, out, which) = (&args[0], &args[1], args[2].as_str());
    match which.parse::<usize>() {
        Err(_) => match fall_gen::process(fall_gen::Task::Examples(grammar.into())) {
            Ok(()) => 0,
            Err(_) => 1,
        },
        Ok(i) => {
            let f = lang_fall_syntax::lang_fall().parse(std::fs::read_to_string(grammar).unwrap());
            std::fs::write(out, fall_gen::TestRenderer.render_one(&f, i)).unwrap();
            0
        }
    }
}

fn render(grammar: &str, test: Option<usize>) -> Result<Option<String>, Fail> {
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            *s = Some(slot());
        }
        run(&s.as_ref().unwrap().dir, grammar, test, Duration::from_secs(150)).map_err(|e| e.as_str().into())
    })
}

/// what `dump_file` documents: a line per node, two blanks per level, the text of leaves, no trivia
fn tree(m: &Module, text: &str, swap: (char, char)) -> Option<String> {
    let shown = swapped(text, swap);
    let (want, ..) = codegen::expected(m, text)?;
    let mut s = String::new();
    for (i, x) in want.iter().enumerate() {
        if dynlang::is_ws(dynlang::idx(fall_tree::NodeType(x.ty))) {
            continue;
        }
        s.push_str(&"  ".repeat(x.depth as usize));
        s.push_str(&codegen::name_of(m, x.ty));
        if want.get(i + 1).map_or(true, |n| n.depth <= x.depth) {
            s.push_str(&format!(" {:?}", &shown[x.start..x.end]));
        }
        s.push('\n');
    }
    Some(s)
}

fn swapped(s: &str, (a, b): (char, char)) -> String {
    s.chars().map(|c| if c == a { b } else if c == b { a } else { c }).collect()
}

/// the same grammar, except that two letters change their places in all literals
fn swapped_grammar(src: &str, (a, b): (char, char)) -> String {
    let mut s = src.to_string();
    for (l, r) in [("'", "'"), ("r\"", "\""), ("#\"", "\"#")] {
        let q = |c: char| format!("{}{}{}", l, c, r);
        s = s.replace(&q(a), "\u{1}").replace(&q(b), &q(a)).replace("\u{1}", &q(b));
    }
    s
}

fn literal(g: &mut Gen, text: &str) -> String {
    let pad = |g: &mut Gen| g.pick(&["", "", "\n", "  ", "\n    ", "\t"]).to_string();
    let body = format!("{}{}{}", pad(g), text, pad(g));
    let mut n = g.below(3);
    while body.contains(&format!("\"{}", "#".repeat(n))) {
        n += 1;
    }
    let h = "#".repeat(n);
    format!("r{}\"{}\"{}", h, body, h)
}

/// a grammar with examples, and the tree of each
fn with_tests(g: &mut Gen, m: &Module, swap: (char, char)) -> Option<(String, Vec<String>)> {
    let n = g.range(1, 5);
    let mut src = String::new();
    let mut trees = Vec::new();
    let lead = if g.chance(1, 3) { g.range(0, n) } else { 0 };
    for i in 0..n {
        if i == lead {
            src.push_str(&swapped_grammar(&m.src, swap));
            src.push('\n');
        }
        let text = if g.chance(1, 10) { String::new() } else { gengram::text(g, &m.gr, 25).trim().to_string() };
        trees.push(tree(m, &text, swap)?);
        src.push_str(&format!("test{}{}\n{}", g.pick(&[" ", "\n"]), literal(g, &swapped(&text, swap)), g.pick(&["", "\n", "// c\n"])));
    }
    if lead >= n {
        src.push_str(&swapped_grammar(&m.src, swap));
    }
    Some((src, trees))
}

fn c34(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let files = verif_dir().join("target/render");
    // the generator as a whole: a file in, a file out
    let (text, _) = codegen::grammar_text(g);
    ctx.describe(|| format!("grammar\n{}", text));
    let want = codegen::outcome(&text, false)?;
    let name = format!("p{}-{:?}", std::process::id(), std::thread::current().id());
    let path = files.join(format!("{}.v1.fall", name));
    let made = files.join(format!("{}.v1.rs", name));
    let _ = std::fs::remove_file(&made);
    std::fs::write(&path, &text).unwrap();
    let r = guarded(|| fall_gen::process(fall_gen::Task::Generate(path.clone())).map_err(|e| e.to_string()));
    let got = std::fs::read_to_string(&made).ok();
    let kept = std::fs::read_to_string(&path).ok();
    let _ = std::fs::remove_file(&made);
    let _ = std::fs::remove_file(&path);
    let r = r.map_err(|p| Fail::from(format!("generating a parser {}", p)))?;
    ensure!(kept.as_deref() == Some(&text), "generating a parser changes the grammar");
    match (&want, r) {
        (Ok(rust), Ok(())) => ensure!(got.as_ref() == Some(rust), "the file written is not the generated parser"),
        (Ok(_), Err(e)) => return Err(format!("no parser is written: {}", e).into()),
        (Err(_), Ok(())) => return Err("the grammar cannot be translated, but no error is reported".into()),
        (Err(e), Err(f)) => {
            ensure!(*e == f, "the reason reported is {:?} and not {:?}", f, e);
            ensure!(got.is_none(), "a parser is written although the grammar cannot be translated");
        }
    }
    if !g.chance(1, 100) {
        ctx.class(if want.is_ok() { "generated" } else { "refused" });
        return Ok(());
    }
    if want.is_err() {
        let shown = format!("error:\n{}", want.unwrap_err());
        let got = match render(&text, None)? {
            Some(s) => s,
            None => {
                ctx.class("slow");
                return Ok(());
            }
        };
        ctx.class("refused examples");
        ensure!(got == shown, "for a grammar that cannot be translated the examples file is\n{}\nand not\n{}", got, shown);
    }
    let mut shown = 0;
    // the directory is used again and again, by grammars that differ a lot or little
    let m = codegen::module(g, false);
    if m.rust.is_err() {
        return Ok(());
    }
    for _ in 0..g.range(1, 3) {
        let swap = *g.pick(&[('a', 'a'), ('a', 'b'), ('c', 'd'), ('b', 'e'), ('d', 'f')]);
        let (src, trees) = match with_tests(g, &m, swap) {
            Some(x) => x,
            None => {
                ctx.class("too-expensive");
                continue;
            }
        };
        let one = if g.chance(1, 3) { Some(g.range(0, trees.len() + 1)) } else { None };
        ctx.describe(|| format!("grammar\n{}\n{:?}", src, one));
        let want = match one {
            None => trees.iter().map(|t| format!("{}\n\n", t)).collect::<String>(),
            Some(i) => trees.get(i).map(|t| format!("{}\n\n", t)).unwrap_or_default(),
        };
        match render(&src, one)? {
            None => ctx.class("slow"),
            Some(got) => {
                ctx.evals += 1;
                ensure!(got == want, "the examples are shown as\n{}\nand not as\n{}", got, want);
                ctx.class(if one.is_some() { "one example" } else { "all examples" });
                shown += trees.len();
            }
        }
    }
    if shown > 0 {
        ctx.nontrivial((text, m.src));
    }
    Ok(())
}

pub const C34: Prop = Prop {
    id: "C34",
    rule: "at least one example was rendered by a parser that was built for it; keyed by the grammars",
    run: c34,
    quick: 24_000,
    thorough: 200_000,
    tape: 1500,
    threads: 0,
    exemplars: &[],
    assumptions: &["examples do not contain the line the renderer separates them with"],
    min_nontrivial_pct: 0,
};
