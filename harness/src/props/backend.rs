//! The editor backends (`code/*/native`) over a stand-in for neon, and the editor plugin
//! (`code/*/src`) in node, in a model of the editor.
use super::editor::{text_of, Any};
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use crate::langs;
use fall_editor::EditorFileImpl;
use fall_tree::{tu, TextEdit, TextEditBuilder, TextRange};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

fn dir() -> PathBuf {
    verif_dir().join("target").join("backend")
}

const ESBUILD: &str = "/opt/veriftools/node/node_modules/.bin/esbuild";

fn must(c: &mut Command, what: &str) {
    let out = c.env_remove("CARGO_MAKEFLAGS").env_remove("MAKEFLAGS").stdin(Stdio::null()).output();
    match out {
        Ok(o) if o.status.success() => {}
        Ok(o) => {
            eprintln!("{}\n{} cannot be built: no verdict", String::from_utf8_lossy(&o.stderr), what);
            std::process::exit(4)
        }
        Err(e) => {
            eprintln!("{}: {}: no verdict", what, e);
            std::process::exit(4)
        }
    }
}

pub fn prepare(id: &str) {
    if id != "C35" && id != "C36" {
        return;
    }
    std::fs::create_dir_all(dir().join("index")).unwrap();
    must(
        Command::new("cargo").args(["build", "--release", "--offline", "--locked", "--manifest-path"])
            .arg(verif_dir().join("backend/bridge/Cargo.toml")),
        "the editor backend",
    );
    for (name, text) in INDEX {
        let file = dir().join("index").join(name);
        if std::fs::read_to_string(&file).ok().as_deref() != Some(*text) {
            std::fs::write(file, text).unwrap();
        }
    }
    if id == "C36" {
        for l in ["rust", "fall"] {
            let tmp = dir().join(format!("{}.{}.js", l, std::process::id()));
            must(
                Command::new(ESBUILD).arg(format!("/repo/code/{}/src/main.ts", l))
                    .args(["--bundle", "--platform=node", "--format=cjs", "--external:vscode", "--external:*/native", "--log-level=error"])
                    .arg(format!("--outfile={}", tmp.display())),
                "the editor plugin",
            );
            std::fs::rename(&tmp, dir().join(format!("{}.js", l))).unwrap();
        }
    }
}

const INDEX: &[(&str, &str)] = &[
    ("a.rs", "struct Alpha;\n\n/* é */ struct Beta { x: u32 }\nfn gamma() {}\n"),
    ("b.rs", "mod m {\n    /* \u{1f600} */ pub trait Delta { fn f(); }\n}\n// \u{4e2d}\nenum Alphabet { A }\n"),
];

struct Bridge {
    indexed: bool,
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Bridge {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Bridge {
    fn new(lang: &str, host: bool) -> Bridge {
        let exe = std::env::current_exe().unwrap();
        let mut c = Command::new(exe.parent().unwrap().join("bridge"));
        c.arg(if lang == "fall" { "fall" } else { "rs" });
        if host {
            c.arg("node").arg(verif_dir().join("backend/host.js")).arg(dir().join(format!("{}.js", lang)));
            c.env("FOLDERS", dir().join("index"));
        }
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
        let mut b = Bridge { indexed: false, to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), child };
        if host {
            let v = b.read().unwrap_or_else(|| json!({"gone": true}));
            assert!(v["errors"] == json!([]), "the plugin cannot be activated: {}", v);
        }
        b
    }
    fn read(&mut self) -> Option<Value> {
        let mut line = String::new();
        match self.from.read_line(&mut line) {
            Ok(n) if n > 0 => serde_json::from_str(&line).ok(),
            _ => None,
        }
    }
    fn ask(&mut self, v: &Value) -> Option<Value> {
        let mut s = v.to_string();
        s.push('\n');
        self.to.write_all(s.as_bytes()).ok()?;
        self.read()
    }
}

thread_local! {
    static BRIDGES: RefCell<BTreeMap<(&'static str, bool), Bridge>> = RefCell::new(BTreeMap::new());
}

/// runs f with a bridge that is good for the whole thread; it is replaced when it dies
fn with_bridge<T>(lang: &'static str, host: bool, f: impl FnOnce(&mut Bridge) -> Result<T, Fail>) -> Result<T, Fail> {
    let mut b = BRIDGES.with(|m| m.borrow_mut().remove(&(lang, host))).unwrap_or_else(|| Bridge::new(lang, host));
    let r = f(&mut b);
    if r.is_ok() {
        BRIDGES.with(|m| m.borrow_mut().insert((lang, host), b));
    }
    r
}

// ------------------------------------------------------------------------------------ C35
type Edits = Vec<(usize, usize, String)>;

/// what an editor makes of a list of edits, all of them in terms of the text before
fn apply(text: &str, edits: &Edits, what: &str) -> Result<String, Fail> {
    let mut es: Vec<_> = edits.iter().collect();
    es.sort_by_key(|e| (e.0, e.1));
    let mut out = String::new();
    let mut at = 0;
    for e in es {
        ensure!(e.0 >= at && e.0 <= e.1, "{}: edits overlap: {:?}", what, edits);
        ensure!(text.get(at..e.0).is_some() && text.get(e.0..e.1).is_some(), "{}: the edit {:?} does not fit a text of {} bytes", what, e, text.len());
        out.push_str(&text[at..e.0]);
        out.push_str(&e.2);
        at = e.1;
    }
    out.push_str(&text[at..]);
    Ok(out)
}

fn vs_edits(v: &Value) -> Option<Edits> {
    v.as_array()?.iter().map(|e| {
        let d = e["delete"].as_array()?;
        Some((d[0].as_u64()? as usize, d[1].as_u64()? as usize, e["insert"].as_str()?.to_owned()))
    }).collect()
}

fn random_edits(g: &mut Gen, l: &str, text: &str, max: usize) -> Edits {
    let mut points: Vec<(usize, usize)> = (0..g.range(1, max)).map(|_| langs::span(g, text)).collect();
    points.sort();
    let mut out: Edits = Vec::new();
    for (a, b) in points {
        if out.last().map_or(false, |l| l.1 > a) {
            continue;
        }
        let ins = match g.weighted(&[2, 3, 2, 1]) {
            0 => String::new(),
            1 => langs::chars(g, 4),
            2 => {
                let lang = langs::by_name(l);
                lang.text(g, 6)
            }
            _ => text[a..b].to_owned(),
        };
        out.push((a, b, ins));
    }
    out
}

fn text_edit(text: &str, edits: &Edits) -> TextEdit {
    let buf = fall_tree::TextBuf::from(text);
    let mut b = TextEditBuilder::new(buf.as_text());
    for (s, e, t) in edits {
        b.replace(TextRange::from_to(tu(*s as u32), tu(*e as u32)), t.as_str());
    }
    b.build()
}

struct Obj<'b> {
    b: &'b mut Bridge,
    calls: u64,
}

impl<'b> Obj<'b> {
    fn call(&mut self, f: &str, args: Value) -> Result<Value, Fail> {
        self.calls += 1;
        let v = match self.b.ask(&json!({"call": {"f": f, "a": args}})) {
            None => return Err(format!("the backend died in {}{}", f, args).into()),
            Some(v) => v,
        };
        match v.get("ok") {
            Some(x) => Ok(x.clone()),
            None => Err(format!("{}{} throws {}", f, args, v["throw"]).into()),
        }
    }
}

fn same(what: &str, got: &Value, want: Value) -> Res {
    ensure!(*got == want, "{} gives\n{}\nto JavaScript where the library gives\n{}", what, got, want);
    Ok(())
}

/// the answer to a question that is answered with an edit
fn same_edit(what: &str, got: &Value, want: Option<TextEdit>, text: &str) -> Res {
    match (want, got.is_null()) {
        (None, true) => Ok(()),
        (Some(want), false) => {
            let es = match vs_edits(got) {
                Some(e) => e,
                None => return Err(format!("{}: these are no edits: {}", what, got).into()),
            };
            let buf = fall_tree::TextBuf::from(text);
            let want = want.apply(buf.as_text()).to_string();
            let got = apply(text, &es, what)?;
            ensure!(got == want, "{}: the edits {:?} turn\n{:?}\ninto\n{:?}\nand the library turns it into\n{:?}", what, es, text, got, want);
            Ok(())
        }
        (w, _) => Err(format!("{}: JavaScript gets {} where the library has {}", what, got, if w.is_some() { "an edit" } else { "none" }).into()),
    }
}

const IDS: &[&str] = &["Swap", "Swap alternatives", "Extract rule", "Add braces", "Add impl", "no such action", ""];

/// an offset, often one right behind something of interest or near the end
fn point(g: &mut Gen, text: &str) -> usize {
    match g.weighted(&[4, 1, 1, 1, 4]) {
        1 => text.len(),
        2 => langs::floor(text, text.len().saturating_sub(g.below(4))),
        3 => {
            let ps: Vec<usize> = text.char_indices().filter(|x| x.1 == '$' || x.1 == ' ').map(|x| x.0 + 1).collect();
            if ps.is_empty() { 0 } else { *g.pick(&ps) }
        }
        4 => {
            // in front of words, bars and commas
            let mut word = false;
            let ps: Vec<usize> = text.char_indices().filter(|&(_, c)| {
                let w = c.is_alphanumeric() || c == '_';
                let start = w && !word;
                word = w;
                start || c == '|' || c == ','
            }).map(|x| x.0).collect();
            if ps.is_empty() { 0 } else { *g.pick(&ps) }
        }
        _ => langs::floor(text, g.below(text.len() + 1)),
    }
}

fn questions(g: &mut Gen, o: &mut Obj, h: &Value, f: &Any, text: &str, ctx: &mut Ctx) -> Res {
    let js = |x: Result<Value, serde_json::Error>| x.unwrap();
    let a = point(g, text);
    let b = match g.below(3) {
        0 => a,
        1 => langs::floor(text, (a + g.below(8)).min(text.len())),
        _ => langs::floor(text, g.below(text.len() + 1)),
    };
    let r = (a.min(b), a.max(b));
    let range = TextRange::from_to(tu(r.0 as u32), tu(r.1 as u32));
    let off = tu(a as u32);
    let rj = json!([r.0, r.1]);
    macro_rules! both {
        ($f:ident => $e:expr) => {
            match f {
                Any::Fall($f) => $e,
                Any::Rust($f) => $e,
            }
        };
    }
    match g.below(11) {
        0 => same("highlight", &o.call("highlight", json!([h]))?, js(both!(f => serde_json::to_value(f.highlight()))))?,
        1 => same("structure", &o.call("structure", json!([h]))?, js(both!(f => serde_json::to_value(f.structure()))))?,
        2 => {
            let sorted = |v: Value| {
                let mut v: Vec<String> = v.as_array().unwrap().iter().map(|x| x.to_string()).collect();
                v.sort();
                json!(v)
            };
            let got = o.call("diagnostics", json!([h]))?;
            ensure!(got.is_array(), "diagnostics gives {}", got);
            same("diagnostics", &sorted(got), sorted(js(both!(f => serde_json::to_value(f.diagnostics())))))?
        }
        3 => same("extendSelection", &o.call("extendSelection", json!([h, rj]))?, js(both!(f => serde_json::to_value(f.extend_selection(range)))))?,
        4 => {
            let offered = o.call("contextActions", json!([h, rj]))?;
            same("contextActions", &offered, js(both!(f => serde_json::to_value(f.context_actions(range)))))?;
            let mut ids: Vec<String> = offered.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_owned()).collect();
            ids.push(g.pick(IDS).to_string());
            for id in ids {
                let want = both!(f => f.apply_context_action(range, &id));
                if want.is_some() {
                    ctx.class("action");
                }
                same_edit(&format!("applyContextAction {:?}", id), &o.call("applyContextAction", json!([h, rj, id]))?, want, text)?;
            }
        }
        5 => {
            if let Any::Fall(f) = f {
                ctx.class("reformat");
                same_edit("reformat", &o.call("reformat", json!([h]))?, Some(f.reformat()), text)?
            } else if let Any::Rust(f) = f {
                same_edit("reformat", &o.call("reformat", json!([h]))?, Some(f.reformat()), text)?
            }
        }
        6 => {
            let m = o.call("metrics", json!([h]))?;
            ensure!(m.as_str().map_or(false, |m| m.contains("parsing") || m.contains("lexing") || !m.is_empty()), "metrics gives {}", m)
        }
        _ => match f {
            Any::Fall(f) => match g.below(3) {
                0 => same("resolveReference", &o.call("resolveReference", json!([h, a]))?, js(serde_json::to_value(f.resolve_reference(off))))?,
                1 => same("findUsages", &o.call("findUsages", json!([h, a]))?, js(serde_json::to_value(f.find_usages(off))))?,
                _ => same("testAtOffset", &o.call("testAtOffset", json!([h, a]))?, js(serde_json::to_value(f.test_at_offset(off))))?,
            },
            Any::Rust(f) => match g.below(3) {
                0 => same("breadcrumbs", &o.call("breadcrumbs", json!([h, a]))?, json!(f.breadcrumbs(off)))?,
                1 => same("afterSpaceTyped", &o.call("afterSpaceTyped", json!([h, a]))?, json!(f.after_space_typed(off)))?,
                _ => {
                    let want = f.expand(off);
                    if want.is_some() {
                        ctx.class("expand");
                    }
                    same_edit("expand", &o.call("expand", json!([h, a]))?, want, text)?
                }
            },
        },
    }
    Ok(())
}

/// a text that is worth cutting: sometimes without what follows its last token, or cut inside
fn session_text(g: &mut Gen, l: &'static str) -> String {
    let mut text = text_of(g, l);
    match g.weighted(&[3, 2, 1]) {
        0 => {}
        1 => text.truncate(text.trim_end().len()),
        _ => {
            let n = langs::floor(&text, g.below(text.len() + 1));
            text.truncate(n)
        }
    }
    if l == "rust" && g.chance(1, 4) {
        text.push_str(g.pick(&["\nfn f() { abc.d$", "\nfn f() { abc.d$ }", "fn f() { g(x).p$; }\n", " fn f() { let ", "\nfn f() { let x; let }"]));
    }
    if l == "fall" && g.chance(1, 6) {
        text.push_str(g.pick(&["\nrule zz { a | b", "\nrule zz { a b | c | d e", "\npub rule zz { <opt a> |", "\nrule a {} test r\"a", "\nrule b { a | // c"]));
    }
    if g.chance(1, 3) {
        let n = langs::floor(&text, g.below(text.len() + 1));
        text.insert_str(n, g.pick(&["// \u{e9}\u{1f600}\n", "/* \u{4e2d} */", "\u{e9}", "\u{1f600}"]));
    }
    text
}

fn c35(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let l = if g.bool() { "fall" } else { "rust" };
    let mut text = session_text(g, l);
    ctx.describe(|| format!("{}: {:?}", l, text));
    ctx.class(if l == "fall" { "fall" } else { "rust" });
    with_bridge(l, false, |b| {
        b.ask(&json!({"forget": true}));
        let mut o = Obj { b, calls: 0 };
        let mut h = o.call("parse", json!([text]))?;
        ensure!(h.get("$o").is_some(), "parse gives {}", h);
        let mut f = Any::parse(l, &text);
        let mut edited = 0;
        for _ in 0..g.range(1, 5) {
            if g.chance(2, 5) {
                let es = random_edits(g, l, &text, 3);
                ctx.describe(|| format!("edit {:?}", es));
                let new = apply(&text, &es, "generated")?;
                let arg: Vec<Value> = es.iter().map(|(a, b, t)| json!({"delete": [a, b], "insert": t})).collect();
                let before = o.call("syntaxTree", json!([h]))?;
                let h2 = o.call("edit", json!([h, arg]))?;
                ensure!(h2.get("$o").is_some() && h2 != h, "edit gives {} for {}", h2, h);
                let g2 = f.edit(&text_edit(&text, &es));
                same("the syntax tree after an edit", &o.call("syntaxTree", json!([h2]))?, json!(g2.syntax_tree()))?;
                same("the syntax tree of the file before the edit", &o.call("syntaxTree", json!([h]))?, before)?;
                h = h2;
                f = g2;
                text = new;
                edited += 1;
            } else {
                questions(g, &mut o, &h, &f, &text, ctx)?;
            }
        }
        if edited > 0 {
            ctx.class("edited");
        }
        ctx.evals += o.calls;
        if !text.trim().is_empty() && o.calls > 1 {
            ctx.nontrivial((l, &text, o.calls));
        }
        Ok(())
    })
}

pub const C35: Prop = Prop {
    id: "C35",
    rule: "a text that is not blank and at least one question or edit after parsing it",
    run: c35,
    quick: 300_000,
    thorough: 6_000_000,
    tape: 500,
    threads: 0,
    exemplars: &[],
    assumptions: &[
        "neon and neon-serde (not available offline) are replaced by stand-ins in which values cross as JSON; the sources of the backends are compiled as they are",
        "renderTest is not called (C34 covers what it does; C36 covers how the plugin calls it)",
    ],
    min_nontrivial_pct: 40,
};

// ------------------------------------------------------------------------------------ C36
/// a position as the editor counts it: line, UTF-16 code unit in the line
type P = (usize, usize);

struct Lines<'t> {
    text: &'t str,
}

impl<'t> Lines<'t> {
    fn pos(&self, at: usize) -> P {
        let head = &self.text[..at];
        let line = head.matches('\n').count();
        let start = head.rfind('\n').map_or(0, |i| i + 1);
        let mut line_text = &head[start..];
        // there is no position inside of a line break
        if self.text[at..].starts_with('\n') && line_text.ends_with('\r') {
            line_text = &line_text[..line_text.len() - 1];
        }
        (line, line_text.encode_utf16().count())
    }
    fn range(&self, a: usize, b: usize) -> (P, P) {
        (self.pos(a), self.pos(b))
    }
    fn inside_break(&self, at: usize) -> bool {
        self.text[..at].ends_with('\r') && self.text[at..].starts_with('\n')
    }
    /// the offset of a position
    fn offset(&self, p: P) -> Option<usize> {
        let mut start = 0;
        for _ in 0..p.0 {
            start += self.text[start..].find('\n')? + 1;
        }
        let mut units = p.1;
        for (i, c) in self.text[start..].char_indices() {
            if units == 0 {
                return Some(start + i);
            }
            if c == '\n' || c.len_utf16() > units {
                return None;
            }
            units -= c.len_utf16();
        }
        if units == 0 { Some(self.text.len()) } else { None }
    }
    fn utf16(&self, at: usize) -> usize {
        self.text[..at].encode_utf16().count()
    }
}

fn breaks(text: &str, crlf: bool) -> String {
    let t = text.replace("\r\n", "\n").replace('\r', "\n");
    if crlf { t.replace('\n', "\r\n") } else { t }
}

struct Doc {
    name: String,
    known: bool,
    crlf: bool,
    text: String,
    tree: bool,
}

struct Session<'b> {
    /// the test shown, if any
    rendered: Option<usize>,
    relexed: bool,
    b: &'b mut Bridge,
    l: &'static str,
    docs: Vec<Doc>,
    active: Option<usize>,
    asked: u64,
    next: usize,
    closed: Vec<String>,
}

fn pj(p: P) -> Value {
    json!([p.0, p.1])
}
fn rj(r: (P, P)) -> Value {
    json!([pj(r.0), pj(r.1)])
}
fn lib_edit(text: &str, e: &TextEdit) -> String {
    let buf = fall_tree::TextBuf::from(text);
    e.apply(buf.as_text()).to_string()
}

impl<'b> Session<'b> {
    fn run(&mut self, cmd: Value) -> Result<Value, Fail> {
        self.asked += 1;
        match self.b.ask(&cmd) {
            None => Err(format!("the plugin died at {}", cmd).into()),
            Some(v) if v["errors"] == json!([]) => Ok(v["ok"].clone()),
            Some(v) => Err(format!("{}: the plugin throws {}", cmd, v["errors"]).into()),
        }
    }
    fn scheme(&self) -> &'static str {
        if self.l == "fall" { "fall-fall" } else { "fall-rs" }
    }
    fn prefix(&self) -> &'static str {
        if self.l == "fall" { "fall-fall" } else { "fall-rust" }
    }

    /// what the editor shows on its own after every event
    fn shown(&mut self) -> Res {
        let i = match self.active {
            Some(i) if self.docs[i].known => i,
            _ => return Ok(()),
        };
        let (name, text) = (self.docs[i].name.clone(), self.docs[i].text.clone());
        let f = Any::parse(self.l, &text);
        let lines = Lines { text: &text };
        let decor = self.run(json!({"cmd": "decorations", "name": name}))?;
        let mut got: Vec<Vec<String>> = Vec::new();
        for rs in decor.as_array().unwrap() {
            let mut rs: Vec<String> = rs.as_array().unwrap().iter().map(|r| r.to_string()).collect();
            rs.sort();
            if !rs.is_empty() {
                got.push(rs);
            }
        }
        got.sort();
        let mut by_tag: BTreeMap<&str, Vec<String>> = BTreeMap::new();
        for (a, b, tag) in f.highlight() {
            by_tag.entry(tag).or_default().push(rj(lines.range(a, b)).to_string());
        }
        let mut want: Vec<Vec<String>> = by_tag.into_values().map(|mut v| { v.sort(); v }).collect();
        want.sort();
        ensure!(got == want, "{}: the editor colours {:?} and the library {:?}", name, got, want);
        if self.l == "fall" {
            let ds = self.run(json!({"cmd": "diagnostics"}))?;
            let mut want: Vec<String> = f.diagnostics().into_iter().map(|(m, a, b)| {
                let (s, m) = m.split_once(' ').unwrap();
                json!([rj(lines.range(a, b)), if s == "Error" { 0 } else { 1 }, m]).to_string()
            }).collect();
            want.sort();
            let mut got: Vec<String> = Vec::new();
            for (uri, d) in ds.as_array().unwrap().iter().flat_map(|c| c.as_array().unwrap()).flat_map(|e| e[1].as_array().unwrap().iter().map(move |d| (&e[0], d))) {
                ensure!(*uri == json!(format!("file:///w/{}", name)), "with {} shown, there are diagnostics for {}", name, uri);
                got.push(d.to_string());
            }
            got.sort();
            ensure!(got == want, "{}: the editor shows the diagnostics {:?} and the library has {:?}", name, got, want);
        }
        if self.docs[i].tree {
            let tree = self.run(json!({"cmd": "content", "uri": format!("{}://syntaxtree", self.scheme())}))?;
            ensure!(tree == json!(f.syntax_tree()), "{}: the syntax tree shown is\n{}\nand that of the text is\n{}", name, tree, f.syntax_tree());
        }
        Ok(())
    }

    /// the document with the rendered test, which follows when a file is saved
    fn render_shown(&mut self, i: usize) -> Res {
        if let Some(k) = self.rendered {
            let tree = Any::parse(self.l, &self.docs[i].text).syntax_tree();
            let got = self.run(json!({"cmd": "content", "uri": "fall-tests://render"}))?;
            ensure!(got == json!(format!("test {} of\n{}", k, tree)), "test {} of {} is shown as {}", k, self.docs[i].name, got);
        }
        Ok(())
    }

    fn change(&mut self, g: &mut Gen, ctx: &mut Ctx, i: usize, edits: Edits) -> Res {
        let d = &self.docs[i];
        let lines = Lines { text: &d.text };
        let edits: Edits = edits.into_iter().filter(|e| !lines.inside_break(e.0) && !lines.inside_break(e.1)).collect();
        let _ = g;
        ctx.describe(|| format!("change {} {:?}", d.name, edits));
        let changes: Vec<Value> = edits.iter().map(|(a, b, t)| json!({"start": lines.utf16(*a), "end": lines.utf16(*b), "text": t})).collect();
        let edits: Edits = edits.into_iter().map(|(a, b, t)| (a, b, breaks(&t, d.crlf))).collect();
        let new = apply(&d.text, &edits, "generated")?;
        self.relexed |= d.known && edits.len() == 1 && relex_known(self.l, &d.text, &edits);
        let name = d.name.clone();
        self.run(json!({"cmd": "change", "name": name, "changes": changes}))?;
        self.docs[i].text = new;
        Ok(())
    }

    fn edits_of(&self, v: &Value, text: &str, what: &str) -> Result<Edits, Fail> {
        let lines = Lines { text };
        let mut out = Vec::new();
        for e in v.as_array().map(|a| &a[..]).unwrap_or(&[]) {
            let p = |v: &Value| (v[0].as_u64().unwrap() as usize, v[1].as_u64().unwrap() as usize);
            match (lines.offset(p(&e[0][0])), lines.offset(p(&e[0][1]))) {
                (Some(a), Some(b)) => out.push((a, b, e[1].as_str().unwrap().to_owned())),
                _ => return Err(format!("{}: the edit {} is not in the text", what, e).into()),
            }
        }
        Ok(out)
    }

    /// one question about a document
    fn ask(&mut self, g: &mut Gen, ctx: &mut Ctx, i: usize) -> Res {
        let (name, text, crlf, known) = {
            let d = &self.docs[i];
            (d.name.clone(), d.text.clone(), d.crlf, d.known)
        };
        let lines = Lines { text: &text };
        let f = Any::parse(self.l, &text);
        let mut at = point(g, &text);
        if lines.inside_break(at) {
            at -= 1;
        }
        let mut to = if g.bool() { at } else { langs::floor(&text, (at + g.below(12)).min(text.len())) };
        if lines.inside_break(to) {
            to += 1;
        }
        let uri = format!("file:///w/{}", name);
        let what = g.below(12);
        if (what == 2 || what == 3) && g.bool() {
            // somewhere something is offered
            let start = langs::floor(&text, g.below(text.len() + 1));
            for k in 0..40 {
                let a = langs::floor(&text, (start + k * text.len() / 40) % (text.len() + 1));
                let test = match &f { Any::Fall(f) => f.test_at_offset(tu(a as u32)).is_some(), _ => false };
                if !lines.inside_break(a) && (test || !f.actions((a, a)).is_empty()) {
                    at = a;
                    to = a;
                    break;
                }
            }
        }
        let range = TextRange::from_to(tu(at as u32), tu(to as u32));
        if !known {
            // files of other kinds are left alone
            let v = match what {
                0..=2 => self.run(json!({"cmd": "symbols", "name": name}))?,
                3..=5 => self.run(json!({"cmd": "actions", "name": name, "range": rj(lines.range(at, to))}))?,
                _ => self.run(json!({"cmd": "format", "name": name}))?,
            };
            ensure!(v.is_null() || v == json!([]), "{}: the plugin answers {}", name, v);
            return Ok(());
        }
        match what {
            0 => {
                let got = self.run(json!({"cmd": "symbols", "name": name}))?;
                let want: Vec<Value> = f.structure().into_iter().map(|(n, a, b)| json!([n, rj(lines.range(a, b))])).collect();
                ensure!(got == json!(want), "{}: the symbols are {} and should be {}", name, got, json!(want));
            }
            1 => {
                let want = lib_edit(&text, &f.reformat());
                let got = self.run(json!({"cmd": "format", "name": name}))?;
                if self.l == "fall" {
                    let es = self.edits_of(&got, &text, "format")?;
                    let got = apply(&text, &es, "format")?;
                    ensure!(got == want, "{}: formatting by {:?} turns\n{:?}\ninto\n{:?}\nand should give\n{:?}", name, es, text, got, want);
                    ctx.class("format");
                }
            }
            2 | 3 => {
                let got = self.run(json!({"cmd": "actions", "name": name, "range": rj(lines.range(at, to))}))?;
                let mut want: Vec<Value> = f.actions((at, to)).into_iter().map(|id| json!(id)).collect();
                let mut test = None;
                if let Any::Fall(f) = &f {
                    if let Some(n) = f.test_at_offset(tu(at as u32)) {
                        want.push(json!("Render test"));
                        test = Some(n);
                        ctx.class("test");
                    }
                }
                ensure!(got == json!(want), "{}: at {}..{} the actions are {} and should be {}", name, at, to, got, json!(want));
                let n = f.actions((at, to)).len();
                if let (Some(k), true) = (test, self.active == Some(i) && g.bool()) {
                    let k = k as usize;
                    let bad = k % 5 == 3;
                    ctx.describe(|| format!("render test {} of {}", k, name));
                    let r = self.b.ask(&json!({"cmd": "act", "name": name, "range": rj(lines.range(at, to)), "index": n}));
                    self.asked += 1;
                    match r {
                        None => return Err("the plugin died".into()),
                        // the failure of the backend is passed on
                        Some(v) if bad => ensure!(v["errors"] != json!([]), "no failure for test {}", k),
                        Some(v) => ensure!(v["errors"] == json!([]), "render test {}: the plugin throws {}", k, v["errors"]),
                    }
                    if bad {
                        self.run(json!({"cmd": "command", "id": "fall-fall.renderTest", "args": [0]}))?;
                    }
                    self.rendered = Some(if bad { 0 } else { k });
                    self.render_shown(i)?;
                    ctx.class("test rendered");
                    return Ok(());
                }
                if n > 0 && self.active == Some(i) {
                    let k = g.below(n);
                    let id = f.actions((at, to))[k];
                    ctx.describe(|| format!("do {:?} at {}..{} of {}", id, at, to, name));
                    let e = f.apply((at, to), id).unwrap();
                    self.run(json!({"cmd": "act", "name": name, "range": rj(lines.range(at, to)), "index": k}))?;
                    let got = self.run(json!({"cmd": "text", "name": name}))?;
                    let cut = e.ops.iter().any(|op| match op {
                        fall_tree::TextEditOp::Copy(r) => lines.inside_break(r.start().utf8_len()) || lines.inside_break(r.end().utf8_len()),
                        _ => false,
                    });
                    let want = breaks(&lib_edit(&text, &e), crlf);
                    ensure!(cut || got == json!(want), "{}: {:?} at {}..{} turns\n{:?}\ninto\n{}\nand should give\n{:?}", name, id, at, to, text, got, want);
                    self.docs[i].text = got.as_str().unwrap().to_owned();
                    let es = edits_of_ops(&e, &text, crlf);
                    self.relexed |= es.len() == 1 && (cut || relex_known(self.l, &text, &es));
                    ctx.class("action");
                }
            }
            4 if self.active == Some(i) => {
                let n = g.range(1, 3);
                let mut sel = vec![(at, to)];
                for _ in 1..n {
                    let a = langs::floor(&text, g.below(text.len() + 1));
                    if !lines.inside_break(a) {
                        sel.push((a, a));
                    }
                }
                if g.chance(1, 4) {
                    sel.push((0, text.len()));
                }
                let ranges: Vec<Value> = sel.iter().map(|&(a, b)| rj(lines.range(a, b))).collect();
                self.run(json!({"cmd": "select", "ranges": ranges}))?;
                if let Any::Rust(f) = &f {
                    let bar = self.run(json!({"cmd": "status"}))?;
                    let want = f.breadcrumbs(tu(sel[0].1 as u32)).join(" $(chevron-right) ");
                    ensure!(bar == json!([want]), "{}: with the caret at {} the breadcrumbs are {} and should be {:?}", name, sel[0].1, bar, want);
                    ctx.class("breadcrumbs");
                }
                self.run(json!({"cmd": "command", "id": format!("{}.semanticSelection", self.prefix())}))?;
                let got = self.run(json!({"cmd": "selections"}))?;
                let want: Vec<Value> = sel.iter().map(|&r| {
                    let (a, b) = f.extend(r).unwrap_or(r);
                    rj(lines.range(a, b))
                }).collect();
                ensure!(got == json!(want), "{}: the selections {:?} extend to {} and should to {}", name, sel, got, json!(want));
            }
            5 if self.active == Some(i) => {
                self.run(json!({"cmd": "command", "id": format!("{}.showSyntaxTree", self.prefix())}))?;
                let tree = self.run(json!({"cmd": "content", "uri": format!("{}://syntaxtree", self.scheme())}))?;
                ensure!(tree == json!(f.syntax_tree()), "{}: the syntax tree shown is\n{}\nand that of the text is\n{}", name, tree, f.syntax_tree());
                for d in &mut self.docs {
                    d.tree = d.known;
                }
            }
            6 if self.active == Some(i) => {
                self.run(json!({"cmd": "command", "id": format!("{}.metrics", self.prefix())}))?;
                let m = self.run(json!({"cmd": "content", "uri": format!("{}://metrics", self.scheme())}))?;
                ensure!(m.is_string(), "{}: the metrics are {}", name, m);
            }
            _ => match &f {
                Any::Fall(f) => {
                    let p = pj(lines.pos(at));
                    let def = self.run(json!({"cmd": "definition", "name": name, "at": p}))?;
                    let want = match f.resolve_reference(range.start()) {
                        None => Value::Null,
                        Some(r) => json!([[uri, rj(lines.range(r.start().utf8_len(), r.end().utf8_len()))]]),
                    };
                    ensure!(def == want, "{}: the definition of what is at {} is at {} and should be at {}", name, at, def, want);
                    let uses = self.run(json!({"cmd": "references", "name": name, "at": p}))?;
                    let want: Vec<Value> = f.find_usages(range.start()).into_iter()
                        .map(|r| json!([uri, rj(lines.range(r.start().utf8_len(), r.end().utf8_len()))])).collect();
                    if !want.is_empty() {
                        ctx.class("usages");
                    }
                    ensure!(uses == json!(want), "{}: the usages of what is at {} are {} and should be {}", name, at, uses, json!(want));
                }
                Any::Rust(f) => {
                    let ch = if g.bool() { " " } else { "$" };
                    let got = self.run(json!({"cmd": "typed", "name": name, "at": pj(lines.pos(at)), "ch": ch}))?;
                    let want = if ch == " " {
                        f.after_space_typed(range.start()).map(|s| {
                            let mut t = text.clone();
                            t.insert_str(at, &s);
                            t
                        })
                    } else {
                        f.expand(range.start()).map(|e| lib_edit(&text, &e))
                    };
                    ensure!(got.is_null() == want.is_none(), "{}: {:?} typed in front of {} gives {}, and {} is expected", name, ch, at, got, if want.is_some() { "an edit" } else { "none" });
                    if let Some(want) = want {
                        ctx.class("typed");
                        let es = self.edits_of(&got, &text, "typing")?;
                        let got = apply(&text, &es, "typing")?;
                        ensure!(got == want, "{}: {:?} typed in front of {} turns\n{:?}\ninto\n{:?}\nand should give\n{:?}", name, ch, at, text, got, want);
                    }
                }
            },
        }
        Ok(())
    }

    /// symbols of the folders that are open
    fn workspace(&mut self, g: &mut Gen, ctx: &mut Ctx) -> Res {
        let (query, names): (&str, &[&str]) = *g.pick(&[
            ("alpha", &["Alpha", "Alphabet"][..]),
            ("Beta#", &["Beta"]),
            ("delta", &["Delta"]),
            ("gamma", &["gamma"]),
            ("#gm", &["gamma"]),
            ("zzz", &[]),
        ]);
        let t0 = std::time::Instant::now();
        while !self.b.indexed {
            let v = self.run(json!({"cmd": "workspace", "query": "alpha"}))?;
            self.b.indexed = v.as_array().map_or(false, |v| v.len() == 2);
            ensure!(self.b.indexed || t0.elapsed().as_secs() < 30, "after 30 s the symbols of the workspace for \"alpha\" are {}", v);
            std::thread::sleep(std::time::Duration::from_millis(if self.b.indexed { 0 } else { 5 }));
        }
        let got = self.run(json!({"cmd": "workspace", "query": query}))?;
        let mut got: Vec<String> = got.as_array().unwrap().iter().map(|v| v.to_string()).collect();
        let mut want: Vec<String> = Vec::new();
        for (file, text) in INDEX {
            for (n, a, b) in Any::parse("rust", text).structure() {
                if names.contains(&n.as_str()) {
                    want.push(json!([n, format!("file://{}", dir().join("index").join(file).display()), rj(Lines { text }.range(a, b))]).to_string());
                }
            }
        }
        got.sort();
        want.sort();
        ctx.class("workspace");
        ensure!(got == want, "the symbols of the workspace for {:?} are {:?} and should be {:?}", query, got, want);
        Ok(())
    }

    fn open(&mut self, g: &mut Gen, ctx: &mut Ctx) -> Res {
        let known = !g.chance(1, 8);
        let text = session_text(g, self.l);
        let crlf = g.chance(1, 4);
        let text = breaks(&text, crlf);
        let ext = if known { if self.l == "fall" { "fall" } else { "rs" } } else { "txt" };
        // often the name of a file that was open before
        let name = match self.closed.iter().position(|n| n.ends_with(ext)) {
            Some(i) if g.chance(3, 4) => self.closed.remove(i),
            _ => {
                self.next += 1;
                format!("{}.{}", self.next, ext)
            }
        };
        ctx.describe(|| format!("open {} {:?}", name, text));
        // with a single line the editor cannot know, and takes its default
        let crlf = crlf && text.contains('\n');
        self.run(json!({"cmd": "open", "name": name, "text": text}))?;
        let tree = self.docs.iter().any(|d| d.tree);
        self.docs.push(Doc { name, known, crlf, text, tree: tree && known });
        Ok(())
    }
}

/// the library itself gives different trees for the edits and for the text after them
fn relex_known(l: &'static str, before: &str, edits: &Edits) -> bool {
    match apply(before, edits, "") {
        Ok(after) => Any::parse(l, before).edit(&text_edit(before, edits)).syntax_tree() != Any::parse(l, &after).syntax_tree(),
        Err(_) => true,
    }
}

fn edits_of_ops(e: &TextEdit, text: &str, crlf: bool) -> Edits {
    let (mut out, mut at, mut ins): (Edits, usize, String) = (Vec::new(), 0, String::new());
    let mut flush = |at: usize, to: usize, ins: &mut String| {
        if to > at || !ins.is_empty() {
            out.push((at, to, breaks(&std::mem::take(ins), crlf)));
        }
    };
    for op in &e.ops {
        match op {
            fall_tree::TextEditOp::Copy(r) => {
                flush(at, r.start().utf8_len(), &mut ins);
                at = r.end().utf8_len();
            }
            fall_tree::TextEditOp::Insert(t) => ins.push_str(&t.to_string()),
        }
    }
    flush(at, text.len(), &mut ins);
    out
}

fn c36(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let l = if g.bool() { "fall" } else { "rust" };
    ctx.class(l);
    with_bridge(l, true, |b| {
        let mut s = Session { b, l, docs: Vec::new(), active: None, asked: 0, next: 0, closed: Vec::new(), rendered: None, relexed: false };
        s.run(json!({"cmd": "reset"}))?;
        s.b.ask(&json!({"forget": true}));
        let (mut changed, mut wide) = (0, false);
        s.open(g, ctx)?;
        s.run(json!({"cmd": "show", "name": s.docs[0].name}))?;
        s.active = Some(0);
        s.shown()?;
        for _ in 0..g.range(1, 10) {
            match g.weighted(&[10, 20, 3, 3, 3, 1, 2]) {
                6 => if let Some(i) = s.active {
                    if s.docs[i].known {
                        // whatever is saved
                        let k = g.below(s.docs.len());
                        ctx.describe(|| format!("save {}", s.docs[k].name));
                        s.run(json!({"cmd": "save", "name": s.docs[k].name}))?;
                        s.render_shown(i)?;
                        ctx.class("saved");
                    }
                },
                5 if l == "rust" => s.workspace(g, ctx)?,
                _ if s.docs.is_empty() => s.open(g, ctx)?,
                0 => {
                    let i = match s.active { Some(i) if g.chance(3, 4) => i, _ => g.below(s.docs.len()) };
                    let max = if g.chance(1, 3) { 3 } else { 1 };
                    let es = random_edits(g, l, &s.docs[i].text.clone(), max);
                    wide |= !s.docs[i].text.is_ascii();
                    s.change(g, ctx, i, es)?;
                    changed += 1;
                }
                1 => {
                    let i = match s.active { Some(i) if g.chance(4, 5) => i, _ => g.below(s.docs.len()) };
                    s.ask(g, ctx, i)?;
                }
                2 => s.open(g, ctx)?,
                3 => {
                    let i = g.below(s.docs.len());
                    ctx.describe(|| format!("show {}", s.docs[i].name));
                    s.run(json!({"cmd": "show", "name": s.docs[i].name}))?;
                    s.active = Some(i);
                    // the shown tree follows with the next change
                    for d in &mut s.docs {
                        d.tree = false;
                    }
                }
                _ => {
                    let i = g.below(s.docs.len());
                    ctx.describe(|| format!("close {}", s.docs[i].name));
                    if s.active == Some(i) {
                        s.run(json!({"cmd": "show"}))?;
                        s.active = None;
                    }
                    s.run(json!({"cmd": "close", "name": s.docs[i].name}))?;
                    let d = s.docs.remove(i);
                    s.closed.push(d.name);
                    s.active = s.active.map(|a| if a > i { a - 1 } else { a });
                }
            }
            if s.relexed {
                // the engine's own answer depends on the history (C03)
                ctx.class("reparse-not-local");
                break;
            }
            s.shown()?;
        }
        if changed > 0 {
            ctx.class("changed");
        }
        if wide {
            ctx.class("changed with text outside ASCII");
        }
        ctx.evals += s.asked;
        if changed > 0 {
            ctx.nontrivial((l, s.asked, s.docs.iter().map(|d| d.text.clone()).collect::<Vec<_>>()));
        }
        Ok(())
    })
}

pub const C36: Prop = Prop {
    id: "C36",
    rule: "at least one change of a document after it was opened",
    run: c36,
    quick: 24_000,
    thorough: 500_000,
    tape: 2000,
    threads: 0,
    exemplars: &[],
    assumptions: &[
        "the editor is a model of its interface (documents, events, providers, decorations) in backend/host.js; types of the plugin are not checked",
        "neon is replaced by a stand-in, as for C35",
    ],
    min_nontrivial_pct: 30,
};
