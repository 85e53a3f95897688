//! Editor services: selection, formatting, structure, highlighting, actions.
use super::analysis::model;
use crate::driver::*;
use crate::ensure;
use crate::fallmodel::{self, ExKind};
use crate::gen::Gen;
use crate::langs;
use crate::ntree::Tree;
use crate::rustmodel;
use crate::tree::*;
use fall_editor::hl::HlTag;
use fall_editor::EditorFileImpl;
use fall_tree::{tu, File, TextEdit, TextEditOp, TextRange, TextUnit};
use lang_fall::FileWithAnalysis;
use lang_rust::editor::RustEditorFile;

type R = (usize, usize);

fn t(n: usize) -> TextUnit {
    tu(n as u32)
}
fn range(a: usize, b: usize) -> TextRange {
    TextRange::from_to(t(a), t(b))
}
fn rr(x: TextRange) -> R {
    (x.start().utf8_len(), x.end().utf8_len())
}

/// applies an edit, checking that it fits the text
fn applied(text: &str, edit: &TextEdit, what: &str) -> Result<String, Fail> {
    let mut out = String::new();
    let mut at = 0;
    for op in &edit.ops {
        match op {
            TextEditOp::Copy(x) => {
                let (s, e) = rr(*x);
                ensure!(s >= at || s == e, "{}: the edit copies {}..{} after {}", what, s, e, at);
                match text.get(s..e) {
                    Some(p) => out.push_str(p),
                    None => return Err(format!("{}: the edit copies {}..{} of a text of {} bytes", what, s, e, text.len()).into()),
                }
                at = e.max(at);
            }
            TextEditOp::Insert(i) => out.push_str(&i.as_text().to_string()),
        }
    }
    Ok(out)
}

fn offset(g: &mut Gen, text: &str) -> usize {
    langs::floor(text, g.below(text.len() + 1))
}

fn in_text(text: &str, x: R, what: &str) -> Res {
    ensure!(x.0 <= x.1 && x.1 <= text.len() && text.is_char_boundary(x.0) && text.is_char_boundary(x.1),
        "{}: the range {:?} does not lie in the text of {} bytes", what, x, text.len());
    Ok(())
}

pub enum Any {
    Fall(FileWithAnalysis),
    Rust(RustEditorFile),
}

impl Any {
    pub fn parse(l: &str, text: &str) -> Any {
        if l == "fall" { Any::Fall(FileWithAnalysis::parse(text)) } else { Any::Rust(RustEditorFile::parse(text)) }
    }
    pub fn edit(&self, e: &TextEdit) -> Any {
        match self {
            Any::Fall(f) => Any::Fall(f.edit(e)),
            Any::Rust(f) => Any::Rust(f.edit(e)),
        }
    }
    fn file(&self) -> &File {
        match self {
            Any::Fall(f) => EditorFileImpl::file(f),
            Any::Rust(f) => EditorFileImpl::file(f),
        }
    }
    pub fn extend(&self, r: R) -> Option<R> {
        match self {
            Any::Fall(f) => f.extend_selection(range(r.0, r.1)),
            Any::Rust(f) => f.extend_selection(range(r.0, r.1)),
        }.map(rr)
    }
    pub fn actions(&self, r: R) -> Vec<&'static str> {
        match self {
            Any::Fall(f) => f.context_actions(range(r.0, r.1)),
            Any::Rust(f) => f.context_actions(range(r.0, r.1)),
        }
    }
    pub fn apply(&self, r: R, id: &str) -> Option<TextEdit> {
        match self {
            Any::Fall(f) => f.apply_context_action(range(r.0, r.1), id),
            Any::Rust(f) => f.apply_context_action(range(r.0, r.1), id),
        }
    }
    pub fn reformat(&self) -> TextEdit {
        match self {
            Any::Fall(f) => f.reformat(),
            Any::Rust(f) => f.reformat(),
        }
    }
    pub fn highlight(&self) -> Vec<(usize, usize, &'static str)> {
        match self {
            Any::Fall(f) => f.highlight(),
            Any::Rust(f) => f.highlight(),
        }.into_iter().map(|(r, HlTag(s))| (rr(r).0, rr(r).1, s)).collect()
    }
    pub fn structure(&self) -> Vec<(String, usize, usize)> {
        match self {
            Any::Fall(f) => f.structure(),
            Any::Rust(f) => f.structure(),
        }.into_iter().map(|n| (n.name, rr(n.range).0, rr(n.range).1)).collect()
    }
    pub fn diagnostics(&self) -> Vec<(String, usize, usize)> {
        let mut v: Vec<_> = match self {
            Any::Fall(f) => f.diagnostics(),
            Any::Rust(f) => f.diagnostics(),
        }.into_iter().map(|d| (format!("{:?} {}", d.severity, d.message), rr(d.range).0, rr(d.range).1)).collect();
        v.sort();
        v
    }
    pub fn syntax_tree(&self) -> String {
        match self {
            Any::Fall(f) => f.syntax_tree(),
            Any::Rust(f) => f.syntax_tree(),
        }
    }
}

const ACTIONS: &[&str] = &["Swap", "Swap alternatives", "Extract rule", "Add braces", "Add impl"];

pub fn lang_text(g: &mut Gen) -> (&'static str, String) {
    let l = if g.bool() { "fall" } else { "rust" };
    (l, text_of(g, l))
}

pub fn text_of(g: &mut Gen, l: &'static str) -> String {
    let lang = langs::by_name(l);
    match g.weighted(&[3, 4, 2]) {
        0 => if l == "fall" { fallmodel::generate(g).text } else { rustmodel::generate(g).text },
        1 => lang.text(g, 50),
        _ => {
            let s = if l == "fall" { fallmodel::generate(g).text } else { rustmodel::generate(g).text };
            lang.mutate(g, s)
        }
    }
}

// ------------------------------------------------------------------------------------ C23
fn services(f: &Any, text: &str, g: &mut Gen, ctx: &mut Ctx) -> Res {
    for (s, e, tag) in f.highlight() {
        in_text(text, (s, e), &format!("highlight {}", tag))?;
    }
    for (n, s, e) in f.structure() {
        in_text(text, (s, e), &format!("structure entry {}", n))?;
    }
    for (n, s, e) in f.diagnostics() {
        in_text(text, (s, e), &format!("diagnostic {}", n))?;
    }
    applied(text, &f.reformat(), "reformat")?;
    f.syntax_tree();
    for _ in 0..g.range(1, 6) {
        let a = offset(g, text);
        let b = match g.below(3) {
            0 => a,
            1 => langs::floor(text, (a + g.below(8)).min(text.len())),
            _ => offset(g, text),
        };
        let r = (a.min(b), a.max(b));
        ctx.evals += 1;
        if let Some(x) = f.extend(r) {
            in_text(text, x, "extended selection")?;
        }
        let available = f.actions(r);
        for id in ACTIONS {
            match f.apply(r, id) {
                Some(e) => {
                    ensure!(available.contains(id), "the action {} at {:?} applies although it is not offered", id, r);
                    applied(text, &e, id)?;
                }
                None => ensure!(!available.contains(id), "the action {} at {:?} is offered but does not apply", id, r),
            }
        }
        ensure!(f.apply(r, "no such action").is_none(), "an unknown action applies");
        match f {
            Any::Fall(f) => {
                if let Some(x) = f.resolve_reference(t(a)) {
                    in_text(text, rr(x), "definition")?;
                }
                for x in f.find_usages(t(a)) {
                    in_text(text, rr(x), "usage")?;
                }
                f.test_at_offset(t(a));
            }
            Any::Rust(f) => {
                f.breadcrumbs(t(a));
                f.after_space_typed(t(a));
                if let Some(e) = f.expand(t(a)) {
                    applied(text, &e, "expand")?;
                }
            }
        }
    }
    Ok(())
}

fn c23(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let (l, text) = lang_text(g);
    ctx.describe(|| format!("{} text {:?}", l, text));
    let f = Any::parse(l, &text);
    services(&f, &text, g, ctx)?;
    if g.chance(1, 2) {
        // and after an edit, as from scratch
        let lang = langs::by_name(l);
        let (edit, new) = crate::gengram::edit(g, &text, &mut |g| lang.fragment(g));
        ctx.describe(|| format!("edited to {:?}", new));
        let f2 = f.edit(&edit);
        let fresh = Any::parse(l, &new);
        services(&f2, &new, g, ctx)?;
        ensure!(f2.file().text().to_string() == new, "the edited file has the text {:?}, expected {:?}", f2.file().text(), new);
        if snap(f2.file()) == snap(fresh.file()) {
            ctx.class("edited");
            ensure!(f2.highlight() == fresh.highlight(), "highlighting differs between the edited file and the same file parsed anew");
            ensure!(f2.structure() == fresh.structure(), "the structure differs between the edited file and the same file parsed anew");
            ensure!(f2.diagnostics() == fresh.diagnostics(), "the diagnostics differ between the edited file and the same file parsed anew");
            ensure!(f2.syntax_tree() == fresh.syntax_tree(), "the tree dump differs between the edited file and the same file parsed anew");
            let (a, b) = (applied(&new, &f2.reformat(), "reformat")?, applied(&new, &fresh.reformat(), "reformat")?);
            ensure!(a == b, "reformatting differs between the edited file and the same file parsed anew");
        }
    }
    ctx.class(l);
    if text.len() >= 10 {
        ctx.nontrivial((l, text));
    }
    Ok(())
}
pub const C23: Prop = Prop {
    id: "C23",
    rule: "texts of at least ten bytes; distinct (language, text)",
    run: c23,
    quick: 130_000,
    thorough: 4_000_000,
    tape: 220,
    threads: 0,
    exemplars: &[],
    assumptions: &["offsets and ranges lie within the text, on character boundaries"],
    min_nontrivial_pct: 40,
};

// ------------------------------------------------------------------------------------ C24
fn expected_extension(x: &Tree, r: R) -> Option<R> {
    let text = &x.text;
    if r.0 == r.1 {
        let leaves = x.touching(r.0);
        if let Some(&l) = leaves.iter().find(|&&l| !x.is_ws(l)) {
            return Some(x.rng(l));
        }
        let ws = *leaves.first()?;
        let (_, e) = x.rng(ws);
        if x.str(ws).contains('\n') && !text[r.0..e].contains('\n') {
            // in the indentation of a line: what the line holds
            if let Some(n) = text[e..].find('\n') {
                return Some(x.rng(x.covering(e, e + n)));
            }
        }
        return Some(x.rng(ws));
    }
    (0..x.nodes.len()).map(|i| x.rng(i))
        .filter(|n| n.0 <= r.0 && r.1 <= n.1 && *n != r)
        .min_by_key(|n| n.1 - n.0)
}

fn c24(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let (l, text) = lang_text(g);
    ctx.describe(|| format!("{} text {:?}", l, text));
    let f = Any::parse(l, &text);
    let x = Tree::of(f.file());
    let mut steps_max = 0;
    for _ in 0..g.range(1, 8) {
        let a = offset(g, &text);
        let b = match g.below(3) {
            0 => a,
            1 => langs::floor(&text, (a + g.below(8)).min(text.len())),
            _ => offset(g, &text),
        };
        let mut r = (a.min(b), a.max(b));
        let mut steps = 0;
        loop {
            let got = f.extend(r);
            let want = expected_extension(&x, r);
            ctx.evals += 1;
            ensure!(got == want, "extending {:?} ({:?}) gives {:?}, expected {:?}", r, &text[r.0..r.1], got, want);
            match got {
                Some(n) => {
                    // (an empty selection in the indentation selects what the line holds)
                    ensure!(r.0 == r.1 || n.0 <= r.0 && r.1 <= n.1 && n != r, "extending {:?} gives {:?}", r, n);
                    if n == r {
                        break;
                    }
                    r = n;
                    steps += 1;
                }
                None => {
                    ensure!(r == (0, text.len()), "the selection {:?} cannot be extended to the whole file of {} bytes", r, text.len());
                    break;
                }
            }
        }
        steps_max = steps_max.max(steps);
    }
    ctx.class(l);
    ctx.max("steps", steps_max);
    if steps_max >= 3 {
        ctx.nontrivial((l, text));
    }
    Ok(())
}
pub const C24: Prop = Prop {
    id: "C24",
    rule: "some selection was extended at least three times; distinct (language, text)",
    run: c24,
    quick: 130_000,
    thorough: 4_000_000,
    tape: 220,
    threads: 0,
    exemplars: &[],
    assumptions: &["selections lie within the text, on character boundaries"],
    min_nontrivial_pct: 30,
};

// ------------------------------------------------------------------------------------ C25
fn tokens(f: &File) -> Vec<(u32, String)> {
    let x = Tree::of(f);
    x.leaves().into_iter().filter(|&i| x.name(i) != "WHITESPACE").map(|i| (x.nodes[i].ty, x.str(i).to_string())).collect()
}

fn c25(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let (text, rust) = match g.weighted(&[4, 3, 1]) {
        0 => (fallmodel::generate(g).text, false),
        1 => (langs::by_name("fall").text(g, 60), false),
        _ => (langs::by_name("rust").text(g, 30), true),
    };
    ctx.describe(|| format!("text {:?}", text));
    if rust {
        let f = RustEditorFile::parse(&text);
        let out = applied(&text, &f.reformat(), "reformat")?;
        ensure!(out == text, "there are no formatting rules for Rust, but the text becomes {:?}", out);
        ctx.class("rust");
        return Ok(());
    }
    let f = FileWithAnalysis::parse(&text);
    let out = applied(&text, &f.reformat(), "reformat")?;
    ctx.describe(|| format!("formatted {:?}", out));
    let f2 = FileWithAnalysis::parse(&out);
    let (a, b) = (tokens(f.file()), tokens(f2.file()));
    if a != b {
        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        return Err(format!("reformatting changes the tokens, from number {}: {:?} becomes {:?}\n{:?}", i, a.get(i), b.get(i), out).into());
    }
    // line structure stays: the text between two line breaks holds the same tokens
    ensure!(text.matches('\n').count() == out.matches('\n').count(), "reformatting changes the number of lines:\n{:?}", out);
    let squeeze = |s: &str| -> Vec<String> { s.split('\n').map(|l| l.chars().filter(|c| !c.is_whitespace()).collect()).collect() };
    ensure!(squeeze(&text) == squeeze(&out), "reformatting moves something to another line:\n{:?}", out);
    // (a bar next to an angle bracket, which no grammar has, is subject to two contradicting rules)
    let marks: Vec<&str> = b.iter().map(|t| t.1.as_str()).collect();
    let clash = marks.windows(2).any(|w| w == ["|", ">"] || w == ["<", "|"]);
    let again = applied(&out, &f2.reformat(), "reformat")?;
    ensure!(again == out || clash, "reformatting the formatted text {:?} changes it to {:?}", out, again);
    // whitespace that touches neither `|` nor `<` and `>` stays as it is
    let x = Tree::of(f.file());
    let y = Tree::of(f2.file());
    let gaps = |x: &Tree| -> Vec<(bool, String)> {
        let mut v = Vec::new();
        let mut gap = String::new();
        let mut prev = String::new();
        for l in x.leaves() {
            if x.name(l) == "WHITESPACE" {
                gap.push_str(x.str(l));
                continue;
            }
            let name = x.name(l).to_string();
            let governed = prev == "PIPE" || name == "PIPE" || prev == "L_ANGLE" || name == "R_ANGLE";
            v.push((governed, std::mem::take(&mut gap)));
            prev = name;
        }
        v.push((prev == "PIPE" || prev == "L_ANGLE", gap));
        v
    };
    let (gx, gy) = (gaps(&x), gaps(&y));
    for (i, (p, q)) in gx.iter().zip(&gy).enumerate() {
        if !p.0 || p.1.contains('\n') {
            ensure!(p.1 == q.1, "the whitespace {:?} before token {} becomes {:?} in {:?}", p.1, i, q.1, out);
        }
    }
    // and the spacing rules hold between siblings on one line
    let mut checked = 0;
    for i in 0..y.nodes.len() {
        let (name, (u, k)) = match y.index(i) {
            Some(p) => (y.name(i), p),
            None => continue,
        };
        if name != "PIPE" && name != "L_ANGLE" && name != "R_ANGLE" {
            continue;
        }
        let solid: Vec<usize> = y.nodes[u].kids.iter().cloned().filter(|&c| y.nodes[c].s < y.nodes[c].e).collect();
        let at = solid.iter().position(|&c| c == i).unwrap();
        let _ = k;
        let (l, r) = (at.checked_sub(1).map(|p| solid[p]), solid.get(at + 1).cloned());
        for (side, left) in [(l, true), (r, false)] {
            let s = match side {
                Some(s) => s,
                None => continue,
            };
            if clash || y.str(s).contains('\n') || (left && name == "L_ANGLE") || (!left && name == "R_ANGLE") {
                continue;
            }
            checked += 1;
            let ws = y.name(s) == "WHITESPACE";
            if name == "PIPE" {
                ensure!(ws && y.str(s) == " ", "`|` at {} does not have a single space {} it in {:?}", y.nodes[i].s, if left { "before" } else { "after" }, out);
            } else {
                ensure!(!ws, "there is a space inside `<...>` at {} in {:?}", y.nodes[i].s, out);
            }
        }
    }
    ctx.evals += checked;
    if out != text {
        ctx.class("changed");
        ctx.nontrivial(text);
    }
    Ok(())
}
pub const C25: Prop = Prop {
    id: "C25",
    rule: "the text is changed by reformatting; distinct texts",
    run: c25,
    quick: 200_000,
    thorough: 6_000_000,
    tape: 300,
    threads: 0,
    exemplars: &[],
    assumptions: &["the spacing rules are asserted between siblings whose text has no line break"],
    min_nontrivial_pct: 15,
};

// ------------------------------------------------------------------------------------ C26
fn is_expr(n: &str) -> bool {
    ["REF_EXPR", "CALL_EXPR", "BLOCK_EXPR", "OPT_EXPR", "REP_EXPR", "SEQ_EXPR"].contains(&n)
}

/// the neighbours a comma separates, if they are of the same kind
fn expected_swap(x: &Tree, off: usize) -> Option<String> {
    let comma = *x.touching(off).iter().find(|&&l| x.str(l) == ",")?;
    let (u, k) = x.index(comma)?;
    let kids = &x.nodes[u].kids;
    let l = *kids[..k].iter().rev().find(|&&c| !x.is_ws(c))?;
    let r = *kids[k + 1..].iter().find(|&&c| !x.is_ws(c))?;
    if x.nodes[l].ty != x.nodes[r].ty {
        return None;
    }
    Some(x.with(vec![(x.rng(l), x.str(r).to_string()), (x.rng(r), x.str(l).to_string())]))
}

fn c26(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let (m, f) = match model(g, ctx) {
        Some(x) => x,
        None => return Ok(()),
    };
    let text = &m.text;
    let x = Tree::of(f.file());
    let any = Any::Fall(f);
    let mut done = 0;
    // swapping alternatives: model
    let mut pipes: Vec<R> = Vec::new();
    for e in &m.exprs {
        let alts = match &e.kind {
            ExKind::Block { alts } if alts.len() > 1 => alts,
            _ => continue,
        };
        // the bars of this block: between its alternatives, outside of nested expressions
        let inner: Vec<R> = alts.iter().flatten().map(|&p| m.exprs[p].range).collect();
        let bars: Vec<R> = m.toks.iter().map(|t| (t.start, t.end))
            .filter(|&t| &text[t.0..t.1] == "|" && e.range.0 < t.0 && t.1 < e.range.1 && !inner.iter().any(|i| i.0 <= t.0 && t.1 <= i.1)).collect();
        ensure!(bars.len() + 1 == alts.len(), "internal: {} bars for {} alternatives", bars.len(), alts.len());
        for (k, &bar) in bars.iter().enumerate() {
            pipes.push(bar);
            let span = |a: &[usize]| -> Option<R> { Some((m.exprs[*a.first()?].range.0, m.exprs[*a.last()?].range.1)) };
            let (l, r) = (span(&alts[k]), span(&alts[k + 1]));
            let at = if g.bool() { bar.0 } else { bar.1 };
            // a bar that ends at the offset takes precedence
            if at == bar.0 && text[..at].ends_with('|') && m.toks.iter().any(|t| t.end == at && &text[t.start..t.end] == "|") {
                continue;
            }
            let sel = (at, at);
            ctx.evals += 1;
            ensure!(any.actions(sel).contains(&"Swap alternatives"), "swapping alternatives is not offered at {}", at);
            let e = match any.apply(sel, "Swap alternatives") {
                Some(e) => e,
                None => return Err(format!("swapping alternatives does not apply at {}", at).into()),
            };
            let got = applied(text, &e, "Swap alternatives")?;
            done += 1;
            match (l, r) {
                (Some(l), Some(r)) => {
                    let want = x.with(vec![(l, text[r.0..r.1].to_string()), (r, text[l.0..l.1].to_string())]);
                    ensure!(got == want, "swapping the alternatives {:?} and {:?} gives\n{}", &text[l.0..l.1], &text[r.0..r.1], got);
                    // twice is nothing
                    let bar2 = bar.0 + (r.1 - r.0) - (l.1 - l.0);
                    let again = Any::parse("fall", &got);
                    if !has_error(again.file()) {
                        let sel = (bar2, bar2);
                        let back = again.apply(sel, "Swap alternatives").ok_or_else(|| Fail::from(format!("cannot swap back at {} in\n{}", bar2, got)))?;
                        let back = applied(&got, &back, "Swap alternatives")?;
                        ensure!(back == *text, "swapping twice gives\n{}", back);
                    }
                }
                _ => {
                    let part = |r: Option<R>| r.map_or("", |r| &text[r.0..r.1]);
                    let (s, e) = (l.map_or(bar.0, |l| l.0), r.map_or(bar.1, |r| r.1));
                    // (comments may stay on either side)
                    let want = format!("{}{} | {} {}", &text[..s], part(r), part(l), &text[e..]);
                    let sig = |t: &str| {
                        let y = Tree::of(&langs::by_name("fall").language.parse(t));
                        y.leaves().into_iter().filter(|&i| !y.is_ws(i)).map(|i| y.str(i).to_string()).collect::<Vec<_>>()
                    };
                    ensure!(sig(&got) == sig(&want), "swapping the alternatives {:?} and {:?} gives\n{}", part(l), part(r), got);
                }
            }
        }
    }
    // at every offset: offered where a bar is touched, and only there; the same for commas
    for off in 0..=text.len() {
        if !text.is_char_boundary(off) {
            continue;
        }
        let acts = any.actions((off, off));
        let bar = pipes.iter().any(|b| b.0 == off || b.1 == off);
        ensure!(acts.contains(&"Swap alternatives") == bar, "at offset {} swapping alternatives is {}offered", off, if bar { "not " } else { "" });
        ensure!(!acts.contains(&"Extract rule"), "extracting a rule is offered for an empty selection at {}", off);
        let want = expected_swap(&x, off);
        ensure!(acts.contains(&"Swap") == want.is_some(), "at offset {} swapping is {}offered", off, if want.is_some() { "not " } else { "" });
        ctx.evals += 1;
        if let Some(w) = want {
            let e = any.apply((off, off), "Swap").ok_or_else(|| Fail::from(format!("swapping does not apply at {}", off)))?;
            let got = applied(text, &e, "Swap")?;
            ensure!(got == w, "swapping at {} gives\n{}\nexpected\n{}", off, got, w);
            done += 1;
        }
    }
    // extracting a rule
    for _ in 0..g.range(1, 8) {
        let (s, e) = if !m.exprs.is_empty() && g.chance(3, 4) {
            // from one expression to another one, or a bit off
            let a = &m.exprs[g.below(m.exprs.len())];
            let b = &m.exprs[g.below(m.exprs.len())];
            let b = if g.bool() { a } else { b };
            let mut s = a.range.0;
            let mut e = b.range.1;
            if g.chance(1, 4) {
                s = langs::floor(text, s.saturating_sub(1));
            }
            if g.chance(1, 4) {
                e = langs::floor(text, (e + 1).min(text.len()));
            }
            (s.min(e), s.max(e))
        } else {
            let (a, b) = (offset(g, text), offset(g, text));
            (a.min(b), a.max(b))
        };
        if s == e {
            continue;
        }
        let cover = x.covering(s, e);
        let target = x.ancestors(cover).into_iter().find(|&n| is_expr(x.name(n))).filter(|&n| x.name(n) != "REF_EXPR");
        ctx.evals += 1;
        let offered = any.actions((s, e)).contains(&"Extract rule");
        ensure!(offered == target.is_some(), "extracting {:?} is {}offered", &text[s..e], if offered { "" } else { "not " });
        let target = match target {
            Some(t) => t,
            None => continue,
        };
        let edit = any.apply((s, e), "Extract rule").ok_or_else(|| Fail::from("extracting a rule does not apply"))?;
        let got = applied(text, &edit, "Extract rule")?;
        // the part taken out: consecutive parts of a sequence, or the whole expression
        let mut part = x.rng(target);
        if x.name(target) == "SEQ_EXPR" {
            let hit: Vec<usize> = x.nodes[target].kids.iter().cloned()
                .filter(|&k| x.nodes[k].s < e && s < x.nodes[k].e).collect();
            if hit.len() >= 2 && is_expr(x.name(hit[0])) && is_expr(x.name(*hit.last().unwrap())) {
                part = (x.nodes[hit[0]].s, x.nodes[*hit.last().unwrap()].e);
            }
        }
        let rule = x.ancestors(target).into_iter().find(|&n| x.name(n) == "SYN_RULE").unwrap();
        let body = x.nodes[target].up == Some(rule);
        let rule_end = x.nodes[rule].e;
        let p = &text[part.0..part.1];
        let mut call = if body { "{ new_rule }" } else { "new_rule" }.to_string();
        // separate from the words around it
        let word = |c: char| c.is_alphanumeric() || c == '_';
        if text[part.1..].chars().next().map_or(false, word) {
            call.push(' ');
        }
        if text[..part.0].chars().last().map_or(false, word) {
            call.insert(0, ' ');
        }
        let want = format!("{}{}{}\n\nrule new_rule {{\n  {}\n}}{}", &text[..part.0], call, &text[part.1..rule_end], p, &text[rule_end..]);
        ensure!(got == want, "extracting {:?} (selection {}..{}) gives\n{}\nexpected\n{}", p, s, e, got, want);
        let again = FileWithAnalysis::parse(&got);
        ensure!(!has_error(again.file()), "after extracting {:?} the grammar does not parse:\n{}", p, got);
        let at = part.0 + call.find('n').unwrap() + 1;
        ensure!(again.resolve_reference(t(at)).map(|r| got[rr(r).0..rr(r).1].to_string()) == Some("new_rule".into()), "the extracted rule is not referenced:\n{}", got);
        done += 1;
        ctx.class("extract");
    }
    if done >= 2 {
        ctx.nontrivial(text);
    }
    Ok(())
}
pub const C26: Prop = Prop {
    id: "C26",
    rule: "at least two actions were applied to an error-free grammar file; distinct texts",
    run: c26,
    quick: 40_000,
    thorough: 1_500_000,
    tape: 260,
    threads: 0,
    exemplars: &[],
    assumptions: &["extracting a part that mentions a parameter of the rule is only asserted textually"],
    min_nontrivial_pct: 25,
};

// ------------------------------------------------------------------------------------ C27
fn c27(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let m = rustmodel::generate(g);
    let text = &m.text;
    ctx.describe(|| format!("text {:?}", text));
    let f = RustEditorFile::parse(text);
    if has_error(f.file()) {
        ctx.class("does-not-parse");
        return Ok(());
    }
    let x = Tree::of(f.file());
    let any = Any::Rust(f);
    let rust = match &any {
        Any::Rust(f) => f,
        _ => unreachable!(),
    };
    let mut done = 0;
    // the declaration touching an offset, the one to the left first
    fn touching<'a, T>(v: &'a [T], r: impl Fn(&T) -> R, off: usize) -> Option<&'a T> {
        v.iter().find(|i| r(i).0 < off && off <= r(i).1).or_else(|| v.iter().find(|i| r(i).0 == off))
    }
    let structs: Vec<&rustmodel::Item> = m.items.iter().filter(|i| i.kind == "struct").collect();
    let enums: Vec<&rustmodel::Item> = m.items.iter().filter(|i| i.kind == "enum").collect();
    for off in 0..=text.len() {
        if !text.is_char_boundary(off) {
            continue;
        }
        let acts = any.actions((off, off));
        ctx.evals += 1;
        let mut want: Vec<(&str, String)> = Vec::new();
        if let Some(w) = expected_swap(&x, off) {
            want.push(("Swap", w));
        }
        if let Some(u) = touching(&m.uses, |u| u.range, off) {
            if u.path && !u.spec {
                let end = u.alias.map_or(u.segment.1, |a| a.1);
                let w = x.with(vec![((u.segment.0, end), format!("{{{}}}", &text[u.segment.0..end]))]);
                want.push(("Add braces", w));
            }
        }
        if let Some(i) = touching(&structs, |i| i.range, off).or_else(|| touching(&enums, |i| i.range, off)) {
            let (full, short) = i.params.clone().unwrap_or_default();
            let w = format!("{}\n\nimpl{} {}{} {{\n\n}}{}", &text[..i.range.1], full, i.name, short, &text[i.range.1..]);
            want.push(("Add impl", w));
        }
        for id in ["Swap", "Add braces", "Add impl"] {
            let w = want.iter().find(|w| w.0 == id);
            ensure!(acts.contains(&id) == w.is_some(), "{} is {}offered at {}", id, if w.is_some() { "not " } else { "" }, off);
            if let Some((_, w)) = w {
                let e = any.apply((off, off), id).ok_or_else(|| Fail::from(format!("{} does not apply at {}", id, off)))?;
                let got = applied(text, &e, id)?;
                ensure!(got == *w, "{} at {} gives\n{}\nexpected\n{}", id, off, got, w);
                if id != "Swap" && g.chance(1, 8) {
                    ensure!(!has_error(&lang_rust::syntax::lang_rust().parse(got.as_str())), "{} at {} breaks the file:\n{}", id, off, got);
                }
                done += 1;
            }
        }
    }
    for &(s, e, end) in &m.prints {
        let edit = rust.expand(t(end)).ok_or_else(|| Fail::from(format!("nothing to expand at {}", end)))?;
        let got = applied(text, &edit, "expand")?;
        let v = &text[s..e];
        let want = format!("{}eprintln!(\"{} = {{:?}}\", {});{}", &text[..s], v, v, &text[end..]);
        ensure!(got == want, "expanding {:?} gives\n{}", &text[s..end], got);
        done += 1;
        ctx.class("expand");
    }
    if done >= 2 {
        ctx.nontrivial(text);
    }
    // `let` being typed
    let pre = *g.pick(&["fn f() {\n  ", "fn f() { x(); ", "impl A { fn f() {\n", "fn f() { if x { "]);
    let pre = if g.chance(1, 4) { format!("{}if ", pre) } else { pre.to_string() };
    let rest = *g.pick(&["", ";", " = 1;", "x;", "x = 1;", "\n}", "\n y();", "= 2", "// c\n", "(a, b)", "mut x : T"]);
    let close = "}".repeat(pre.matches('{').count());
    let src = format!("{}let {}{}", pre, rest, close);
    ctx.describe(|| format!("let is typed: {:?}", src));
    let at = pre.len() + 4;
    let f = RustEditorFile::parse(&src);
    let y = Tree::of(f.file());
    let kw = y.touching(at - 1).into_iter().next();
    let want = kw.filter(|&l| y.name(l) == "LET").and_then(|l| y.ancestors(l).into_iter().find(|&n| y.name(n) == "LET_STMT"))
        .map_or(false, |s| y.child(s, "SEMI").is_none() && y.child(s, "EQ").is_none() && !src[y.nodes[s].e..].starts_with(';'));
    let got = f.after_space_typed(t(at));
    ctx.evals += 1;
    ensure!(got == if want { Some(";".to_string()) } else { None }, "typing a space after `let` at {} in {:?} inserts {:?}", at, src, got);
    Ok(())
}
pub const C27: Prop = Prop {
    id: "C27",
    rule: "at least two actions were applied to an error-free Rust file; distinct texts",
    run: c27,
    quick: 25_000,
    thorough: 1_000_000,
    tape: 220,
    threads: 0,
    exemplars: &[],
    assumptions: &["one file is one to a dozen items with their nested items"],
    min_nontrivial_pct: 25,
};

// ------------------------------------------------------------------------------------ C28
fn c28(g: &mut Gen, ctx: &mut Ctx) -> Res {
    if g.bool() {
        let (m, f) = match model(g, ctx) {
            Some(x) => x,
            None => return Ok(()),
        };
        let any = Any::Fall(f);
        let got = any.structure();
        ensure!(got == m.structure, "the structure is\n{:?}\nexpected\n{:?}", got, m.structure);
        let f = match &any {
            Any::Fall(f) => f,
            _ => unreachable!(),
        };
        for off in 0..=m.text.len() {
            if !m.text.is_char_boundary(off) {
                continue;
            }
            // the token to the right of the offset decides
            let want = m.tests.iter().position(|x| x.0 .0 <= off && (off < x.0 .1 || off == m.text.len() && off == x.0 .1));
            let got = f.test_at_offset(t(off));
            ctx.evals += 1;
            ensure!(got == want, "the test at offset {} is {:?}, expected {:?}", off, got, want);
        }
        f.analyse(|a| -> Res {
            let got: Vec<Option<String>> = a.ast().tests().map(|x| x.contents().map(|c| c.to_string())).collect();
            let want: Vec<Option<String>> = m.tests.iter().map(|x| {
                let s = &x.1;
                Some(s[s.find('"').unwrap() + 1..s.rfind('"').unwrap()].trim().to_string())
            }).collect();
            ensure!(got == want, "the tests hold {:?}, expected {:?}", got, want);
            Ok(())
        })?;
        ctx.class("fall");
        if m.structure.len() >= 2 {
            ctx.nontrivial(&m.text);
        }
        return Ok(());
    }
    let m = rustmodel::generate(g);
    let text = &m.text;
    ctx.describe(|| format!("text {:?}", text));
    let f = RustEditorFile::parse(text);
    if has_error(f.file()) {
        ctx.class("does-not-parse");
        return Ok(());
    }
    let want: Vec<(String, usize, usize)> = m.items.iter().filter(|i| i.kind != "impl").map(|i| (i.name.clone(), i.range.0, i.range.1)).collect();
    let got: Vec<(String, usize, usize)> = f.structure().into_iter().map(|n| (n.name, rr(n.range).0, rr(n.range).1)).collect();
    ensure!(got == want, "the structure is\n{:?}\nexpected\n{:?}", got, want);
    let mut deep = 0;
    for off in 2..=text.len() {
        if !text.is_char_boundary(off) {
            continue;
        }
        // asked for behind a typed character; asserted where both characters before agree
        let (a, b) = (m.crumbs(off - 2), m.crumbs(off - 1));
        if a != b {
            continue;
        }
        let got = f.breadcrumbs(t(off));
        ctx.evals += 1;
        ensure!(got == a, "breadcrumbs at {}: {:?}, expected {:?}", off, got, a);
        deep = deep.max(a.len());
    }
    ctx.class("rust");
    ctx.max("nesting", deep as u64);
    if want.len() >= 2 {
        ctx.nontrivial(text);
    }
    Ok(())
}
pub const C28: Prop = Prop {
    id: "C28",
    rule: "error-free files with at least two named items; distinct texts",
    run: c28,
    quick: 120_000,
    thorough: 4_000_000,
    tape: 260,
    threads: 0,
    exemplars: &[],
    assumptions: &["breadcrumbs are not asserted within one character of an item's edge"],
    min_nontrivial_pct: 30,
};

// ------------------------------------------------------------------------------------ C29
fn c29(g: &mut Gen, ctx: &mut Ctx) -> Res {
    if g.chance(1, 4) {
        // files with errors: every error is marked
        let (l, text) = lang_text(g);
        ctx.describe(|| format!("{} text {:?}", l, text));
        let f = Any::parse(l, &text);
        let x = Tree::of(f.file());
        let mut want: Vec<R> = x.all("ERROR").into_iter().map(|i| {
            let (s, e) = x.rng(i);
            if s < e { (s, e) } else { (s, s + text[s..].chars().next().map_or(0, |c| c.len_utf8())) }
        }).collect();
        let mut got: Vec<R> = f.highlight().into_iter().filter(|h| h.2 == "error").map(|h| (h.0, h.1)).collect();
        want.sort();
        got.sort();
        ensure!(got == want, "errors are marked at {:?}, expected {:?}", got, want);
        if !want.is_empty() {
            ctx.class("errors");
            ctx.nontrivial((l, text));
        }
        return Ok(());
    }
    let (m, f) = match model(g, ctx) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut got = Any::Fall(f).highlight();
    let mut want = m.hls.clone();
    got.sort();
    want.sort();
    if got != want {
        let minus = |a: &[(usize, usize, &'static str)], b: &[(usize, usize, &'static str)]| -> Vec<String> {
            let mut b = b.to_vec();
            a.iter().filter(|x| match b.iter().position(|y| y == *x) {
                Some(i) => {
                    b.remove(i);
                    false
                }
                None => true,
            }).map(|x| format!("{:?} at {}: {}", m.text.get(x.0..x.1).unwrap_or("?"), x.0, x.2)).collect()
        };
        return Err(format!("missing highlights: {:?}\nunexpected highlights: {:?}", minus(&want, &got), minus(&got, &want)).into());
    }
    if want.len() >= 6 {
        ctx.nontrivial(&m.text);
    }
    Ok(())
}
pub const C29: Prop = Prop {
    id: "C29",
    rule: "at least six highlights in an error-free grammar file, or a file with errors; distinct texts",
    run: c29,
    quick: 300_000,
    thorough: 10_000_000,
    tape: 300,
    threads: 0,
    exemplars: &[],
    assumptions: &[],
    min_nontrivial_pct: 30,
};
