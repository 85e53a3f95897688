//! The helpers for tests of grammars and of editor actions: what they accept and what they refuse.
use super::editor::{text_of, Any};
use super::index::Scratch;
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use crate::langs::{self, Lang};
use fall_tree::{dump_file, dump_file_ws, test_util, tu, TextRange};
use std::sync::RwLock;

/// the helpers read a variable of the environment; cases that set it are alone
static REWRITE: RwLock<()> = RwLock::new(());

const SEPARATOR: &str = "----------------------------------------";

/// a small change, or none
fn variant(g: &mut Gen, s: &str) -> String {
    let mut s = s.to_owned();
    match g.below(8) {
        0 | 1 => {}
        2 => s.insert_str(0, g.pick(&["\n", " ", "\n\n  ", "\t"])),
        3 => s.push_str(g.pick(&["\n", " ", "\n\n", "  \n"])),
        4 => {
            let (a, b) = langs::span(g, &s);
            s.replace_range(a..b, "");
        }
        5 => {
            let at = langs::floor(&s, g.below(s.len() + 1));
            s.insert_str(at, g.pick(&["x", " ", "\n", "\"", "\u{e9}", "  \n", SEPARATOR]));
        }
        6 => {
            // a line less, or twice
            let mut lines: Vec<&str> = s.split('\n').collect();
            let i = g.below(lines.len());
            if g.bool() { lines.remove(i); } else { lines.insert(i, lines[i]); }
            s = lines.join("\n");
        }
        _ => {
            let mut lines: Vec<&str> = s.split('\n').collect();
            let (i, j) = (g.below(lines.len()), g.below(lines.len()));
            lines.swap(i, j);
            s = lines.join("\n");
        }
    }
    s
}

fn passes(f: impl FnOnce()) -> bool {
    guarded(f).is_ok()
}

fn carets(g: &mut Gen, ctx: &mut Ctx) -> Result<String, Fail> {
    let caret = *g.pick(&["^", "<|>", "\u{1f600}", "^^"]);
    let l = langs::pick(g);
    let text = l.text(g, 15).replace(caret, "").replace('^', "");
    let (a, b) = langs::span(g, &text);
    let once = format!("{}{}{}", &text[..a], caret, &text[a..]);
    let twice = format!("{}{}{}{}{}", &text[..a], caret, &text[a..b], caret, &text[b..]);
    ctx.describe(|| format!("carets in {:?}", twice));
    let range = TextRange::from_to(tu(a as u32), tu(b as u32));
    let got = test_util::extract_offset(&once, caret);
    ensure!(got == (text.clone(), tu(a as u32)), "the caret in {:?} is taken for {:?}", once, got);
    let got = test_util::extract_range(&twice, caret);
    ensure!(got == (text.clone(), range), "the carets in {:?} are taken for {:?}", twice, got);
    // further carets are text
    let more = format!("{}{}.", twice, caret);
    let got = test_util::extract_range(&more, caret);
    ensure!(got == (format!("{}{}.", text, caret), range), "the carets in {:?} are taken for {:?}", more, got);
    ensure!(!passes(|| { test_util::extract_offset(&text, caret); }), "a caret is found in {:?}", text);
    ensure!(!passes(|| { test_util::extract_range(&once, caret); }), "two carets are found in {:?}", once);
    let (f, at) = test_util::parse_with_caret(l.language, &once, caret);
    ensure!(f.text() == text.as_str() && at == tu(a as u32), "{:?} is parsed as {:?} with an offset of {:?}", once, f.text().to_string(), at);
    let (f, r) = test_util::parse_with_range(l.language, &twice, caret);
    ensure!(f.text() == text.as_str() && r == range, "{:?} is parsed as {:?} with the range {:?}", twice, f.text().to_string(), r);
    ctx.evals += 6;
    ctx.class("carets");
    Ok(twice)
}

fn syntax(g: &mut Gen, ctx: &mut Ctx) -> Result<String, Fail> {
    let l = langs::pick(g);
    let text = l.text(g, 15);
    let ws = g.bool();
    let f = l.language.parse(text.clone());
    let right = if ws { dump_file_ws(&f) } else { dump_file(&f) };
    let expected = variant(g, &right);
    let equal = expected.trim() == right.trim();
    ctx.describe(|| format!("{}: {:?} expected to give\n{}", l.name, text, expected));
    let got = passes(|| if ws { test_util::check_syntax_ws(l.language, &text, &expected) } else { test_util::check_syntax(l.language, &text, &expected) });
    ensure!(got == equal, "the tree of {:?}\n{}\nis {} for\n{}", text, right, if got { "taken" } else { "not taken" }, expected);
    let got = passes(|| test_util::report_diff(&expected, &right));
    ensure!(got == equal, "{:?} and {:?} are {}", expected, right, if got { "the same" } else { "different" });
    // files
    let other = variant(g, &text);
    let o = l.language.parse(other.clone());
    let equal = dump_file_ws(&o).trim() == dump_file_ws(&f).trim();
    let got = passes(|| test_util::check_equal_files(&f, &o));
    ensure!(got == equal, "the files {:?} and {:?} are {}", text, other, if got { "the same" } else { "different" });
    ctx.evals += 3;
    ctx.class(if equal { "equal" } else { "different" });
    Ok(format!("{}{}", text, expected))
}

/// a grammar file with tests in it, and what they contain
fn grammar(g: &mut Gen, l: &Lang) -> (String, Vec<String>) {
    let (mut text, mut tests) = (String::new(), Vec::new());
    // what the known findings are about comes up in some of the grammars only
    let odd = g.chance(1, 4);
    for _ in 0..g.below(6) {
        if g.chance(1, 3) {
            if !odd {
                text.push_str(g.pick(&[
                    "rule a { b }\n", "pub rule test { r }\n", "rule x { <opt rest> 'a' }\n", "ast { node test { r .r } }\n",
                    "tokenizer { a r\"\\d+\" b 'test' r 'r' }\n", "verbatim r##\" fn f() { g(\"\") } \"##\n", "// \u{e9} comment\n",
                    "rule tests { <rep (r | test)> }\n", "rule r { r test \u{e9} }\n",
                ]));
                continue;
            }
            text.push_str(g.pick(&[
                "rule a { b }\n", "pub rule test { r }\n", "rule contest { test r }\n", "rule latest {r#\"x\"}", "rule x { <opt test rest> 'a' }\n",
                "ast { node test { r .r } }\n", "tokenizer { a r\"\\d+\" b 'test' r 'r' }\n", "verbatim r##\" fn f() { g(\"\") } \"##\n", "// \u{e9} comment\n",
                "rule tests { <rep (r | test)> }\n", "test", "test r", "rule r { test \u{e9} }",
            ]));
            continue;
        }
        let n = if odd { *g.pick(&[0usize, 1, 2, 1, 3, 18]) } else { *g.pick(&[0usize, 1, 2, 1, 3, 16]) };
        let close = format!("\"{}", "#".repeat(n));
        let mut s = match g.below(5) {
            0 => String::new(),
            1 if n > 0 && odd => "rule x { 'a' }\ntest r\"b\" \"c\"".to_owned(),
            2 => langs::chars(g, 12),
            _ => l.text(g, 12),
        };
        while s.contains(&close) {
            s = s.replacen(&close, "", 1);
        }
        // the closing quote is the first one with its hashes
        if s.ends_with('"') && n > 0 {
            s.push(' ');
        }
        let before = if text.ends_with(|c: char| c.is_alphanumeric() || c == '_') { "\n" } else { "" };
        let blank = if !odd { " " } else { *g.pick(&[" ", " ", "\n", "  ", "\n    "]) };
        text.push_str(&format!("{}test{}r{}\"{}{}{}", before, blank, "#".repeat(n), s, close, g.pick(&["\n", "", " ", "\n\n"])));
        tests.push(s.trim().to_owned());
    }
    (text, tests)
}

fn rendered(l: &Lang, tests: &[String]) -> String {
    tests.iter().map(|t| format!("{}\n\n{}\n{}\n", t, dump_file(&l.language.parse(t.clone())), SEPARATOR)).collect()
}

struct Rewriting;
impl Rewriting {
    fn new() -> Rewriting {
        std::env::set_var("rewrite_test_data", "1");
        Rewriting
    }
}
impl Drop for Rewriting {
    fn drop(&mut self) {
        std::env::remove_var("rewrite_test_data");
    }
}

/// the examples the helper finds as it is (known finding): after each "test r", wherever it stands
fn searched(mut text: &str) -> Option<Vec<String>> {
    let mut found = Vec::new();
    while let Some(at) = text.find("test r") {
        text = &text[at + 6..];
        let n = text.chars().take_while(|&c| c == '#').count();
        if n > 16 || !text.is_char_boundary(n + 1) {
            return None;
        }
        text = &text[n + 1..];
        if let Some(end) = text.find(&format!("\"{}", "#".repeat(n))) {
            found.push(text[..end].trim().to_owned());
        }
    }
    Some(found)
}

/// blocks of test data are compared without the blanks around them, and without empty ones at the end
fn blocks(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split(SEPARATOR).map(|b| b.trim().to_owned()).collect();
    while v.last().map_or(false, |b| b.is_empty()) {
        v.pop();
    }
    v
}

/// the verdict when test data with blocks more or less at its end is taken
fn pairwise(a: &str, b: &str) -> bool {
    a.split(SEPARATOR).zip(b.split(SEPARATOR)).all(|(a, b)| a.trim() == b.trim())
}

/// what the test data of a grammar should be, and what it is for the search as it is
struct Examples {
    right: String,
    searched: Option<String>,
}

impl Examples {
    fn new(l: &Lang, text: &str, tests: &[String]) -> Examples {
        let s = searched(text);
        let right = rendered(l, tests);
        let searched = if s.as_ref().map_or(false, |s| s == tests) { Some(right.clone()) } else { s.map(|s| rendered(l, &s)) };
        Examples { right, searched }
    }
    /// a failure that is the known one if the search as it is gives what was seen
    fn fail<T>(&self, known: bool, msg: String) -> Result<T, Fail> {
        match &self.searched {
            _ if !known => Err(msg.into()),
            None => keyed("examples-panic", msg),
            Some(s) if *s != self.right => keyed("examples-by-text-search", msg),
            _ => Err(msg.into()),
        }
    }
}

fn inline(g: &mut Gen, ctx: &mut Ctx) -> Result<String, Fail> {
    let l = langs::pick(g);
    let (text, tests) = grammar(g, l);
    let ex = Examples::new(l, &text, &tests);
    let right = ex.right.clone();
    let data = variant(g, &right);
    let missing = g.chance(1, 8);
    ctx.describe(|| format!("{}: the grammar {:?} with the test data\n{}", l.name, text, data));
    let have = if missing { Vec::new() } else { blocks(&data) };
    let scratch = Scratch::new();
    let d = &scratch.0;
    let (gram, file) = (d.join("a.fall"), d.join("inline.txt"));
    std::fs::write(&gram, &text).unwrap();
    if !missing {
        std::fs::write(&file, &data).unwrap();
    }
    if g.chance(1, 4) {
        let _alone = REWRITE.write().unwrap();
        let _r = Rewriting::new();
        let ok = passes(|| test_util::check_inline_tests(l.language, &gram, &file));
        drop(_r);
        let got = if ok { Some(std::fs::read_to_string(&file).unwrap_or_default()) } else { None };
        if got.as_ref() != Some(&right) {
            let msg = format!("the test data of {:?} is rewritten as\n{}\nand should be\n{}", text, got.as_ref().map_or("(panic)", |s| s), right);
            return ex.fail(got == ex.searched, msg);
        }
        ctx.class("rewritten");
    } else {
        let _shared = REWRITE.read().unwrap();
        let ok = passes(|| test_util::check_inline_tests(l.language, &gram, &file));
        let current = if missing { "" } else { &data };
        // whether blocks missing at the end are noticed is not asserted
        if ok != (blocks(&right) == have) && ok != pairwise(&right, current) {
            let msg = format!("the tests of {:?} {} with the test data\n{}\nand the right one is\n{}", text, if ok { "pass" } else { "fail" }, if missing { "(none)" } else { &data }, right);
            return ex.fail(ok == ex.searched.as_ref().map_or(false, |s| pairwise(s, current)), msg);
        }
        let got = if missing { None } else { Some(std::fs::read_to_string(&file).unwrap()) };
        ensure!(missing == !file.exists() && got.map_or(true, |s| s == data), "the check writes the test data");
        ctx.class(if ok { "pass" } else { "fail" });
    }
    ctx.evals += 1;
    if !tests.is_empty() {
        ctx.class("tests in a grammar");
    }
    Ok(if tests.is_empty() { String::new() } else { format!("{}{}", text, data) })
}

fn example(text: &str, tests: &[&str]) -> Option<String> {
    let l = langs::by_name("json");
    let tests: Vec<String> = tests.iter().map(|t| t.to_string()).collect();
    let right = rendered(l, &tests);
    let scratch = Scratch::new();
    let (gram, file) = (scratch.0.join("a.fall"), scratch.0.join("inline.txt"));
    std::fs::write(&gram, text).unwrap();
    std::fs::write(&file, &right).unwrap();
    guarded(|| test_util::check_inline_tests(l.language, &gram, &file)).err().map(|e| format!("the examples of {:?} are not taken for {:?}: {}", text, tests, e.lines().next().unwrap_or("")))
}

fn example_search() -> Option<String> {
    example("rule contest { test r }\n\ntest r\"{}\"\n", &["{}"])
}

fn example_panic() -> Option<String> {
    let h = "#".repeat(17);
    example(&format!("test r{}\"{{}}\"{}\n", h, h), &["{}"])
}

fn directory(g: &mut Gen, ctx: &mut Ctx) -> Result<String, Fail> {
    let l = langs::pick(g);
    let mut files: Vec<(String, String, Option<String>)> = Vec::new();
    let mut all_equal = true;
    for i in 0..g.below(4) {
        let text = l.text(g, 8);
        let right = dump_file(&l.language.parse(text.clone()));
        let tree = if g.chance(1, 8) { None } else if g.chance(3, 4) { Some(right.clone()) } else { Some(variant(g, &right)) };
        all_equal &= tree.as_ref().map_or(false, |t| t.trim() == right.trim());
        files.push((format!("{}.rs", i), text, tree));
    }
    ctx.describe(|| format!("{}: {:?}", l.name, files));
    let scratch = Scratch::new();
    let d = &scratch.0;
    {
        for (n, t, tree) in &files {
            std::fs::write(d.join(n), t).unwrap();
            if let Some(tree) = tree {
                std::fs::write(d.join(n).with_extension("txt"), tree).unwrap();
            }
        }
        if g.bool() {
            std::fs::write(d.join("README.md"), "not a source").unwrap();
        }
        if g.chance(1, 4) {
            let _alone = REWRITE.write().unwrap();
            let _r = Rewriting::new();
            let ok = passes(|| test_util::check_directory(l.language, d));
            drop(_r);
            ensure!(ok, "rewriting the trees of {:?} fails", files);
            for (n, t, tree) in &files {
                let right = dump_file(&l.language.parse(t.clone()));
                let got = std::fs::read_to_string(d.join(n).with_extension("txt")).unwrap_or_default();
                let same = tree.as_ref().map_or(false, |t| t.trim() == right.trim());
                ensure!(got == right || same && got == *tree.as_ref().unwrap(), "the tree of {:?} is rewritten as\n{}\nand should be\n{}", t, got, right);
            }
            ctx.class("directory rewritten");
        } else {
            let _shared = REWRITE.read().unwrap();
            let ok = passes(|| test_util::check_directory(l.language, d));
            ensure!(ok == all_equal, "the directory of {:?} {}", files, if ok { "passes" } else { "fails" });
            ctx.class("directory");
        }
    }
    ctx.evals += 1;
    Ok(if files.is_empty() { String::new() } else { format!("{:?}", files) })
}

fn actions(g: &mut Gen, ctx: &mut Ctx) -> Result<String, Fail> {
    use fall_editor::actions::{check_context_action, check_no_context_action};
    let l = if g.bool() { "fall" } else { "rust" };
    let text = text_of(g, l).replace('^', "");
    let f = Any::parse(l, &text);
    let mut range = langs::span(g, &text);
    let start = g.below(text.len() + 1);
    for k in 0..=text.len() {
        let a = langs::floor(&text, (start + k) % (text.len() + 1));
        if !f.actions((a, a)).is_empty() {
            range = (a, a);
            break;
        }
    }
    if g.bool() {
        // where most is offered
        for _ in 0..8 {
            let r = langs::span(g, &text);
            if f.actions(r).len() > f.actions(range).len() {
                range = r;
            }
        }
    }
    let marked = format!("{}^{}^{}", &text[..range.0], &text[range.0..range.1], &text[range.1..]);
    let offered = f.actions(range);
    let id = if g.bool() && !offered.is_empty() { *g.pick(&offered) } else { *g.pick(&["Swap", "Extract rule", "Swap alternatives", "Add impl", "Add use braces", "No such action"]) };
    ctx.describe(|| format!("{}: {:?} at {:?}", l, id, marked));
    let absent = passes(|| if l == "fall" { check_no_context_action::<lang_fall::FileWithAnalysis>(id, &marked) } else { check_no_context_action::<lang_rust::editor::RustEditorFile>(id, &marked) });
    ensure!(absent == !offered.contains(&id), "{:?} at {:?} is {}", id, marked, if absent { "not there" } else { "there" });
    let after = match f.apply(range, id) {
        Some(e) => e.apply(fall_tree::TextBuf::from(text.as_str()).as_text()).to_string(),
        None => text.clone(),
    };
    let expected = variant(g, &after);
    let ok = passes(|| if l == "fall" { check_context_action::<lang_fall::FileWithAnalysis>(id, &marked, &expected) } else { check_context_action::<lang_rust::editor::RustEditorFile>(id, &marked, &expected) });
    let want = !absent && expected.trim() == after.trim();
    ensure!(ok == want, "{:?} at {:?} {} with the text\n{}\nand gives\n{}", id, marked, if ok { "passes" } else { "fails" }, expected, after);
    if offered.len() > 1 {
        ctx.class("several actions");
    }
    ctx.class(if absent { "action not offered" } else if ok { "action" } else { "another text" });
    ctx.evals += 2;
    Ok(format!("{}{}{}", id, marked, expected))
}

fn c37(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let kind = g.weighted(&[2, 4, 5, 1, 3]);
    let what = match kind {
        0 => carets(g, ctx)?,
        1 => syntax(g, ctx)?,
        2 => inline(g, ctx)?,
        3 => directory(g, ctx)?,
        _ => actions(g, ctx)?,
    };
    if !what.trim().is_empty() {
        ctx.nontrivial((kind, what));
    }
    Ok(())
}

pub const C37: Prop = Prop {
    id: "C37",
    rule: "a helper is asked for a verdict that is known beforehand, on a text, files or tests that are not blank",
    run: c37,
    quick: 100_000,
    thorough: 5_000_000,
    tape: 400,
    threads: 0,
    exemplars: &[("examples-by-text-search", example_search), ("examples-panic", example_panic)],
    assumptions: &[
        "examples are looked for in the text of the grammar: the word test followed by a raw string is not generated inside comments and token texts",
        "whether blocks missing at the end of the test data, or more of them, are noticed is not asserted",
        "texts and files are small (the difference of long texts takes quadratic time)",
    ],
    min_nontrivial_pct: 30,
};
