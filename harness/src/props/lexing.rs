use crate::driver::*;
use crate::dynlang::{self, nt, Lx};
use crate::ensure;
use crate::gen::Gen;
use crate::gengram;
use crate::langs;
use crate::lexref::{Ext, RefLexer};
use crate::model::{Grammar, E};
use crate::tree::*;
use fall_parse::{LexRule, RegexLexer};

fn leaves(f: &fall_tree::File) -> Vec<(u32, usize, usize)> {
    let s = snap(f);
    (0..s.len())
        .filter(|&i| s.get(i + 1).map_or(true, |n| n.depth <= s[i].depth) && s[i].start < s[i].end)
        .map(|i| (s[i].ty, s[i].start, s[i].end))
        .collect()
}

// a small regular expression, with whether it can match the empty string
fn regex(g: &mut Gen, depth: usize) -> (String, bool) {
    const CS: &[&str] = &["a", "b", "c", "\u{e9}", "x", " ", "\\("];
    let k = if depth == 0 { g.below(3) } else { g.weighted(&[6, 2, 1, 4, 3, 2, 2, 2]) };
    match k {
        0 => (g.pick(CS).to_string(), false),
        1 => (g.pick(&["[ab]", "[^a]", "[a-c]", "\\w", "\\s", "[^x\n]"]).to_string(), false),
        2 => (".".to_string(), false),
        3 => {
            let n = g.range(2, 3);
            let xs: Vec<_> = (0..n).map(|_| regex(g, depth - 1)).collect();
            (xs.iter().map(|x| x.0.as_str()).collect::<String>(), xs.iter().all(|x| x.1))
        }
        4 => {
            let (a, b) = (regex(g, depth - 1), regex(g, depth - 1));
            (format!("({}|{})", a.0, b.0), a.1 || b.1)
        }
        5 => (format!("({})*", regex(g, depth - 1).0), true),
        6 => {
            let a = regex(g, depth - 1);
            (format!("({})+", a.0), a.1)
        }
        _ => (format!("({})?", regex(g, depth - 1).0), true),
    }
}

// user-supplied lexing functions
fn ext_to_c(s: &str) -> Option<usize> {
    s.find('c').map(|i| i + 1)
}
fn ext_one(s: &str) -> Option<usize> {
    s.chars().next().map(|c| c.len_utf8())
}
fn ext_nested(s: &str) -> Option<usize> {
    let mut level = 0i32;
    for (i, c) in s.char_indices() {
        match c {
            '(' => level += 1,
            ')' => level -= 1,
            'x' => return None,
            _ => (),
        }
        if level <= 0 {
            return Some(i + c.len_utf8());
        }
    }
    None
}
fn ext_all(s: &str) -> Option<usize> {
    Some(s.len())
}
const EXTS: &[(&str, Ext)] = &[("to_c", ext_to_c), ("one", ext_one), ("nested", ext_nested), ("all", ext_all)];

fn c05(g: &mut Gen, ctx: &mut Ctx) -> Res {
    if g.chance(1, 2) {
        let n = g.range(1, 6);
        let mut rules: Vec<(usize, String, Option<Ext>)> = Vec::new();
        let mut names = Vec::new();
        for i in 0..n {
            let mut d = g.below(3);
            let re = loop {
                let (re, nullable) = regex(g, d);
                if !nullable {
                    break re;
                }
                d = 0;
            };
            let f = if g.chance(1, 6) { Some(*g.pick(EXTS)) } else { None };
            names.push((re.clone(), f.map(|f| f.0)));
            rules.push((i + 1, re, f.map(|f| f.1)));
        }
        const CS: &[&str] = &["a", "b", "c", "\u{e9}", "x", " ", "(", ")", "\n", "ab", "aab", "\u{4e2d}"];
        let len = g.range(0, 24);
        let mut text: String = (0..len).map(|_| *g.pick(CS)).collect();
        if g.chance(1, 512) {
            let k = g.range(1, 400);
            text = text.repeat(k);
        }
        ctx.describe(|| format!("lexical rules {:?}\ntext {:?}", names, text));
        let lexer = RegexLexer::new(rules.iter().map(|r| LexRule::new(nt(r.0), &r.1, r.2)).collect());
        let gr = Grammar { rules: vec![E::Pub { ty: 40, body: 1, replaceable: false }, E::Rep(2), E::Any], n_types: 41 };
        let l = dynlang::build_with(&gr, dynlang::binder_none, Lx::Owned(lexer));
        let f = l.parse(text.as_str());
        let got = leaves(&f);
        let toks = RefLexer::of(&rules).lex(&text);
        let want: Vec<_> = toks.iter().map(|t| (nt(t.ty).0, t.start, t.end)).collect();
        ensure!(got == want, "tokens (type, start, end) {:?}, expected {:?}", got, want);
        // a match of one rule was cut short or extended in favour of another one, or there was none
        if toks.len() >= 3 && n >= 2 {
            if toks.iter().any(|t| t.ty == 0) {
                ctx.class("with-error-token");
            }
            ctx.class("random-rules");
            ctx.nontrivial((format!("{:?}", names), text));
        }
        return Ok(());
    }
    let l = langs::pick(g);
    let text = match g.weighted(&[4, 2, 2]) {
        0 => l.any_text(g, 40, 200_000),
        1 => langs::chars(g, 40),
        _ => {
            let n = g.range(1, 12);
            let mut s = String::new();
            for _ in 0..n {
                let t = g.pick(&l.soup).clone();
                // glued together, often
                if g.bool() {
                    s.push_str(g.pick(l.trivia));
                }
                s.push_str(&t);
                if g.chance(1, 8) {
                    s.push_str(g.pick(&["\"", "'", "r#\"", "/*", "*/", "//", "\\", "#", "\u{e9}", "\u{2003}", "_", "0"]));
                }
            }
            s
        }
    };
    ctx.describe(|| format!("{} text {:?}", l.name, text));
    if l.name == "weird" && text.contains(&"#".repeat(31)) {
        return Ok(());
    }
    let f = l.language.parse(text.as_str());
    let got = leaves(&f);
    let toks = l.ref_lex(&text);
    let mut i = 0;
    for &(ty, s, e) in &got {
        let i0 = i;
        ensure!(i < toks.len() && toks[i].start == s, "a leaf starts at {}, but no token of the text does\nexpected tokens {:?}", s, toks);
        while i < toks.len() && toks[i].end <= e {
            i += 1;
        }
        ensure!(i > i0 && toks[i - 1].end == e, "a leaf of {:?} ends at {}, but no token of the text does\nexpected tokens {:?}", &text[s..e], e, toks);
        let as_is = i == i0 + 1 && l.types[toks[i0].ty].2 == ty || i == i0 + 1 && ty == 0 && toks[i0].ty == 0;
        let ctxt = l.contextual.iter().any(|c| l.types[c.0].2 == ty && c.1 == text[s..e]);
        ensure!(as_is || ctxt, "the leaf {:?} has type {}, the text lexes as {:?}", &text[s..e],
            l.types.iter().find(|t| t.2 == ty).map_or("?", |t| &t.0), toks[i0..i].iter().map(|t| &l.types[t.ty].0).collect::<Vec<_>>());
    }
    ensure!(i == toks.len(), "tokens are missing: {:?}", &toks[i..]);
    if toks.len() >= 4 {
        ctx.class(l.name);
        if toks.iter().any(|t| t.ty == 0) {
            ctx.class("with-error-token");
        }
        if text.len() > 5000 {
            ctx.class("long");
        }
        ctx.nontrivial((l.name, text));
    }
    Ok(())
}

pub const C05: Prop = Prop {
    id: "C05",
    rule: "at least 3 tokens and, for random lexical grammars, at least 2 rules; keyed by rules and text",
    run: c05,
    quick: 500_000,
    thorough: 20_000_000,
    tape: 160,
    threads: 0,
    exemplars: &[],
    assumptions: &["no lexical rule matches the empty string", "lexing functions return the length of a non-empty prefix or nothing"],
    min_nontrivial_pct: 30,
};

// ------------------------------------------------------------------------------------ C04
struct One {
    text: String,
    new: String,
    /// replaced range of the old text, length of the replacement
    at: (usize, usize),
    ins: usize,
    edit: fall_tree::TextEdit,
}

fn one_edit(text: &str, a: usize, b: usize, ins: &str) -> One {
    use fall_tree::{tu, TextBuf, TextEdit, TextEditOp, TextRange};
    let mut ops = Vec::new();
    let r = |x: usize, y: usize| TextRange::from_to(tu(x as u32), tu(y as u32));
    if a > 0 {
        ops.push(TextEditOp::Copy(r(0, a)));
    }
    if !ins.is_empty() {
        ops.push(TextEditOp::Insert(TextBuf::from(ins)));
    }
    if b < text.len() {
        ops.push(TextEditOp::Copy(r(b, text.len())));
    }
    let new = format!("{}{}{}", &text[..a], ins, &text[b..]);
    One { text: text.to_owned(), new, at: (a, b), ins: ins.len(), edit: TextEdit { ops } }
}

/// how many bytes relexing after one edit may look at: everything but the untouched tokens before
/// the one at the edit, and the untouched tokens after the lexer is in step with the old tokens,
/// with one token of slack on each side
fn relex_bound(old: &[crate::refeng::Tok], new: &[crate::refeng::Tok], o: &One) -> usize {
    let (a, b) = o.at;
    let shift = |p: usize| p - b + a + o.ins;
    let mut keep = 0;
    let before: Vec<_> = old.iter().take_while(|t| t.end < a).collect();
    for t in before.iter().take(before.len().saturating_sub(1)) {
        keep += t.end - t.start;
    }
    let starts: std::collections::HashSet<usize> = new.iter().map(|t| t.start).collect();
    let mut after: Vec<_> = old.iter().filter(|t| t.start >= b).skip_while(|t| !starts.contains(&shift(t.start))).collect();
    after.pop();
    after.pop();
    for t in after {
        keep += t.end - t.start;
    }
    o.new.len() - keep.min(o.new.len())
}

/// how many items, now and then a large file
fn n_items(g: &mut Gen) -> usize {
    if g.chance(1, 64) { g.range(30, 300) } else { g.range(1, 30) }
}

fn c04(g: &mut Gen, ctx: &mut Ctx) -> Res {
    // many top-level items, one of them edited
    let l = langs::by_name(*g.pick(&["rust", "fall", "rust", "bnf", "json"]));
    let mut items: Vec<String> = match l.name {
        "rust" => {
            let pool = crate::pools::RUST_ITEMS;
            (0..n_items(g)).map(|_| g.pick(pool).to_string()).collect()
        }
        "fall" => {
            let pool = crate::pools::FALL_RULES;
            (0..n_items(g)).map(|_| g.pick(pool).to_string()).collect()
        }
        _ => (0..g.range(1, 30)).map(|_| l.sentence(g, 0, 12, 0).join(" ")).collect(),
    };
    let mut text = String::new();
    for (i, it) in items.iter().enumerate() {
        if i > 0 {
            text.push_str(g.pick(&["\n", "\n\n", " "]));
        }
        text.push_str(it);
    }
    ctx.describe(|| format!("{} text {:?}", l.name, text));
    let mut f = l.language.parse(text.as_str());
    let steps = g.range(1, 4);
    for _ in 0..steps {
        match c04_step(g, ctx, l, f, &text, &mut items)? {
            Some((f2, t2)) => {
                f = f2;
                text = t2;
            }
            None => break,
        }
    }
    Ok(())
}

/// one edit; None if the items cannot be told apart afterwards
fn c04_step(g: &mut Gen, ctx: &mut Ctx, l: &'static langs::Lang, f: fall_tree::File, text: &str, items: &mut Vec<String>)
    -> Result<Option<(fall_tree::File, String)>, Fail> {
    let old_toks = l.ref_lex(text);
    let (a, b, ins) = if g.chance(2, 3) && !old_toks.is_empty() {
        // a token replaced by a similar one, or some blank space
        let t = g.pick(&old_toks);
        if l.is_ws(t.ty) {
            let ins = g.pick(l.trivia).to_string();
            let at = if g.bool() { t.start } else { t.end };
            (at, at, ins)
        } else {
            (t.start, t.end, l.lexeme(g, t.ty, &None))
        }
    } else {
        let (a, b) = langs::span(g, text);
        let b = b.min(langs::floor(text, a + 40)).max(a);
        let ins = if g.chance(1, 4) { String::new() } else { g.pick(&l.soup).clone() };
        (a, b, ins)
    };
    let o = one_edit(text, a, b, &ins);
    ctx.describe(|| format!("replace {}..{} by {:?}", a, b, ins));
    ctx.evals += 1;
    let inc = f.edit(&o.edit);
    let fresh = l.language.parse(o.new.as_str());
    let (it, ft) = (inc.metrics().get("parsing ticks").unwrap_or(0), fresh.metrics().get("parsing ticks").unwrap_or(0));
    ensure!(it <= ft, "reparsing takes {} steps, parsing from scratch {}", it, ft);
    let new_toks = l.ref_lex(&o.new);
    let relexed = inc.metrics().get("relexed region").unwrap_or(0) as usize;
    let no_errors = !old_toks.iter().any(|t| t.ty == 0);
    if no_errors {
        let bound = relex_bound(&old_toks, &new_toks, &o);
        ctx.max("relexed bytes", relexed as u64);
        ensure!(relexed <= bound, "{} bytes were lexed again, the edit can affect {} at most", relexed, bound);
    }
    // with the items cached, the steps do not grow with what the untouched items contain
    if matches!(l.name, "rust" | "fall") && no_errors && !has_error(&f) && !has_error(&inc) {
        // an item extends to the start of the next one
        let mut starts = Vec::new();
        let mut at = 0;
        for it in items.iter() {
            let s = text[at..].find(it.as_str()).unwrap() + at;
            starts.push(s);
            at = s + it.len();
        }
        let mut touched = 0;
        for (i, it) in items.iter().enumerate() {
            let end = starts.get(i + 1).cloned().unwrap_or(text.len());
            if starts[i] <= b && a <= end {
                touched += l.language.parse(it.as_str()).metrics().get("parsing ticks").unwrap_or(0);
            }
        }
        let toks = l.ref_lex(&ins).len() as u64;
        let bound = 3 * touched + 60 * items.len() as u64 + 200 * toks + 600;
        if std::env::var_os("VERIF_MEASURE").is_some() {
            ctx.max("slack x100", it * 100 / bound.max(1));
        }
        ensure!(it <= bound, "reparsing {} items takes {} steps, the edited ones alone need {} (from scratch: {})", items.len(), it, touched, ft);
        ctx.class("bounded-steps");
        if it * 2 < ft {
            ctx.class("less-than-half");
        }
    }
    if old_toks.len() >= 20 {
        ctx.class(l.name);
        if no_errors {
            ctx.class("lexically-clean");
        }
        ctx.nontrivial((&o.text, &o.new));
    }
    // the items of the new text
    let mut starts: Vec<usize> = Vec::new();
    let mut at = 0;
    for it in items.iter() {
        let s = text[at..].find(it.as_str()).unwrap() + at;
        starts.push(s);
        at = s + it.len();
    }
    let shift = |p: usize| if p <= a { p } else { p - b + a + o.ins };
    let mut out = Vec::new();
    for (i, &s) in starts.iter().enumerate() {
        let e = s + items[i].len();
        if a < s && s < b || a < e && e < b || a == b && (a == s || a == e) {
            return Ok(None);
        }
        let (s, e) = (if s == b { a + o.ins } else { shift(s) }, if e == a { a } else { shift(e) });
        if s > e {
            return Ok(None);
        }
        out.push(o.new[s..e].to_string());
    }
    *items = out;
    if has_error(&inc) || items.iter().any(|i| i.is_empty()) {
        return Ok(None);
    }
    Ok(Some((inc, o.new)))
}

pub const C04: Prop = Prop {
    id: "C04",
    rule: "the text has at least 20 tokens; keyed by the texts before and after the edit",
    run: c04,
    quick: 40_000,
    thorough: 800_000,
    tape: 120,
    threads: 0,
    exemplars: &[],
    assumptions: &["work is measured by the metrics the library itself reports (relexed region, parsing ticks)"],
    min_nontrivial_pct: 40,
};
