use crate::driver::*;
use crate::dynlang;
use crate::ensure;
use crate::gen::Gen;
use crate::gengram;
use crate::langs::{self, Lang};
use crate::refeng;
use crate::tree::*;

fn random_language(g: &mut Gen, cached: bool, big: bool) -> (crate::model::Grammar, dynlang::Binder, fall_tree::Language) {
    let o = gengram::Opts { cached, contexts: !cached, big, wide: true };
    let gr = gengram::grammar(g, &o);
    let b = *g.pick(dynlang::BINDERS);
    let l = dynlang::build(&gr, b);
    (gr, b, l)
}

/// does the grammar stay within a step budget on this text (by the reference)
fn affordable(gr: &crate::model::Grammar, text: &str, limit: u64) -> bool {
    let raw = refeng::lex(text);
    let toks: Vec<_> = raw.iter().filter(|t| !dynlang::is_ws(t.ty)).cloned().collect();
    let mut r = refeng::Ref::new(gr, text, &toks, limit);
    r.file().is_ok()
}

/// is what every rule marked for reuse matches decided by the matched tokens alone
fn local(gr: &crate::model::Grammar, text: &str) -> bool {
    let raw = refeng::lex(text);
    let toks: Vec<_> = raw.iter().filter(|t| !dynlang::is_ws(t.ty)).cloned().collect();
    let mut r = refeng::Ref::new(gr, text, &toks, 10_000);
    r.file().is_ok() && !r.nonlocal
}

// ------------------------------------------------------------------------------------ C01
fn c01(g: &mut Gen, ctx: &mut Ctx) -> Res {
    if g.chance(1, 4) {
        let (gr, _, l) = random_language(g, false, true);
        let text = gengram::text(g, &gr, 40);
        if !affordable(&gr, &text, 20_000) {
            ctx.class("too-expensive");
            return Ok(());
        }
        ctx.describe(|| format!("random grammar {:?}\ntext {:?}", gr.rules, text));
        let f = l.parse(text.as_str());
        let n = check_lossless(&f, &text)?;
        if n >= 6 {
            ctx.class("random-grammar");
            ctx.nontrivial((hash_of(&snap(&f)), text));
        }
        return Ok(());
    }
    let l = langs::pick(g);
    let text = l.any_text(g, 60, 200_000);
    if text.len() > 5000 {
        ctx.class("long");
    }
    ctx.describe(|| format!("{} text {:?}", l.name, text));
    let f = l.language.parse(text.as_str());
    let n = check_lossless(&f, &text)?;
    dump_matches(l, &f)?;
    if n >= 6 {
        ctx.class(l.name);
        if has_error(&f) {
            ctx.class("with-errors")
        }
        if !text.is_ascii() {
            ctx.class("non-ascii")
        }
        ctx.nontrivial((l.name, text));
    }
    ctx.max("nodes", n as u64);
    Ok(())
}

/// the debugging dump shows exactly the tree
fn dump_matches(l: &Lang, f: &fall_tree::File) -> Res {
    let text = f.text().to_string();
    let s = snap(f);
    for ws in [false, true] {
        let got = if ws { fall_tree::dump_file_ws(f) } else { fall_tree::dump_file(f) };
        let mut want = String::new();
        let mut hidden: Option<u32> = None;
        for (i, x) in s.iter().enumerate() {
            if let Some(d) = hidden {
                if x.depth > d {
                    continue;
                }
                hidden = None;
            }
            let t = &l.types.iter().find(|t| t.2 == x.ty).unwrap();
            if t.1 && !ws {
                hidden = Some(x.depth);
                continue;
            }
            let leaf = s.get(i + 1).map_or(true, |n| n.depth <= x.depth);
            want.push_str(&"  ".repeat(x.depth as usize));
            if leaf {
                want.push_str(&format!("{} {:?}\n", t.0, &text[x.start..x.end]));
            } else {
                want.push_str(&format!("{}\n", t.0));
            }
        }
        ensure!(got == want, "dump differs from the tree:\n{}\nexpected\n{}", got, want);
    }
    Ok(())
}

pub const C01: Prop = Prop {
    id: "C01",
    rule: "the tree has at least 6 nodes; keyed by language and text",
    run: c01,
    quick: 800_000,
    thorough: 32_000_000,
    tape: 300,
    threads: 0,
    exemplars: &[],
    assumptions: &["texts are shorter than 4 GiB", "random grammars are free of left recursion and of repetition of empty matches"],
    min_nontrivial_pct: 30,
};

// ------------------------------------------------------------------------------------ C02
fn c02(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let l = langs::pick(g);
    let text = match g.weighted(&[6, 2, 2, 1]) {
        0 => l.any_text(g, 100, 200_000),
        1 => langs::chars(g, 60),
        2 => {
            // deep nesting, balanced or not
            let open = *g.pick(&["(", "{", "[", "<", "-", "!", "r#\"", "/*", "rule x {", "fn f() {", "<a ", "if x {", "&"]);
            let close = match open { "(" => ")", "{" | "fn f() {" | "rule x {" | "if x {" => "}", "[" => "]", "<" | "<a " => ">", "/*" => "*/", _ => "" };
            let n = g.range(1, 12);
            let m = g.range(0, n);
            let mut s = open.repeat(n);
            s.push_str(&l.fragment(g));
            s.push_str(&close.repeat(m));
            if g.bool() {
                let head = l.fragment(g);
                s = format!("{} {}", head, s)
            }
            s
        }
        _ => {
            // raw strings with many hashes, long operator runs
            let n = g.range(0, 40);
            let c = *g.pick(&["#", "<", "'", "/", "&", "\"", "*", ".", "|"]);
            format!("{} r{}\"{}", l.fragment(g), c.repeat(n), l.fragment(g))
        }
    };
    ctx.describe(|| format!("{} text {:?}", l.name, text));
    let f = match guarded(|| l.language.parse(text.as_str())) {
        Ok(f) => f,
        Err(m) if l.name == "weird" && m.contains("fall/test/src/weird.rs") && text.contains(&"#".repeat(31)) => return keyed("weird-raw-string-31-hashes", m),
        Err(m) => return Err(m.into()),
    };
    let ticks = f.metrics().get("parsing ticks").unwrap_or(0);
    ctx.max("parsing ticks", ticks);
    ensure!(f.root().range().len().utf8_len() == text.len(), "the tree does not cover the text");
    if text.len() >= 4 {
        if has_error(&f) {
            ctx.class("with-errors");
            ctx.nontrivial((l.name, text));
        }
    }
    Ok(())
}

fn ex_weird() -> Option<String> {
    let text = format!("r{}\"", "#".repeat(31));
    guarded(|| langs::by_name("weird").language.parse(text.as_str())).err().map(|m| format!("parsing r, 31 hashes and a quote with the test language `weird` panics: {}", m))
}

pub const C02: Prop = Prop {
    id: "C02",
    rule: "at least 4 bytes and the tree contains an ERROR node (the input is outside the language); keyed by language and text",
    run: c02,
    quick: 800_000,
    thorough: 32_000_000,
    tape: 260,
    threads: 0,
    exemplars: &[("weird-raw-string-31-hashes", ex_weird)],
    assumptions: &["nesting depth is bounded (the parser recurses on the thread's stack)"],
    min_nontrivial_pct: 20,
};

// ------------------------------------------------------------------------------------ C03
/// Known class of findings: a token is reused although its extent depends on text beyond the
/// token that follows it.  Recognised by what happened, not by the text: at the first token on
/// which the trees differ, the incremental tree has the very token of the old text, and the edit
/// leaves that token and at least one more character after it untouched.
fn lookahead_key(lang: &str, old: &fall_tree::File, edit: &fall_tree::TextEdit, fresh: &fall_tree::File, inc: &fall_tree::File) -> Option<String> {
    let leaves = |f: &fall_tree::File| -> Vec<(u32, usize, usize)> {
        let s = snap(f);
        (0..s.len()).filter(|&i| s.get(i + 1).map_or(true, |n| n.depth <= s[i].depth) && s[i].start < s[i].end)
            .map(|i| (s[i].ty, s[i].start, s[i].end)).collect()
    };
    let (x, y) = (leaves(fresh), leaves(inc));
    let i = x.iter().zip(&y).position(|(p, q)| p != q)?;
    let (q, q_end) = (y[i].1, y[i].2);
    let mut at = 0;
    for op in &edit.ops {
        match op {
            fall_tree::TextEditOp::Insert(b) => at += b.to_string().len(),
            fall_tree::TextEditOp::Copy(c) => {
                let (s, e) = (c.start().utf8_len(), c.end().utf8_len());
                if at <= q && q_end < at + (e - s) {
                    let (oq, oe) = (s + (q - at), s + (q_end - at));
                    if leaves(old).contains(&(y[i].0, oq, oe)) {
                        let l = langs::by_name(lang);
                        let name = |t: u32| l.types.iter().find(|x| x.2 == t).map(|x| x.0.as_str()).unwrap_or("?");
                        return Some(format!("{}:reused-{}", lang, name(y[i].0)));
                    }
                }
                at += e - s;
            }
        }
    }
    None
}

fn c03(g: &mut Gen, ctx: &mut Ctx) -> Res {
    enum K<'l> {
        Shipped(&'l Lang),
        Random(crate::model::Grammar, fall_tree::Language),
    }
    let k = if g.chance(1, 3) {
        let (gr, _, l) = random_language(g, true, true);
        K::Random(gr, l)
    } else {
        K::Shipped(langs::pick(g))
    };
    let lang = match &k {
        K::Shipped(l) => l.language,
        K::Random(_, l) => l,
    };
    let text = match &k {
        K::Shipped(l) => l.any_text(g, 60, 20_000),
        K::Random(gr, _) => gengram::text(g, gr, 30),
    };
    ctx.describe(|| match &k {
        K::Shipped(l) => format!("{} text {:?}", l.name, text),
        K::Random(gr, _) => format!("random grammar {:?}\ntext {:?}", gr.rules, text),
    });
    if let K::Random(gr, _) = &k {
        if !affordable(gr, &text, 10_000) {
            ctx.class("too-expensive");
            return Ok(());
        }
    }
    let mut file = lang.parse(text.as_str());
    let mut text = text;
    // reuse is only sound (and only specified) for rules that do not look past their own match
    let mut is_local = match &k {
        K::Shipped(..) => true,
        K::Random(gr, _) => local(gr, &text),
    };
    let steps = g.range(1, 6);
    let mut reused = false;
    let typing = g.chance(1, 6);
    let mut typed: Vec<(usize, char)> = Vec::new();
    if typing {
        // type a fragment character by character
        let frag = match &k {
            K::Shipped(l) => l.fragment(g),
            K::Random(..) => gengram::token(g),
        };
        let mut at = langs::floor(&text, g.below(text.len() + 1));
        for c in frag.chars().take(12) {
            typed.push((at, c));
            at += c.len_utf8();
        }
    }
    let total = if typing { typed.len() } else { steps };
    for i in 0..total {
        let (edit, new) = if typing {
            let (at, c) = typed[i];
            let mut b = fall_tree::TextEditBuilder::new(file.text());
            b.insert(fall_tree::tu(at as u32), c.to_string());
            let mut s = text.clone();
            s.insert(at, c);
            (b.build(), s)
        } else {
            gengram::edit(g, &text, &mut |g| match &k {
                K::Shipped(l) => l.fragment(g),
                K::Random(..) => gengram::token(g),
            })
        };
        if new.len() > 30_000 {
            break;
        }
        if let K::Random(gr, _) = &k {
            if !affordable(gr, &new, 10_000) {
                ctx.class("too-expensive");
                return Ok(());
            }
        }
        if !is_local {
            ctx.class("reuse-not-local");
            return Ok(());
        }
        if let K::Random(gr, _) = &k {
            is_local = local(gr, &new);
        }
        ctx.describe(|| format!("edit {:?}", edit.ops));
        let inc = file.edit(&edit);
        ensure!(inc.text().to_string() == new, "text after the edit is {:?}, expected {:?}", inc.text(), new);
        let fresh = lang.parse(new.as_str());
        let (a, b) = (snap(&fresh), snap(&inc));
        ctx.evals += 1;
        if a != b {
            let msg = format!("after step {}, on text {:?}, the incrementally obtained tree differs from a fresh parse; {}", i, new, diff(&fresh, &a, &inc, &b));
            if let K::Shipped(l) = &k {
                if let Some(key) = lookahead_key(l.name, &file, &edit, &fresh, &inc) {
                    return keyed(&key, msg);
                }
            }
            return Err(msg.into());
        }
        if inc.metrics().get("parsing ticks") < fresh.metrics().get("parsing ticks") {
            reused = true;
        }
        file = inc;
        text = new;
    }
    if reused {
        ctx.class("parse-reused");
    }
    if text.len() > 5000 {
        ctx.class("long");
    }
    match &k {
        K::Shipped(l) => ctx.class(l.name),
        K::Random(..) => ctx.class("random-grammar"),
    }
    if snap(&file).len() >= 6 && total > 0 {
        ctx.nontrivial((text, total));
    }
    Ok(())
}

fn inc_differs(lang: &str, text: &str, at: usize, ins: &str) -> Option<String> {
    let l = langs::by_name(lang).language;
    let f = l.parse(text);
    let mut b = fall_tree::TextEditBuilder::new(f.text());
    b.insert(fall_tree::tu(at as u32), ins);
    let inc = f.edit(&b.build());
    let fresh = l.parse(inc.text().to_string());
    if snap(&inc) != snap(&fresh) {
        Some(format!("{}: inserting {:?} at {} into {:?}: the incremental tree differs from a fresh parse", lang, ins, at, text))
    } else {
        None
    }
}

fn ex_char() -> Option<String> {
    inc_differs("rust", "'{", 2, "'")
}
fn ex_string() -> Option<String> {
    inc_differs("rust", "\"a\\\"b", 5, "\"")
}
fn ex_fall_raw() -> Option<String> {
    inc_differs("fall", "test r#", 7, "\"")
}
fn ex_raw() -> Option<String> {
    inc_differs("rust", "const A: B = r## ;", 16, "\"x\"##")
}

pub const C03: Prop = Prop {
    id: "C03",
    rule: "the final tree has at least 6 nodes and at least one edit was applied; keyed by the final text and number of edits",
    run: c03,
    quick: 250_000,
    thorough: 10_000_000,
    tape: 400,
    threads: 0,
    exemplars: &[("rust:reused-LIFETIME", ex_char), ("rust:reused-IDENT", ex_raw), ("rust:reused-STRING", ex_string), ("fall:reused-IDENT", ex_fall_raw)],
    assumptions: &[
        "edits copy disjoint ranges in ascending order, at character boundaries",
        "in random grammars, rules marked for reuse are delimited: what they match does not depend on what follows",
    ],
    min_nontrivial_pct: 30,
};

// ------------------------------------------------------------------------------------ C06
fn c06(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let cached = g.chance(1, 4);
    let big = g.bool();
    let (gr, binder, l) = random_language(g, cached, big);
    let file_ty = match gr.rules[0] {
        crate::model::E::Pub { ty, .. } => ty,
        _ => unreachable!(),
    };
    for _ in 0..3 {
        let text = gengram::text(g, &gr, 30);
        ctx.describe(|| {
            let mut s = String::new();
            for (i, r) in gr.rules.iter().enumerate() {
                s.push_str(&format!("{}: {:?}\n", i, r));
            }
            format!("grammar (types from {} are nodes)\n{}text {:?}", dynlang::FIRST_NODE, s, text)
        });
        let raw = refeng::lex(&text);
        let toks: Vec<_> = raw.iter().filter(|t| !dynlang::is_ws(t.ty)).cloned().collect();
        let mut r = refeng::Ref::new(&gr, &text, &toks, 20_000);
        let want = match r.file() {
            Ok(t) => t,
            Err(_) => {
                ctx.class("too-expensive");
                continue;
            }
        };
        let want = refeng::place(&want, &raw, &text, file_ty, binder);
        let f = l.parse(text.as_str());
        let got = snap(&f);
        ctx.evals += 1;
        if got != want {
            return Err(format!("the tree is not the one the grammar describes; {}", diff(&f, &want, &f, &got)).into());
        }
        for c in &r.features {
            ctx.class(c);
        }
        if toks.len() >= 3 && r.features.len() >= 2 {
            ctx.nontrivial(hash_of(&(format!("{:?}", gr.rules), text)));
        }
    }
    Ok(())
}

pub const C06: Prop = Prop {
    id: "C06",
    rule: "at least 3 tokens and at least two grammar features (recovery, layer, parameter, context, operator, injection, ...) took part in the parse; keyed by grammar and text",
    run: c06,
    quick: 2_500_000,
    thorough: 100_000_000,
    tape: 300,
    threads: 0,
    exemplars: &[],
    assumptions: &["random grammars are free of left recursion, of repetition of empty matches, and inject nodes into nodes"],
    min_nontrivial_pct: 5,
};
