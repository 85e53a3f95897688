//! The typed interfaces of the shipped languages.
use super::ast_gen::*;
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use crate::langs;
use crate::tree::*;
use crate::{fallmodel, rustmodel};
use fall_tree::{AstNode, Node};

pub fn guard(f: impl FnOnce() -> String) -> String {
    guarded(f).unwrap_or_else(|_| "panic".into())
}

fn name(n: Node) -> &'static str {
    n.file().language().node_type_info(n.ty()).name
}

pub fn rn(n: Node) -> String {
    let (s, e) = r(n);
    format!("{}@{}-{}", name(n), s, e)
}

fn camel(s: &str) -> String {
    s.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect()
}

fn expected(n: Node, nodes: &[(&str, &[(&str, &str, u8, bool)])], classes: &[(&str, &[&str])]) -> Vec<String> {
    let mut out = Vec::new();
    let (s, e) = r(n);
    let me = name(n).to_lowercase();
    for (node, methods) in nodes {
        if *node != me {
            continue;
        }
        out.push(format!("{} {}@[{}; {}) true", camel(node), camel(node), s, e));
        for (m, child, arity, text) in methods.iter() {
            let of: Vec<&str> = classes.iter().find(|c| c.0 == *child).map(|c| c.1.to_vec()).unwrap_or(vec![child]);
            let all: Vec<String> = n.children().filter(|c| of.contains(&name(*c).to_lowercase().as_str()))
                .map(|c| if *text { format!("{:?}", c.text().to_string()) } else { rn(c) }).collect();
            let v = match arity {
                1 => all.first().cloned().unwrap_or("panic".into()),
                2 => all.first().cloned().unwrap_or("none".into()),
                _ => all.join(","),
            };
            out.push(format!("{}={}", m, v));
        }
    }
    for (c, variants) in classes {
        if variants.contains(&me.as_str()) {
            out.push(format!("{} {}@[{}; {}) {}/{} true", camel(c), camel(&me), s, e, camel(&me), rn(n)));
        }
    }
    out
}

// the hand-written part of the typed interface of grammars
fn kid<'f>(n: Node<'f>, ty: &str) -> Option<Node<'f>> {
    n.children().find(|c| name(*c) == ty)
}
fn kids<'f>(n: Node<'f>, ty: &'static str) -> Vec<Node<'f>> {
    n.children().filter(|c| name(*c) == ty).collect()
}
fn body(lit: &str) -> &str {
    match lit.strip_prefix('r') {
        Some(x) => {
            let h = x.chars().take_while(|&c| c == '#').count();
            &x[h + 1..x.len() - h - 1]
        }
        None => &lit[1..lit.len() - 1],
    }
}
fn text(n: Node) -> String {
    n.text().to_string()
}
/// name and value of the attributes of a rule
fn attrs(n: Node) -> Vec<(String, Option<String>)> {
    kid(n, "ATTRIBUTES").map(|a| kids(a, "ATTRIBUTE")).unwrap_or_default().into_iter()
        .map(|a| (kid(a, "IDENT").map(text).unwrap_or_default(), kid(a, "ATTRIBUTE_VALUE").map(text))).collect()
}
fn show<T: std::fmt::Display>(o: Option<T>) -> String {
    o.map_or("none".into(), |t| format!("{:?}", t.to_string()))
}
fn escape_matches(re: &str, lit: &str) -> bool {
    match regex::Regex::new(&format!("^(?:{})$", re)) {
        Ok(x) => x.is_match(lit) && (lit.is_empty() || !x.is_match(&lit[lit.chars().next().unwrap().len_utf8()..])),
        Err(_) => false,
    }
}

fn extensions(n: Node) -> Result<usize, Fail> {
    use lang_fall_syntax::*;
    let mut count = 0;
    let mut same = |what: &str, got: String, want: String| -> Res {
        count += 1;
        ensure!(got == want, "{} of {} is {}, expected {}", what, rn(n), got, want);
        Ok(())
    };
    if let Some(x) = LexRule::wrap(n) {
        let lits = kids(n, "STRING");
        let lit = lits.first().map(|l| text(*l));
        let raw = lit.as_ref().map_or(false, |l| l.starts_with('r'));
        if kid(n, "IDENT").is_some() {
            let want = match &lit {
                Some(l) if !raw => l.clone(),
                _ => text(kid(n, "IDENT").unwrap()),
            };
            same("token_name", x.token_name().to_string(), want)?;
        }
        same("token_text", show(x.token_text()), show(lit.as_ref().filter(|_| !raw).map(|l| body(l))))?;
        match (x.token_re(), &lit) {
            (Some(re), Some(l)) if !raw => ensure!(escape_matches(&re, body(l)), "the pattern {:?} of {:?} does not match it", re, l),
            (re, l) => same("token_re", show(re), show(l.as_ref().map(|l| body(l))))?,
        }
        same("extern_fn", show(x.extern_fn()), show(lits.get(1).map(|l| body(&text(*l)).to_string())))?;
        let a = attrs(n);
        same("is_contextual", x.is_contextual().to_string(), a.iter().any(|a| a.0 == "contextual").to_string())?;
        same("is_skip", x.is_skip().to_string(), a.iter().any(|a| a.0 == "skip").to_string())?;
    }
    if let Some(x) = SynRule::wrap(n) {
        let a = attrs(n);
        let has = |s: &str| a.iter().any(|a| a.0 == s);
        let public = kid(n, "PUB").is_some();
        same("is_pub", x.is_pub().to_string(), public.to_string())?;
        same("is_pratt", x.is_pratt().to_string(), has("pratt").to_string())?;
        same("is_replaceable", x.is_replaceable().to_string(), has("replaceable").to_string())?;
        same("is_replaces", x.is_replaces().to_string(), has("replaces").to_string())?;
        same("is_cached", x.is_cached().to_string(), has("cached").to_string())?;
        same("type_attr", x.type_attr().is_some().to_string(), has("type").to_string())?;
        let ty = if !public || has("pratt") {
            None
        } else if has("type") {
            a.iter().find(|a| a.0 == "type").unwrap().1.clone()
        } else {
            kid(n, "IDENT").map(text)
        };
        same("ty_name", show(x.ty_name()), show(ty))?;
    }
    if let Some(x) = VerbatimDef::wrap(n) {
        same("contents", show(x.contents()), show(kid(n, "HASH_STRING").map(|l| body(&text(l)).trim().to_string())))?;
    }
    if let Some(x) = TestDef::wrap(n) {
        same("contents", show(x.contents()), show(kid(n, "HASH_STRING").map(|l| body(&text(l)).trim().to_string())))?;
    }
    if let Some(x) = AstClassDef::wrap(n) {
        let ids = kids(n, "IDENT");
        same("name", show(x.name()), show(ids.first().map(|i| text(*i))))?;
        let want: Vec<String> = ids.iter().skip(1).map(|i| text(*i)).collect();
        same("variants", x.variants().map(|v| v.to_string()).collect::<Vec<_>>().join(" "), want.join(" "))?;
    }
    if let Some(x) = RefExpr::wrap(n) {
        same("reference_name", x.reference_name().to_string(), text(kid(n, "IDENT").or(kid(n, "SIMPLE_STRING")).unwrap()))?;
    }
    if let Some(x) = CallExpr::wrap(n) {
        if let Some(f) = kid(n, "IDENT").map(text) {
            let first = n.children().find(|c| name(*c).ends_with("_EXPR"));
            let want = if ["is_in", "enter", "exit"].contains(&f.as_str()) {
                first.and_then(|a| kid(a, "SIMPLE_STRING")).map(|s| body(&text(s)).to_string())
            } else { None };
            same("context_name", show(x.context_name()), show(want))?;
        }
    }
    if let Some(x) = Attribute::wrap(n) {
        let v = kid(n, "ATTRIBUTE_VALUE").map(text);
        same("text_value", show(x.text_value()), show(v.clone()))?;
        same("u32_value", show(x.u32_value()), show(v.and_then(|v| v.parse::<u32>().ok())))?;
    }
    if let Some(x) = Attributes::wrap(n) {
        for a in ["pratt", "skip", "type", "bin", "cached"] {
            let all = kids(n, "ATTRIBUTE");
            if all.iter().all(|a| kid(*a, "IDENT").is_some()) {
                let want = all.iter().find(|k| text(kid(**k, "IDENT").unwrap()) == a).map(|k| rn(*k));
                same("find", show(x.find(a).map(|a| rn(a.node()))), show(want.clone()))?;
                same("has_attribute", x.has_attribute(a).to_string(), want.is_some().to_string())?;
            }
        }
    }
    Ok(count)
}

fn c11(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let lang = *g.pick(&["fall", "rust"]);
    let l = langs::by_name(lang);
    let well_formed = |g: &mut Gen| if lang == "fall" { fallmodel::generate(g).text } else { rustmodel::generate(g).text };
    let text = match g.weighted(&[3, 3, 2]) {
        0 => well_formed(g),
        1 => {
            let mut s = well_formed(g);
            for _ in 0..g.range(1, 3) {
                s = l.mutate(g, s);
            }
            s
        }
        _ => l.text(g, 80),
    };
    ctx.describe(|| format!("{} text {:?}", lang, text));
    let f = l.language.parse(text.as_str());
    let mut answers = 0u64;
    let mut stack = vec![f.root()];
    while let Some(n) = stack.pop() {
        let mut got = Vec::new();
        let want = if lang == "fall" {
            probe_fall(n, &mut got);
            expected(n, FALL_NODES, FALL_CLASSES)
        } else {
            probe_rust(n, &mut got);
            expected(n, RUST_NODES, RUST_CLASSES)
        };
        for (a, b) in want.iter().zip(&got) {
            ensure!(a == b, "{}: expected `{}`, the typed interface says `{}`", rn(n), a, b);
            if a.ends_with("panic") {
                ctx.class("absent single child");
            }
        }
        ensure!(want.len() == got.len(), "{}: expected {:?}, the typed interface says {:?}", rn(n), want, got);
        answers += got.len() as u64;
        if lang == "fall" {
            answers += extensions(n)? as u64;
        }
        stack.extend(n.children());
    }
    ctx.evals += answers;
    ctx.class(if lang == "fall" { "fall" } else { "rust" });
    if has_error(&f) {
        ctx.class("with-errors");
    }
    if answers >= 8 {
        ctx.nontrivial(text);
    }
    Ok(())
}

pub const C11: Prop = Prop {
    id: "C11",
    rule: "at least 8 accessors or conversions answered; keyed by the text",
    run: c11,
    quick: 120_000,
    thorough: 3_000_000,
    tape: 600,
    threads: 0,
    exemplars: &[],
    assumptions: &["an accessor declared as always there panics when the child is missing"],
    min_nontrivial_pct: 20,
};
