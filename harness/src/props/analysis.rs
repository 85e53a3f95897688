//! What the analysis of grammar files says, against the model that printed the file.
use crate::driver::*;
use crate::ensure;
use crate::fallmodel::{self, Call, DeclKind, Model, Pratt, Role, R};
use crate::gen::Gen;
use crate::tree::*;
use fall_editor::{EditorFileImpl, Severity};
use fall_tree::search::subtree;
use fall_tree::{AstNode, Node, TextUnit};
use lang_fall::syntax::{AstNodeDef, CallExpr, MethodDef, RefExpr, SynRule};
use lang_fall::{Analysis, Arity, CallKind, ChildKind, FileWithAnalysis, MethodKind, PratVariant, RefKind};
use std::collections::{BTreeMap, BTreeSet};

fn tu(n: usize) -> TextUnit {
    fall_tree::tu(n as u32)
}

/// a generated file that parses without errors, or None
pub fn model(g: &mut Gen, ctx: &mut Ctx) -> Option<(Model, FileWithAnalysis)> {
    let m = fallmodel::generate(g);
    ctx.describe(|| format!("grammar file:\n{}", m.text));
    let f = lang_fall::analyse(m.text.clone());
    if has_error(f.file()) {
        ctx.class("does-not-parse");
        return None;
    }
    Some((m, f))
}

fn show(text: &str, r: R) -> String {
    format!("{:?} at [{}; {})", text.get(r.0..r.1).unwrap_or("<bad range>"), r.0, r.1)
}

fn nodes<'f, T: AstNode<'f>>(root: Node<'f>) -> Vec<T> {
    subtree(root).filter_map(T::wrap).collect()
}

fn ref_range(k: Option<RefKind>) -> Option<(u8, R)> {
    k.map(|k| match k {
        RefKind::RuleReference(x) => (0, r(x.node())),
        RefKind::Param(x) => (1, r(x.node())),
        RefKind::Token(x) => (2, r(x.node())),
    })
}

fn call_of(k: Option<CallKind>) -> Option<Call> {
    k.map(|k| match k {
        CallKind::Eof => Call::Simple("eof"),
        CallKind::Any => Call::Simple("any"),
        CallKind::Commit => Call::Simple("commit"),
        CallKind::Not(a) => Call::Not(r(a.node())),
        CallKind::Layer(a, b) => Call::Two("layer", r(a.node()), r(b.node())),
        CallKind::WithSkip(a, b) => Call::Two("with_skip", r(a.node()), r(b.node())),
        CallKind::Inject(a, b) => Call::Two("inject", r(a.node()), r(b.node())),
        CallKind::Enter(c, a) => Call::Enter(c, r(a.node())),
        CallKind::Exit(c, a) => Call::Exit(c, r(a.node())),
        CallKind::IsIn(c) => Call::IsIn(c),
        CallKind::PrevIs(rs) => Call::PrevIs(rs.iter().map(|x| r(x.node())).collect()),
        CallKind::RuleCall(rule, args) => {
            Call::Rule(r(rule.node()), args.iter().map(|(p, a)| (r(p.node()), r(a.node()))).collect())
        }
    })
}

fn pratt_of(v: Option<PratVariant>) -> Option<Pratt> {
    v.map(|v| match v {
        PratVariant::Atom(e) => Pratt::Atom(r(e.node())),
        PratVariant::Bin(o) => Pratt::Bin(r(o.op.node()), o.priority),
        PratVariant::Postfix(o) => Pratt::Postfix(r(o.op.node()), o.priority),
        PratVariant::Prefix(o) => Pratt::Prefix(r(o.op.node()), o.priority),
    })
}

fn method_of(v: Option<MethodKind>) -> Option<fallmodel::Method> {
    let ar = |a: Arity| match a {
        Arity::Single => "single",
        Arity::Optional => "optional",
        Arity::Many => "many",
    };
    v.map(|v| match v {
        MethodKind::NodeAccessor(ChildKind::AstNode(n), a) => ("node", r(n.node()), ar(a)),
        MethodKind::NodeAccessor(ChildKind::AstClass(n), a) => ("class", r(n.node()), ar(a)),
        MethodKind::NodeAccessor(ChildKind::Token(n), a) => ("token", r(n.node()), ar(a)),
        MethodKind::TextAccessor(n, a) => ("text", r(n.node()), ar(a)),
    })
}

// ------------------------------------------------------------------------------------ C19
fn c19(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let (m, f) = match model(g, ctx) {
        Some(x) => x,
        None => return Ok(()),
    };
    let text = &m.text;
    f.analyse(|a| -> Res {
        let root = a.ast().node();
        let by_range: BTreeMap<R, usize> = m.exprs.iter().enumerate()
            .filter(|(_, e)| matches!(e.kind, fallmodel::ExKind::Ref { .. } | fallmodel::ExKind::Call { .. }))
            .map(|(i, e)| (e.range, i)).collect();
        let mut refs = nodes::<RefExpr>(root);
        let mut calls = nodes::<CallExpr>(root);
        ensure!(refs.len() == m.ref_of.len() && calls.len() == m.calls.len(),
            "{} references and {} calls in the tree, {} and {} in the text", refs.len(), calls.len(), m.ref_of.len(), m.calls.len());
        if g.bool() {
            refs.reverse();
        }
        if g.bool() {
            calls.reverse();
        }
        for e in refs {
            let want = by_range.get(&r(e.node())).and_then(|i| m.ref_of.get(i));
            let want = match want {
                Some(w) => w,
                None => return Err(format!("unexpected reference {}", show(text, r(e.node()))).into()),
            };
            let want = want.map(|d| {
                let k = match d { DeclKind::Rule(_) => 0, DeclKind::Param(..) => 1, _ => 2 };
                (k, m.decls.iter().find(|x| x.kind == d).unwrap().node)
            });
            let got = ref_range(a.resolve_reference(e));
            ctx.evals += 1;
            ensure!(got == want, "reference {} resolves to {:?}, expected {:?} (0 rule, 1 parameter, 2 token)", show(text, r(e.node())), got, want);
        }
        for c in calls {
            let want = match by_range.get(&r(c.node())).and_then(|i| m.calls.get(i)) {
                Some(w) => w,
                None => return Err(format!("unexpected call {}", show(text, r(c.node()))).into()),
            };
            let got = call_of(a.resolve_call(c));
            ctx.evals += 1;
            ensure!(got == *want, "call {} resolves to {:?}, expected {:?}", show(text, r(c.node())), got, want);
        }
        let rules: BTreeMap<R, usize> = m.rules.iter().enumerate().map(|(i, x)| (x.range, i)).collect();
        for x in nodes::<SynRule>(root) {
            if let Some(&i) = rules.get(&r(x.node())) {
                let got = pratt_of(a.resolve_pratt_variant(x));
                ctx.evals += 1;
                ensure!(got == m.pratt[i], "rule {} is the operator {:?}, expected {:?}", m.rules[i].name, got, m.pratt[i]);
            } else {
                return Err(format!("unexpected rule {}", show(text, r(x.node()))).into());
            }
        }
        let methods: BTreeMap<R, usize> = m.methods.iter().enumerate().map(|(i, x)| (x.range, i)).collect();
        for x in nodes::<MethodDef>(root) {
            if let Some(&i) = methods.get(&r(x.node())) {
                let got = method_of(a.resolve_method(x));
                ctx.evals += 1;
                ensure!(got == m.method_of[i], "accessor {} resolves to {:?}, expected {:?}", show(text, m.methods[i].range), got, m.method_of[i]);
            } else {
                return Err(format!("unexpected accessor {}", show(text, r(x.node()))).into());
            }
        }
        let defs: BTreeMap<R, usize> = m.nodes.iter().enumerate().map(|(i, x)| (x.range, i)).collect();
        for x in nodes::<AstNodeDef>(root) {
            if let Some(&i) = defs.get(&r(x.node())) {
                let got: Vec<R> = a.ast_node_traits(x).iter().map(|t| r(t.node())).collect();
                ctx.evals += 1;
                ensure!(got == m.traits_of[i], "node {} has the traits {:?}, expected {:?}", m.nodes[i].name, got, m.traits_of[i]);
            } else {
                return Err(format!("unexpected node definition {}", show(text, r(x.node()))).into());
            }
        }
        Ok(())
    })?;
    // by position, as the editor asks
    let mut off = 0;
    while off <= text.len() {
        if text.is_char_boundary(off) {
            if let Some(t) = m.token_at(off) {
                let want = match t.role {
                    Role::Ref(i) => m.refs[i].target.map(|d| m.decls[d].nav),
                    Role::Method => {
                        off += 1;
                        continue;
                    }
                    _ => None,
                };
                let got = f.resolve_reference(tu(off)).map(|x| (x.start().utf8_len(), x.end().utf8_len()));
                ctx.evals += 1;
                ensure!(got == want, "go to definition at offset {} (token {}) leads to {:?}, expected {:?}",
                    off, show(text, (t.start, t.end)), got, want);
            }
        }
        off += 1;
    }
    if m.refs.iter().filter(|x| x.target.is_some()).count() >= 3 {
        ctx.nontrivial(text);
    }
    for (k, c) in [(0u8, "rule"), (1, "parameter"), (2, "token")] {
        if m.ref_of.values().any(|d| d.map_or(false, |d| match d { DeclKind::Rule(_) => 0, DeclKind::Param(..) => 1, _ => 2 } == k)) {
            ctx.class(c);
        }
    }
    if m.method_of.iter().any(|x| x.is_some()) {
        ctx.class("accessor");
    }
    if m.pratt.iter().any(|x| x.is_some()) {
        ctx.class("operator");
    }
    Ok(())
}
pub const C19: Prop = Prop {
    id: "C19",
    rule: "the file parses without errors and at least three of its references resolve; distinct texts",
    run: c19,
    quick: 250_000,
    thorough: 6_000_000,
    tape: 360,
    threads: 0,
    exemplars: &[],
    assumptions: &["positions strictly inside whitespace and on the names of accessors are not asserted"],
    min_nontrivial_pct: 20,
};

// ------------------------------------------------------------------------------------ C20
type D = (bool, usize, usize, String);
fn diags_of(f: &FileWithAnalysis) -> Vec<D> {
    f.diagnostics().into_iter().map(|d| {
        let e = match d.severity { Severity::Error => true, Severity::Warning => false };
        (e, d.range.start().utf8_len(), d.range.end().utf8_len(), d.message)
    }).collect()
}
fn sorted(mut v: Vec<D>) -> Vec<D> {
    v.sort();
    v
}
fn check_order(v: &[D]) -> Res {
    for w in v.windows(2) {
        ensure!((!w[0].0, w[0].1, w[0].2) <= (!w[1].0, w[1].1, w[1].2), "diagnostics out of order: {:?} before {:?}", w[0], w[1]);
    }
    Ok(())
}
fn minus(a: &[D], b: &[D]) -> Vec<D> {
    let mut b = b.to_vec();
    a.iter().filter(|x| match b.iter().position(|y| y == *x) {
        Some(i) => {
            b.remove(i);
            false
        }
        None => true,
    }).cloned().collect()
}

fn c20(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let (m, f) = match model(g, ctx) {
        Some(x) => x,
        None => return Ok(()),
    };
    let got = diags_of(&f);
    let want = sorted(m.diags.clone());
    if sorted(got.clone()) != want {
        return Err(format!("diagnostics not reported: {:?}\nunexpected diagnostics: {:?}", minus(&want, &got), minus(&got, &want)).into());
    }
    check_order(&got)?;
    if want.len() >= 2 {
        ctx.nontrivial(&m.text);
    }
    if want.is_empty() {
        ctx.class("clean");
    }
    for d in &want {
        for k in ["Unresolved reference", "Duplicate rule", "Duplicate token", "Unused rule", "Unresolved trait", "Wrong number",
            "Expected ", "Context should", "<prev_is>", "Atom rules", "Expression rule", "Postfix rule", "Prefix rule", "Binary expression requires a", "Binary expression requires e", "Context `"] {
            if d.3.starts_with(k) {
                ctx.class(k);
            }
        }
    }
    Ok(())
}
pub const C20: Prop = Prop {
    id: "C20",
    rule: "the file parses without errors and contains at least two reportable problems; distinct texts",
    run: c20,
    quick: 450_000,
    thorough: 12_000_000,
    tape: 360,
    threads: 0,
    exemplars: &[],
    assumptions: &["the order among diagnostics of the same severity and range is not asserted"],
    min_nontrivial_pct: 20,
};

// ------------------------------------------------------------------------------------ C21
fn c21(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let (m, f) = match model(g, ctx) {
        Some(x) => x,
        None => return Ok(()),
    };
    let text = &m.text;
    let usages = |off: usize| -> Vec<R> {
        let mut v: Vec<R> = f.find_usages(tu(off)).into_iter().map(|x| (x.start().utf8_len(), x.end().utf8_len())).collect();
        v.sort();
        v
    };
    let mut by_decl: Vec<Vec<R>> = vec![Vec::new(); m.decls.len()];
    for x in &m.refs {
        if let Some(d) = x.target {
            by_decl[d].push(x.range);
        }
    }
    for v in &mut by_decl {
        v.sort();
    }
    let mut many = 0;
    for off in 0..=text.len() {
        if !text.is_char_boundary(off) {
            continue;
        }
        let t = match m.token_at(off) {
            Some(t) => t,
            None => continue,
        };
        let d = match t.role {
            Role::Decl(d) => Some(d),
            Role::Ref(i) => m.refs[i].target,
            Role::Other => None,
            Role::Method => continue,
        };
        let want: &[R] = d.map_or(&[], |d| &by_decl[d]);
        let got = usages(off);
        ctx.evals += 1;
        ensure!(got == want, "usages asked for at offset {} (token {}): {:?}, expected {:?}", off, show(text, (t.start, t.end)),
            got.iter().map(|&x| show(text, x)).collect::<Vec<_>>(), want.iter().map(|&x| show(text, x)).collect::<Vec<_>>());
        // every usage leads back to the declaration
        for u in &got {
            let back = f.resolve_reference(tu(u.1)).map(|x| (x.start().utf8_len(), x.end().utf8_len()));
            ensure!(back == d.map(|d| m.decls[d].nav), "usage {} of {:?} resolves to {:?}", show(text, *u), d.map(|d| m.decls[d].nav), back);
        }
        many = many.max(want.len());
    }
    if many >= 2 {
        ctx.nontrivial(text);
    }
    ctx.max("usages", many as u64);
    Ok(())
}
pub const C21: Prop = Prop {
    id: "C21",
    rule: "the file parses without errors and some declaration has at least two usages; distinct texts",
    run: c21,
    quick: 110_000,
    thorough: 3_000_000,
    tape: 300,
    threads: 0,
    exemplars: &[],
    assumptions: &["positions strictly inside whitespace and on the names of accessors are not asserted"],
    min_nontrivial_pct: 20,
};

// ------------------------------------------------------------------------------------ C22
fn query(g: &mut Gen, a: &Analysis, log: &mut Vec<String>, answers: &mut BTreeMap<String, String>) -> Res {
    let root = a.ast().node();
    let (key, answer) = match g.below(6) {
        0 => {
            let v = nodes::<RefExpr>(root);
            if v.is_empty() {
                return Ok(());
            }
            let x = v[g.below(v.len())];
            (format!("reference {:?}", r(x.node())), format!("{:?}", ref_range(a.resolve_reference(x))))
        }
        1 => {
            let v = nodes::<CallExpr>(root);
            if v.is_empty() {
                return Ok(());
            }
            let x = v[g.below(v.len())];
            (format!("call {:?}", r(x.node())), format!("{:?}", call_of(a.resolve_call(x))))
        }
        2 => {
            let v = nodes::<SynRule>(root);
            if v.is_empty() {
                return Ok(());
            }
            let x = v[g.below(v.len())];
            (format!("operator {:?}", r(x.node())), format!("{:?}", pratt_of(a.resolve_pratt_variant(x))))
        }
        3 => {
            let v = nodes::<MethodDef>(root);
            if v.is_empty() {
                return Ok(());
            }
            let x = v[g.below(v.len())];
            (format!("accessor {:?}", r(x.node())), format!("{:?}", method_of(a.resolve_method(x))))
        }
        4 => {
            let v = nodes::<AstNodeDef>(root);
            if v.is_empty() {
                return Ok(());
            }
            let x = v[g.below(v.len())];
            (format!("traits {:?}", r(x.node())), format!("{:?}", a.ast_node_traits(x).iter().map(|t| r(t.node())).collect::<Vec<_>>()))
        }
        _ => ("diagnostics".into(), format!("{:?}", sorted(a.collect_all_diagnostics().into_iter().map(|d| {
            (matches!(d.severity, Severity::Error), d.range.start().utf8_len(), d.range.end().utf8_len(), d.message)
        }).collect()))),
    };
    log.push(key.clone());
    if let Some(before) = answers.get(&key) {
        ensure!(*before == answer, "{} answered {} first, then {}", key, before, answer);
    }
    answers.insert(key, answer);
    Ok(())
}

fn c22(g: &mut Gen, ctx: &mut Ctx) -> Res {
    // any text: files with errors count as well
    let text = if g.chance(2, 3) {
        let m = fallmodel::generate(g);
        if g.chance(1, 4) {
            crate::langs::by_name("fall").mutate(g, m.text)
        } else {
            m.text
        }
    } else {
        crate::langs::by_name("fall").text(g, 60)
    };
    ctx.describe(|| format!("text {:?}", text));
    let fresh = diags_of(&lang_fall::analyse(text.clone()));
    check_order(&fresh)?;
    let want = sorted(fresh);
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    let mut distinct = BTreeSet::new();
    for _ in 0..2 {
        let f = lang_fall::analyse(text.clone());
        let mut log = Vec::new();
        for _ in 0..g.range(1, 12) {
            match g.below(5) {
                0 => {
                    f.highlight();
                    log.push("highlight".to_string());
                }
                1 => {
                    let mut off = g.below(text.len() + 1);
                    while !text.is_char_boundary(off) {
                        off -= 1;
                    }
                    if g.bool() {
                        f.find_usages(tu(off));
                    } else {
                        f.resolve_reference(tu(off));
                    }
                    log.push(format!("usages / definition at {}", off));
                }
                _ => {
                    // answers of different files with the same text agree as well
                    f.analyse(|a| query(g, a, &mut log, &mut seen))?
                }
            }
            ctx.evals += 1;
        }
        let got = diags_of(&f);
        check_order(&got)?;
        if sorted(got.clone()) != want {
            return Err(format!("after the queries {:?}\nmissing diagnostics: {:?}\nadditional diagnostics: {:?}", log, minus(&want, &got), minus(&got, &want)).into());
        }
        let again = diags_of(&f);
        ensure!(sorted(again) == want, "asking twice for the diagnostics gives different answers");
        distinct.extend(log);
    }
    if want.len() >= 1 && distinct.len() >= 3 {
        ctx.nontrivial((&text, &distinct));
    }
    Ok(())
}
pub const C22: Prop = Prop {
    id: "C22",
    rule: "the file has at least one diagnostic and at least three different queries were made; distinct (text, queries)",
    run: c22,
    quick: 170_000,
    thorough: 6_000_000,
    tape: 360,
    threads: 0,
    exemplars: &[],
    assumptions: &["the order among diagnostics of the same severity and range is not asserted"],
    min_nontrivial_pct: 8,
};
