//! The generator: random grammars printed as `.fall` files, translated, compiled, run in a child
//! process, and compared with the reference interpreter of the grammar they were printed from.
use crate::driver::*;
use crate::dynlang::{self, *};
use crate::ensure;
use crate::gen::Gen;
use crate::gengram;
use crate::model::{Grammar, Pratt, E};
use crate::refeng;
use crate::tree::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::sync::OnceLock;
use std::time::Duration;

// ------------------------------------------------------------------------------------ model
#[derive(Clone, Copy, PartialEq, Debug)]
enum Arity {
    Single,
    Optional,
    Many,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Child_ {
    Ty(usize),
    Class(usize),
}

#[derive(Clone, Debug)]
struct Method {
    name: String,
    child: Child_,
    arity: Arity,
    text: bool,
}

#[derive(Clone, Debug)]
struct Node_ {
    ty: usize,
    traits: Vec<usize>,
    methods: Vec<Method>,
}

#[derive(Clone, Debug)]
struct Class {
    name: String,
    variants: Vec<Child_>,
}

#[derive(Clone, Debug, Default)]
struct Ast {
    nodes: Vec<Node_>,
    classes: Vec<Class>,
    traits: Vec<(String, Vec<Method>)>,
}

pub struct Module {
    pub gr: Grammar,
    binder: Binder,
    /// source names of types
    ty_names: Vec<String>,
    pub src: String,
    ast: Ast,
    /// the generated parser, or what went wrong
    pub rust: Result<String, String>,
}

fn camel(s: &str) -> String {
    s.split('_').map(|w| w.chars().take(1).map(|c| c.to_ascii_uppercase()).chain(w.chars().skip(1)).collect::<String>()).collect()
}

/// a second type folded into the first one: `#[type(a)]`
fn merge(gr: &mut Grammar, a: usize, b: usize) {
    let f = |t: &mut usize| if *t == b { *t = a };
    for e in gr.rules.iter_mut() {
        match e {
            E::Pub { ty, .. } | E::PubReplace { ty, .. } => f(ty),
            E::PrevIs(ts) => ts.iter_mut().for_each(f),
            E::Pratt(Pratt { prefixes, infixes, .. }) => {
                prefixes.iter_mut().for_each(|p| f(&mut p.0));
                infixes.iter_mut().for_each(|p| f(&mut p.0));
            }
            _ => {}
        }
    }
}

struct Printer<'a> {
    gr: &'a Grammar,
    n_rules: usize,
    /// rule of an expression
    rule_name: BTreeMap<usize, String>,
    /// name of a rule with the type
    by_ty: &'a [String],
    literal: Vec<bool>,
    params: BTreeMap<usize, Vec<usize>>,
    param_names: HashMap<usize, String>,
    ctx_names: Vec<&'static str>,
}

impl<'a> Printer<'a> {
    fn tok(&self, t: usize) -> String {
        if self.literal[t] { format!("'{}'", TOKS[t - FIRST_TOK].0) } else { self.by_ty[t].clone() }
    }

    /// something that can be followed by `*` or `?` or be an argument
    fn atom(&self, e: usize, g: &mut Gen) -> String {
        let x = self.expr(e, g);
        match self.gr.rules[e] {
            E::And(..) | E::Rep(_) | E::Opt(_) if !self.rule_name.contains_key(&e) && !x.starts_with('{') => format!("{{ {} }}", x),
            _ => if g.chance(1, 12) { format!("{{{}}}", x) } else { x },
        }
    }

    /// the parts of a sequence, without braces
    fn seq(&self, e: usize, g: &mut Gen) -> String {
        if self.rule_name.contains_key(&e) {
            return self.expr(e, g);
        }
        match &self.gr.rules[e] {
            E::And(parts, commit) => {
                let mut v: Vec<String> = parts.iter().map(|&p| self.expr(p, g)).collect();
                if let Some(c) = commit {
                    v.insert(*c, "<commit>".into());
                }
                v.join(if g.chance(1, 8) { "\n  " } else { " " })
            }
            _ => self.expr(e, g),
        }
    }

    fn block(&self, e: usize, g: &mut Gen) -> String {
        if !self.rule_name.contains_key(&e) {
            if let E::Or(xs) = &self.gr.rules[e] {
                if xs.is_empty() {
                    return "{ <not {}> }".into();
                }
                let alts: Vec<String> = xs.iter().map(|&x| {
                    let s = self.seq(x, g);
                    if s.is_empty() { "{}".into() } else { s }
                }).collect();
                return format!("{{ {} }}", alts.join(" | "));
            }
        }
        format!("{{ {} }}", self.seq(e, g))
    }

    fn expr(&self, e: usize, g: &mut Gen) -> String {
        if let Some(n) = self.rule_name.get(&e) {
            return n.clone();
        }
        match &self.gr.rules[e] {
            E::Pub { .. } | E::PubReplace { .. } | E::Pratt(_) | E::Cached(_) => unreachable!("only rules"),
            E::Or(_) | E::And(..) => self.block(e, g),
            E::Token(t) => self.tok(*t),
            E::CtxToken(_, s) => format!("'{}'", s),
            E::Rep(x) => format!("{}*", self.atom(*x, g)),
            E::Opt(x) => format!("{}?", self.atom(*x, g)),
            E::WithSkip(a, b) => format!("<with_skip {} {}>", self.arg(*a, g), self.arg(*b, g)),
            E::Layer(a, b) => format!("<layer {} {}>", self.arg(*a, g), self.arg(*b, g)),
            E::Inject(a, b) => format!("<inject {} {}>", self.arg(*a, g), self.arg(*b, g)),
            E::Not(x) => format!("<not {}>", self.arg(*x, g)),
            E::Eof => "<eof>".into(),
            E::Any => "<any>".into(),
            E::Enter(c, x) => format!("<enter '{}' {}>", self.ctx_names[*c], self.arg(*x, g)),
            E::Exit(c, x) => format!("<exit '{}' {}>", self.ctx_names[*c], self.arg(*x, g)),
            E::IsIn(c) => format!("<is_in '{}'>", self.ctx_names[*c]),
            E::PrevIs(ts) => format!("<prev_is {}>", ts.iter().map(|&t| self.by_ty[t].clone()).collect::<Vec<_>>().join(" ")),
            E::Call(k, args) => {
                let ps = &self.params[k];
                let v: Vec<String> = ps.iter().map(|p| self.arg(args.iter().find(|a| a.0 == *p).unwrap().1, g)).collect();
                format!("<{} {}>", self.rule_name[k], v.join(" "))
            }
            E::Var(a) => self.param_names[a].clone(),
        }
    }

    fn arg(&self, e: usize, g: &mut Gen) -> String {
        // `x*` may stand as an argument, too
        if g.bool() { self.atom(e, g) } else { self.expr(e, g) }
    }
}

fn vars(gr: &Grammar, e: usize, n: usize, out: &mut BTreeSet<usize>) {
    if e < n {
        return;
    }
    body_vars(gr, e, n, out)
}

fn body_vars(gr: &Grammar, e: usize, n: usize, out: &mut BTreeSet<usize>) {
    let mut go = |x: usize| vars(gr, x, n, out);
    match &gr.rules[e] {
        E::Pub { body, .. } | E::PubReplace { body, .. } => go(*body),
        E::Or(xs) | E::And(xs, _) => xs.iter().for_each(|&x| go(x)),
        E::Rep(x) | E::Opt(x) | E::Not(x) | E::Enter(_, x) | E::Exit(_, x) | E::Cached(x) => go(*x),
        E::WithSkip(a, b) | E::Layer(a, b) | E::Inject(a, b) => {
            go(*a);
            go(*b)
        }
        E::Call(_, args) => args.iter().for_each(|&(_, x)| go(x)),
        E::Pratt(p) => {
            p.atoms.iter().for_each(|&x| go(x));
            p.prefixes.iter().for_each(|x| go(x.1));
            p.infixes.iter().for_each(|x| go(x.1));
        }
        E::Var(a) => {
            out.insert(*a);
        }
        _ => {}
    }
}

const BINDER_BODIES: &[&str] = &[
    "0",
    "if leading && even { sp.iter().rev().take_while(|s| s.1.matches('\\n').count() < 2).count() } \
     else if !leading && !even { sp.iter().take_while(|s| !s.1.contains('\\n')).count() } else { 0 }",
    "sp.len()",
    "sp.len().min(1)",
];

fn print(g: &mut Gen, gr: &Grammar, n_rules: usize, ty_names: &[String], own: &BTreeMap<usize, String>, binder: usize, ast: &Ast) -> String {
    // names of rules
    let mut rule_name: BTreeMap<usize, String> = BTreeMap::new();
    let mut params: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (i, e) in gr.rules.iter().enumerate() {
        match e {
            E::Pub { ty, .. } | E::PubReplace { ty, .. } => {
                rule_name.insert(i, own.get(&i).unwrap_or(&ty_names[*ty]).clone());
            }
            _ if i < n_rules => {
                rule_name.insert(i, format!("{}{}", g.pick(&["r", "rule_", "R", "body", "x"]), i));
            }
            _ => {}
        }
        if let E::Call(k, args) = e {
            params.insert(*k, args.iter().map(|a| a.0).collect());
        }
    }
    let mut param_names = HashMap::new();
    for i in 0..n_rules {
        let mut vs = BTreeSet::new();
        body_vars(gr, i, n_rules, &mut vs);
        let ps = params.entry(i).or_insert_with(|| vs.into_iter().collect());
        // names may be the same in different rules
        let pool: Vec<&str> = if g.bool() { vec!["x", "y", "z"] } else { vec!["el", "body", "sep"] };
        for (j, p) in ps.iter().enumerate() {
            param_names.insert(*p, pool[j].to_string());
        }
    }
    let literal: Vec<bool> = (0..FIRST_TOK + TOKS.len()).map(|t| t >= FIRST_TOK && t < WORD && g.chance(2, 3)).collect();
    let p = Printer {
        gr, n_rules, rule_name, by_ty: ty_names, literal, params, param_names,
        ctx_names: g.pick(&[["c0", "c1", "c2"], ["zz", "in loop", "a"], ["a", "ab", "abb"], ["xab", "ab", "b"]]).to_vec(),
    };

    // the tokenizer
    let mut lex: Vec<String> = Vec::new();
    lex.push(format!("#[skip] {} r\"\\s+\"", ty_names[WS]));
    let fn_comment = g.chance(1, 3);
    lex.push(if fn_comment {
        format!("#[skip] {} r\"#\" {}", ty_names[COMMENT], g.pick(&["'parse_comment'", "r\"parse_comment\""]))
    } else {
        format!("#[skip] {} r\"#[^\\n]*\\n?\"", ty_names[COMMENT])
    });
    for (i, t) in TOKS.iter().enumerate() {
        let t_ix = FIRST_TOK + i;
        lex.push(if p.literal[t_ix] {
            format!("{} '{}'", ty_names[t_ix], t.0)
        } else {
            match g.below(3) {
                0 => format!("{} r#\"{}\"#", ty_names[t_ix], t.1),
                1 if t_ix == NUM => format!("{} r\"\\d+\"", ty_names[t_ix]).replace("\\d", "[0-9]"),
                _ => format!("{} r\"{}\"", ty_names[t_ix], t.1),
            }
        });
    }
    let mut out = String::new();
    for (t, s) in CTX {
        let at = g.below(lex.len() + 1);
        lex.insert(at, format!("#[contextual] {} '{}'", ty_names[*t], s));
    }
    out.push_str(&format!("tokenizer {{\n  {}\n}}\n\n", lex.join("\n  ")));

    // rules
    let mut rules: Vec<String> = Vec::new();
    let attr = |own: &BTreeMap<usize, String>, i: usize, ty: usize| own.get(&i).map(|_| format!("type({})", ty_names[ty]));
    for i in 0..gr.rules.len() {
        let (mut attrs, head, body): (Vec<String>, String, String) = match &gr.rules[i] {
            E::Pub { ty, body, replaceable } => {
                let mut a: Vec<String> = attr(own, i, *ty).into_iter().collect();
                let mut b = *body;
                if let E::Cached(x) = gr.rules[b] {
                    a.push("cached".into());
                    b = x;
                }
                if *replaceable {
                    a.push("replaceable".into());
                }
                (a, "pub rule".into(), p.block(b, g))
            }
            E::PubReplace { ty, body } => {
                let mut a: Vec<String> = attr(own, i, *ty).into_iter().collect();
                a.push("replaces".into());
                (a, "pub rule".into(), p.block(*body, g))
            }
            E::Pratt(pr) if i < n_rules => {
                let name = &p.rule_name[&i];
                let mut ops: Vec<String> = Vec::new();
                for (j, (ty, op, prio)) in pr.prefixes.iter().enumerate() {
                    let a = if *prio == 999 && g.bool() { "prefix".into() } else { format!("prefix({})", prio) };
                    let key = gr.rules.len() + i * 64 + j;
                    let t = attr(own, key, *ty).map(|t| format!(", {}", t)).unwrap_or_default();
                    let n = own.get(&key).unwrap_or(&ty_names[*ty]);
                    ops.push(n.clone());
                    rules.push(format!("#[{}{}]\npub rule {} {{ {} {} }}", a, t, n, p.arg(*op, g), name));
                }
                let n_pre = ops.len();
                for (j, (ty, op, prio, rhs)) in pr.infixes.iter().enumerate() {
                    let a = if *rhs { format!("bin({})", prio) } else if *prio == 999 && g.bool() { "postfix".into() } else { format!("postfix({})", prio) };
                    let key = gr.rules.len() + i * 64 + 32 + j;
                    let t = attr(own, key, *ty).map(|t| format!("{}, ", t)).unwrap_or_default();
                    let n = own.get(&key).unwrap_or(&ty_names[*ty]);
                    ops.push(n.clone());
                    rules.push(if *rhs {
                        format!("#[{}{}]\npub rule {} {{ {} {} {} }}", t, a, n, name, p.arg(*op, g), name)
                    } else {
                        format!("#[{}{}]\npub rule {} {{ {} {} }}", t, a, n, name, p.arg(*op, g))
                    });
                }
                // atoms, prefixes and infixes each in their order, mixed with each other
                let mut lists = [pr.atoms.iter().map(|a| p.rule_name[a].clone()).collect::<Vec<_>>(), ops[..n_pre].to_vec(), ops[n_pre..].to_vec()];
                let mut alts = Vec::new();
                while lists.iter().any(|l| !l.is_empty()) {
                    let k = g.below(3);
                    let k = (0..3).map(|d| (k + d) % 3).find(|&k| !lists[k].is_empty()).unwrap();
                    alts.push(lists[k].remove(0));
                }
                (vec!["pratt".into()], "rule".into(), format!("{{ {} }}", alts.join(" | ")))
            }
            // a private rule is a choice of one
            E::Or(xs) if i < n_rules => (vec![], "rule".into(), p.block(xs[0], g)),
            E::Cached(x) if i < n_rules => (vec!["cached".into()], "rule".into(), p.block(*x, g)),
            _ if i < n_rules => unreachable!("unknown rule shape"),
            _ => continue,
        };
        if gr.rules.iter().any(|e| matches!(e, E::Pratt(pr) if pr.atoms.contains(&i))) {
            attrs.push("atom".into());
        }
        let attrs = match attrs.len() {
            0 => String::new(),
            _ => format!("#[{}]\n", attrs.join(", ")),
        };
        let ps = match p.params.get(&i) {
            Some(ps) if !ps.is_empty() => format!("({})", ps.iter().map(|a| p.param_names[a].clone()).collect::<Vec<_>>().join(", ")),
            _ => String::new(),
        };
        let r = format!("{}{} {}{} {}", attrs, head, p.rule_name[&i], ps, body);
        if i == 0 {
            out.push_str(&r);
            out.push_str("\n\n");
        } else {
            rules.push(r);
        }
    }
    if g.chance(1, 6) {
        // contexts and parameters of rules nobody uses: the others get higher numbers
        let t = p.tok(FIRST_TOK);
        let c: Vec<String> = (0..g.range(12, 20)).map(|i| format!("<enter '{}{}' {}>", g.pick(&["a", "q"]), i, t)).collect();
        rules.push(format!("rule many_contexts {{ {} }}", c.join(" | ")));
        for i in 0..g.range(3, 7) {
            rules.push(format!("rule many_parameters{}(x, y, z) {{ x y z }}", i));
        }
    }
    for i in (1..rules.len()).rev() {
        let j = g.below(i + 1);
        rules.swap(i, j);
    }

    let mut extra: Vec<String> = Vec::new();
    if binder > 0 || fn_comment {
        let mut v = String::new();
        if fn_comment {
            v.push_str("fn parse_comment(s: &str) -> Option<usize> { Some(s.find('\\n').map_or(s.len(), |i| i + 1)) }\n");
        }
        if binder > 0 {
            let even: Vec<String> = (1..ty_names.len()).filter(|i| i % 2 == 0 && !ty_names[*i].is_empty()).map(|i| ty_names[i].to_uppercase()).collect();
            v.push_str(&format!(
                "fn whitespace_binder(ty: rt::NodeType, sp: Vec<(rt::NodeType, &str)>, leading: bool) -> usize {{\n  let even = [{}].contains(&ty) || ty == ERROR;\n  {}\n}}\n",
                even.join(", "), BINDER_BODIES[binder]
            ));
        }
        extra.push(format!("verbatim r##\"\n{}\"##", v));
    }
    if !ast.nodes.is_empty() {
        let name = |c: Child_| match c {
            Child_::Ty(t) => ty_names[t].clone(),
            Child_::Class(c) => ast.classes[c].name.clone(),
        };
        let method = |m: &Method| {
            let suffix = match (m.arity, m.text) {
                (Arity::Single, false) => "",
                (Arity::Single, true) => ".text",
                (Arity::Optional, false) => "?",
                (Arity::Optional, true) => "?.text",
                (Arity::Many, _) => "*",
            };
            format!("    {} {}{}\n", m.name, name(m.child), suffix)
        };
        let mut items: Vec<String> = Vec::new();
        for n in &ast.nodes {
            let tr = if n.traits.is_empty() { String::new() } else {
                format!(": {}", n.traits.iter().map(|&t| ast.traits[t].0.clone()).collect::<Vec<_>>().join(", "))
            };
            items.push(format!("  node {}{} {{\n{}  }}\n", ty_names[n.ty], tr, n.methods.iter().map(&method).collect::<String>()));
        }
        for c in &ast.classes {
            items.push(format!("  class {} {{ {} }}\n", c.name, c.variants.iter().map(|&v| name(v)).collect::<Vec<_>>().join(" ")));
        }
        for t in &ast.traits {
            items.push(format!("  trait {} {{\n{}  }}\n", t.0, t.1.iter().map(&method).collect::<String>()));
        }
        for i in (1..items.len()).rev() {
            let j = g.below(i + 1);
            items.swap(i, j);
        }
        extra.push(format!("ast {{\n{}}}", items.concat()));
    }
    for x in extra {
        let at = g.below(rules.len() + 1);
        rules.insert(at, x);
    }
    out.push_str(&rules.join("\n\n"));
    out.push('\n');
    out
}

/// types of what may stand directly below a node
fn kids_of(gr: &Grammar, ty: usize) -> Vec<usize> {
    fn go(gr: &Grammar, e: usize, seen: &mut BTreeSet<usize>, out: &mut BTreeSet<usize>) {
        if !seen.insert(e) {
            return;
        }
        match &gr.rules[e] {
            E::Pub { ty, .. } | E::PubReplace { ty, .. } => {
                out.insert(*ty);
            }
            E::Token(t) | E::CtxToken(t, _) => {
                out.insert(*t);
            }
            E::Or(xs) | E::And(xs, _) => xs.iter().for_each(|&x| go(gr, x, seen, out)),
            E::Rep(x) | E::Opt(x) | E::Enter(_, x) | E::Exit(_, x) | E::Cached(x) => go(gr, *x, seen, out),
            E::WithSkip(_, b) | E::Layer(_, b) | E::Inject(_, b) => go(gr, *b, seen, out),
            E::Call(k, args) => {
                go(gr, *k, seen, out);
                args.iter().for_each(|a| go(gr, a.1, seen, out));
            }
            E::Pratt(p) => {
                p.atoms.iter().for_each(|&x| go(gr, x, seen, out));
                out.extend(p.prefixes.iter().map(|x| x.0));
                out.extend(p.infixes.iter().map(|x| x.0));
            }
            _ => {}
        }
    }
    let mut out = BTreeSet::new();
    for (i, e) in gr.rules.iter().enumerate() {
        match e {
            E::Pub { ty: t, body, .. } | E::PubReplace { ty: t, body } if *t == ty => go(gr, *body, &mut BTreeSet::new(), &mut out),
            E::Pratt(p) => {
                for (t, op) in p.prefixes.iter().map(|x| (x.0, x.1)).chain(p.infixes.iter().map(|x| (x.0, x.1))) {
                    if t == ty {
                        go(gr, op, &mut BTreeSet::new(), &mut out);
                        go(gr, i, &mut BTreeSet::new(), &mut out);
                    }
                }
            }
            _ => {}
        }
    }
    out.into_iter().collect()
}

fn random_ast(g: &mut Gen, gr: &Grammar, node_types: &[usize]) -> Ast {
    let mut ast = Ast::default();
    let n_traits = g.below(3);
    // nodes: types of rules, now and then of a token
    let mut tys: Vec<usize> = node_types.iter().cloned().filter(|_| g.chance(4, 5)).collect();
    for t in [WORD, NUM, LPAREN] {
        if g.chance(1, 4) {
            tys.push(t);
        }
    }
    if tys.is_empty() {
        tys.push(node_types[0]);
    }
    let mut n_methods = 0;
    let n_classes = g.below(4);
    for c in 0..n_classes {
        let mut variants = Vec::new();
        for &t in &tys {
            if g.chance(1, 3) {
                variants.push(Child_::Ty(t));
            }
        }
        for d in 0..c {
            if g.chance(1, 5) {
                variants.push(Child_::Class(d));
            }
        }
        if variants.is_empty() {
            variants.push(Child_::Ty(tys[0]));
        }
        for i in (1..variants.len()).rev() {
            let j = g.below(i + 1);
            variants.swap(i, j);
        }
        ast.classes.push(Class { name: format!("{}{}", g.pick(&["kind_", "k", "any_k"]), c), variants });
    }
    let classes = ast.classes.clone();
    let mut method = |g: &mut Gen, kids: &[usize]| {
        n_methods += 1;
        let is_node = |t: usize| tys.contains(&t);
        let below: Vec<usize> = (0..n_classes).filter(|&c| classes[c].variants.iter().any(|v| matches!(v, Child_::Ty(t) if kids.contains(t)))).collect();
        let child = if !kids.is_empty() && g.chance(3, 4) {
            if !below.is_empty() && g.chance(2, 5) { Child_::Class(*g.pick(&below)) } else { Child_::Ty(*g.pick(kids)) }
        } else { match g.weighted(&[4, if n_classes > 0 { 3 } else { 0 }, 4]) {
            0 => Child_::Ty(*g.pick(&tys)),
            1 => Child_::Class(g.below(n_classes)),
            _ => Child_::Ty(*g.pick(&[FIRST_TOK, FIRST_TOK + 1, FIRST_TOK + 2, WORD, NUM, PLUS, LPAREN, RPAREN, CTX_KW, CTX_SHL, WS, COMMENT])),
        } };
        let token = matches!(child, Child_::Ty(t) if !is_node(t));
        let arity = match g.weighted(&[2, 4, if token { 0 } else { 4 }]) {
            0 => Arity::Single,
            1 => Arity::Optional,
            _ => Arity::Many,
        };
        Method { name: format!("m{}", n_methods), child, arity, text: token && g.bool() }
    };
    for t in 0..n_traits {
        let n = g.range(0, 2);
        let ms = (0..n).map(|_| method(g, &[])).collect();
        ast.traits.push((format!("{}{}", g.pick(&["tr", "with_x", "T"]), t), ms));
    }
    for &ty in &tys {
        let n = g.range(0, 4);
        let kids: Vec<usize> = kids_of(gr, ty).into_iter().filter(|k| *k < FIRST_NODE || tys.contains(k)).collect();
        let methods = (0..n).map(|_| method(g, &kids)).collect();
        let traits = (0..n_traits).filter(|_| g.chance(1, 3)).collect();
        ast.nodes.push(Node_ { ty, traits, methods });
    }
    ast
}

fn glue(ast: &Ast, names: &[String]) -> String {
    let ty = |t: usize| camel(&names[t]);
    let call = |m: &Method, x: &str| -> String {
        let rep = |v: &str| match (m.text, m.child) {
            (true, _) => format!("format!(\"{{:?}}\", {}.to_string())", v),
            (_, Child_::Ty(t)) if ast.nodes.iter().any(|n| n.ty == t) => format!("rn({}.node())", v),
            (_, Child_::Ty(_)) => format!("rn({})", v),
            (_, Child_::Class(c)) => format!("rc{}({})", c, v),
        };
        let body = match m.arity {
            Arity::Single => rep(x),
            Arity::Optional => format!("match {} {{ None => \"none\".to_string(), Some(v) => {} }}", x, rep("v")),
            Arity::Many => format!("{}.map(|v| {}).collect::<Vec<_>>().join(\",\")", x, rep("v")),
        };
        format!("out.push(format!(\"{}={{}}\", guard(|| {{ {} }})));\n", m.name, body)
    };
    let mut s = String::from("fn rn(n: rt::Node) -> String { crate::rn(n) }\nuse crate::guard;\n");
    for (i, c) in ast.classes.iter().enumerate() {
        let e = camel(&c.name);
        s.push_str(&format!("fn rc{}(c: {}) -> String {{ match c {{\n", i, e));
        for v in &c.variants {
            s.push_str(&match v {
                Child_::Ty(t) => format!("{}::{}(v) => format!(\"{}/{{}}\", rn(v.node())),\n", e, ty(*t), ty(*t)),
                Child_::Class(d) => format!("{}::{}(v) => format!(\"{}/{{}}\", rc{}(v)),\n", e, camel(&ast.classes[*d].name), camel(&ast.classes[*d].name), d),
            });
        }
        s.push_str("} }\n");
    }
    for (i, (name, ms)) in ast.traits.iter().enumerate() {
        s.push_str(&format!("fn rt{}<'f, X: {}<'f>>(x: &X, out: &mut Vec<String>) {{\n", i, camel(name)));
        for m in ms {
            s.push_str(&call(m, &format!("x.{}()", m.name)));
        }
        s.push_str("}\n");
    }
    s.push_str("pub fn probe(n: rt::Node, out: &mut Vec<String>) {\n");
    for n in &ast.nodes {
        s.push_str(&format!(
            "if let Some(x) = {0}::wrap(n) {{ out.push(format!(\"{0} {{:?}} {{}}\", x, x.node() == n));\n",
            ty(n.ty)
        ));
        for m in &n.methods {
            s.push_str(&call(m, &format!("x.{}()", m.name)));
        }
        for t in &n.traits {
            s.push_str(&format!("rt{}(&x, out);\n", t));
        }
        s.push_str("}\n");
    }
    for (i, c) in ast.classes.iter().enumerate() {
        s.push_str(&format!(
            "if let Some(x) = {0}::wrap(n) {{ out.push(format!(\"{0} {{:?}} {{}} {{}}\", x, rc{1}(x), x.node() == n)); }}\n",
            camel(&c.name), i
        ));
    }
    s.push_str("}\n");
    s
}

pub fn module(g: &mut Gen, with_ast: bool) -> Module {
    let cached = g.chance(1, 3);
    let big = g.bool();
    let o = gengram::Opts { cached, contexts: !cached, big, wide: false };
    let (mut gr, n_rules) = gengram::grammar_rules(g, &o);
    // what has no spelling: a choice of nothing
    let n = gr.rules.len();
    for i in 0..n {
        if gr.rules[i] == E::Or(vec![]) {
            gr.rules.push(E::And(vec![], None));
            gr.rules[i] = E::Not(gr.rules.len() - 1);
        }
    }
    let stems = ["n", "node_", "Expr", "a_b_", "list", "x_", "глава_"];
    let tok_stems = ["t", "tok_", "T_", "sym", "mötley_"];
    let mut ty_names: Vec<String> = vec![String::new()];
    let (st, ts) = (*g.pick(&stems), *g.pick(&tok_stems));
    let fixed = g.bool();
    for i in 1..gr.n_types {
        ty_names.push(if i < FIRST_NODE {
            format!("{}{}", if fixed { ts } else { *g.pick(&tok_stems) }, i)
        } else {
            format!("{}{}", if fixed { st } else { *g.pick(&stems) }, i)
        });
    }
    // rules that share the type of another one
    let mut own: BTreeMap<usize, String> = BTreeMap::new();
    let root_ty = match gr.rules[0] {
        E::Pub { ty, .. } => ty,
        _ => unreachable!(),
    };
    let mut slots: Vec<(usize, usize)> = Vec::new();
    for (i, e) in gr.rules.iter().enumerate() {
        match e {
            E::Pub { ty, .. } | E::PubReplace { ty, .. } => slots.push((i, *ty)),
            E::Pratt(p) => {
                for (j, x) in p.prefixes.iter().enumerate() {
                    slots.push((gr.rules.len() + i * 64 + j, x.0));
                }
                for (j, x) in p.infixes.iter().enumerate() {
                    slots.push((gr.rules.len() + i * 64 + 32 + j, x.0));
                }
            }
            _ => {}
        }
    }
    slots.retain(|s| s.1 != root_ty);
    let merges = if g.chance(1, 3) && slots.len() >= 2 { g.range(1, 2) } else { 0 };
    for _ in 0..merges {
        let (a, b) = (*g.pick(&slots), *g.pick(&slots));
        // the name must belong to a rule that has the type by itself
        if a.1 != b.1 && !own.contains_key(&a.0) && !own.contains_key(&b.0) && !own.values().any(|n| *n == ty_names[a.1] || *n == ty_names[b.1]) {
            let target_used = gr_has_merge(&own, &slots, b.1);
            if target_used {
                continue;
            }
            own.insert(b.0, ty_names[b.1].clone());
            merge(&mut gr, a.1, b.1);
            for s in slots.iter_mut() {
                if s.1 == b.1 {
                    s.1 = a.1;
                }
            }
            ty_names[b.1] = String::new();
        }
    }
    let mut node_types: Vec<usize> = slots.iter().map(|s| s.1).collect();
    node_types.push(root_ty);
    node_types.sort();
    node_types.dedup();
    let bi = g.below(BINDERS.len());
    let ast = if with_ast { random_ast(g, &gr, &node_types) } else { Ast::default() };
    let src = print(g, &gr, n_rules, &ty_names, &own, bi, &ast);
    let rust = match guarded(|| lang_fall::analyse(src.clone()).analyse(fall_gen::generate).map_err(|e| format!("the generator refuses the grammar: {}", e))) {
        Ok(r) => r,
        Err(p) => Err(format!("the generator panics: {}", p)),
    };
    Module { gr, binder: BINDERS[bi], ty_names, src, ast, rust }
}

/// is the type already shared by somebody
fn gr_has_merge(own: &BTreeMap<usize, String>, slots: &[(usize, usize)], ty: usize) -> bool {
    slots.iter().any(|s| s.1 == ty && own.contains_key(&s.0))
}


// ------------------------------------------------------------------------------------ building
struct Batch {
    modules: Vec<Module>,
    exe: PathBuf,
    with_ast: bool,
    /// per module: why it cannot be asked
    broken: Vec<Option<String>>,
}

static BATCH: OnceLock<Batch> = OnceLock::new();

const SERVER: &str = r##"
#![allow(warnings)]
use fall_parse::runtime as rt;
use fall_tree::{tu, TextEditBuilder, TextRange};
use serde_json::{json, Value};
use std::io::{BufRead, Write};

pub fn rn(n: rt::Node) -> String {
    format!("{}@{}-{}", n.file().language().node_type_info(n.ty()).name, n.range().start().utf8_len(), n.range().end().utf8_len())
}
pub fn guard(f: impl FnOnce() -> String) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".to_string())
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        for line in stdin.lock().lines() {
            let line = match line { Ok(l) => l, Err(_) => return };
            let q: Value = serde_json::from_str(&line).unwrap();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| answer(&q)));
            let r = match r {
                Ok(v) => v,
                Err(e) => json!({ "panic": e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())) }),
            };
            if writeln!(out, "{}", r).is_err() { return; }
            let _ = out.flush();
        }
    }).unwrap().join().unwrap();
}
fn answer(q: &Value) -> Value {
    let k = q[0].as_u64().unwrap() as usize;
    let mut file = MODULES[k].0().parse(q[1].as_str().unwrap());
    for e in q[2].as_array().unwrap() {
        let n = |i: usize| tu(e[i].as_u64().unwrap() as u32);
        let edit = {
            let mut b = TextEditBuilder::new(file.text());
            b.replace(TextRange::from_to(n(0), n(1)), e[2].as_str().unwrap());
            b.build()
        };
        file = file.edit(&edit);
    }
    let mut tree = Vec::new();
    let mut probes = Vec::new();
    go(file.root(), 0, &mut tree, &mut probes, MODULES[k].1);
    json!({ "tree": tree, "probes": probes, "text": file.text().to_string() })
}
fn go(n: rt::Node, depth: u32, tree: &mut Vec<Value>, probes: &mut Vec<Value>, probe: fn(rt::Node, &mut Vec<String>)) {
    let info = n.file().language().node_type_info(n.ty());
    tree.push(json!([depth, info.name, info.whitespace_like, n.range().start().utf8_len(), n.range().end().utf8_len()]));
    let mut v = Vec::new();
    probe(n, &mut v);
    probes.push(json!(v));
    for c in n.children() {
        go(c, depth + 1, tree, probes, probe);
    }
}
"##;

fn tape(seed: u64, salt: &str, i: u64) -> Vec<u32> {
    // splitmix64
    let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ hash_of(&salt) ^ (i << 32);
    (0..600).map(|_| {
        x = x.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        (z ^ (z >> 31)) as u32
    }).collect()
}

/// builds the parsers before the search starts
pub fn prepare(id: &str, seed: u64, tier: &str) {
    super::backend::prepare(id);
    if id == "C34" {
        super::render::prepare();
    }
    if id != "C16" && id != "C17" {
        return;
    }
    let with_ast = id == "C17";
    let n = if tier == "thorough" { 1500 } else if with_ast { 150 } else { 250 };
    let mut modules = Vec::new();
    for i in 0..n {
        let t = tape(seed, id, i);
        let mut g = Gen::new(&t);
        modules.push(module(&mut g, with_ast));
    }
    let mut broken: Vec<Option<String>> = modules.iter().map(|m| m.rust.as_ref().err().cloned()).collect();
    let dir = verif_dir().join("target").join(format!("generated-{}", id.to_lowercase()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::copy(verif_dir().join("harness/Cargo.lock"), dir.join("Cargo.lock")).unwrap();
    let name = format!("generated_{}", id.to_lowercase());
    std::fs::write(dir.join("Cargo.toml"), format!(
        "[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[workspace]\n\n[dependencies]\n\
         fall_tree = {{ path = \"/repo/fall/tree\" }}\nfall_parse = {{ path = \"/repo/fall/parse\" }}\nserde_json = \"1\"\nregex = \"=1.3.9\"\n\n\
         [profile.release]\nopt-level = 2\ndebug = 0\ndebug-assertions = true\noverflow-checks = true\nincremental = false\ncodegen-units = 16\n\n\
         [profile.release.package.{}]\nopt-level = 0\n",
        name, name
    )).unwrap();
    for (i, m) in modules.iter().enumerate() {
        if let Ok(r) = &m.rust {
            std::fs::write(dir.join(format!("src/m{}.rs", i)), format!("use fall_parse;\n{}\n", r)).unwrap();
            let probe = if with_ast { glue(&m.ast, &m.ty_names) } else { "pub fn probe(_: rt::Node, _: &mut Vec<String>) {}\n".into() };
            let f = dir.join(format!("src/m{}.rs", i));
            let mut s = std::fs::read_to_string(&f).unwrap();
            s.push_str("\n// glue\n");
            s.push_str(&probe);
            std::fs::write(&f, s).unwrap();
        }
    }
    let exe = verif_dir().join("target/release").join(&name);
    for _ in 0..6 {
        let mut main = String::from(SERVER);
        for i in (0..modules.len()).filter(|&i| broken[i].is_none()) {
            main.push_str(&format!("mod m{};\n", i));
        }
        main.push_str("static MODULES: &[(fn() -> &'static rt::Language, fn(rt::Node, &mut Vec<String>))] = &[\n");
        for i in 0..modules.len() {
            main.push_str(&if broken[i].is_none() { format!("(m{0}::language, m{0}::probe),\n", i) } else { "(|| unreachable!(), |_, _| ()),\n".into() });
        }
        main.push_str("];\n");
        std::fs::write(dir.join("src/main.rs"), main).unwrap();
        let _ = std::fs::remove_file(&exe);
        let out = Command::new("cargo")
            .args(["build", "--release", "--offline", "--message-format", "short", "--manifest-path"])
            .arg(dir.join("Cargo.toml"))
            .env("CARGO_TARGET_DIR", verif_dir().join("target"))
            .output()
            .unwrap();
        if out.status.success() {
            break;
        }
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        let mut found = false;
        for l in err.lines().filter(|l| l.contains("error")) {
            if let Some(rest) = l.trim().strip_prefix("src/m") {
                let k: Option<usize> = rest.split('.').next().and_then(|k| k.parse().ok());
                if let Some(k) = k {
                    if broken[k].is_none() {
                        found = true;
                        broken[k] = Some(format!("the generated parser does not compile: {}", l));
                    }
                }
            }
        }
        if !found {
            eprintln!("internal: the generated parsers cannot be built\n{}", &err[err.len().saturating_sub(3000)..]);
            std::process::exit(4);
        }
    }
    if !exe.exists() {
        eprintln!("internal: the generated parsers cannot be built");
        std::process::exit(4);
    }
    BATCH.set(Batch { modules, exe, with_ast, broken }).ok().unwrap();
}

// ------------------------------------------------------------------------------------ asking
struct Server {
    child: Child,
    to: ChildStdin,
    from: Receiver<String>,
}

thread_local! {
    static SERVER_: std::cell::RefCell<Option<Server>> = std::cell::RefCell::new(None);
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn ask(b: &Batch, q: &Value) -> Result<Value, Fail> {
    SERVER_.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let mut child = Command::new(&b.exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
            let to = child.stdin.take().unwrap();
            let from = child.stdout.take().unwrap();
            let (tx, rx) = channel();
            std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
                for l in BufReader::new(from).lines() {
                    match l {
                        Ok(l) => if tx.send(l).is_err() { return },
                        Err(_) => return,
                    }
                }
            }).unwrap();
            *s = Some(Server { child, to, from: rx });
        }
        let srv = s.as_mut().unwrap();
        let sent = writeln!(srv.to, "{}", q).and_then(|_| srv.to.flush());
        let r = if sent.is_err() { None } else { srv.from.recv_timeout(Duration::from_secs(40)).ok() };
        match r {
            Some(l) => Ok(serde_json::from_str(&l).unwrap()),
            None => {
                *s = None;
                Err("the generated parser dies or does not answer within 40 s".into())
            }
        }
    })
}

/// the tree expected for a text, as (depth, type index, start, end)
pub fn expected(m: &Module, text: &str) -> Option<(Vec<Snap>, usize, usize, bool)> {
    let file_ty = match m.gr.rules[0] {
        E::Pub { ty, .. } => ty,
        _ => unreachable!(),
    };
    let raw = refeng::lex(text);
    let toks: Vec<_> = raw.iter().filter(|t| !dynlang::is_ws(t.ty)).cloned().collect();
    let mut r = refeng::Ref::new(&m.gr, text, &toks, 20_000);
    let want = r.file().ok()?;
    let nf = r.features.len();
    Some((refeng::place(&want, &raw, text, file_ty, m.binder), toks.len(), nf, !r.nonlocal))
}

pub fn name_of(m: &Module, ty: u32) -> String {
    match idx(fall_tree::NodeType(ty)) {
        0 => "ERROR".into(),
        i => m.ty_names[i].to_uppercase(),
    }
}

fn show(t: &[(u64, String, usize, usize)], text: &str) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        let leaf = t.get(i + 1).map_or(true, |n| n.0 <= x.0);
        s.push_str(&"  ".repeat(x.0 as usize));
        s.push_str(&x.1);
        if leaf {
            s.push_str(&format!(" {:?}", text.get(x.2..x.3).unwrap_or("<bad range>")));
        }
        s.push('\n');
    }
    s
}

/// asks for the tree of a text, possibly reached by edits, and compares
fn run_text(g: &mut Gen, ctx: &mut Ctx, b: &Batch, k: usize) -> Result<Option<(Vec<Snap>, Value, String, usize, usize)>, Fail> {
    let m = &b.modules[k];
    let text = gengram::text(g, &m.gr, 30);
    let mut edits = Vec::new();
    let mut before = Vec::new();
    let mut last = text.clone();
    if g.chance(1, 4) {
        for _ in 0..g.range(1, 2) {
            before.push(last.clone());
            let (s, e) = crate::langs::span(g, &last);
            let ins = match g.below(3) {
                0 => String::new(),
                1 => gengram::token(g),
                _ => format!(" {} ", gengram::token(g)),
            };
            last.replace_range(s..e, &ins);
            edits.push(json!([s, e, ins]));
        }
    }
    ctx.describe(|| format!("grammar {}\n{}\ntext {:?}{}", k, m.src, text, if edits.is_empty() { String::new() } else { format!("\nedits {}", Value::Array(edits.clone())) }));
    if let Some(e) = &b.broken[k] {
        return Err(e.as_str().into());
    }
    let (want, ntoks, nf, _) = match expected(m, &last) {
        Some(w) => w,
        None => {
            ctx.class("too-expensive");
            return Ok(None);
        }
    };
    // every intermediate text has to be affordable
    for s in &before {
        match expected(m, s) {
            None => {
                ctx.class("too-expensive");
                return Ok(None);
            }
            // reuse is only specified for rules that do not look past their own match
            Some((_, _, _, false)) => {
                ctx.class("reuse-not-local");
                return Ok(None);
            }
            _ => {}
        }
    }
    let n_edits = edits.len();
    let v = ask(b, &json!([k, text, edits]))?;
    ctx.evals += 1;
    if v["tree"].is_null() {
        return Err(format!("the generated parser panics: {}", v["panic"]).into());
    }
    ensure!(v["text"].as_str() == Some(&last), "the text of the file is {} and not {:?}", v["text"], last);
    let got: Vec<(u64, String, usize, usize)> = v["tree"].as_array().unwrap().iter().map(|x| {
        (x[0].as_u64().unwrap(), x[1].as_str().unwrap().to_string(), x[3].as_u64().unwrap() as usize, x[4].as_u64().unwrap() as usize)
    }).collect();
    let exp: Vec<(u64, String, usize, usize)> = want.iter().map(|x| (x.depth as u64, name_of(m, x.ty), x.start, x.end)).collect();
    if got != exp {
        let i = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or_else(|| got.len().min(exp.len()));
        return Err(format!("the tree is not the one the grammar file describes; first difference at node {}\nexpected:\n{}\nactual:\n{}", i, show(&exp, &last), show(&got, &last)).into());
    }
    for (x, w) in v["tree"].as_array().unwrap().iter().zip(&want) {
        ensure!(x[2].as_bool() == Some(is_ws(idx(fall_tree::NodeType(w.ty)))), "{} is whitespace-like: {}", x[1], x[2]);
    }
    if n_edits > 0 {
        ctx.class("edited");
    }
    Ok(Some((want, v["probes"].clone(), last, ntoks, nf)))
}

fn c16(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let b = BATCH.get().unwrap();
    let k = g.below(b.modules.len());
    for _ in 0..3 {
        if let Some((want, _, text, ntoks, nf)) = run_text(g, ctx, b, k)? {
            if ntoks >= 3 && nf >= 2 {
                ctx.nontrivial(hash_of(&(k, text, want.len())));
            }
        }
    }
    let src = &b.modules[k].src;
    for (c, s) in [("type", "#[type("), ("pratt", "pratt]"), ("cached", "cached"), ("replaceable", "replaceable"), ("binder", "whitespace_binder"), ("custom token", "parse_comment"), ("injection", "<inject"), ("context", "<is_in"), ("priority of prefix", "prefix(")] {
        if src.contains(s) {
            ctx.class(c);
        }
    }
    Ok(())
}

fn expected_probe(m: &Module, want: &[Snap], text: &str) -> Vec<Vec<String>> {
    let ast = &m.ast;
    let ty = |s: &Snap| idx(fall_tree::NodeType(s.ty));
    let struct_name = |t: usize| camel(&m.ty_names[t]);
    let rn = |s: &Snap| format!("{}@{}-{}", name_of(m, s.ty), s.start, s.end);
    // the path of variants by which a class holds a node
    fn class(m: &Module, c: usize, t: usize) -> Option<String> {
        for v in &m.ast.classes[c].variants {
            match v {
                Child_::Ty(x) if *x == t => return Some(format!("{}/", camel(&m.ty_names[t]))),
                Child_::Class(d) => {
                    if let Some(p) = class(m, *d, t) {
                        return Some(format!("{}/{}", camel(&m.ast.classes[*d].name), p));
                    }
                }
                _ => {}
            }
        }
        None
    }
    let first_variant = |c: usize, t: usize| class(m, c, t).map(|p| p.split('/').next().unwrap().to_string());
    let mut out = Vec::new();
    for (i, s) in want.iter().enumerate() {
        let kids: Vec<&Snap> = want[i + 1..].iter().take_while(|x| x.depth > s.depth).filter(|x| x.depth == s.depth + 1).collect();
        let mut v = Vec::new();
        let ask = |me: &Method| -> String {
            let rep = |x: &Snap| -> Option<String> {
                match me.child {
                    Child_::Ty(t) if ty(x) == t => Some(if me.text { format!("{:?}", &text[x.start..x.end]) } else { rn(x) }),
                    Child_::Ty(_) => None,
                    Child_::Class(c) => class(m, c, ty(x)).map(|p| format!("{}{}", p, rn(x))),
                }
            };
            let all: Vec<String> = kids.iter().filter_map(|k| rep(k)).collect();
            let r = match me.arity {
                Arity::Single => all.first().cloned().unwrap_or("panic".into()),
                Arity::Optional => all.first().cloned().unwrap_or("none".into()),
                Arity::Many => all.join(","),
            };
            format!("{}={}", me.name, r)
        };
        for n in &ast.nodes {
            if n.ty == ty(s) {
                let name = struct_name(n.ty);
                v.push(format!("{} {}@[{}; {}) true", name, name, s.start, s.end));
                v.extend(n.methods.iter().map(|me| ask(me)));
                for &t in &n.traits {
                    v.extend(ast.traits[t].1.iter().map(|me| ask(me)));
                }
            }
        }
        for (c, cl) in ast.classes.iter().enumerate() {
            if let Some(p) = class(m, c, ty(s)) {
                v.push(format!("{} {}@[{}; {}) {}{} true", camel(&cl.name), first_variant(c, ty(s)).unwrap(), s.start, s.end, p, rn(s)));
            }
        }
        out.push(v);
    }
    out
}

fn c17(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let b = BATCH.get().unwrap();
    let k = g.below(b.modules.len());
    let m = &b.modules[k];
    for _ in 0..3 {
        if let Some((want, probes, text, _, _)) = run_text(g, ctx, b, k)? {
            let exp = expected_probe(m, &want, &text);
            let mut answers = 0;
            for ((w, e), p) in want.iter().zip(&exp).zip(probes.as_array().unwrap()) {
                let p: Vec<&str> = p.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
                for (a, b) in e.iter().zip(&p) {
                    ensure!(a == b, "node {}@{}-{}: expected `{}`, the generated code says `{}`", name_of(m, w.ty), w.start, w.end, a, b);
                    if a.ends_with("panic") {
                        ctx.class("absent single child");
                    } else if a.contains('/') {
                        ctx.class("class");
                    } else if a.contains(',') {
                        ctx.class("many");
                    }
                    answers += 1;
                }
                ensure!(e.len() == p.len(), "node {}@{}-{}: expected {:?}, the generated code says {:?}", name_of(m, w.ty), w.start, w.end, e, p);
            }
            ctx.evals += answers;
            if answers >= 8 {
                ctx.nontrivial(hash_of(&(k, text)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ C18
fn words(s: &str) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut start = None;
    for (i, c) in s.char_indices().chain(std::iter::once((s.len(), ' '))) {
        if c.is_alphanumeric() || c == '_' {
            start.get_or_insert(i);
        } else if let Some(b) = start.take() {
            v.push((b, i));
        }
    }
    v
}

pub fn grammar_text(g: &mut Gen) -> (String, bool) {
    let lang = crate::langs::by_name("fall");
    let (mut s, kind) = match g.weighted(&[3, 4, 1]) {
        0 => (crate::fallmodel::generate(g).text, 0),
        1 => {
            let ast = g.bool();
            (module(g, ast).src, 0)
        }
        _ => (lang.text(g, 80), 1),
    };
    if kind == 1 || g.chance(1, 4) {
        return (s, false);
    }
    let n = g.weighted(&[2, 6, 3, 1]);
    for _ in 0..n {
        match g.weighted(&[6, 1, 2]) {
            0 => {
                let w = words(&s);
                if w.is_empty() {
                    continue;
                }
                let (a, b) = *g.pick(&w);
                let with = match g.below(3) {
                    0 => g.pick(&["commit", "eof", "any", "not", "prev_is", "is_in", "enter", "layer", "with_skip", "inject", "type", "replaces", "replaceable",
                        "pratt", "bin", "atom", "prefix", "postfix", "cached", "skip", "contextual", "pub", "rule", "ast", "node", "class", "trait", "text", "1", "99999999999", "Ω", "_"]).to_string(),
                    _ => {
                        let (c, d) = *g.pick(&w);
                        s[c..d].to_string()
                    }
                };
                s.replace_range(a..b, &with);
            }
            1 => s = lang.mutate(g, s),
            _ => {
                // drop or copy one punctuation mark
                let at: Vec<usize> = s.char_indices().filter(|(_, c)| c.is_ascii_punctuation()).map(|(i, _)| i).collect();
                if !at.is_empty() {
                    let i = *g.pick(&at);
                    let c = s[i..i + 1].to_string();
                    match g.below(3) {
                        0 => s.replace_range(i..i + 1, ""),
                        1 => s.insert_str(i, &c),
                        _ => s.replace_range(i..i + 1, g.pick(&["*", "?", "{", "}", "<", ">", "|", "'", ".", "(", "#"])),
                    }
                }
            }
        }
    }
    (s, n == 0)
}

pub fn outcome(text: &str, diagnostics_first: bool) -> Result<Result<String, String>, Fail> {
    guarded(|| {
        let f = lang_fall::analyse(text.to_string());
        f.analyse(|a| {
            if diagnostics_first {
                a.collect_all_diagnostics();
            }
            fall_gen::generate(a).map_err(|e| e.to_string())
        })
    })
    .map_err(|p| format!("the generator {}", p).into())
}

/// what may stand between two tokens of a grammar without changing its meaning
const COMMENTS: &[&str] = &[
    " ", "\n", "\n\n", " // c\n", "\t", "\r\n", " // whitespace_binder\n", "\n// fn whitespace_binder(ty: rt::NodeType) -> usize\n", " // verbatim r\"x\"\n",
    " // <commit>\n", " // #[pratt] #[cached] #[replaceable] #[contextual] #[skip]\n", " // pub rule x { 'a' <commit> }\n", " // test r\"x\"\n", " // ast { node x { } }\n",
    " // 'q\n", " // {\n", " // }\n", " // <is_in 'c0'>\n", " //\n", " ////\n", " // \u{436}\n", " // parse_raw_string\n", " // tokenizer { x 'y' }\n",
];

fn c18(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let (text, _) = grammar_text(g);
    ctx.describe(|| format!("grammar\n{}", text));
    let a = outcome(&text, false)?;
    let b = outcome(&text, true)?;
    ensure!(a == b, "generating twice gives different results:\n{:?}\n{:?}", a, b);
    match &a {
        Err(e) => {
            ctx.class("refused");
            ensure!(!e.is_empty(), "the generator refuses the grammar without saying why");
        }
        Ok(rust) => {
            ctx.class("generated");
            // layout and comments do not matter
            let f = lang_fall::analyse(text.clone());
            let mut cuts: Vec<usize> = Vec::new();
            if !has_error(f.file()) {
                for n in snap(f.file()) {
                    cuts.push(n.end);
                }
            }
            // literals keep their text, and a comment ends where its line ends
            let leaves = lexemes(f.file());
            cuts.retain(|c| leaves.iter().any(|l| l.1 == *c && !l.2) );
            if !cuts.is_empty() {
                let mut spaced = text.clone();
                let mut at: Vec<usize> = (0..g.range(1, 5)).map(|_| *g.pick(&cuts)).collect();
                at.sort();
                at.dedup();
                for c in at.into_iter().rev() {
                    spaced.insert_str(c, g.pick(COMMENTS));
                }
                ctx.describe(|| format!("with other layout\n{}", spaced));
                match outcome(&spaced, false)? {
                    Ok(r) => ensure!(&r == rust, "the layout of the grammar changes the generated parser"),
                    Err(e) => return Err(format!("the layout of the grammar makes the generator refuse it: {}", e).into()),
                }
                ctx.class("layout");
            }
        }
    }
    if text.len() > 60 && text.contains("rule") {
        ctx.nontrivial(text);
    }
    Ok(())
}

/// (start, end, is a comment)
fn lexemes(f: &fall_tree::File) -> Vec<(usize, usize, bool)> {
    let comment = crate::langs::by_name("fall").ty("EOL_COMMENT");
    let mut out = Vec::new();
    fn go(n: fall_tree::Node, comment: fall_tree::NodeType, out: &mut Vec<(usize, usize, bool)>) {
        if n.children().next().is_none() {
            let (s, e) = r(n);
            if s < e {
                out.push((s, e, n.ty() == comment));
            }
        }
        for c in n.children() {
            go(c, comment, out)
        }
    }
    go(f.root(), comment, &mut out);
    out
}

pub const C18: Prop = Prop {
    id: "C18",
    rule: "the grammar has a rule and more than 60 bytes; keyed by its text",
    run: c18,
    quick: 60_000,
    thorough: 2_500_000,
    tape: 700,
    threads: 0,
    exemplars: &[],
    assumptions: &[],
    min_nontrivial_pct: 30,
};

pub const C16: Prop = Prop {
    id: "C16",
    rule: "at least 3 tokens and at least two grammar features took part in the parse; keyed by grammar and text",
    run: c16,
    quick: 120_000,
    thorough: 1_500_000,
    tape: 200,
    threads: 0,
    exemplars: &[],
    assumptions: &["random grammars are free of left recursion, of repetition of empty matches, and inject nodes into nodes"],
    min_nontrivial_pct: 5,
};

pub const C17: Prop = Prop {
    id: "C17",
    rule: "at least 8 accessors or conversions answered; keyed by grammar and text",
    run: c17,
    quick: 60_000,
    thorough: 2_000_000,
    tape: 200,
    threads: 0,
    exemplars: &[],
    assumptions: &["accessors are declared as the generator allows them: no repetition or text of nodes for tokens and nodes respectively"],
    min_nontrivial_pct: 5,
};
