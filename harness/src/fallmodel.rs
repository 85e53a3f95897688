//! Well-formed grammar files with what the analysis has to say about them, by construction:
//! every reference, declaration, call, diagnostic, highlight and structure entry is recorded
//! with its range while the text is printed, and names are resolved on the abstract file.
use crate::gen::Gen;
use std::collections::{BTreeMap, BTreeSet};

pub type R = (usize, usize);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Other,
    /// inside reference number n
    Ref(usize),
    /// a position from which the declaration itself is found
    Decl(usize),
    /// the name of an accessor
    Method,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub start: usize,
    pub end: usize,
    pub role: Role,
    pub test: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum DeclKind {
    Rule(usize),
    Param(usize, usize),
    Lex(usize),
    Node(usize),
    Class(usize),
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub kind: DeclKind,
    pub nav: R,
    pub node: R,
}

#[derive(Clone, Debug)]
pub struct RefM {
    pub range: R,
    pub target: Option<usize>,
}

#[derive(Clone, Debug)]
pub enum ExKind {
    Ref { name: String },
    Call { name: String, ident: R, la: R, ra: R, args: Vec<usize> },
    Block { alts: Vec<Vec<usize>> },
    Opt(usize),
    Rep(usize),
}

#[derive(Clone, Debug)]
pub struct Ex {
    pub kind: ExKind,
    pub range: R,
    pub rule: usize,
    /// the call this expression is the first argument of
    pub first_arg_of: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct RuleM {
    pub range: R,
    pub name: String,
    pub name_range: R,
    pub attrs: Vec<(String, Option<String>)>,
    pub public: bool,
    pub params: Option<Vec<(String, R)>>,
    pub body: usize,
}

#[derive(Clone, Debug)]
pub struct LexM {
    pub range: R,
    pub name: String,
    pub name_range: R,
    pub re: String,
}

#[derive(Clone, Debug)]
pub struct MethodM {
    pub range: R,
    pub child: String,
    pub child_range: R,
    pub sel_range: R,
    pub suffix: usize,
}

#[derive(Clone, Debug)]
pub struct NamedM {
    pub range: R,
    pub name: String,
    pub name_range: R,
    /// traits of a node
    pub traits: Vec<(String, R)>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Call {
    Simple(&'static str),
    Not(R),
    Two(&'static str, R, R),
    Enter(u32, R),
    Exit(u32, R),
    IsIn(u32),
    PrevIs(Vec<R>),
    Rule(R, Vec<(R, R)>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Pratt {
    Atom(R),
    Bin(R, u32),
    Postfix(R, u32),
    Prefix(R, u32),
}

/// accessor: kind ("node", "class", "token", "text"), range of the target, arity
pub type Method = (&'static str, R, &'static str);

#[derive(Default)]
pub struct Model {
    pub text: String,
    pub toks: Vec<Tok>,
    pub trivia: Vec<(R, bool)>,
    pub rules: Vec<RuleM>,
    pub lexes: Vec<LexM>,
    pub nodes: Vec<NamedM>,
    pub classes: Vec<NamedM>,
    pub traits: Vec<NamedM>,
    pub methods: Vec<MethodM>,
    pub exprs: Vec<Ex>,
    pub tests: Vec<(R, String)>,
    pub has_ast: bool,
    pub decls: Vec<Decl>,
    pub refs: Vec<RefM>,
    /// (is error, start, end, message)
    pub diags: Vec<(bool, usize, usize, String)>,
    pub hls: Vec<(usize, usize, &'static str)>,
    pub structure: Vec<(String, usize, usize)>,
    pub contexts: Vec<String>,
    /// per expression that is a reference: what it denotes
    pub ref_of: BTreeMap<usize, Option<DeclKind>>,
    pub calls: BTreeMap<usize, Option<Call>>,
    pub pratt: Vec<Option<Pratt>>,
    pub method_of: Vec<Option<Method>>,
    pub traits_of: Vec<Vec<R>>,
}

const NAMES: &[&str] = &["foo", "bar", "baz", "x", "y", "num", "expr", "tok", "w1", "\u{44f}z"];
const MISSING: &[&str] = &["quux", "nope"];
const LITS: &[&str] = &["'+'", "'-'", "'foo'", "'c'", "'d'", "'<'", "'\u{44f}'"];
const CTXS: &[&str] = &["'c'", "'d'", "'ctx'", "'+'"];
const HASHES: &[&str] = &["r\"\\d+\"", "r\"x\"", "r#\"a\"b\"#", "r##\"\"#\"##", "r\" \u{44f} \"", "r\"\n rule x {} \n\""];
const ATTRS: &[&str] = &["cached", "pratt", "replaceable", "replaces", "skip", "foo"];
const BUILTINS: &[(&str, usize)] = &[
    ("any", 0), ("commit", 0), ("eof", 0), ("not", 1), ("is_in", 1), ("layer", 2), ("with_skip", 2),
    ("inject", 2), ("enter", 2), ("exit", 2), ("prev_is", 1),
];

struct P<'g, 't> {
    g: &'g mut Gen<'t>,
    m: Model,
    style: usize,
    test: Option<usize>,
    fuel: usize,
    rule_names: Vec<String>,
    param_names: Vec<String>,
    rule_arity: Vec<Option<usize>>,
    tok_names: Vec<String>,
}

impl<'g, 't> P<'g, 't> {
    fn trivia(&mut self, next: &str) {
        let word = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric() || c == '_');
        let need = word(self.m.text.chars().next_back()) && word(next.chars().next());
        let p: &[&str] = match self.style {
            0 => &[" "],
            1 => &["", "", "", " ", "\n"],
            2 => &[" ", "\n", "  \n\t", ""],
            _ => &["", " ", "\n  ", "// c\n", " // \u{44f} 'x'\n ", "//\n//\n"],
        };
        let mut s = self.g.pick(p).to_string();
        if need && s.is_empty() {
            s = " ".into();
        }
        self.push_trivia(&s);
    }
    fn push_trivia(&mut self, s: &str) {
        // whitespace and comments alternate
        let mut i = 0;
        while i < s.len() {
            let rest = &s[i..];
            let comment = rest.starts_with("//");
            let n = if comment {
                rest.find('\n').unwrap_or(rest.len())
            } else {
                rest.find("//").unwrap_or(rest.len())
            };
            let start = self.m.text.len();
            self.m.text.push_str(&rest[..n]);
            if comment {
                self.m.hls.push((start, start + n, "comment"));
            }
            match self.m.trivia.last_mut() {
                Some(l) if !comment && !l.1 && l.0 .1 == start => l.0 .1 = start + n,
                _ => self.m.trivia.push(((start, start + n), comment)),
            }
            i += n;
        }
    }
    fn t(&mut self, s: &str) -> R {
        self.trivia(s);
        let start = self.m.text.len();
        self.m.text.push_str(s);
        let r = (start, self.m.text.len());
        self.m.toks.push(Tok { start, end: r.1, role: Role::Other, test: self.test });
        if s.starts_with('\'') || s.starts_with("r\"") || s.starts_with("r#") {
            self.m.hls.push((r.0, r.1, "string"));
        }
        r
    }
    fn kw(&mut self, s: &str) -> R {
        let r = self.t(s);
        self.m.hls.push((r.0, r.1, "keyword"));
        r
    }
    fn hl(&mut self, r: R, tag: &'static str) {
        self.m.hls.push((r.0, r.1, tag));
    }
    /// start of the next token is only known once it is printed: ranges start at token number n
    fn mark(&self) -> usize {
        self.m.toks.len()
    }
    fn since(&self, mark: usize) -> R {
        (self.m.toks[mark].start, self.m.toks.last().unwrap().end)
    }

    fn attrs(&mut self, list: &[(String, Option<String>)]) {
        if list.is_empty() {
            return;
        }
        let k = self.mark();
        self.t("#");
        self.t("[");
        for (i, (n, v)) in list.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.t(n);
            if let Some(v) = v {
                self.t("(");
                self.t(v);
                self.t(")");
            }
        }
        if self.g.chance(1, 6) {
            self.t(",");
        }
        self.t("]");
        let r = self.since(k);
        self.hl(r, "attribute");
    }

    fn name_for_ref(&mut self) -> String {
        match self.g.weighted(&[4, 3, 3, 4, 1, 1]) {
            0 if !self.rule_names.is_empty() => self.g.pick(&self.rule_names).clone(),
            1 if !self.tok_names.is_empty() => self.g.pick(&self.tok_names).clone(),
            2 if !self.param_names.is_empty() => self.g.pick(&self.param_names).clone(),
            3 => self.g.pick(LITS).to_string(),
            4 => self.g.pick(MISSING).to_string(),
            _ => self.g.pick(NAMES).to_string(),
        }
    }

    fn push(&mut self, kind: ExKind, range: R, rule: usize) -> usize {
        self.m.exprs.push(Ex { kind, range, rule, first_arg_of: None });
        self.m.exprs.len() - 1
    }

    fn expr(&mut self, rule: usize, depth: usize) -> usize {
        let k = self.mark();
        let simple = self.fuel == 0 || depth > 5;
        self.fuel = self.fuel.saturating_sub(1);
        let mut e = match if simple { 0 } else { self.g.weighted(&[8, 6, 2]) } {
            1 => {
                let la = self.t("<");
                let kind = self.g.weighted(&[5, 4, 3, 1]);
                let (name, mut n) = match kind {
                    0 => {
                        let &(n, k) = self.g.pick(BUILTINS);
                        (n.to_string(), k)
                    }
                    1 => {
                        let &(n, k) = self.g.pick(&[("is_in", 1), ("enter", 2), ("exit", 2), ("prev_is", 2)]);
                        (n.to_string(), k)
                    }
                    2 if !self.rule_names.is_empty() => {
                        let i = self.g.below(self.rule_names.len());
                        (self.rule_names[i].clone(), self.rule_arity[i].unwrap_or(1))
                    }
                    _ => (self.g.pick(&["abracadabra", "foo", "num"]).to_string(), self.g.below(3)),
                };
                if self.g.chance(1, 8) {
                    n = self.g.below(4);
                }
                let ident = self.t(&name);
                let mut args = Vec::new();
                let ctx = name == "is_in" || name == "enter" || name == "exit";
                for i in 0..n {
                    let a = if i == 0 && ctx && !self.g.chance(1, 8) {
                        let s = self.g.pick(CTXS).to_string();
                        self.reference(&s, rule)
                    } else if name == "prev_is" && !self.rule_names.is_empty() && self.g.chance(3, 4) {
                        let s = self.g.pick(&self.rule_names).clone();
                        self.reference(&s, rule)
                    } else {
                        self.expr(rule, depth + 1)
                    };
                    args.push(a);
                }
                let ra = self.t(">");
                let range = self.since(k);
                let first = args.first().cloned();
                let id = self.push(ExKind::Call { name, ident, la, ra, args }, range, rule);
                if let Some(a) = first {
                    self.m.exprs[a].first_arg_of = Some(id);
                }
                id
            }
            2 => self.block(rule, depth + 1),
            _ => {
                let n = self.name_for_ref();
                self.reference(&n, rule)
            }
        };
        while !simple && self.g.chance(1, 6) {
            let opt = self.g.bool();
            self.t(if opt { "?" } else { "*" });
            let range = self.since(k);
            e = self.push(if opt { ExKind::Opt(e) } else { ExKind::Rep(e) }, range, rule);
        }
        e
    }
    fn reference(&mut self, name: &str, rule: usize) -> usize {
        let r = self.t(name);
        self.push(ExKind::Ref { name: name.to_string() }, r, rule)
    }
    fn block(&mut self, rule: usize, depth: usize) -> usize {
        let k = self.mark();
        self.t("{");
        let n = self.g.weighted(&[5, 2, 1]) + 1;
        let mut alts = Vec::new();
        for i in 0..n {
            if i > 0 {
                self.t("|");
            }
            let parts = self.g.weighted(&[2, 6, 6, 5]);
            let mut alt = Vec::new();
            // an empty sequence is printed only where it is unambiguous; `{}` holds one too
            for _ in 0..parts {
                alt.push(self.expr(rule, depth + 1));
            }
            alts.push(alt);
        }
        self.t("}");
        let range = self.since(k);
        self.push(ExKind::Block { alts }, range, rule)
    }

    fn rule(&mut self, idx: usize) {
        let name = self.rule_names[idx].clone();
        let mut attrs: Vec<(String, Option<String>)> = Vec::new();
        if self.g.chance(1, 3) {
            for _ in 0..self.g.range(1, 2) {
                let n = match self.g.weighted(&[4, 1, 3]) {
                    0 => self.g.pick(&["atom", "postfix", "prefix", "bin"]).to_string(),
                    1 => "type".to_string(),
                    _ => self.g.pick(ATTRS).to_string(),
                };
                let v = match self.g.weighted(&[4, 5, 2]) {
                    0 => None,
                    1 => Some(self.g.pick(&["1", "2", "92", "0", "007"]).to_string()),
                    _ => Some(self.g.pick(&["foo", "x1", "4294967295", "4294967296"]).to_string()),
                };
                attrs.push((n, v));
            }
        }
        let k = self.mark();
        self.attrs(&attrs);
        let public = self.g.bool();
        if public {
            self.kw("pub");
        }
        self.kw("rule");
        let name_range = self.t(&name);
        self.hl(name_range, "function");
        let decl = self.m.decls.len();
        self.m.toks.last_mut().unwrap().role = Role::Decl(decl);
        self.m.decls.push(Decl { kind: DeclKind::Rule(idx), nav: name_range, node: name_range });
        let arity = self.rule_arity[idx];
        self.param_names.clear();
        let mut params = None;
        if let Some(n) = arity {
            self.t("(");
            let mut ps = Vec::new();
            for j in 0..n {
                if j > 0 {
                    self.t(",");
                }
                let p = self.g.pick(NAMES).to_string();
                let r = self.t(&p);
                self.hl(r, "parameter");
                let d = self.m.decls.len();
                self.m.toks.last_mut().unwrap().role = Role::Decl(d);
                self.m.decls.push(Decl { kind: DeclKind::Param(idx, j), nav: r, node: r });
                self.param_names.push(p.clone());
                ps.push((p, r));
            }
            self.t(")");
            params = Some(ps);
        }
        self.fuel = self.g.range(2, 14);
        let body = self.block(idx, 0);
        let range = self.since(k);
        self.m.decls[decl].node = range;
        self.m.structure.push((name.clone(), range.0, range.1));
        self.m.rules.push(RuleM { range, name, name_range, attrs, public, params, body });
    }

    fn tokenizer(&mut self) {
        let k = self.mark();
        self.kw("tokenizer");
        self.t("{");
        for i in 0..self.tok_names.len() {
            let name = self.tok_names[i].clone();
            let kk = self.mark();
            if self.g.chance(1, 4) {
                let v = if self.g.chance(1, 4) { Some("1".to_string()) } else { None };
                let n = self.g.pick(&["skip", "contextual", "foo"]).to_string();
                self.attrs(&[(n, v)]);
            }
            let name_range = self.t(&name);
            self.hl(name_range, "literal");
            let re = if self.g.chance(1, 2) { self.g.pick(HASHES).to_string() } else { self.g.pick(LITS).to_string() };
            self.t(&re);
            if self.g.chance(1, 6) {
                let f = self.g.pick(&["'parse_x'", "r\"f\""]).to_string();
                self.t(&f);
            }
            let range = self.since(kk);
            let d = self.m.decls.len();
            for t in &mut self.m.toks[kk..] {
                t.role = Role::Decl(d);
            }
            self.m.decls.push(Decl { kind: DeclKind::Lex(i), nav: range, node: range });
            self.m.lexes.push(LexM { range, name, name_range, re });
        }
        self.t("}");
        let r = self.since(k);
        self.m.structure.push(("tokenizer".into(), r.0, r.1));
    }

    fn methods(&mut self) {
        self.t("{");
        for _ in 0..self.g.below(4) {
            let k = self.mark();
            let n = self.g.pick(NAMES).to_string();
            self.t(&n);
            self.m.toks.last_mut().unwrap().role = Role::Method;
            let child = match self.g.weighted(&[4, 3, 1]) {
                0 => self.g.pick(NAMES).to_string(),
                1 if !self.tok_names.is_empty() => self.g.pick(&self.tok_names).clone(),
                _ => self.g.pick(MISSING).to_string(),
            };
            let s = self.mark();
            let child_range = self.t(&child);
            let suffix = self.g.below(5);
            let parts: &[&str] = match suffix {
                0 => &[],
                1 => &["?"],
                2 => &["*"],
                3 => &[".", "text"],
                _ => &["?", ".", "text"],
            };
            for p in parts {
                self.t(p);
            }
            let sel_range = self.since(s);
            let range = self.since(k);
            let re = self.m.refs.len();
            for t in &mut self.m.toks[s..] {
                t.role = Role::Ref(re);
            }
            self.m.refs.push(RefM { range: sel_range, target: None });
            self.m.methods.push(MethodM { range, child, child_range, sel_range, suffix });
        }
        self.t("}");
    }

    fn ast(&mut self) {
        let k = self.mark();
        self.kw("ast");
        self.t("{");
        for _ in 0..self.g.range(0, 5) {
            let kk = self.mark();
            let name = self.g.pick(NAMES).to_string();
            let kind = self.g.weighted(&[4, 2, 2]);
            self.kw(["node", "class", "trait"][kind]);
            let name_range = self.t(&name);
            self.hl(name_range, "function");
            let mut item = NamedM { range: (0, 0), name, name_range, traits: Vec::new() };
            let decl = self.m.decls.len();
            match kind {
                0 => {
                    self.m.toks.last_mut().unwrap().role = Role::Decl(decl);
                    self.m.decls.push(Decl { kind: DeclKind::Node(self.m.nodes.len()), nav: name_range, node: name_range });
                    if self.g.chance(1, 2) {
                        self.t(":");
                        for i in 0..self.g.range(0, 3) {
                            if i > 0 {
                                self.t(",");
                            }
                            let n = self.g.pick(&["foo", "bar", "baz", "quux"]).to_string();
                            let r = self.t(&n);
                            item.traits.push((n, r));
                        }
                        if !item.traits.is_empty() && self.g.chance(1, 5) {
                            self.t(",");
                        }
                    }
                    self.methods();
                    item.range = self.since(kk);
                    self.m.decls[decl].node = item.range;
                    self.m.nodes.push(item);
                }
                1 => {
                    self.m.toks.last_mut().unwrap().role = Role::Decl(decl);
                    self.m.decls.push(Decl { kind: DeclKind::Class(self.m.classes.len()), nav: name_range, node: name_range });
                    self.t("{");
                    for _ in 0..self.g.below(3) {
                        let n = self.g.pick(NAMES).to_string();
                        self.t(&n);
                    }
                    self.t("}");
                    item.range = self.since(kk);
                    self.m.decls[decl].node = item.range;
                    self.m.classes.push(item);
                }
                _ => {
                    self.methods();
                    item.range = self.since(kk);
                    self.m.traits.push(item);
                }
            }
        }
        self.t("}");
        let r = self.since(k);
        self.m.structure.push(("ast".into(), r.0, r.1));
        self.m.has_ast = true;
    }
}

pub fn generate(g: &mut Gen) -> Model {
    let style = g.below(4);
    let n_rules = g.weighted(&[1, 3, 4, 4, 3, 2]);
    let n_toks = g.weighted(&[2, 2, 3, 3, 2]);
    let mut rule_names: Vec<String> = Vec::new();
    for _ in 0..n_rules {
        let mut n = g.pick(NAMES).to_string();
        if rule_names.contains(&n) && !g.chance(1, 3) {
            n = NAMES.iter().find(|n| !rule_names.iter().any(|r| r == *n)).unwrap().to_string();
        }
        if g.chance(1, 25) {
            n = g.pick(&["any", "not", "is_in", "quux"]).to_string();
        }
        rule_names.push(n);
    }
    let tok_names: Vec<String> = (0..n_toks).map(|_| g.pick(&["num", "tok", "x", "w1", "plus", "foo", "ident"]).to_string()).collect();
    let rule_arity: Vec<Option<usize>> = (0..n_rules).map(|_| if g.chance(2, 5) { Some(g.below(4)) } else { None }).collect();
    let mut items: Vec<usize> = vec![0; n_rules];
    if n_toks > 0 || g.bool() {
        let at = if g.chance(1, 3) { g.below(items.len() + 1) } else { 0 };
        items.insert(at, 1);
    }
    for kind in [2, 3, 4] {
        for _ in 0..g.weighted(if kind == 3 { &[2, 3] } else { &[6, 2, 1] }) {
            let at = g.below(items.len() + 1);
            items.insert(items.len() - at, kind);
        }
    }
    let mut p = P { g, m: Model::default(), style, test: None, fuel: 0, rule_names, param_names: Vec::new(), rule_arity, tok_names };
    let mut rule = 0;
    for it in items {
        match it {
            0 => {
                p.rule(rule);
                rule += 1;
            }
            1 => p.tokenizer(),
            2 => {
                p.kw("verbatim");
                let s = p.g.pick(HASHES).to_string();
                p.t(&s);
            }
            3 => p.ast(),
            _ => {
                p.test = Some(p.m.tests.len());
                let k = p.mark();
                p.kw("test");
                let s = p.g.pick(HASHES).to_string();
                p.t(&s);
                let r = p.since(k);
                p.m.tests.push((r, s));
                p.test = None;
            }
        }
    }
    if p.g.bool() {
        let s = *p.g.pick(&["\n", " ", "// end", "\n// end\n"]);
        p.push_trivia(s);
    }
    let mut m = p.m;
    m.resolve();
    m
}

impl Model {
    fn decl(&self, k: DeclKind) -> usize {
        self.decls.iter().position(|d| d.kind == k).unwrap()
    }
    fn first_rule(&self, name: &str) -> Option<usize> {
        self.rules.iter().position(|r| r.name == name)
    }
    fn denotes(&self, name: &str, rule: usize) -> Option<DeclKind> {
        if let Some(ps) = &self.rules[rule].params {
            if let Some(j) = ps.iter().position(|p| p.0 == name) {
                return Some(DeclKind::Param(rule, j));
            }
        }
        if let Some(i) = self.first_rule(name) {
            return Some(DeclKind::Rule(i));
        }
        // a token is known under its literal text, or else under its name; the last one wins
        let known = |l: &LexM| if l.re.starts_with('\'') { l.re.clone() } else { l.name.clone() };
        self.lexes.iter().rposition(|l| known(l) == name).map(DeclKind::Lex)
    }
    fn context_of(&self, e: usize) -> Option<String> {
        if let ExKind::Call { name, args, .. } = &self.exprs[e].kind {
            if ["is_in", "enter", "exit"].contains(&name.as_str()) {
                if let Some(&a) = args.first() {
                    if let ExKind::Ref { name } = &self.exprs[a].kind {
                        if name.starts_with('\'') {
                            return Some(name[1..name.len() - 1].to_string());
                        }
                    }
                }
            }
        }
        None
    }
    /// public rules that make a node
    fn is_node_rule(&self, r: usize) -> bool {
        let r = &self.rules[r];
        let find = |n: &str| r.attrs.iter().find(|a| a.0 == n);
        r.public && find("pratt").is_none() && find("type").map_or(true, |a| a.1.is_some())
    }

    fn resolve(&mut self) {
        let mut diags: Vec<(bool, R, String)> = Vec::new();
        let mut used: BTreeSet<usize> = BTreeSet::new();
        if !self.rules.is_empty() {
            used.insert(0);
        }
        // contexts
        let mut ctxs: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for e in 0..self.exprs.len() {
            if let Some(c) = self.context_of(e) {
                ctxs.entry(c).or_insert_with(Vec::new).push(e);
            }
        }
        for (c, es) in &ctxs {
            if es.len() == 1 {
                diags.push((false, self.exprs[es[0]].range, format!("Context `{}` is used only once", c)));
            }
        }
        self.contexts = ctxs.keys().cloned().collect();
        // duplicate declarations
        for (i, l) in self.lexes.iter().enumerate() {
            if self.lexes[..i].iter().any(|k| k.name == l.name) {
                diags.push((true, l.range, "Duplicate token".into()));
            }
        }
        for (i, r) in self.rules.iter().enumerate() {
            if self.rules[..i].iter().any(|k| k.name == r.name) {
                diags.push((true, r.name_range, "Duplicate rule".into()));
            }
        }
        // references
        for e in 0..self.exprs.len() {
            let ex = self.exprs[e].clone();
            if let ExKind::Ref { name } = &ex.kind {
                let d = self.denotes(name, ex.rule);
                self.ref_of.insert(e, d);
                match d {
                    Some(DeclKind::Rule(i)) => {
                        used.insert(i);
                        self.hls.push((ex.range.0, ex.range.1, "function"));
                    }
                    Some(DeclKind::Param(..)) => self.hls.push((ex.range.0, ex.range.1, "parameter")),
                    Some(_) => self.hls.push((ex.range.0, ex.range.1, "literal")),
                    None => {
                        let ctx = name.starts_with('\'')
                            && ex.first_arg_of.map_or(false, |c| self.context_of(c).is_some());
                        if !ctx {
                            diags.push((true, ex.range, "Unresolved reference".into()));
                        }
                    }
                }
                let id = self.refs.len();
                self.refs.push(RefM { range: ex.range, target: d.map(|d| self.decl(d)) });
                self.set_role(ex.range, Role::Ref(id));
            }
        }
        for e in 0..self.exprs.len() {
            let ex = self.exprs[e].clone();
            if let ExKind::Call { name, ident, la, ra, args } = &ex.kind {
                let n = args.len();
                let rng = |i: usize| self.exprs[args[i]].range;
                let builtin = BUILTINS.iter().find(|b| b.0 == name);
                let result = if let Some(&(b, want)) = builtin {
                    if b != "prev_is" && n != want {
                        diags.push((true, ex.range, format!("Wrong number of arguments, expected {}, got {}", want, n)));
                    }
                    let ctx = self.context_of(e).map(|c| self.contexts.iter().position(|x| *x == c).unwrap() as u32);
                    if want > 0 && n >= want && ["is_in", "enter", "exit"].contains(&b) && ctx.is_none() {
                        diags.push((true, rng(0), "Context should be a single quoted string".into()));
                    }
                    match b {
                        "any" | "commit" | "eof" => Some(Call::Simple(b)),
                        "prev_is" => {
                            let mut ok = Vec::new();
                            for &a in args {
                                match self.ref_of.get(&a) {
                                    Some(Some(DeclKind::Rule(r))) if self.is_node_rule(*r) => ok.push(self.rules[*r].range),
                                    _ => diags.push((true, ex.range, "<prev_is> arguments must be public rules".into())),
                                }
                            }
                            Some(Call::PrevIs(ok))
                        }
                        _ if n < want => None,
                        "not" => Some(Call::Not(rng(0))),
                        "is_in" => ctx.map(Call::IsIn),
                        "enter" => ctx.map(|c| Call::Enter(c, rng(1))),
                        "exit" => ctx.map(|c| Call::Exit(c, rng(1))),
                        b => Some(Call::Two(b, rng(0), rng(1))),
                    }
                } else {
                    match self.first_rule(name).filter(|&r| self.rules[r].params.is_some()) {
                        Some(r) => {
                            used.insert(r);
                            let ps = self.rules[r].params.as_ref().unwrap();
                            if ps.len() != n {
                                diags.push((true, ex.range, format!("Expected {} arguments, got {}", ps.len(), n)));
                            }
                            Some(Call::Rule(self.rules[r].range, ps.iter().zip(args).map(|(p, &a)| (p.1, self.exprs[a].range)).collect()))
                        }
                        None => {
                            diags.push((true, *ident, "Unresolved reference".into()));
                            None
                        }
                    }
                };
                let tag = if builtin.is_some() && result.is_some() { "builtin" } else { "function" };
                for r in [ident, la, ra] {
                    self.hls.push((r.0, r.1, tag));
                }
                if let Some(Call::Rule(..)) = result {
                    let id = self.refs.len();
                    let target = self.decl(DeclKind::Rule(self.first_rule(name).unwrap()));
                    self.refs.push(RefM { range: *ident, target: Some(target) });
                    self.set_role(*ident, Role::Ref(id));
                }
                self.calls.insert(e, result);
            }
        }
        for (i, r) in self.rules.iter().enumerate() {
            if !used.contains(&i) {
                diags.push((false, r.name_range, "Unused rule".into()));
            }
        }
        // operators
        let mut pratt = Vec::new();
        for r in &self.rules {
            let body = self.exprs[r.body].range;
            let mut v = None;
            if let Some(a) = ["atom", "postfix", "prefix", "bin"].iter().filter_map(|k| r.attrs.iter().find(|a| a.0 == *k)).next() {
                let prio: Option<u32> = a.1.as_ref().and_then(|s| s.parse().ok());
                let alts = match &self.exprs[r.body].kind {
                    ExKind::Block { alts } => alts,
                    _ => unreachable!(),
                };
                if a.0 == "atom" {
                    if prio.is_some() {
                        diags.push((true, r.name_range, "Atom rules don't have priority".into()));
                    }
                    v = Some(Pratt::Atom(body));
                } else if alts.len() != 1 {
                    diags.push((true, body, "Expression rule requires a single alternative".into()));
                } else {
                    let parts: Vec<R> = alts[0].iter().map(|&e| self.exprs[e].range).collect();
                    match (a.0.as_str(), parts.len()) {
                        ("postfix", 2) => v = Some(Pratt::Postfix(parts[1], prio.unwrap_or(999))),
                        ("postfix", _) => diags.push((true, body, "Postfix rule requires a single expression and an operation".into())),
                        ("prefix", 2) => v = Some(Pratt::Prefix(parts[0], prio.unwrap_or(999))),
                        ("prefix", _) => diags.push((true, body, "Prefix rule requires an operation and a single expression".into())),
                        ("bin", 3) => match prio {
                            Some(p) => v = Some(Pratt::Bin(parts[1], p)),
                            None => diags.push((true, r.name_range, "Binary expression requires explicit priority".into())),
                        },
                        _ => diags.push((true, body, "Binary expression requires a left hand side expression, an operator and a right hand side expression".into())),
                    }
                }
            }
            pratt.push(v);
        }
        self.pratt = pratt;
        // syntax tree definitions
        for (i, m) in self.methods.clone().into_iter().enumerate() {
            let arity = match m.suffix { 1 | 4 => "optional", 2 => "many", _ => "single" };
            let dot = m.suffix >= 3;
            let k = if let Some(n) = self.nodes.iter().position(|n| n.name == m.child) {
                Some((DeclKind::Node(n), "node"))
            } else if let Some(n) = self.classes.iter().position(|n| n.name == m.child) {
                Some((DeclKind::Class(n), "class"))
            } else {
                self.lexes.iter().position(|n| n.name == m.child).map(|n| (DeclKind::Lex(n), "token"))
            };
            let v: Option<Method> = match k {
                Some((d, "token")) if dot => Some(("text", self.decls[self.decl(d)].node, arity)),
                Some(_) if dot => None,
                Some((d, k)) => {
                    self.hls.push((m.child_range.0, m.child_range.1, if k == "token" { "literal" } else { "function" }));
                    self.refs[i].target = Some(self.decl(d));
                    Some((k, self.decls[self.decl(d)].node, arity))
                }
                None => None,
            };
            self.method_of.push(v);
        }
        for n in &self.nodes {
            let mut ts = Vec::new();
            for (t, r) in &n.traits {
                // of several traits with the same name the last one counts
                match self.traits.iter().rev().find(|x| x.name == *t) {
                    Some(x) => ts.push(x.range),
                    None => diags.push((true, *r, "Unresolved trait".into())),
                }
            }
            self.traits_of.push(ts);
        }
        self.diags = diags.into_iter().map(|(e, r, m)| (e, r.0, r.1, m)).collect();
    }

    fn set_role(&mut self, r: R, role: Role) {
        for t in &mut self.toks {
            if t.start == r.0 && t.end == r.1 {
                t.role = role;
            }
        }
    }

    /// the token found at an offset; None where only whitespace or nothing touches it
    pub fn token_at(&self, off: usize) -> Option<&Tok> {
        self.toks.iter().find(|t| t.start < off && off <= t.end)
            .or_else(|| self.toks.iter().find(|t| t.start == off))
    }
}
