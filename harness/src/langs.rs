//! The shipped languages, with generators of texts in and around them.
use crate::gen::Gen;
use crate::model::{Grammar, E};
use fall_tree::{Language, NodeType};
use serde_json::Value;
use std::sync::OnceLock;

pub struct Lang {
    pub name: &'static str,
    pub language: &'static Language,
    pub grammar: Grammar,
    /// per type index: name, whitespace?, numeric node type
    pub types: Vec<(String, bool, u32)>,
    pub lexemes: Vec<Vec<String>>,
    pub texts: Vec<String>,
    pub trivia: &'static [&'static str],
    min_depth: Vec<usize>,
    pub soup: Vec<String>,
    pub lexer: crate::lexref::RefLexer,
    /// parser-only tokens: type, text
    pub contextual: Vec<(usize, String)>,
}

impl Lang {
    pub fn ty(&self, name: &str) -> NodeType {
        let t = self.types.iter().find(|t| t.0 == name).unwrap_or_else(|| panic!("no type {}", name));
        NodeType(t.2)
    }
}

fn unescape_literal(re: &str) -> Option<String> {
    let mut out = String::new();
    let mut cs = re.chars();
    while let Some(c) = cs.next() {
        match c {
            '\\' => {
                let n = cs.next()?;
                if n.is_alphanumeric() {
                    return None;
                }
                out.push(n)
            }
            '[' | ']' | '(' | ')' | '*' | '+' | '?' | '|' | '.' | '^' | '$' | '{' | '}' => return None,
            c => out.push(c),
        }
    }
    Some(out)
}

fn samples_for(lang: &str, ty: &str) -> &'static [&'static str] {
    match (lang, ty) {
        (_, "WHITESPACE") => &[" ", "\n", "  ", "\n\n", "\t"],
        ("rust", "LINE_COMMENT") => &["// c\n", "//\n", "/// doc\n"],
        ("rust", "BLOCK_COMMENT") => &["/* x */", "/**/", "/* /* y */ */"],
        ("rust", "CHAR") => &["'a'", "'\\''", "'\\n'", "'{'", "'\\u{1f}'"],
        ("rust", "LIFETIME") => &["'a", "'static", "'_"],
        ("rust", "BOOL") => &["true", "false"],
        (_, "NUMBER") => &["1", "0", "92"],
        ("rust", "STRING") => &["\"s\"", "\"\"", "\"a\\\"b\"", "\"\u{44f}\""],
        ("rust", "RAW_STRING") => &["r\"x\"", "r#\"a\"b\"#", "r##\"\"#\"##"],
        ("rust", "IDENT") => &["x", "foo", "Bar", "y1", "_z", "\u{f6}l", "union", "r"],
        ("fall", "EOL_COMMENT") => &["// c\n", "//\n"],
        ("fall", "SIMPLE_STRING") => &["'a'", "'+'", "'\\''", "'foo'", "'<'"],
        ("fall", "HASH_STRING") => &["r\"x\"", "r#\"a\"b\"#", "r\"\\s+\""],
        ("fall", "IDENT") => &["foo", "bar", "x", "expr", "y_z", "commit", "layer", "r", "\u{44f}"],
        ("json", "BOOL") => &["true", "false"],
        ("json", "STRING") => &["\"a\"", "\"\"", "\"\u{e9} b\""],
        ("bnf", "TERMINAL") => &["'a'", "'+'", "'id'"],
        ("bnf", "NONTERMINAL") => &["S", "E", "foo"],
        ("sexp", "ATOM") => &["a", "foo", "x1"],
        ("weird", "RAW_STRING") => &["r#\"x\"#", "r##\"a\"#b\"##"],
        ("weird", "ATOM") => &["a", "zz", "foo1"],
        _ => &[],
    }
}

fn load(name: &'static str, language: &'static Language, grammar: &str, texts: &str, trivia: &'static [&'static str]) -> Lang {
    let v: Value = serde_json::from_str(grammar).unwrap();
    let types: Vec<(String, bool, u32)> = v["node_types"].as_array().unwrap().iter()
        .map(|t| (t[0].as_str().unwrap().to_owned(), t[1].as_bool().unwrap(), t[2].as_u64().unwrap_or(0) as u32)).collect();
    let rules: Vec<E> = v["parser"].as_array().unwrap().iter().map(E::from_json).collect();
    let mut lexemes = vec![Vec::new(); types.len()];
    for l in v["lex"].as_array().unwrap() {
        let ty = l[0].as_str().unwrap();
        let i = types.iter().position(|t| t.0 == ty).unwrap();
        let given = samples_for(name, ty);
        if !given.is_empty() {
            lexemes[i] = given.iter().map(|s| s.to_string()).collect();
        } else {
            let lit = unescape_literal(l[1].as_str().unwrap()).unwrap_or_else(|| panic!("no samples for {} {}", name, ty));
            lexemes[i] = vec![lit];
        }
    }
    for r in &rules {
        if let E::CtxToken(t, s) = r {
            if !lexemes[*t].contains(s) {
                lexemes[*t].push(s.clone());
            }
        }
    }
    let texts: Vec<String> = serde_json::from_str(texts).unwrap();
    let grammar = Grammar { n_types: types.len(), rules };
    let min_depth = min_depths(&grammar);
    let soup = types.iter().zip(&lexemes).filter(|(t, _)| !t.1).flat_map(|(_, l)| l.iter().cloned()).collect();
    let rules: Vec<(usize, String, Option<crate::lexref::Ext>)> = v["lex"].as_array().unwrap().iter().map(|l| {
        let f: Option<crate::lexref::Ext> = match l[2].as_str() {
            Some("parse_raw_string") => Some(crate::lexref::raw_string),
            Some("parse_block_comment") => Some(crate::lexref::block_comment),
            Some(_) => panic!(),
            None => None,
        };
        (types.iter().position(|t| l[0].as_str() == Some(&t.0)).unwrap(), l[1].as_str().unwrap().to_owned(), f)
    }).collect();
    let lexer = crate::lexref::RefLexer::of(&rules);
    let contextual = grammar.rules.iter().filter_map(|e| match e { E::CtxToken(t, s) => Some((*t, s.clone())), _ => None }).collect();
    Lang { name, language, grammar, types, lexemes, texts, trivia, min_depth, soup, lexer, contextual }
}

pub fn min_depths(g: &Grammar) -> Vec<usize> {
    const INF: usize = 1_000_000;
    let mut d = vec![INF; g.rules.len()];
    loop {
        let mut changed = false;
        for (i, r) in g.rules.iter().enumerate() {
            let v = |x: usize| d[x];
            let new = match r {
                E::Pub { body, .. } | E::PubReplace { body, .. } => v(*body) + 1,
                E::Or(xs) => xs.iter().map(|&x| v(x)).min().unwrap_or(0) + 1,
                E::And(xs, _) => xs.iter().map(|&x| v(x)).max().unwrap_or(0) + 1,
                E::Token(_) | E::CtxToken(..) | E::Any | E::Eof | E::IsIn(_) | E::PrevIs(_) | E::Not(_) | E::Var(_) => 1,
                E::Rep(_) | E::Opt(_) => 1,
                E::WithSkip(_, b) => v(*b) + 1,
                E::Layer(_, b) => v(*b) + 1,
                E::Pratt(p) => p.atoms.iter().map(|&x| v(x)).min().unwrap_or(INF) + 1,
                E::Enter(_, b) | E::Exit(_, b) | E::Cached(b) => v(*b) + 1,
                E::Call(b, _) => v(*b) + 1,
                E::Inject(a, b) => v(*a).max(v(*b)) + 1,
            };
            let new = new.min(INF);
            if new < d[i] {
                d[i] = new;
                changed = true;
            }
        }
        if !changed {
            return d;
        }
    }
}

/// Derives a token sequence from a grammar: (type index, exact text if the grammar fixes it)
pub struct Deriver<'a> {
    pub g: &'a Grammar,
    pub min_depth: &'a [usize],
    pub out: Vec<(usize, Option<String>)>,
    pub budget: usize,
    pub any_types: &'a [usize],
    /// probability (of 64) of leaving the grammar at a recovery point
    pub broken: usize,
    pub steps: usize,
}

impl<'a> Deriver<'a> {
    pub fn derive(&mut self, g: &mut Gen, e: usize, env: &[Option<usize>], depth: usize) {
        self.steps += 1;
        if depth > 400 || self.steps > 20_000 || self.out.len() > 4 * self.budget + 40 {
            return;
        }
        let low = depth > 60 || self.out.len() >= self.budget || g.exhausted();
        match &self.g.rules[e] {
            E::Pub { body, .. } | E::PubReplace { body, .. } => self.derive(g, *body, env, depth + 1),
            E::Or(xs) => {
                if xs.is_empty() {
                    return;
                }
                let i = if low {
                    let md = self.min_depth;
                    *xs.iter().min_by_key(|&&x| md[x]).unwrap()
                } else {
                    *g.pick(xs)
                };
                self.derive(g, i, env, depth + 1)
            }
            E::And(xs, commit) => {
                let mut upto = xs.len();
                if let Some(c) = commit {
                    if !low && self.broken > 0 && g.chance(self.broken.min(63), 64) {
                        upto = g.range((*c).min(xs.len()), xs.len());
                    }
                }
                for &x in &xs[..upto] {
                    self.derive(g, x, env, depth + 1)
                }
            }
            E::Token(t) => self.out.push((*t, None)),
            E::CtxToken(t, s) => self.out.push((*t, Some(s.clone()))),
            E::Rep(x) => {
                let n = if low { 0 } else { [0, 1, 1, 2, 2, 3, 5][g.below(7)] };
                for _ in 0..n {
                    self.derive(g, *x, env, depth + 1)
                }
            }
            E::Opt(x) => {
                if !low && g.bool() {
                    self.derive(g, *x, env, depth + 1)
                }
            }
            E::WithSkip(_, b) => {
                if !low && self.broken > 0 && g.chance(self.broken.min(63), 64) && !self.any_types.is_empty() {
                    let t = *g.pick(self.any_types);
                    self.out.push((t, None));
                }
                self.derive(g, *b, env, depth + 1)
            }
            E::Layer(_, b) => self.derive(g, *b, env, depth + 1),
            E::Not(_) | E::Eof | E::IsIn(_) | E::PrevIs(_) => {}
            E::Any => {
                if !self.any_types.is_empty() {
                    let t = *g.pick(self.any_types);
                    self.out.push((t, None))
                }
            }
            E::Pratt(p) => {
                let n_alt = p.atoms.len() + p.prefixes.len() + p.infixes.len();
                let k = if low { 0 } else { g.below(n_alt + p.atoms.len()) };
                if p.atoms.is_empty() {
                    return;
                }
                if k < p.prefixes.len() && !low {
                    let (_, op, _) = p.prefixes[k];
                    self.derive(g, op, env, depth + 1);
                    self.derive(g, e, env, depth + 1);
                } else if k < p.prefixes.len() + p.infixes.len() && !low {
                    let (_, op, _, rhs) = p.infixes[k - p.prefixes.len()];
                    self.derive(g, e, env, depth + 1);
                    self.derive(g, op, env, depth + 1);
                    if rhs {
                        self.derive(g, e, env, depth + 1);
                    }
                } else {
                    let md = self.min_depth;
                    let a = if low { *p.atoms.iter().min_by_key(|&&x| md[x]).unwrap() } else { *g.pick(&p.atoms) };
                    self.derive(g, a, env, depth + 1)
                }
            }
            E::Enter(_, b) | E::Exit(_, b) | E::Cached(b) => self.derive(g, *b, env, depth + 1),
            E::Call(b, args) => {
                let mut env2: Vec<Option<usize>> = env.to_vec();
                for &(a, x) in args {
                    let x = match &self.g.rules[x] {
                        E::Var(i) => env.get(*i).cloned().flatten(),
                        _ => Some(x),
                    };
                    if env2.len() <= a {
                        env2.resize(a + 1, None);
                    }
                    env2[a] = x;
                }
                self.derive(g, *b, &env2, depth + 1)
            }
            E::Var(i) => {
                if let Some(Some(x)) = env.get(*i) {
                    self.derive(g, *x, env, depth + 1)
                }
            }
            E::Inject(a, b) => {
                self.derive(g, *a, env, depth + 1);
                self.derive(g, *b, env, depth + 1)
            }
        }
    }
}

impl Lang {
    pub fn any_types(&self) -> Vec<usize> {
        (1..self.types.len()).filter(|&i| !self.types[i].1 && !self.lexemes[i].is_empty()).collect()
    }

    pub fn lexeme(&self, g: &mut Gen, t: usize, text: &Option<String>) -> String {
        match text {
            Some(s) => s.clone(),
            None if self.lexemes[t].is_empty() => String::new(),
            None => g.pick(&self.lexemes[t]).clone(),
        }
    }

    /// tokens derived from a rule of the grammar
    pub fn sentence(&self, g: &mut Gen, rule: usize, budget: usize, broken: usize) -> Vec<String> {
        let any = self.any_types();
        let mut d = Deriver { g: &self.grammar, min_depth: &self.min_depth, out: Vec::new(), budget, any_types: &any, broken, steps: 0 };
        let n = if rule == 0 { 1 + g.below(3) } else { 1 };
        for _ in 0..n {
            d.derive(g, rule, &[], 0);
        }
        let out = d.out;
        out.iter().map(|(t, s)| self.lexeme(g, *t, s)).collect()
    }

    /// token texts with one of the language's trivia in between (mostly a blank)
    pub fn join(&self, g: &mut Gen, toks: &[String]) -> String {
        let mut s = String::new();
        for (i, t) in toks.iter().enumerate() {
            if i > 0 {
                match g.weighted(&[12, 2, 3, 2]) {
                    0 => s.push(' '),
                    1 => {}
                    2 => s.push('\n'),
                    _ => s.push_str(g.pick(self.trivia)),
                }
            }
            s.push_str(t);
        }
        s
    }

    pub fn excerpt(&self, g: &mut Gen, max_lines: usize) -> String {
        if self.texts.is_empty() {
            return String::new();
        }
        let t = g.pick(&self.texts);
        let lines: Vec<&str> = t.split('\n').collect();
        let n = g.range(1, max_lines.min(lines.len()));
        let at = g.below(lines.len() - n + 1);
        lines[at..at + n].join("\n")
    }

    pub fn fragment(&self, g: &mut Gen) -> String {
        match g.weighted(&[5, 3, 2, 2, 1, 1]) {
            0 => g.pick(&self.soup).clone(),
            1 => {
                let r = g.below(self.grammar.rules.len());
                let toks = self.sentence(g, r, 20, 2);
                self.join(g, &toks)
            }
            2 => g.pick(self.trivia).to_string(),
            3 => {
                let n = g.range(1, 4);
                let toks: Vec<String> = (0..n).map(|_| g.pick(&self.soup).clone()).collect();
                self.join(g, &toks)
            }
            4 => self.excerpt(g, 3),
            _ => chars(g, 3),
        }
    }

    /// any text, biased towards texts of the language
    pub fn text(&self, g: &mut Gen, budget: usize) -> String {
        let kind = g.weighted(&[5, 3, 4, 2, 1]);
        match kind {
            0 => {
                let toks = self.sentence(g, 0, budget, 0);
                self.join(g, &toks)
            }
            1 => {
                let toks = self.sentence(g, 0, budget, 6);
                let s = self.join(g, &toks);
                self.mutate(g, s)
            }
            2 => {
                let mut s = self.excerpt(g, 25);
                if g.bool() {
                    s = self.mutate(g, s);
                }
                s
            }
            3 => {
                let n = g.range(0, budget / 2 + 1);
                let toks: Vec<String> = (0..n).map(|_| g.pick(&self.soup).clone()).collect();
                self.join(g, &toks)
            }
            _ => chars(g, 30),
        }
    }

    /// any text, now and then a long one: with long tokens, or many of them
    pub fn any_text(&self, g: &mut Gen, budget: usize, limit: usize) -> String {
        if !g.chance(1, 256) {
            return self.text(g, budget);
        }
        let huge = g.chance(1, 16);
        let n = *g.pick(if huge { &[16_384, 32_768, 65_536, 100_000][..] } else { &[256, 1024, 4096, 6000][..] });
        let n = (n + g.below(5) - 2).min(limit);
        if g.bool() {
            // a character that does not nest, repeated
            let s = self.text(g, 12);
            let at: Vec<(usize, char)> = s.char_indices().filter(|c| c.1.is_alphanumeric() || c.1.is_whitespace()).collect();
            if at.is_empty() {
                return s;
            }
            let (i, c) = *g.pick(&at);
            return format!("{}{}{}", &s[..i], c.to_string().repeat(n / c.len_utf8()), &s[i..]);
        }
        let inner = g.bool();
        let (open, items, close): (&str, &[&str], &str) = match self.name {
            "rust" if inner => ("fn f() { let a = [", &["1,", "x, ", "/* c */", "\"s\",\n", "f(x), ", "// c\n"], "]; }"),
            "rust" => ("", crate::pools::RUST_ITEMS, ""),
            "fall" if inner => ("rule r {", &["foo ", "'x'", "| a\n", "// c\n", "<not a>", "{b? c*} "], "}"),
            "fall" => ("", crate::pools::FALL_RULES, ""),
            "json" => ("[0", &[", 1", ", \"a\"", ",null", ", {}", ", [true]\n"], "]"),
            "bnf" => ("", &["<a> ::= <b>\n", "S ::= 'x' E\n"], ""),
            _ => ("(", &["a ", "b\n", "() ", "(x y)"], ")"),
        };
        let k = g.range(1, items.len().min(5));
        let items: Vec<&str> = (0..k).map(|_| *g.pick(items)).collect();
        let mut out = String::from(open);
        for i in items.iter().cycle() {
            if out.len() + i.len() > n {
                break;
            }
            out.push_str(i);
            if open == "" {
                out.push('\n');
            }
        }
        out.push_str(close);
        out
    }

    pub fn mutate(&self, g: &mut Gen, s: String) -> String {
        let n = g.range(1, 3);
        let mut s = s;
        for _ in 0..n {
            let (a, b) = span(g, &s);
            let ins = match g.below(3) {
                0 => String::new(),
                1 => self.fragment(g),
                _ => {
                    let (c, d) = span(g, &s);
                    s[c..d].to_string()
                }
            };
            s.replace_range(a..b, &ins);
            if s.len() > 6000 {
                let c = floor(&s, 6000);
                s.truncate(c);
            }
        }
        s
    }
}

pub fn floor(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// a char-aligned span of s, mostly short
pub fn span(g: &mut Gen, s: &str) -> (usize, usize) {
    let a = floor(s, g.below(s.len() + 1));
    let len = match g.weighted(&[4, 4, 2, 1]) {
        0 => 0,
        1 => g.range(1, 4),
        2 => g.range(1, 20),
        _ => g.below(s.len() - a + 1),
    };
    let b = floor(s, (a + len).min(s.len()));
    (a, b.max(a))
}

pub fn chars(g: &mut Gen, max: usize) -> String {
    const CS: &[char] = &[
        'a', ' ', '\n', '(', ')', '{', '}', '<', '>', '[', ']', '\'', '"', '#', 'r', '\\', '/', '*', '0', '-', '=', ':', ',', '.', ';',
        '\u{e9}', '\u{4e2d}', '\u{1f600}', '\u{0}', '\r', '\t', '_', '|', '&', '!', '?', '+', '\u{a0}', '\u{2028}', '\u{301}', '~', '`', '@', '%',
    ];
    let n = g.range(0, max);
    (0..n).map(|_| *g.pick(CS)).collect()
}

macro_rules! load {
    ($n:literal, $l:expr, $t:expr) => {
        load($n, $l, include_str!(concat!("../corpus/", $n, ".json")), include_str!(concat!("../corpus/", $n, "_texts.json")), $t)
    };
}

static LANGS: OnceLock<Vec<Lang>> = OnceLock::new();

pub fn all() -> &'static [Lang] {
    LANGS.get_or_init(|| {
        vec![
            load!("sexp", fall_test::sexp::language(), &[" ", "\n", "\t\n "]),
            load!("arith", fall_test::arith::language(), &[" ", "\n", "\t\n "]),
            load!("weird", fall_test::weird::language(), &[" ", "\n", "\t\n "]),
            load!("bnf", lang_bnf::lang_bnf(), &[" ", "\n", "\t\n "]),
            load!("json", lang_json::lang_json(), &[" ", "\n", "\t\n "]),
            load!("fall", lang_fall::syntax::lang_fall(), &[" ", "\n", "\n\n", "// c\n", "\n  // d e\n  ", "\n// x\n\n// y\n"]),
            load!("rust", lang_rust::syntax::lang_rust(), &[" ", "\n", "\n\n", "// c\n", "/* b */", "\n  /// d\n  ", "\n// x\n\n// y\n"]),
        ]
    })
}

pub fn by_name(n: &str) -> &'static Lang {
    all().iter().find(|l| l.name == n).unwrap()
}

/// mostly the two languages with real grammars
pub fn pick(g: &mut Gen) -> &'static Lang {
    let ls = all();
    &ls[g.weighted(&[1, 2, 2, 2, 4, 8, 12])]
}
