//! Languages built at run time from a grammar model, through the public engine interface.
use crate::model::Grammar;
use fall_parse::{LexRule, ParserDefinition, RegexLexer};
use fall_tree::{Language, LanguageImpl, Metrics, NodeType, NodeTypeInfo, Text, TextEdit, TreeBuilder};
use std::any::Any;
use std::sync::{Arc, OnceLock};

pub type Binder = fn(NodeType, Vec<(NodeType, &str)>, bool) -> usize;

/// node type of a type index
pub fn nt(i: usize) -> NodeType {
    if i == 0 { fall_tree::ERROR } else { NodeType(99 + i as u32) }
}
pub fn idx(t: NodeType) -> usize {
    if t == fall_tree::ERROR { 0 } else { t.0 as usize - 99 }
}

/// node types per model index. Two whitespace-like token types come first.
pub const WS: usize = 1;
pub const COMMENT: usize = 2;
/// `a`..`f` `;` `(` `)` `<` `>` `+` `-` `*` `!` word number
pub const FIRST_TOK: usize = 3;
pub const TOKS: &[(&str, &str)] = &[
    ("a", "a"), ("b", "b"), ("c", "c"), ("d", "d"), ("e", "e"), ("f", "f"),
    (";", ";"), ("(", "\\("), (")", "\\)"), ("<", "<"), (">", ">"),
    ("+", "\\+"), ("-", "-"), ("*", "\\*"), ("!", "!"),
    ("word", "[g-z]+"), ("1", "[0-9]+"),
];
pub const SEMI: usize = FIRST_TOK + 6;
pub const LPAREN: usize = FIRST_TOK + 7;
pub const RPAREN: usize = FIRST_TOK + 8;
pub const LT: usize = FIRST_TOK + 9;
pub const GT: usize = FIRST_TOK + 10;
pub const PLUS: usize = FIRST_TOK + 11;
pub const MINUS: usize = FIRST_TOK + 12;
pub const STAR: usize = FIRST_TOK + 13;
pub const BANG: usize = FIRST_TOK + 14;
pub const WORD: usize = FIRST_TOK + 15;
pub const NUM: usize = FIRST_TOK + 16;
/// types only the parser assigns: contextual tokens
pub const CTX_SHL: usize = FIRST_TOK + 17;
pub const CTX_KW: usize = FIRST_TOK + 18;
pub const CTX_ARROW: usize = FIRST_TOK + 19;
/// of a text no text holds (`#` starts a comment), and that ends some raw strings of Rust
pub const CTX_HASH: usize = FIRST_TOK + 20;
/// of a text with a blank inside: not something that tokens next to each other can spell
pub const CTX_GAP: usize = FIRST_TOK + 21;
pub const FIRST_NODE: usize = FIRST_TOK + 22;

pub const CTX: &[(usize, &str)] = &[(CTX_SHL, "<<"), (CTX_KW, "kw"), (CTX_ARROW, "->"), (CTX_HASH, "\"##"), (CTX_GAP, "a b")];

pub fn pick_ctx(g: &mut crate::gen::Gen) -> (usize, &'static str) {
    CTX[g.weighted(&[4, 4, 4, 1, 1])]
}

pub fn samples(t: usize) -> &'static [&'static str] {
    match t {
        WS => &[" ", "\n", "  "],
        COMMENT => &["#x\n", "#\n"],
        WORD => &["g", "kw", "kwx", "zz"],
        NUM => &["1", "42"],
        CTX_SHL => &["<<"],
        CTX_KW => &["kw"],
        CTX_ARROW => &["->"],
        CTX_HASH => &["\"##"],
        CTX_GAP => &["a b"],
        t if t >= FIRST_TOK && t < WORD => std::slice::from_ref(&TOKS[t - FIRST_TOK].0),
        _ => &[""],
    }
}

pub fn lexer() -> &'static RegexLexer {
    static L: OnceLock<RegexLexer> = OnceLock::new();
    L.get_or_init(|| {
        let mut rules = vec![LexRule::new(nt(WS), "\\s+", None), LexRule::new(nt(COMMENT), "#[^\n]*\n?", None)];
        for (i, t) in TOKS.iter().enumerate() {
            rules.push(LexRule::new(nt(FIRST_TOK + i), t.1, None));
        }
        RegexLexer::new(rules)
    })
}

pub fn type_name(i: usize) -> &'static str {
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    let v = N.get_or_init(|| {
        (0..256usize)
            .map(|i| -> &'static str {
                let s = match i {
                    0 => "ERROR".to_string(),
                    WS => "WS".to_string(),
                    COMMENT => "COMMENT".to_string(),
                    i if i >= FIRST_TOK && i < FIRST_TOK + TOKS.len() => format!("'{}'", TOKS[i - FIRST_TOK].0),
                    CTX_SHL => "SHL".into(),
                    CTX_KW => "KW".into(),
                    CTX_ARROW => "ARROW".into(),
                    CTX_HASH => "HASH".into(),
                    CTX_GAP => "GAP".into(),
                    i => format!("N{}", i - FIRST_NODE),
                };
                Box::leak(s.into_boxed_str())
            })
            .collect()
    });
    v[i.min(255)]
}

pub fn is_ws(i: usize) -> bool {
    i == WS || i == COMMENT
}

struct Info;
impl LanguageImpl for Info {
    fn parse(&self, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        unreachable!()
    }
    fn reparse(&self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        unreachable!()
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo {
        let i = idx(ty);
        NodeTypeInfo { name: type_name(i), whitespace_like: is_ws(i) }
    }
}

struct Dyn {
    info: Language,
    lexer: Lx,
    def: ParserDefinition,
}

pub enum Lx {
    Static(&'static RegexLexer),
    Owned(RegexLexer),
}

impl Dyn {
    fn lexer(&self) -> &RegexLexer {
        match &self.lexer {
            Lx::Static(l) => l,
            Lx::Owned(l) => l,
        }
    }
}

impl LanguageImpl for Dyn {
    fn parse(&self, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        fall_parse::parse(&self.info, self.lexer(), &self.def, text, metrics, builder)
    }
    fn reparse(&self, data: &dyn Any, edit: &TextEdit, new_text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        fall_parse::reparse(&self.info, self.lexer(), &self.def, data, edit, new_text, metrics, builder)
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo {
        self.info.node_type_info(ty)
    }
}

pub fn build(g: &Grammar, binder: Binder) -> Language {
    build_with(g, binder, Lx::Static(lexer()))
}

pub fn build_with(g: &Grammar, binder: Binder, lexer: Lx) -> Language {
    let def = ParserDefinition {
        node_types: (0..g.n_types).map(nt).collect(),
        syntactical_rules: g.rules.iter().map(|e| e.to_dst()).collect(),
        whitespace_binder: binder,
    };
    Language::new(Dyn { info: Language::new(Info), lexer, def })
}

pub fn binder_none(_: NodeType, _: Vec<(NodeType, &str)>, _: bool) -> usize {
    0
}
/// even nodes take leading trivia back to a blank line, odd ones a trailing comment
pub fn binder_mixed(ty: NodeType, sp: Vec<(NodeType, &str)>, leading: bool) -> usize {
    let even = idx(ty) % 2 == 0;
    if leading && even {
        sp.iter().rev().take_while(|s| s.1.matches('\n').count() < 2).count()
    } else if !leading && !even {
        sp.iter().take_while(|s| !s.1.contains('\n')).count()
    } else {
        0
    }
}
/// every node takes everything
pub fn binder_all(_: NodeType, sp: Vec<(NodeType, &str)>, _: bool) -> usize {
    sp.len()
}
/// the last piece of leading trivia, the first of trailing
pub fn binder_one(_: NodeType, sp: Vec<(NodeType, &str)>, _: bool) -> usize {
    sp.len().min(1)
}
pub const BINDERS: &[Binder] = &[binder_none, binder_mixed, binder_all, binder_one];

#[allow(unused)]
pub type Shared = Arc<Language>;
