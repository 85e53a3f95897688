// A small language over single-character tokens, from rules in the engine's JSON form.
// Node types: 0 error, 1 blank, then one per character of `toks`, then one per name in `nodes`.
#![allow(dead_code)]
use fall_parse::*;
use fall_tree::*;
use std::any::Any;
struct Mini { info: Language, lexer: RegexLexer, def: ParserDefinition }
struct Info(Vec<&'static str>);
impl LanguageImpl for Info {
    fn parse(&self, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { None }
    fn reparse(&self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { None }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo {
        if ty == ERROR { return NodeTypeInfo { name: "ERROR", whitespace_like: false }; }
        let i = ty.0 as usize - 99;
        NodeTypeInfo { name: self.0[i], whitespace_like: i == 1 }
    }
}
impl LanguageImpl for Mini {
    fn parse(&self, text: Text, m: &Metrics, b: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        fall_parse::parse(&self.info, &self.lexer, &self.def, text, m, b)
    }
    fn reparse(&self, d: &dyn Any, e: &TextEdit, text: Text, m: &Metrics, b: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        fall_parse::reparse(&self.info, &self.lexer, &self.def, d, e, text, m, b)
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { self.info.node_type_info(ty) }
}
pub fn nt(i: usize) -> NodeType { if i == 0 { ERROR } else { NodeType(99 + i as u32) } }
pub fn language(toks: &str, nodes: &[&'static str], rules: &str) -> Language {
    let mut names = vec!["ERROR", "WS"];
    let mut lex = vec![LexRule::new(nt(1), "\\s+", None)];
    for c in toks.chars() {
        lex.push(LexRule::new(nt(names.len()), &format!("[{}]", c), None));
        names.push(Box::leak(format!("'{}'", c).into_boxed_str()));
    }
    names.extend(nodes.iter());
    let n = names.len();
    let def = ParserDefinition {
        node_types: (0..n).map(nt).collect(),
        syntactical_rules: serde_json::from_str(rules).unwrap(),
        ..Default::default()
    };
    Language::new(Mini { info: Language::new(Info(names)), lexer: RegexLexer::new(lex), def })
}
pub fn dump(l: &Language, text: &str) -> String {
    dump_file(&l.parse(text))
}
