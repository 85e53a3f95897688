//! property: C17
//! needs: an accessor for a contextual token
//! breaks: accessors of contextual tokens are refused
//! file: lang/fall/src/analysis/query/resolve_method.rs
//! old
//! |td.lex_rules().find(|r| r.node_type() == selector.child())
//! new
//! |td.lex_rules().filter(|r| !r.is_contextual()).find(|r| r.node_type() == selector.child())
fn main() {
    let src = "tokenizer { word r\"\\w+\" #[contextual] kw 'kw' }\npub rule file { 'kw'? word }\nast { node file { k kw? w word } }\n";
    let out = lang_fall::analyse(src.to_string()).analyse(|a| fall_gen::generate(a).map_err(|e| e.to_string()));
    assert!(out.is_ok(), "{:?}", out);
}
