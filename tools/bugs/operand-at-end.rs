//! property: C06
//! needs: an operator with a right operand as the last token of a layer or file
//! breaks: no error marks the operand that is missing there
//! file: fall/parse/src/syn_engine/pratt.rs
//! old
//! |                if ix.has_rhs {
//! new
//! |                if ix.has_rhs && !rest.is_empty() {
fn main() {
    use fall_editor::EditorFileImpl;
    let f = lang_rust::editor::RustEditorFile::parse("const A: u8 = [1 + ]; const B: u8 = [2];");
    assert!(f.syntax_tree().contains("ERROR"), "{}", f.syntax_tree());
    let f = lang_rust::editor::RustEditorFile::parse("fn f() { 1 + }");
    assert!(f.syntax_tree().contains("ERROR"), "{}", f.syntax_tree());
}
