//! property: C24
//! needs: a caret in blanks before the end of a line
//! breaks: an empty selection at the end of a line or in a blank line becomes the next line
//! file: fall/editor/src/extend_selection.rs
//! old
//! |        if ws.text().contains("\n") && !ws_suffix.contains("\n") {
//! new
//! |        if ws.text().contains("\n") && !ws_suffix.is_empty() {
use fall_editor::EditorFileImpl;
use fall_tree::{tu, TextRange};
fn main() {
    let text = "fn f() {}  \n  \n  fn g() {}\n";
    let f = lang_rust::editor::RustEditorFile::parse(text);
    let at = text.find("{}").unwrap() as u32 + 3;
    let r = f.extend_selection(TextRange::from_len(tu(at), tu(0))).unwrap();
    assert_eq!(r, TextRange::from_len(tu(at - 1), tu(8)));
}
