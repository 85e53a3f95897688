//! property: C25
//! needs: blanks between a bar and the end of its line
//! breaks: reformatting joins lines
//! file: lang/fall/src/editor/formatter.rs
//! old
//! |            if ws_node.text().contains("\n") {
//! new
//! |            if ws_node.text().starts_with("\n") {
use fall_editor::EditorFileImpl;
fn main() {
    let text = "pub rule file { a | \n b }\n";
    let f = lang_fall::FileWithAnalysis::parse(text);
    assert_eq!(f.reformat().apply(f.file().text()), text);
}
