//! property: C27
//! needs: a struct with a lifetime parameter that has bounds
//! breaks: Add impl repeats the bounds of lifetimes in the arguments of the type
//! file: lang/rust/src/editor/actions.rs
//! old
//! |            result += lf.lifetime().to_string().as_str();
//! new
//! |            result += lf.node().text().to_string().as_str();
use fall_editor::EditorFileImpl;
use fall_tree::{tu, TextRange};
fn main() {
    let text = "struct S<'a, 'b: 'a, T> { x: &'a T }";
    let f = lang_rust::editor::RustEditorFile::parse(text);
    let e = f.apply_context_action(TextRange::from_len(tu(8), tu(0)), "Add impl").unwrap();
    let t = e.apply(f.file().text()).as_text().to_string();
    assert!(t.contains("S<'a, 'b, T> {"), "{}", t);
}
