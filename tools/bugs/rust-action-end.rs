//! property: C23
//! needs: a non-empty selection that begins where an action is offered and ends elsewhere
//! breaks: a Rust action is offered for the start of the selection and applied at its end
//! file: lang/rust/src/editor/mod.rs
//! old
//! |        action(self.file(), range.start(), true).map(ActionResult::into_edit)
//! new
//! |        action(self.file(), range.end(), true).map(ActionResult::into_edit)
use fall_editor::EditorFileImpl;
use fall_tree::{tu, TextRange};
fn main() {
    let text = "struct Foo { x: u32 }\n\nfn main() {}\n";
    let f = lang_rust::editor::RustEditorFile::parse(text);
    for end in 8..text.len() as u32 {
        let r = TextRange::from_to(tu(8), tu(end));
        for id in f.context_actions(r) {
            assert!(f.apply_context_action(r, id).is_some(), "{} {:?}", id, r);
        }
    }
}
