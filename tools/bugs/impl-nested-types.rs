//! property: C28
//! needs: an impl of a generic type
//! breaks: the breadcrumb of an inherent impl for a generic type claims a trait impl for the type's argument
//! file: lang/rust/src/editor/mod.rs
//! old
//! |                        let mut trefs = ast::children_of_type::<TypeReference>(def.node());
//! new
//! |                        let mut trefs = ast::descendants_of_type::<TypeReference>(def.node()).into_iter();
use fall_editor::EditorFileImpl;
use fall_tree::tu;
fn main() {
    let text = "impl Foo<Bar> { fn f() {} }";
    let f = lang_rust::editor::RustEditorFile::parse(text);
    assert_eq!(f.breadcrumbs(tu(text.find("{}").unwrap() as u32 + 1)), ["impl Foo<Bar>", "fn f"]);
}
