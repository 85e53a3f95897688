//! property: C12
//! needs: a node that is deleted and has text inserted after it in the same edit
//! breaks: text inserted after a deleted node is lost
//! file: fall/tree/src/edit.rs
//! old
//! |            edit_builder.delete(node.range());
//! new
//! |            edit_builder.delete(node.range());
//! |            return;
use fall_tree::FileEdit;
fn main() {
    let f = lang_rust_syntax::lang_rust().parse("fn foo() {}\nfn bar() {}");
    let first = f.root().children().next().unwrap();
    let mut e = FileEdit::new(&f);
    e.delete(first);
    e.insert_text_after(first, "struct S;".to_string());
    assert_eq!(e.into_text_edit().apply(f.text()).to_string(), "struct S;\nfn bar() {}");
}
