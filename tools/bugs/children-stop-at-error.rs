//! property: C11
//! needs: a parent with an ERROR child before the typed child
//! breaks: typed children after an ERROR child are not found
//! file: fall/tree/src/ast.rs
//! old
//! |            if let Some(a) = A::wrap(node) {
//! |                return Some(a);
//! |            }
//! new
//! |            if let Some(a) = A::wrap(node) {
//! |                return Some(a);
//! |            }
//! |            if node.ty() == crate::ERROR && node.children().next().is_some() {
//! |                break;
//! |            }
use fall_tree::*;
fn main() {
    let f = lang_rust_syntax::lang_rust().parse("fn f() {}\n) ) )\nfn g() {}");
    let typed = AstChildren::<lang_rust_syntax::FnDef>::new(f.root().children()).count();
    let plain = f.root().children().filter(|n| n.ty() == lang_rust_syntax::FN_DEF).count();
    assert_eq!(typed, plain);
}
