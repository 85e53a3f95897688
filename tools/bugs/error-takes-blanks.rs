//! property: C09
//! needs: an ERROR node with a comment or blanks next to it
//! breaks: an ERROR node takes in the blanks and comments around it
//! file: fall/parse/src/lib.rs
//! old
//! |                    if ty == file_ty {
//! new
//! |                    if ty == file_ty || (ty == ERROR && !leading && spaces.len() > 1) {
use fall_tree::*;
fn main() {
    let f = lang_rust_syntax::lang_rust().parse("fn f() {}\n) \n// c\n \nfn g() {}");
    let mut bad = 0;
    walk_tree(f.root(), |n| if n.ty() == ERROR {
        if let Some(last) = n.children().last() {
            if f.language().node_type_info(last.ty()).whitespace_like { bad += 1 }
        }
    });
    assert_eq!(bad, 0);
}
