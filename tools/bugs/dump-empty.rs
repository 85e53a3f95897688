//! property: C01
//! needs: a leaf whose text ends in blanks, such as a line comment, in the dump
//! breaks: the dump shows a comment without the blanks at its end, which are part of it
//! file: fall/tree/src/util.rs
//! old
//! |            write!(buf, "{} {:?}\n", ty_name, &text[n.range()])
//! new
//! |            let shown = &text[n.range()];
//! |            let shown = if shown.trim().is_empty() { shown } else { shown.trim_end_matches(' ') };
//! |            write!(buf, "{} {:?}\n", ty_name, shown)
fn main() {
    let f = lang_rust_syntax::lang_rust().parse("fn foo() {}\n// hello  ");
    let d = fall_tree::dump_file_ws(&f);
    assert!(d.contains("\"// hello  \""), "{}", d);
}
