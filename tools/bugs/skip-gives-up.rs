//! property: C08
//! needs: rubbish followed by something that begins like an item and is none
//! breaks: recovery gives up at the second obstacle
//! file: fall/parse/src/syn_engine/expr.rs
//! old
//! |            Some(_) => if let Some(ts) = parse_expr(p, body, tokens) {
//! |                return Some(ts);
//! |            }
//! new
//! |            Some(_) => match parse_expr(p, body, tokens) {
//! |                Some(ts) => return Some(ts),
//! |                None if skipped => return None,
//! |                None => (),
//! |            }
fn main() {
    use fall_editor::EditorFileImpl;
    let mut bad = Vec::new();
    for junk in ["}", ") }", "42 pub", "42 unsafe", "42 #", "42 #[a]", "42 pub 1", "42 extern", "42 const"].iter() {
        let f = lang_rust::editor::RustEditorFile::parse(&format!("fn a() {{}}\n{}\nfn b() {{}}\n", junk));
        if f.structure().len() != 2 { bad.push(*junk) }
    }
    assert!(bad.is_empty(), "{:?}", bad);
}
