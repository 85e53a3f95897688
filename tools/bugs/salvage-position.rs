//! property: C04
//! needs: an edit near the beginning of a file with many items behind it
//! breaks: parsed items behind an edit are looked up where they used to be and never reused
//! file: fall/parse/src/syn_engine/mod.rs
//! old
//! |                            let fixed_start = inserted + (start - copy.start());
//! new
//! |                            let fixed_start = if copy.start() == tu(0) { start } else { inserted + start - range.start() };
use fall_tree::{tu, TextBuf, TextEdit, TextEditOp, TextRange};
fn main() {
    let mut old = String::from("fn first() {}\n");
    for i in 0..100 {
        old.push_str(&format!("fn item{}() {{ let x = {} + 2 * y; foo(x, y); }}\n", i, i));
    }
    let n = old.len() as u32;
    let edit = TextEdit { ops: vec![
        TextEditOp::Copy(TextRange::from_to(tu(0), tu(10))),
        TextEditOp::Insert(TextBuf::from("x: i32")),
        TextEditOp::Copy(TextRange::from_to(tu(9 + 0), tu(9))),
        TextEditOp::Copy(TextRange::from_to(tu(9), tu(n))),
    ] };
    let edit = TextEdit { ops: vec![edit.ops[0].clone(), edit.ops[1].clone(), TextEditOp::Copy(TextRange::from_to(tu(10), tu(n)))] };
    let f = lang_rust_syntax::lang_rust().parse(old);
    let g = f.edit(&edit);
    let fresh = lang_rust_syntax::lang_rust().parse(g.text().to_string());
    assert_eq!(fall_tree::dump_file(&g), fall_tree::dump_file(&fresh));
    let t = g.metrics().get("parsing ticks").unwrap();
    let full = fresh.metrics().get("parsing ticks").unwrap();
    assert!(t * 4 < full, "{} of {} steps", t, full);
}
