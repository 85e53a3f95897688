//! property: C04
//! needs: a second edit within one change, or any edit in a file whose tokens include an error token earlier on
//! breaks: after the first stretch of untouched text, all tokens are lexed again
//! file: fall/parse/src/lex_engine.rs
//! old
//! |                        Ordering::Equal => {
//! |                            for token in &mut old_tokens {
//! new
//! |                        Ordering::Equal if edit_point > tu(0) && reused > tu(0) => {
//! |                            let token = lexer.step(&mut txt);
//! |                            new_len += token.len;
//! |                            new_tokens.push(token)
//! |                        }
//! |                        Ordering::Equal => {
//! |                            for token in &mut old_tokens {
use fall_tree::{tu, TextBuf, TextEdit, TextEditOp, TextRange};
fn main() {
    let mut old = String::from("fn first() {}\n");
    for i in 0..100 {
        old.push_str(&format!("fn item{}() {{ let x = {} + 2 * y; foo(x, y); }}\n", i, i));
    }
    let n = old.len() as u32;
    let edit = TextEdit { ops: vec![
        TextEditOp::Copy(TextRange::from_to(tu(0), tu(10))),
        TextEditOp::Insert(TextBuf::from("x: i32")),
        TextEditOp::Copy(TextRange::from_to(tu(10), tu(n))),
    ] };
    let f = lang_rust_syntax::lang_rust().parse(old);
    let g = f.edit(&edit);
    assert!(g.metrics().get("relexed region").unwrap() < 100);
}
