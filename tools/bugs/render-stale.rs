//! property: C34
//! needs: examples of two grammars whose parsers have the same length, rendered one after the other
//! breaks: the examples of the second grammar are rendered with the parser of the first
//! file: fall/gen/src/lib.rs
//! old
//! |        if old_text == text {
//! new
//! |        if old_text.len() == text.len() {
use std::{env, fs};
fn show(src: &str) -> String {
    fs::write("g.fall", src).unwrap();
    fall_gen::process(fall_gen::Task::Examples("g.fall".into())).unwrap();
    fs::read_to_string("g.txt").unwrap()
}
fn main() {
    let tmp = env::current_dir().unwrap().join("tmp");
    fs::create_dir_all(tmp.join("fall-tests")).unwrap();
    fs::copy("Cargo.lock", tmp.join("fall-tests/Cargo.lock")).unwrap();
    env::set_var("TMPDIR", &tmp);
    let a = show("tokenizer { t 'a' }\npub rule file { 'a'* }\ntest r\"aa\"\ntest r\"\"\n");
    assert_eq!(a, "FILE\n  T \"a\"\n  T \"a\"\n\n\nFILE \"\"\n\n\n");
    let b = show("tokenizer { t 'b' }\npub rule file { 'b'* }\ntest r\"b\"\n");
    assert_eq!(b, "FILE\n  T \"b\"\n\n\n");
}
