//! property: C34
//! needs: an example with nothing but blanks in it, among others
//! breaks: the tree of the blank example is missing
//! file: fall/gen/src/lib.rs
//! old
//! |                .map(|t| t.to_string())
//! new
//! |                .map(|t| t.to_string())
//! |                .filter(|t| !t.is_empty())
use std::{env, fs};
fn show(src: &str) -> String {
    fs::write("g.fall", src).unwrap();
    fall_gen::process(fall_gen::Task::Examples("g.fall".into())).unwrap();
    fs::read_to_string("g.txt").unwrap()
}
fn main() {
    let tmp = env::current_dir().unwrap().join("tmp");
    fs::create_dir_all(tmp.join("fall-tests")).unwrap();
    fs::copy("Cargo.lock", tmp.join("fall-tests/Cargo.lock")).unwrap();
    env::set_var("TMPDIR", &tmp);
    let a = show("tokenizer { t 'a' }\npub rule file { 'a'* }\ntest r\"aa\"\ntest r\"\"\n");
    assert_eq!(a, "FILE\n  T \"a\"\n  T \"a\"\n\n\nFILE \"\"\n\n\n");
    let b = show("tokenizer { t 'b' }\npub rule file { 'b'* }\ntest r\"b\"\n");
    assert_eq!(b, "FILE\n  T \"b\"\n\n\n");
}
