//! property: C10
//! needs: nodes of two files
//! breaks: nodes of different files with the same number are equal
//! file: fall/tree/src/node/imp.rs
//! old
//! |        self.key() == other.key()
//! new
//! |        self.id == other.id
fn main() {
    let f = lang_rust_syntax::lang_rust().parse("fn f() {}");
    let g = lang_rust_syntax::lang_rust().parse("struct G;");
    assert!(f.root() != g.root());
}
