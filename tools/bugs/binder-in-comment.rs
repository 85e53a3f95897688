//! property: C18
//! needs: the words whitespace_binder outside of the verbatim section
//! breaks: the generated parser depends on the comments of the grammar
//! file: fall/gen/src/generate/codegen.rs
//! old
//! |        context.insert("has_whitespace_binder", &verbatim.map(|t| t.contains("whitespace_binder")).unwrap_or(false));
//! new
//! |        context.insert("has_whitespace_binder", &self.file().node().text().contains("whitespace_binder"));
fn main() {
    let gen = |src: &str| lang_fall::analyse(src.to_string()).analyse(|a| fall_gen::generate(a)).unwrap();
    let a = gen("tokenizer { n r\"n\" }\npub rule file { n }\n");
    let b = gen("tokenizer { n r\"n\" }\n// no whitespace_binder here\npub rule file { n }\n");
    assert_eq!(a, b);
}
