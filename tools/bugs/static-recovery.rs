//! property: C08
//! needs: garbage before a static
//! breaks: what is skipped because of an error before a static swallows the static
//! regen: lang/rust/syntax/src/rust
//! file: lang/rust/syntax/src/rust.fall
//! old
//! |  'pub' | 'fn' | 'type' | 'const' | 'static' | 'unsafe'
//! new
//! |  'pub' | 'fn' | 'type' | 'const' | 'unsafe'
fn main() {
    let f = lang_rust_syntax::lang_rust().parse("fn f() {} + + static X: u8 = 1; fn g() {}");
    let n: Vec<_> = f.root().children().filter(|n| n.ty() == lang_rust_syntax::CONST_DEF).collect();
    assert_eq!(n.len(), 1);
}
