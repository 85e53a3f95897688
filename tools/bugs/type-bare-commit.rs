//! property: C08
//! needs: a type alias broken off behind its equals sign
//! breaks: an alias without a type is no alias
//! regen: lang/rust/syntax/src/rust
//! file: lang/rust/syntax/src/rust.fall
//! old
//! |  'type' <commit>
//! |  ident type_parameters?
//! |  {'=' type_reference}?
//! |  ';'
//! new
//! |  'type'
//! |  ident type_parameters?
//! |  {'=' type_reference}?
//! |  <commit> ';'
fn main() {
    let f = lang_rust_syntax::lang_rust().parse("type\nfn f() {}");
    let n: Vec<_> = f.root().children().filter(|n| n.ty() == lang_rust_syntax::TYPE_DEF).collect();
    assert_eq!(n.len(), 1);
}
