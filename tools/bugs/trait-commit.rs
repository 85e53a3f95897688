//! property: C08
//! needs: a trait that is broken off
//! breaks: an incomplete trait is not recognised as a trait
//! regen: lang/rust/syntax/src/rust
//! file: lang/rust/syntax/src/rust.fall
//! old
//! |  outer_attributes visibility? 'trait' <commit>
//! |  ident type_parameters? type_bounds? where_clause?
//! new
//! |  outer_attributes visibility? 'trait'
//! |  ident <commit> type_parameters? type_bounds? where_clause?
fn main() {
    let f = lang_rust_syntax::lang_rust().parse("trait\nfn f() {}");
    let n: Vec<_> = f.root().children().filter(|n| n.ty() == lang_rust_syntax::TRAIT_DEF).collect();
    assert_eq!(n.len(), 1);
}
