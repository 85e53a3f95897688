//! property: C02
//! needs: a block comment with a multi-byte character in it
//! breaks: lexing a block comment with multi-byte characters panics
//! file: lang/rust/syntax/src/rust.fall
//! old
//! |            let l = c.len_utf8();
//! |            s = &s[l..];
//! new
//! |            let l = if level > 1 { 1 } else { c.len_utf8() };
//! |            s = &s[l..];
//! file: lang/rust/syntax/src/rust.rs
//! old
//! |            let l = c.len_utf8();
//! |            s = &s[l..];
//! new
//! |            let l = if level > 1 { 1 } else { c.len_utf8() };
//! |            s = &s[l..];
fn main() {
    let f = lang_rust_syntax::lang_rust().parse("/* \u{e9} /* \u{44f} */ */ fn f() {}");
    assert!(fall_tree::dump_file(&f).contains("FN_DEF"));
}
