//! property: C16
//! needs: two contexts one of whose names begins with the other
//! breaks: contexts whose names share a beginning are taken for one another
//! file: lang/fall/src/analysis/query/resolve_call.rs
//! old
//! |            .position(|&c| c == name)
//! new
//! |            .position(|&c| name.starts_with(&c.to_cow()))
fn main() {
    let src = "tokenizer { n r\"n\" }\npub rule file { <enter 'a' <enter 'ab' x>> <exit 'a' x> <exit 'ab' x> }\nrule x { <is_in 'a'> n | <is_in 'ab'> n }\n";
    let f = lang_fall::analyse(src.to_string());
    let out = f.analyse(|a| fall_gen::generate(a)).unwrap();
    assert!(out.contains("\"IsIn\":0") && out.contains("\"IsIn\":1"), "{}", out);
}
