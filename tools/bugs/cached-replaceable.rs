//! property: C16
//! needs: a rule that is both cached and replaceable, and a rule that replaces it
//! breaks: a cached rule is never replaced
//! file: fall/gen/src/generate/codegen.rs
//! old
//! |                let body = self.push_expr(dst::Expr::Cached(body));
//! |                dst::Expr::Pub {
//! |                    ty,
//! |                    body,
//! |                    replaceable: rule.is_replaceable(),
//! new
//! |                let body = self.push_expr(dst::Expr::Cached(body));
//! |                dst::Expr::Pub {
//! |                    ty,
//! |                    body,
//! |                    replaceable: false,
fn main() {
    let src = "tokenizer { n r\"n\" }\npub rule file { a b }\n#[cached, replaceable] pub rule a { n }\n#[replaces] pub rule b { n }\n";
    let f = lang_fall::analyse(src.to_string());
    let out = f.analyse(|a| fall_gen::generate(a)).unwrap();
    assert!(out.contains("\"replaceable\":true"), "{}", out);
}
