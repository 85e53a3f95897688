//! property: C19
//! needs: a parameter with the name of a rule
//! breaks: inside a rule, a name that is both a parameter and a rule means the rule
//! file: lang/fall/src/analysis/query/resolve_ref_expr.rs
//! old
//! |            .and_then(|params| params.parameters().find(|p| p.name() == reference_name)) {
//! new
//! |            .and_then(|params| params.parameters().find(|p| p.name() == reference_name))
//! |            .filter(|_| db.get(query::FindSynRule(reference_name)).is_none()) {
use lang_fall::RefKind;
use lang_fall::syntax::RefExpr;
use fall_tree::search::ast::descendants_of_type;
use fall_tree::AstNode;
fn main() {
    let f = lang_fall::analyse("tokenizer { n r\"n\" }\npub rule file { <a n> item }\nrule a(item) { item }\npub rule item { n }\n".to_string());
    f.analyse(|a| {
        let refs = descendants_of_type::<RefExpr>(a.ast().node());
        let kinds: Vec<_> = refs.iter().filter(|r| r.reference_name() == "item").map(|&r| match a.resolve_reference(r) {
            Some(RefKind::Param(_)) => "param",
            Some(RefKind::RuleReference(_)) => "rule",
            _ => "other",
        }).collect();
        assert_eq!(kinds, ["rule", "param"]);
    });
}
