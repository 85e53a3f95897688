// generated by tools/gen_ast.py from the `ast` sections
#![allow(unused)]
use super::ast::{guard, rn};
use fall_tree::{AstNode, Node};

pub const FALL_NODES: &[(&str, &[(&str, &str, u8, bool)])] = &[
    ("fall_file", &[("tokenizer_def", "tokenizer_def", 2, false), ("syn_rules", "syn_rule", 3, false), ("verbatim_def", "verbatim_def", 2, false), ("ast_def", "ast_def", 2, false), ("tests", "test_def", 3, false)]),
    ("tokenizer_def", &[("lex_rules", "lex_rule", 3, false)]),
    ("lex_rule", &[("attributes", "attributes", 2, false), ("node_type", "ident", 1, true)]),
    ("syn_rule", &[("attributes", "attributes", 2, false), ("name_ident", "ident", 2, false), ("name", "ident", 2, true), ("body", "expr", 2, false), ("parameters", "parameters", 2, false)]),
    ("parameters", &[("parameters", "parameter", 3, false)]),
    ("parameter", &[("name", "ident", 1, true)]),
    ("attributes", &[("attributes", "attribute", 3, false)]),
    ("attribute", &[("name", "ident", 1, true), ("value", "attribute_value", 2, false)]),
    ("attribute_value", &[]),
    ("verbatim_def", &[("literal_string", "hash_string", 2, true)]),
    ("ast_def", &[("ast_nodes", "ast_node_def", 3, false), ("ast_classes", "ast_class_def", 3, false), ("ast_traits", "ast_trait_def", 3, false)]),
    ("ast_node_def", &[("name_ident", "ident", 2, false), ("name", "ident", 2, true), ("methods", "method_def", 3, false)]),
    ("ast_trait_def", &[("name_ident", "ident", 2, false), ("name", "ident", 2, true), ("methods", "method_def", 3, false)]),
    ("ast_class_def", &[("name_ident", "ident", 2, false)]),
    ("method_def", &[("name", "ident", 1, true), ("selector", "ast_selector", 1, false)]),
    ("ast_selector", &[("child", "ident", 1, true), ("optional", "question", 2, false), ("many", "star", 2, false), ("dot", "dot", 2, false)]),
    ("test_def", &[("literal_string", "hash_string", 2, true)]),
    ("ref_expr", &[]),
    ("call_expr", &[("fn_name", "ident", 1, true), ("args", "expr", 3, false)]),
    ("block_expr", &[("alts", "expr", 3, false)]),
    ("opt_expr", &[("expr", "expr", 1, false)]),
    ("rep_expr", &[("expr", "expr", 1, false)]),
    ("seq_expr", &[("parts", "expr", 3, false)]),
];
pub const FALL_CLASSES: &[(&str, &[&str])] = &[
    ("expr", &["ref_expr", "call_expr", "block_expr", "opt_expr", "rep_expr", "seq_expr"]),
];
pub fn probe_fall(n: Node, out: &mut Vec<String>) {
    use lang_fall_syntax::*;
    if let Some(x) = FallFile::wrap(n) {
        out.push(format!("FallFile {:?} {}", x, x.node() == n));
        out.push(format!("tokenizer_def={}", guard(|| { match x.tokenizer_def() { None => "none".into(), Some(v) => rn(v.node()) } })));
        out.push(format!("syn_rules={}", guard(|| { x.syn_rules().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
        out.push(format!("verbatim_def={}", guard(|| { match x.verbatim_def() { None => "none".into(), Some(v) => rn(v.node()) } })));
        out.push(format!("ast_def={}", guard(|| { match x.ast_def() { None => "none".into(), Some(v) => rn(v.node()) } })));
        out.push(format!("tests={}", guard(|| { x.tests().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
    }
    if let Some(x) = TokenizerDef::wrap(n) {
        out.push(format!("TokenizerDef {:?} {}", x, x.node() == n));
        out.push(format!("lex_rules={}", guard(|| { x.lex_rules().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
    }
    if let Some(x) = LexRule::wrap(n) {
        out.push(format!("LexRule {:?} {}", x, x.node() == n));
        out.push(format!("attributes={}", guard(|| { match x.attributes() { None => "none".into(), Some(v) => rn(v.node()) } })));
        out.push(format!("node_type={}", guard(|| { format!("{:?}", x.node_type().to_string()) })));
    }
    if let Some(x) = SynRule::wrap(n) {
        out.push(format!("SynRule {:?} {}", x, x.node() == n));
        out.push(format!("attributes={}", guard(|| { match x.attributes() { None => "none".into(), Some(v) => rn(v.node()) } })));
        out.push(format!("name_ident={}", guard(|| { match x.name_ident() { None => "none".into(), Some(v) => rn(v) } })));
        out.push(format!("name={}", guard(|| { match x.name() { None => "none".into(), Some(v) => format!("{:?}", v.to_string()) } })));
        out.push(format!("body={}", guard(|| { match x.body() { None => "none".into(), Some(v) => rn(v.node()) } })));
        out.push(format!("parameters={}", guard(|| { match x.parameters() { None => "none".into(), Some(v) => rn(v.node()) } })));
    }
    if let Some(x) = Parameters::wrap(n) {
        out.push(format!("Parameters {:?} {}", x, x.node() == n));
        out.push(format!("parameters={}", guard(|| { x.parameters().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
    }
    if let Some(x) = Parameter::wrap(n) {
        out.push(format!("Parameter {:?} {}", x, x.node() == n));
        out.push(format!("name={}", guard(|| { format!("{:?}", x.name().to_string()) })));
    }
    if let Some(x) = Attributes::wrap(n) {
        out.push(format!("Attributes {:?} {}", x, x.node() == n));
        out.push(format!("attributes={}", guard(|| { x.attributes().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
    }
    if let Some(x) = Attribute::wrap(n) {
        out.push(format!("Attribute {:?} {}", x, x.node() == n));
        out.push(format!("name={}", guard(|| { format!("{:?}", x.name().to_string()) })));
        out.push(format!("value={}", guard(|| { match x.value() { None => "none".into(), Some(v) => rn(v.node()) } })));
    }
    if let Some(x) = AttributeValue::wrap(n) {
        out.push(format!("AttributeValue {:?} {}", x, x.node() == n));
    }
    if let Some(x) = VerbatimDef::wrap(n) {
        out.push(format!("VerbatimDef {:?} {}", x, x.node() == n));
        out.push(format!("literal_string={}", guard(|| { match x.literal_string() { None => "none".into(), Some(v) => format!("{:?}", v.to_string()) } })));
    }
    if let Some(x) = AstDef::wrap(n) {
        out.push(format!("AstDef {:?} {}", x, x.node() == n));
        out.push(format!("ast_nodes={}", guard(|| { x.ast_nodes().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
        out.push(format!("ast_classes={}", guard(|| { x.ast_classes().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
        out.push(format!("ast_traits={}", guard(|| { x.ast_traits().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
    }
    if let Some(x) = AstNodeDef::wrap(n) {
        out.push(format!("AstNodeDef {:?} {}", x, x.node() == n));
        out.push(format!("name_ident={}", guard(|| { match x.name_ident() { None => "none".into(), Some(v) => rn(v) } })));
        out.push(format!("name={}", guard(|| { match x.name() { None => "none".into(), Some(v) => format!("{:?}", v.to_string()) } })));
        out.push(format!("methods={}", guard(|| { x.methods().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
    }
    if let Some(x) = AstTraitDef::wrap(n) {
        out.push(format!("AstTraitDef {:?} {}", x, x.node() == n));
        out.push(format!("name_ident={}", guard(|| { match x.name_ident() { None => "none".into(), Some(v) => rn(v) } })));
        out.push(format!("name={}", guard(|| { match x.name() { None => "none".into(), Some(v) => format!("{:?}", v.to_string()) } })));
        out.push(format!("methods={}", guard(|| { x.methods().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
    }
    if let Some(x) = AstClassDef::wrap(n) {
        out.push(format!("AstClassDef {:?} {}", x, x.node() == n));
        out.push(format!("name_ident={}", guard(|| { match x.name_ident() { None => "none".into(), Some(v) => rn(v) } })));
    }
    if let Some(x) = MethodDef::wrap(n) {
        out.push(format!("MethodDef {:?} {}", x, x.node() == n));
        out.push(format!("name={}", guard(|| { format!("{:?}", x.name().to_string()) })));
        out.push(format!("selector={}", guard(|| { rn(x.selector().node()) })));
    }
    if let Some(x) = AstSelector::wrap(n) {
        out.push(format!("AstSelector {:?} {}", x, x.node() == n));
        out.push(format!("child={}", guard(|| { format!("{:?}", x.child().to_string()) })));
        out.push(format!("optional={}", guard(|| { match x.optional() { None => "none".into(), Some(v) => rn(v) } })));
        out.push(format!("many={}", guard(|| { match x.many() { None => "none".into(), Some(v) => rn(v) } })));
        out.push(format!("dot={}", guard(|| { match x.dot() { None => "none".into(), Some(v) => rn(v) } })));
    }
    if let Some(x) = TestDef::wrap(n) {
        out.push(format!("TestDef {:?} {}", x, x.node() == n));
        out.push(format!("literal_string={}", guard(|| { match x.literal_string() { None => "none".into(), Some(v) => format!("{:?}", v.to_string()) } })));
    }
    if let Some(x) = RefExpr::wrap(n) {
        out.push(format!("RefExpr {:?} {}", x, x.node() == n));
    }
    if let Some(x) = CallExpr::wrap(n) {
        out.push(format!("CallExpr {:?} {}", x, x.node() == n));
        out.push(format!("fn_name={}", guard(|| { format!("{:?}", x.fn_name().to_string()) })));
        out.push(format!("args={}", guard(|| { x.args().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
    }
    if let Some(x) = BlockExpr::wrap(n) {
        out.push(format!("BlockExpr {:?} {}", x, x.node() == n));
        out.push(format!("alts={}", guard(|| { x.alts().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
    }
    if let Some(x) = OptExpr::wrap(n) {
        out.push(format!("OptExpr {:?} {}", x, x.node() == n));
        out.push(format!("expr={}", guard(|| { rn(x.expr().node()) })));
    }
    if let Some(x) = RepExpr::wrap(n) {
        out.push(format!("RepExpr {:?} {}", x, x.node() == n));
        out.push(format!("expr={}", guard(|| { rn(x.expr().node()) })));
    }
    if let Some(x) = SeqExpr::wrap(n) {
        out.push(format!("SeqExpr {:?} {}", x, x.node() == n));
        out.push(format!("parts={}", guard(|| { x.parts().map(|v| rn(v.node())).collect::<Vec<_>>().join(",") })));
    }
    if let Some(x) = Expr::wrap(n) {
        let v = match x {
            Expr::RefExpr(v) => format!("RefExpr/{}", rn(v.node())),
            Expr::CallExpr(v) => format!("CallExpr/{}", rn(v.node())),
            Expr::BlockExpr(v) => format!("BlockExpr/{}", rn(v.node())),
            Expr::OptExpr(v) => format!("OptExpr/{}", rn(v.node())),
            Expr::RepExpr(v) => format!("RepExpr/{}", rn(v.node())),
            Expr::SeqExpr(v) => format!("SeqExpr/{}", rn(v.node())),
        };
        out.push(format!("Expr {:?} {} {}", x, v, x.node() == n));
    }
}
pub const RUST_NODES: &[(&str, &[(&str, &str, u8, bool)])] = &[
    ("fn_def", &[("name_ident", "ident", 2, false), ("name", "ident", 2, true)]),
    ("struct_def", &[("name_ident", "ident", 2, false), ("name", "ident", 2, true), ("type_parameters", "type_parameters", 2, false)]),
    ("enum_def", &[("name_ident", "ident", 2, false), ("name", "ident", 2, true), ("type_parameters", "type_parameters", 2, false)]),
    ("trait_def", &[("name_ident", "ident", 2, false), ("name", "ident", 2, true)]),
    ("type_def", &[("name_ident", "ident", 2, false), ("name", "ident", 2, true)]),
    ("mod_def", &[("name_ident", "ident", 2, false), ("name", "ident", 2, true)]),
    ("impl_def", &[]),
    ("type_parameter", &[("name_ident", "ident", 2, false), ("name", "ident", 2, true)]),
    ("use_decl", &[("path", "path", 2, false), ("spec", "use_spec", 2, false)]),
    ("let_stmt", &[]),
    ("expr_stmt", &[]),
    ("type_reference", &[]),
];
pub const RUST_CLASSES: &[(&str, &[&str])] = &[
];
pub fn probe_rust(n: Node, out: &mut Vec<String>) {
    use lang_rust_syntax::*;
    if let Some(x) = FnDef::wrap(n) {
        out.push(format!("FnDef {:?} {}", x, x.node() == n));
        out.push(format!("name_ident={}", guard(|| { match x.name_ident() { None => "none".into(), Some(v) => rn(v) } })));
        out.push(format!("name={}", guard(|| { match x.name() { None => "none".into(), Some(v) => format!("{:?}", v.to_string()) } })));
    }
    if let Some(x) = StructDef::wrap(n) {
        out.push(format!("StructDef {:?} {}", x, x.node() == n));
        out.push(format!("name_ident={}", guard(|| { match x.name_ident() { None => "none".into(), Some(v) => rn(v) } })));
        out.push(format!("name={}", guard(|| { match x.name() { None => "none".into(), Some(v) => format!("{:?}", v.to_string()) } })));
        out.push(format!("type_parameters={}", guard(|| { match x.type_parameters() { None => "none".into(), Some(v) => rn(v.node()) } })));
    }
    if let Some(x) = EnumDef::wrap(n) {
        out.push(format!("EnumDef {:?} {}", x, x.node() == n));
        out.push(format!("name_ident={}", guard(|| { match x.name_ident() { None => "none".into(), Some(v) => rn(v) } })));
        out.push(format!("name={}", guard(|| { match x.name() { None => "none".into(), Some(v) => format!("{:?}", v.to_string()) } })));
        out.push(format!("type_parameters={}", guard(|| { match x.type_parameters() { None => "none".into(), Some(v) => rn(v.node()) } })));
    }
    if let Some(x) = TraitDef::wrap(n) {
        out.push(format!("TraitDef {:?} {}", x, x.node() == n));
        out.push(format!("name_ident={}", guard(|| { match x.name_ident() { None => "none".into(), Some(v) => rn(v) } })));
        out.push(format!("name={}", guard(|| { match x.name() { None => "none".into(), Some(v) => format!("{:?}", v.to_string()) } })));
    }
    if let Some(x) = TypeDef::wrap(n) {
        out.push(format!("TypeDef {:?} {}", x, x.node() == n));
        out.push(format!("name_ident={}", guard(|| { match x.name_ident() { None => "none".into(), Some(v) => rn(v) } })));
        out.push(format!("name={}", guard(|| { match x.name() { None => "none".into(), Some(v) => format!("{:?}", v.to_string()) } })));
    }
    if let Some(x) = ModDef::wrap(n) {
        out.push(format!("ModDef {:?} {}", x, x.node() == n));
        out.push(format!("name_ident={}", guard(|| { match x.name_ident() { None => "none".into(), Some(v) => rn(v) } })));
        out.push(format!("name={}", guard(|| { match x.name() { None => "none".into(), Some(v) => format!("{:?}", v.to_string()) } })));
    }
    if let Some(x) = ImplDef::wrap(n) {
        out.push(format!("ImplDef {:?} {}", x, x.node() == n));
    }
    if let Some(x) = TypeParameter::wrap(n) {
        out.push(format!("TypeParameter {:?} {}", x, x.node() == n));
        out.push(format!("name_ident={}", guard(|| { match x.name_ident() { None => "none".into(), Some(v) => rn(v) } })));
        out.push(format!("name={}", guard(|| { match x.name() { None => "none".into(), Some(v) => format!("{:?}", v.to_string()) } })));
    }
    if let Some(x) = UseDecl::wrap(n) {
        out.push(format!("UseDecl {:?} {}", x, x.node() == n));
        out.push(format!("path={}", guard(|| { match x.path() { None => "none".into(), Some(v) => rn(v.node()) } })));
        out.push(format!("spec={}", guard(|| { match x.spec() { None => "none".into(), Some(v) => rn(v.node()) } })));
    }
    if let Some(x) = LetStmt::wrap(n) {
        out.push(format!("LetStmt {:?} {}", x, x.node() == n));
    }
    if let Some(x) = ExprStmt::wrap(n) {
        out.push(format!("ExprStmt {:?} {}", x, x.node() == n));
    }
    if let Some(x) = TypeReference::wrap(n) {
        out.push(format!("TypeReference {:?} {}", x, x.node() == n));
    }
}
