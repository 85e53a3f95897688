//! The shipped languages against the reference semantics of their grammars, and what users rely on
//! when a file contains errors or comments.
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use crate::langs::{self, Lang};
use crate::refeng;
use crate::tree::*;
use fall_tree::NodeType;

/// the comment rule of the Rust grammar: line comments directly above a struct belong to it
fn rust_binder(ty: NodeType, sp: Vec<(NodeType, &str)>, leading: bool) -> usize {
    let l = langs::by_name("rust");
    if !leading || ty != l.ty("STRUCT_DEF") {
        return 0;
    }
    let mut n = 0;
    for (t, s) in sp.iter().rev() {
        if *t == l.ty("LINE_COMMENT") || (*t == l.ty("WHITESPACE") && !s.contains('\n')) {
            n += 1;
        } else {
            break;
        }
    }
    n
}
fn no_binder(_: NodeType, _: Vec<(NodeType, &str)>, _: bool) -> usize {
    0
}

// ------------------------------------------------------------------------------------ C33
fn c33(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let l = langs::pick(g);
    let text = l.any_text(g, 60, 20_000);
    if text.len() > 5000 {
        ctx.class("long");
    }
    if l.name == "weird" && text.contains(&"#".repeat(31)) {
        return Ok(());
    }
    ctx.describe(|| format!("{} text {:?}", l.name, text));
    let raw = l.ref_lex(&text);
    let toks: Vec<_> = raw.iter().filter(|t| !l.is_ws(t.ty)).cloned().collect();
    let mut r = refeng::Ref::new(&l.grammar, &text, &toks, 3_000_000);
    let want = match r.file() {
        Ok(t) => t,
        Err(_) => {
            ctx.class("too-expensive");
            return Ok(());
        }
    };
    let file_ty = match l.grammar.rules[0] {
        crate::model::E::Pub { ty, .. } => ty,
        _ => unreachable!(),
    };
    let nt = |i: usize| NodeType(l.types[i].2);
    let want = refeng::place_with(&want, &raw, &text, file_ty, if l.name == "rust" { rust_binder } else { no_binder }, &|t| l.is_ws(t), &nt);
    let f = l.language.parse(text.as_str());
    let got = snap(&f);
    if got != want {
        return Err(format!("the tree is not the one the grammar describes; {}", diff(&f, &want, &f, &got)).into());
    }
    if got.len() >= 8 {
        ctx.class(l.name);
        if !has_error(&f) {
            ctx.class("error-free");
        }
        ctx.nontrivial((l.name, text));
    }
    Ok(())
}

pub const C33: Prop = Prop {
    id: "C33",
    rule: "the tree has at least 8 nodes; keyed by language and text",
    run: c33,
    quick: 350_000,
    thorough: 14_000_000,
    tape: 260,
    threads: 0,
    exemplars: &[],
    assumptions: &["the grammars of the shipped languages are a snapshot taken when the check was written"],
    min_nontrivial_pct: 30,
};

// ------------------------------------------------------------------------------------ C08
/// tokens balanced with respect to each of the given bracket pairs, none of `not`
fn garbage(g: &mut Gen, l: &Lang, pairs: &[(&str, &str)], not: &[&str], max: usize) -> String {
    let n = g.range(0, max);
    let mut out: Vec<String> = Vec::new();
    let mut open = vec![0usize; pairs.len()];
    for _ in 0..n {
        let t = if g.chance(1, 3) {
            let p = *g.pick(pairs);
            (if g.bool() { p.0 } else { p.1 }).to_string()
        } else {
            g.pick(&l.soup).clone()
        };
        if not.contains(&t.as_str()) {
            continue;
        }
        if let Some(i) = pairs.iter().position(|p| p.0 == t) {
            open[i] += 1;
        }
        if let Some(i) = pairs.iter().position(|p| p.1 == t) {
            if open[i] == 0 {
                continue;
            }
            open[i] -= 1;
        }
        out.push(t);
    }
    for (i, p) in pairs.iter().enumerate() {
        for _ in 0..open[i] {
            out.push(p.1.to_string());
        }
    }
    out.join(" ")
}

enum Piece {
    /// stands on its own, must be parsed as it is parsed alone
    Good(String),
    /// broken inside; type of the node that must still cover it
    Broken(String, &'static str),
    /// skipped
    Noise(String),
}

#[derive(Clone, Copy, PartialEq)]
enum Place {
    /// items of a file or module
    Items,
    /// items of an impl or trait
    Members,
    /// statements
    Block,
    /// nodes, classes and traits of an `ast` section
    Ast,
    /// fields of an object
    Fields,
    /// values of an array
    Values,
}

const HEADS: &[(&str, &str, &str)] = &[
    ("fn f() {", "}", "FN_DEF"), ("pub fn g(x: A) -> B {", "}", "FN_DEF"), ("mod m {", "}", "MOD_DEF"), ("extern \"C\" {", "}", "EXTERN_BLOCK"),
    ("impl A for B {", "}", "IMPL_DEF"), ("struct S {", "}", "STRUCT_DEF"), ("enum E {", "}", "ENUM_DEF"), ("trait T {", "}", "TRAIT_DEF"),
    ("#[a] pub union U<T> {", "}", "STRUCT_DEF"), ("unsafe impl<T> A<T> {", "}", "IMPL_DEF"), ("pub trait T<X>: A + B where X: C {", "}", "TRAIT_DEF"),
    ("fn h() { if x {", "} y }", "FN_DEF"), ("impl Q { fn a() {", "} fn b() {} }", "IMPL_DEF"), ("fn k() { x = match y { z => {", "} } }", "FN_DEF"),
];
/// what follows must begin with a keyword that cannot continue it
const CUTS: &[(&str, &str)] = &[
    ("fn foo", "FN_DEF"), ("struct Foo", "STRUCT_DEF"), ("enum Foo", "ENUM_DEF"), ("trait Foo", "TRAIT_DEF"),
    ("mod foo", "MOD_DEF"), ("use foo", "USE_DECL"), ("const FOO", "CONST_DEF"), ("type Foo", "TYPE_DEF"), ("impl Foo", "IMPL_DEF"),
    ("fn", "FN_DEF"), ("struct", "STRUCT_DEF"), ("enum", "ENUM_DEF"), ("extern crate foo", "EXTERN_CRATE_DECL"),
    ("trait", "TRAIT_DEF"), ("mod", "MOD_DEF"), ("use", "USE_DECL"), ("static", "CONST_DEF"), ("type", "TYPE_DEF"), ("extern crate", "EXTERN_CRATE_DECL"),
    ("fn foo<T>", "FN_DEF"), ("fn foo(x: u32)", "FN_DEF"), ("pub fn foo() -> T", "FN_DEF"), ("const unsafe fn foo", "FN_DEF"), ("struct Foo<T>", "STRUCT_DEF"),
    ("pub(crate) struct Foo(A, B)", "STRUCT_DEF"), ("enum Foo<T>", "ENUM_DEF"), ("pub trait Foo", "TRAIT_DEF"), ("trait Foo: Bar", "TRAIT_DEF"), ("#[a] trait Foo<T>", "TRAIT_DEF"),
    ("use foo::bar", "USE_DECL"), ("use foo::", "USE_DECL"), ("use foo as", "USE_DECL"), ("use ::a::*", "USE_DECL"), ("pub use {a, b}", "USE_DECL"),
    ("static FOO", "CONST_DEF"), ("const FOO: u32", "CONST_DEF"), ("static FOO: u32 =", "CONST_DEF"), ("const FOO: u32 = 1", "CONST_DEF"),
    ("type Foo<T>", "TYPE_DEF"), ("type Foo = Bar", "TYPE_DEF"), ("impl<T> Foo<T>", "IMPL_DEF"), ("unsafe impl Foo for Bar", "IMPL_DEF"), ("#[a(b)] union Foo", "STRUCT_DEF"),
];
const MEMBERS: &[&str] = &[
    "fn a() {}", "pub fn b(&self) -> T { x }", "type X = u32;", "type Y;", "const A: u32 = 1;", "static B: T;", "unsafe fn c();", "#[inline] fn d(x: i32) { x + 1; }",
    "extern fn e();", "const unsafe fn f<T>(mut self) where T: Copy { loop {} }", "#[a] pub const C: T = D;",
];
const MEMBER_CUTS: &[(&str, &str)] = &[
    ("fn", "FN_DEF"), ("fn foo", "FN_DEF"), ("pub fn", "FN_DEF"), ("#[a] fn foo<T>", "FN_DEF"), ("fn foo(&self)", "FN_DEF"), ("unsafe fn foo() -> T", "FN_DEF"), ("type", "TYPE_DEF"),
    ("type Foo", "TYPE_DEF"), ("pub type Foo = Bar", "TYPE_DEF"), ("static", "CONST_DEF"), ("static FOO", "CONST_DEF"), ("const FOO", "CONST_DEF"), ("const FOO: u32", "CONST_DEF"),
    ("const FOO: u32 =", "CONST_DEF"), ("const FOO: u32 = 1", "CONST_DEF"),
];
const STATEMENTS: &[&str] = &[
    "let x = 1;", "let (a, b): T = c.d();", "let S { x, .. } = y;", "struct S;", "fn g() { 1; }", "use a::b;", "const C: u32 = 1;", "type A = B;", "enum E { A }", "mod m { fn f() {} }",
    "impl A { fn f() {} }", "pub trait T {}", "#[a] struct S { x: T }", "static X: u32 = 1;",
];
/// not after something cut short
const EXPRESSIONS: &[&str] = &["foo(1);", "if a { b } else { c }", "x = y + 1;", "while a { b; }", "for x in 0..n { x; }", "loop { break; }", "match x { A => 1, B => { } }", "a.b()?.c[1];", "return x;", "|x| x + 1;", "unsafe { x; }"];
const BLOCK_HEADS: &[(&str, &str, &str)] = &[
    ("if x {", "}", "IF_EXPR"), ("while x {", "}", "WHILE_EXPR"), ("loop {", "}", "LOOP_EXPR"), ("for x in y {", "}", "FOR_EXPR"), ("match x {", "}", "MATCH_EXPR"), ("fn f() {", "}", "FN_DEF"),
    ("if x { y } else {", "}", "IF_EXPR"), ("unsafe {", "}", "BLOCK_EXPR"), ("if let A(b) = c {", "}", "IF_EXPR"), ("let x = {", "};", "LET_STMT"), ("struct S {", "}", "STRUCT_DEF"),
];
const BLOCK_CUTS: &[(&str, &str)] = &[
    ("let", "LET_STMT"), ("let x", "LET_STMT"), ("let x =", "LET_STMT"), ("let x: u32", "LET_STMT"), ("let (a, b)", "LET_STMT"), ("let x = 1 +", "LET_STMT"), ("let x = a.b", "LET_STMT"), ("if x", "IF_EXPR"),
    ("while x", "WHILE_EXPR"), ("for", "FOR_EXPR"), ("for x", "FOR_EXPR"), ("for x in y", "FOR_EXPR"), ("match x", "MATCH_EXPR"), ("loop", "LOOP_EXPR"), ("return", "EXPR_STMT"), ("foo(x)", "EXPR_STMT"),
    ("x + 1", "EXPR_STMT"), ("fn", "FN_DEF"), ("struct Foo", "STRUCT_DEF"), ("type", "TYPE_DEF"), ("trait", "TRAIT_DEF"), ("use foo", "USE_DECL"), ("static", "CONST_DEF"),
];

fn rust_pieces(g: &mut Gen, l: &'static Lang, place: Place, framed: bool) -> Vec<Piece> {
    let n = g.range(2, 6);
    let mut out = Vec::new();
    let mut cut = false;
    for _ in 0..n {
        let was_cut = cut;
        cut = false;
        out.push(match g.weighted(&[4, 3, 3, 2]) {
            0 => {
                let from = match place {
                    Place::Members => MEMBERS,
                    Place::Block if !was_cut && g.chance(1, 3) => EXPRESSIONS,
                    Place::Block => STATEMENTS,
                    _ => crate::pools::RUST_ITEMS,
                };
                Piece::Good(g.pick(from).to_string())
            }
            1 => {
                let (head, tail, ty) = *g.pick(match place {
                    Place::Members => &[("fn f(&self) {", "}", "FN_DEF"), ("pub const unsafe fn g<T>() -> T {", "}", "FN_DEF"), ("const C: T = {", "};", "CONST_DEF")],
                    Place::Block if was_cut => &[("fn f() {", "}", "FN_DEF"), ("let x = {", "};", "LET_STMT"), ("enum E {", "}", "ENUM_DEF")],
                    Place::Block => BLOCK_HEADS,
                    _ => HEADS,
                });
                Piece::Broken(format!("{} {} {}", head, garbage(g, l, &[("{", "}")], &[], 12), tail), ty)
            }
            2 => {
                // ends before its time
                let (s, ty) = *g.pick(match place {
                    Place::Members => MEMBER_CUTS,
                    Place::Block if was_cut => &BLOCK_CUTS[..7],
                    Place::Block => BLOCK_CUTS,
                    _ => CUTS,
                });
                cut = true;
                Piece::Broken(s.to_string(), ty)
            }
            _ => {
                let n = g.range(1, 4);
                let toks: Vec<&str> = (0..n)
                    .map(|_| *g.pick(&[")", "]", "}", "=", "==", "+", ",", ";", ".", "92", "\"s\"", "'c'", "let", "if", "match", ">", "=>", "&", "for", "self"]))
                    .filter(|t| !framed || *t != "}")
                    .collect();
                // the last token of the noise continues nothing, nor does the first one in a block
                let first = if place == Place::Block { Some(")") } else { None };
                let toks: Vec<&str> = first.into_iter().chain(toks).chain(std::iter::once(")")).collect();
                Piece::Noise(toks.join(" "))
            }
        });
    }
    out
}

fn ast_pieces(g: &mut Gen, l: &'static Lang) -> Vec<Piece> {
    let n = g.range(2, 6);
    (0..n)
        .map(|_| match g.weighted(&[4, 3, 3, 2]) {
            0 => Piece::Good(g.pick(&["node foo { a b? }", "node bar: x, y { }", "class expr { a b }", "trait t { x y* z w.text }", "node baz { a b?.text }"]).to_string()),
            1 => {
                let (head, tail, ty) = *g.pick(&[("node x {", "}", "AST_NODE_DEF"), ("node x: t {", "}", "AST_NODE_DEF"), ("class c {", "}", "AST_CLASS_DEF"), ("trait t {", "}", "AST_TRAIT_DEF")]);
                Piece::Broken(format!("{} {} {}", head, garbage(g, l, &[("{", "}")], &[], 10), tail), ty)
            }
            2 => {
                let (s, ty) = *g.pick(&[("node foo", "AST_NODE_DEF"), ("class foo", "AST_CLASS_DEF"), ("trait foo", "AST_TRAIT_DEF")]);
                Piece::Broken(s.to_string(), ty)
            }
            _ => {
                let n = g.range(1, 4);
                let toks: Vec<&str> = (0..n).map(|_| *g.pick(&["|", "*", "?", "=", "'x'", "92", "]", ">", ",", ".", "#", "pub"])).chain(std::iter::once(")")).collect();
                Piece::Noise(toks.join(" "))
            }
        })
        .collect()
}

fn value_pieces(g: &mut Gen, l: &'static Lang) -> Vec<Piece> {
    let n = g.range(2, 6);
    let pairs = &[("{", "}"), ("[", "]")];
    (0..n)
        .map(|_| match g.weighted(&[4, 3, 2]) {
            0 => Piece::Good(g.pick(&["1", "\"x\"", "null", "true", "[1, 2, {}]", "{\"d\": null}", "[]", "{}", "{\"a\": {\"b\": [1]}, \"c\": 2}"]).to_string()),
            1 => {
                let (a, b, ty) = *g.pick(&[("[", "]", "ARRAY"), ("{", "}", "OBJECT")]);
                Piece::Broken(format!("{} {} {}", a, garbage(g, l, pairs, &[], 10), b), ty)
            }
            _ => Piece::Noise((0..g.range(1, 4)).map(|_| *g.pick(&[":", "}", ","])).collect::<Vec<_>>().join(" ")),
        })
        .collect()
}

fn fall_pieces(g: &mut Gen, l: &'static Lang) -> Vec<Piece> {
    let n = g.range(2, 6);
    let firsts = &["tokenizer", "pub", "rule", "#", "verbatim", "ast", "test", "{", "}"];
    let mut out = Vec::new();
    for _ in 0..n {
        out.push(match g.weighted(&[4, 3, 2, 2]) {
            0 => Piece::Good(g.pick(crate::pools::FALL_RULES).to_string()),
            1 => {
                let (head, tail, ty) = *g.pick(&[("rule x {", "}", "SYN_RULE"), ("pub rule y(a, b) {", "}", "SYN_RULE"), ("tokenizer {", "}", "TOKENIZER_DEF")]);
                let body = if ty == "SYN_RULE" && g.chance(1, 3) {
                    // the closing brace is missing
                    garbage(g, l, &[("(", ")")], firsts, 8)
                } else {
                    format!("{} {}", garbage(g, l, &[("{", "}")], &[], 10), tail)
                };
                Piece::Broken(format!("{} {}", head, body), ty)
            }
            2 => {
                let (s, ty) = *g.pick(&[("rule foo", "SYN_RULE"), ("pub rule foo", "SYN_RULE"), ("rule foo(a, b)", "SYN_RULE"), ("verbatim", "VERBATIM_DEF"), ("test", "TEST_DEF"), ("tokenizer", "TOKENIZER_DEF")]);
                Piece::Broken(s.to_string(), ty)
            }
            _ => {
                let n = g.range(1, 4);
                let toks: Vec<&str> = (0..n).map(|_| *g.pick(&["|", "*", "?", "=", "'x'", "foo", "92", ")", "]", "}", ">", ",", ".", "node"])).collect();
                let toks: Vec<&str> = toks.into_iter().chain(std::iter::once(")")).collect();
                Piece::Noise(toks.join(" "))
            }
        });
    }
    out
}

fn json_pieces(g: &mut Gen, l: &'static Lang) -> Vec<Piece> {
    let n = g.range(2, 6);
    let pairs = &[("{", "}"), ("[", "]")];
    let mut out = Vec::new();
    for _ in 0..n {
        out.push(match g.weighted(&[4, 3, 2, 2]) {
            0 => Piece::Good(g.pick(&["\"a\": 1", "\"b\": [1, 2, {}]", "\"c\": {\"d\": null}", "\"e\": \"x\"", "\"f\": true", "\"g\": []"]).to_string()),
            1 => {
                let b = if g.bool() { ("[", "]") } else { ("{", "}") };
                Piece::Broken(format!("\"x\": {} {} {}", b.0, garbage(g, l, pairs, &[], 10), b.1), "FIELD")
            }
            2 => Piece::Broken(g.pick(&["\"x\"", "\"x\":", "\"x\" 1", "\"x\" :"]).to_string(), "FIELD"),
            _ => {
                let n = g.range(1, 4);
                let toks: Vec<&str> = (0..n).map(|_| *g.pick(&["1", ":", ",", "null", "true"])).collect();
                Piece::Noise(toks.join(" "))
            }
        });
    }
    out
}

/// shape of the part of the tree covering exactly s..e, as the outermost node of that range of the
/// given type (any type if None)
fn subtree(all: &[Snap], s: usize, e: usize, ty: Option<u32>) -> Option<Vec<(u32, u32, usize, usize)>> {
    let i = all.iter().position(|x| x.start == s && x.end == e && ty.map_or(true, |t| t == x.ty))?;
    let mut out = vec![];
    for (k, x) in all[i..].iter().enumerate() {
        if k > 0 && x.depth <= all[i].depth {
            break;
        }
        out.push((x.depth - all[i].depth, x.ty, x.start - s, x.end - s));
    }
    Some(out)
}

fn c08(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let l = langs::by_name(*g.pick(&["rust", "rust", "fall", "json"]));
    let (place, frame) = match l.name {
        "json" => *g.pick(&[
            (Place::Fields, ("{ ", " }")), (Place::Fields, ("[ 1, { ", " }, 2 ]")), (Place::Fields, ("{ \"o\": { ", " } }")),
            (Place::Values, ("[ ", " ]")), (Place::Values, ("{ \"o\": [ ", " ], \"p\": 1 }")),
        ]),
        "rust" => *g.pick(&[
            (Place::Items, ("", "")), (Place::Items, ("", "")), (Place::Items, ("", "")), (Place::Items, ("mod outer {\n", "\n}")),
            (Place::Members, ("impl Foo {\n", "\n}")), (Place::Members, ("trait Foo {\n", "\n}")), (Place::Members, ("fn f() { unsafe impl<T> Foo for Bar<T> where T: A {\n", "\n} }")),
            (Place::Block, ("fn main() {\n", "\n}")), (Place::Block, ("fn main() { if x {\n", "\n} }")), (Place::Block, ("impl A { fn f() { loop {\n", "\n} } }")),
        ]),
        _ => *g.pick(&[(Place::Items, ("", "")), (Place::Items, ("", "")), (Place::Ast, ("ast {\n", "\n}")), (Place::Ast, ("rule a { b }\nast {\n", "\n}\nrule c { d }"))]),
    };
    let pieces = match place {
        Place::Fields => json_pieces(g, l),
        Place::Values => value_pieces(g, l),
        Place::Ast => ast_pieces(g, l),
        Place::Items if l.name == "fall" => fall_pieces(g, l),
        _ => rust_pieces(g, l, place, !frame.0.is_empty()),
    };
    // intact pieces are parsed alone between these
    let around = match place {
        Place::Fields => ("{", "}"),
        Place::Values => ("[", "]"),
        Place::Items => ("", ""),
        _ => frame,
    };
    let mut text = frame.0.to_string();
    let mut ranges = Vec::new();
    let mut balanced = true;
    for (i, p) in pieces.iter().enumerate() {
        let s = match p {
            Piece::Good(s) | Piece::Broken(s, _) | Piece::Noise(s) => s,
        };
        if s.matches('{').count() != s.matches('}').count() {
            balanced = false;
        }
        if i > 0 {
            text.push_str(match (&pieces[i - 1], l.name) {
                (Piece::Noise(_), "json") => " ",
                (_, "json") => ", ",
                _ => "\n",
            });
        }
        ranges.push((text.len(), text.len() + s.len()));
        text.push_str(s);
    }
    text.push_str(frame.1);
    if !balanced && !frame.0.is_empty() {
        // a stray brace would close the surrounding block
        return Ok(());
    }
    // two pieces a missing closing brace would join into a balanced block
    if !balanced && l.name == "fall" {
        let mut depth = 0i32;
        for (i, p) in pieces.iter().enumerate() {
            let s = &text[ranges[i].0..ranges[i].1];
            let unclosed = s.matches('{').count() > s.matches('}').count();
            depth += unclosed as i32;
            if depth > 0 && s.matches('{').count() < s.matches('}').count() {
                return Ok(());
            }
            let _ = p;
        }
    }
    ctx.describe(|| format!("{} text {:?}", l.name, text));
    let f = l.language.parse(text.as_str());
    let all = snap(&f);
    let mut broken = 0;
    let mut good = 0;
    for (i, p) in pieces.iter().enumerate() {
        let (s, e) = ranges[i];
        match p {
            Piece::Noise(_) => broken += 1,
            Piece::Good(t) => {
                good += 1;
                let alone = l.language.parse(format!("{}{}{}", around.0, t, around.1));
                let off = around.0.len();
                let asnap = snap(&alone);
                let top = asnap.iter().position(|x| x.start == off && x.end > off && x.end <= off + t.len() && x.depth > 0 && (place != Place::Fields || x.ty == l.ty("FIELD").0)).unwrap();
                let (ty, e1) = (asnap[top].ty, asnap[top].end - off);
                let want = subtree(&asnap, off, off + e1, Some(ty)).unwrap();
                // a field does not include the comma
                match subtree(&all, s, s + e1, Some(ty)) {
                    Some(got) => ensure!(got == want, "{:?} at {} is parsed differently because of an error elsewhere in the file:\n{}", t, s, render(&f, &all)),
                    None => return Err(format!("{:?} at {} is not recognised because of an error elsewhere in the file:\n{}", t, s, render(&f, &all)).into()),
                }
            }
            Piece::Broken(t, ty) => {
                broken += 1;
                let want = l.ty(ty).0;
                // what follows may complete it
                let completed = matches!(pieces.get(i + 1), Some(Piece::Noise(_)));
                let next = ranges.get(i + 1).map_or(text.len() - frame.1.trim_start().len(), |r| r.0);
                let _ = e;
                ensure!(all.iter().any(|x| x.ty == want && x.start == s && (completed || x.end <= next)), "the broken {} {:?} at {} has no node of its own:\n{}", ty, t, s, render(&f, &all));
            }
        }
    }
    if broken > 0 && good > 0 && has_error(&f) {
        ctx.class(match place {
            Place::Items => l.name,
            Place::Members => "rust members",
            Place::Block => "rust statements",
            Place::Ast => "fall ast",
            Place::Fields => "json fields",
            Place::Values => "json values",
        });
        ctx.nontrivial((l.name, text));
    }
    Ok(())
}

pub const C08: Prop = Prop {
    id: "C08",
    rule: "the file has at least one error, one broken piece and one intact piece; keyed by text",
    run: c08,
    quick: 500_000,
    thorough: 20_000_000,
    tape: 120,
    threads: 0,
    exemplars: &[],
    assumptions: &["broken pieces are balanced with respect to the delimiters of the blocks around them, and contain no unterminated literal or comment"],
    min_nontrivial_pct: 20,
};

// ------------------------------------------------------------------------------------ C09
fn strip(l: &Lang, s: &[Snap], text: &str) -> Vec<(u32, u32, String)> {
    let ws = |t: u32| l.types.iter().any(|x| x.2 == t && x.1);
    (0..s.len())
        .filter(|&i| !ws(s[i].ty))
        .map(|i| {
            let leaf = s.get(i + 1).map_or(true, |n| n.depth <= s[i].depth);
            (s[i].depth, s[i].ty, if leaf { text[s[i].start..s[i].end].to_string() } else { String::new() })
        })
        .collect()
}

fn c09(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let l = langs::pick(g);
    let text = l.any_text(g, 60, 20_000);
    if text.len() > 5000 {
        ctx.class("long");
    }
    if l.name == "weird" {
        return Ok(());
    }
    let raw = l.ref_lex(&text);
    // replace runs of trivia by other ones
    let mut new = String::new();
    let mut i = 0;
    let mut changed = 0;
    while i < raw.len() {
        if !l.is_ws(raw[i].ty) {
            new.push_str(&text[raw[i].start..raw[i].end]);
            i += 1;
            continue;
        }
        let s = raw[i].start;
        while i < raw.len() && l.is_ws(raw[i].ty) {
            i += 1;
        }
        let old = &text[s..raw[i - 1].end];
        if g.bool() {
            new.push_str(old);
        } else {
            changed += 1;
            let n = g.range(1, 3);
            new.push_str(g.pick(&[" ", "\n", "\n\n"]));
            for _ in 0..n {
                new.push_str(g.pick(l.trivia));
                new.push_str(g.pick(&[" ", "\n"]));
            }
        }
    }
    if g.bool() {
        let t = g.pick(l.trivia).to_string();
        new = format!("{}\n{}", t, new);
        changed += 1;
    }
    ctx.describe(|| format!("{} text {:?}\nwith other whitespace and comments {:?}", l.name, text, new));
    let raw2 = l.ref_lex(&new);
    let sig = |raw: &[refeng::Tok], text: &str| -> Vec<(usize, String)> {
        raw.iter().filter(|t| !l.is_ws(t.ty)).map(|t| (t.ty, text[t.start..t.end].to_string())).collect()
    };
    let (a, b) = (l.language.parse(text.as_str()), l.language.parse(new.as_str()));
    let (sa, sb) = (snap(&a), snap(&b));
    if sig(&raw, &text) == sig(&raw2, &new) {
        ctx.evals += 1;
        let (x, y) = (strip(l, &sa, &text), strip(l, &sb, &new));
        if x != y {
            return Err(format!("whitespace and comments change the tree:\n{}\nversus\n{}", render(&a, &sa), render(&b, &sb)).into());
        }
        if changed > 0 {
            ctx.class("transparent");
        }
    }
    // where trivia goes: between nodes, never at the edge of one; a struct takes the line comments
    // directly above it
    let binding = l.name == "rust";
    for (f, s, t) in [(&a, &sa, &text), (&b, &sb, &new)] {
        let raw = l.ref_lex(t);
        let before = |p: usize| -> usize {
            // start of the comments that belong to a struct whose first token is at p
            let mut q = p;
            for x in raw.iter().rev().filter(|x| x.end <= p) {
                if x.end != q {
                    break;
                }
                let name = &l.types[x.ty].0;
                let blank = name == "WHITESPACE" && !t[x.start..x.end].contains('\n');
                if name == "LINE_COMMENT" || blank {
                    q = x.start;
                } else {
                    break;
                }
            }
            q
        };
        for (i, x) in s.iter().enumerate() {
            let leaf = s.get(i + 1).map_or(true, |n| n.depth <= x.depth);
            if leaf || x.depth == 0 || x.start == x.end {
                continue;
            }
            let sub: Vec<&Snap> = s[i + 1..].iter().take_while(|y| y.depth > x.depth).collect();
            let leaves: Vec<&Snap> = (0..sub.len()).filter(|&k| sub.get(k + 1).map_or(true, |n| n.depth <= sub[k].depth)).map(|k| sub[k]).collect();
            let (first_leaf, last) = (leaves[0], leaves[leaves.len() - 1]);
            let trivia = |y: &Snap| l.types.iter().any(|t| t.2 == y.ty && t.1);
            ensure!(!trivia(last), "{} at {}..{} ends with whitespace or a comment:\n{}", x.ty, x.start, x.end, render(f, s));
            if binding && x.ty == l.ty("STRUCT_DEF").0 {
                let first = raw.iter().find(|t| t.start >= x.start && !l.is_ws(t.ty)).unwrap().start;
                // an empty node (something missing) in front takes the trivia before it along
                let empty = s[..i].iter().filter(|y| y.start == y.end && y.start <= first).map(|y| y.start).max().unwrap_or(0);
                let want = before(first).max(empty);
                ensure!(want == x.start, "the struct at {} should start at {}:\n{}", x.start, want, render(f, s));
                if x.start < first {
                    ctx.class("bound-comment");
                }
            } else if trivia(first_leaf) {
                let bound = binding && s[i + 1..].iter().take_while(|y| y.depth > x.depth).any(|y| y.ty == l.ty("STRUCT_DEF").0 && y.start == x.start);
                ensure!(bound, "{} at {}..{} starts with whitespace or a comment:\n{}", x.ty, x.start, x.end, render(f, s));
            }
        }
    }
    if changed > 0 && sa.len() >= 8 {
        ctx.class(l.name);
        ctx.nontrivial((l.name, text, new));
    }
    Ok(())
}

pub const C09: Prop = Prop {
    id: "C09",
    rule: "some trivia was replaced and the tree has at least 8 nodes; keyed by both texts",
    run: c09,
    quick: 180_000,
    thorough: 7_200_000,
    tape: 260,
    threads: 0,
    exemplars: &[],
    assumptions: &["trees are compared only when the replaced trivia leaves the other tokens as they were (by the reference lexer)"],
    min_nontrivial_pct: 20,
};
