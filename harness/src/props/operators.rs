use crate::driver::*;
use crate::dynlang::{self, *};
use crate::ensure;
use crate::gen::Gen;
use crate::langs;
use crate::model::{Grammar, Pratt, E};
use crate::refeng::{self, T};
use crate::tree::*;

// ------------------------------------------------------------------------------------ C07
// An operator-precedence parser with an explicit stack, as in textbooks.
struct Shunt<'a> {
    toks: &'a [refeng::Tok],
    prefix: Vec<(usize, usize, u32)>,
    /// op token, type, priority, binary
    infix: Vec<(usize, usize, u32, bool)>,
    paren_ty: usize,
    num_ty: usize,
}

impl<'a> Shunt<'a> {
    fn tok(&self, i: usize) -> Option<usize> {
        self.toks.get(i).map(|t| t.ty)
    }
    fn atom(&self, i: usize) -> Option<(T, usize)> {
        match self.tok(i)? {
            t if t == NUM => Some((T::Node(self.num_ty, vec![T::Tok(NUM, 1)]), i + 1)),
            t if t == LPAREN => {
                let (e, j) = self.expr(i + 1)?;
                if self.tok(j) == Some(RPAREN) {
                    Some((T::Node(self.paren_ty, vec![T::Tok(LPAREN, 1), e, T::Tok(RPAREN, 1)]), j + 1))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn expr(&self, i: usize) -> Option<(T, usize)> {
        // node type, priority, is binary, parts so far
        let mut stack: Vec<(usize, u32, bool, Vec<T>)> = Vec::new();
        fn reduce(stack: &mut Vec<(usize, u32, bool, Vec<T>)>, x: T) -> T {
            let (ty, _, _, mut parts) = stack.pop().unwrap();
            parts.push(x);
            T::Node(ty, parts)
        }
        let operand = |mut i: usize| -> Option<(Vec<(usize, u32, usize)>, T, usize)> {
            let mut pre = Vec::new();
            loop {
                if let Some((a, j)) = self.atom(i) {
                    return Some((pre, a, j));
                }
                let t = self.tok(i)?;
                let p = self.prefix.iter().find(|p| p.0 == t)?;
                pre.push((p.1, p.2, t));
                i += 1;
            }
        };
        let (pre, mut x, mut i) = operand(i)?;
        for (ty, q, t) in pre {
            stack.push((ty, q, false, vec![T::Tok(t, 1)]));
        }
        loop {
            let op = match self.tok(i).and_then(|t| self.infix.iter().find(|p| p.0 == t)) {
                Some(op) => *op,
                None => break,
            };
            let (t, ty, p, binary) = op;
            while stack.last().map_or(false, |s| if s.2 { p <= s.1 } else { p < s.1 }) {
                x = reduce(&mut stack, x);
            }
            i += 1;
            if !binary {
                x = T::Node(ty, vec![x, T::Tok(t, 1)]);
                continue;
            }
            match operand(i) {
                Some((pre, y, j)) => {
                    stack.push((ty, p, true, vec![x, T::Tok(t, 1)]));
                    for (ty, q, t) in pre {
                        stack.push((ty, q, false, vec![T::Tok(t, 1)]));
                    }
                    x = y;
                    i = j;
                }
                None => x = T::Node(ty, vec![x, T::Tok(t, 1), T::Node(0, vec![])]),
            }
        }
        while !stack.is_empty() {
            x = reduce(&mut stack, x);
        }
        Some((x, i))
    }
}

fn random_table(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let ops = [PLUS, MINUS, STAR, BANG, LT, GT, FIRST_TOK, FIRST_TOK + 1, FIRST_TOK + 2, FIRST_TOK + 3];
    let mut next = FIRST_NODE;
    let mut ty = || {
        next += 1;
        next - 1
    };
    let (file_ty, num_ty, paren_ty) = (ty(), ty(), ty());
    let max_prior = g.range(1, 5) as u32;
    let mut prefix = Vec::new();
    for _ in 0..g.below(4) {
        let op = *g.pick(&ops);
        if !prefix.iter().any(|p: &(usize, usize, u32)| p.0 == op) {
            prefix.push((op, ty(), if g.chance(1, 3) { 999 } else { g.range(0, max_prior as usize) as u32 }));
        }
    }
    let mut infix = Vec::new();
    for _ in 0..g.range(1, 6) {
        let op = *g.pick(&ops);
        if !infix.iter().any(|p: &(usize, usize, u32, bool)| p.0 == op) {
            let binary = g.chance(2, 3);
            infix.push((op, ty(), if !binary && g.bool() { 999 } else { g.range(1, max_prior as usize) as u32 }, binary));
        }
    }
    // the grammar
    let mut rules: Vec<E> = vec![E::Pub { ty: file_ty, body: 1, replaceable: false }, E::Pratt(Pratt { atoms: vec![], prefixes: vec![], infixes: vec![] })];
    let mut push = |e: E| {
        rules.push(e);
        rules.len() - 1
    };
    let num = push(E::Token(NUM));
    let (lp, rp) = (push(E::Token(LPAREN)), push(E::Token(RPAREN)));
    let seq = push(E::And(vec![lp, 1, rp], None));
    let atoms = vec![push(E::Pub { ty: num_ty, body: num, replaceable: false }), push(E::Pub { ty: paren_ty, body: seq, replaceable: false })];
    let prefixes = prefix.iter().map(|p| (p.1, push(E::Token(p.0)), p.2)).collect();
    let infixes = infix.iter().map(|p| (p.1, push(E::Token(p.0)), p.2, p.3)).collect();
    rules[1] = E::Pratt(Pratt { atoms, prefixes, infixes });
    let gr = Grammar { rules, n_types: next };
    let l = dynlang::build(&gr, dynlang::binder_none);
    for _ in 0..3 {
        let n = g.range(0, 16);
        let mut toks: Vec<usize> = Vec::new();
        // mostly operand / operator alternation
        let mut open = 0;
        let mut expect = true;
        for _ in 0..n {
            let t = if g.chance(1, 10) {
                *g.pick(&[NUM, LPAREN, RPAREN, PLUS, MINUS, STAR, BANG, LT, SEMI])
            } else if expect {
                match g.below(6) {
                    0..=2 => NUM,
                    3 => LPAREN,
                    _ if prefix.is_empty() => NUM,
                    _ => g.pick(&prefix).0,
                }
            } else if open > 0 && g.chance(1, 4) {
                RPAREN
            } else {
                g.pick(&infix).0
            };
            if t == LPAREN {
                open += 1
            }
            if t == RPAREN {
                open -= 1
            }
            expect = match t {
                t if t == NUM || t == RPAREN => false,
                t if t == LPAREN => true,
                _ if expect => true,
                _ => infix.iter().find(|p| p.0 == t).map_or(true, |p| p.3),
            };
            toks.push(t);
        }
        if expect {
            toks.push(NUM);
        }
        for _ in 0..open.max(0) {
            toks.push(RPAREN);
        }
        let text = toks.iter().map(|&t| samples(t)[0]).collect::<Vec<_>>().join(" ");
        ctx.describe(|| format!("prefix (token, node, priority) {:?}\ninfix (token, node, priority, binary) {:?}\ntext {:?}", prefix, infix, text));
        let raw = refeng::lex(&text);
        let non_ws: Vec<_> = raw.iter().filter(|t| !is_ws(t.ty)).cloned().collect();
        let s = Shunt { toks: &non_ws, prefix: prefix.clone(), infix: infix.clone(), paren_ty, num_ty };
        let (mut kids, end) = match s.expr(0) {
            Some((x, i)) => (vec![x], i),
            None => (vec![], 0),
        };
        if end < non_ws.len() {
            kids.push(T::Node(0, non_ws[end..].iter().map(|t| T::Tok(t.ty, 1)).collect()));
            ctx.class("leftover");
        }
        let want = refeng::place(&T::Node(file_ty, kids), &raw, &text, file_ty, dynlang::binder_none);
        let f = l.parse(text.as_str());
        let got = snap(&f);
        ctx.evals += 1;
        if got != want {
            return Err(format!("operators are not grouped by their priorities; {}", diff(&f, &want, &f, &got)).into());
        }
        let used: std::collections::HashSet<usize> = non_ws[..end].iter().map(|t| t.ty).filter(|&t| t != NUM).collect();
        if used.len() >= 2 {
            ctx.class("random-table");
            ctx.nontrivial((format!("{:?}{:?}", prefix, infix), text));
        }
    }
    Ok(())
}

// Rust expressions, generated as trees and printed with the fewest parentheses
enum X {
    Atom(String),
    Bin(u32, &'static str, &'static str, Box<X>, Box<X>),
    Pre(&'static str, &'static str, Box<X>),
    /// node, printed suffix, tokens of the suffix; arguments
    Post(&'static str, Vec<X>, u8),
    Cast(Box<X>, &'static str),
    RangeTo(&'static str, Box<X>),
    RangeFrom(&'static str, Box<X>),
    Full,
    Paren(Box<X>),
}

const BIN: &[(u32, &str, &[&str])] = &[
    (11, "PRODUCT_EXPR", &["*", "/", "%"]),
    (10, "SUM_EXPR", &["+", "-"]),
    (9, "BIT_SHIFT", &["<<", ">>"]),
    (8, "BIT_AND", &["&"]),
    (7, "BIT_XOR", &["^"]),
    (6, "BIT_OR", &["|"]),
    (5, "COMPARISON", &["==", "!=", "<", ">", "<=", ">="]),
    (4, "LOGICAL_AND", &["&&"]),
    (3, "LOGICAL_OR", &["||"]),
    (2, "RANGE_EXPR", &["..", "..."]),
    (1, "ASSIGNMENT_EXPR", &["=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", ">>=", "<<="]),
];

fn prec(x: &X) -> u32 {
    match x {
        X::Atom(_) | X::Paren(_) | X::Full => 20,
        X::Bin(p, ..) => *p,
        X::Pre(..) => 14,
        X::Cast(..) => 13,
        X::Post(..) => 15,
        X::RangeTo(..) => 2,
        // what follows `x..` could be taken for its end
        X::RangeFrom(..) => 1,
    }
}

fn rust_expr(g: &mut Gen, depth: usize, less: bool) -> X {
    let need = |x: X, p: u32| if prec(&x) < p || matches!(x, X::Full) { X::Paren(Box::new(x)) } else { x };
    let k = if depth == 0 { 0 } else { g.weighted(&[3, 10, 3, 4, 2, 1, 1, 1]) };
    let d = depth.saturating_sub(1);
    match k {
        0 => match g.below(12) {
            11 if depth > 1 => X::Full,
            i => X::Atom(["x", "1", "foo", "\"s\"", "'c'", "true", "()", "a::b", "y", "z1", "self"][i.min(10)].into()),
        },
        1 => {
            let (p, ty, ops) = *g.pick(BIN);
            let mut op = *g.pick(ops);
            if !less && (op == "<" || op == "<<" || op == "<=" || op == "<<=") {
                op = ops[ops.len() - 1 - (ty == "ASSIGNMENT_EXPR") as usize];
                if op.starts_with('<') {
                    op = ops[0]
                }
            }
            // comparisons and ranges do not chain
            let lp = if p == 5 || p <= 2 { p + 1 } else { p };
            let l = need(rust_expr(g, d, less), lp);
            let r = need(rust_expr(g, d, less), p + 1);
            X::Bin(p, ty, op, Box::new(l), Box::new(r))
        }
        2 => {
            let (op, ty) = *g.pick(&[("-", "NEGATION_EXPR"), ("!", "NOT_EXPR"), ("*", "DEREFERENCE_EXPR"), ("&", "REFERENCE_EXPR"), ("& mut", "REFERENCE_EXPR")]);
            X::Pre(op, ty, Box::new(need(rust_expr(g, d, less), 14)))
        }
        3 => {
            let i = g.below(5) as u8;
            let ty = ["FIELD_EXPR", "METHOD_CALL_EXPR", "CALL_EXPR", "INDEX_EXPR", "TRY_EXPR"][i as usize];
            let mut first = need(rust_expr(g, d, less), 15);
            if i == 2 && matches!(first, X::Post(_, _, 0)) {
                // a call of a field needs parentheses
                first = X::Paren(Box::new(first));
            }
            let mut xs = vec![first];
            let n = match i {
                1 | 2 => g.below(3),
                3 => 1,
                _ => 0,
            };
            for _ in 0..n {
                xs.push(rust_expr(g, d, less));
            }
            X::Post(ty, xs, i)
        }
        4 if !less => X::Cast(Box::new(need(rust_expr(g, d, less), 13)), *g.pick(&["u8", "usize", "Foo"])),
        5 => X::RangeTo(*g.pick(&["..", "..."]), Box::new(need(rust_expr(g, d, less), 3))),
        6 => X::RangeFrom("..", Box::new(need(rust_expr(g, d, less), 3))),
        _ => X::Paren(Box::new(rust_expr(g, d, less))),
    }
}

/// printed text, and the tree it stands for
fn show(x: &X, text: &mut Vec<String>, tree: &mut String) {
    fn t(text: &mut Vec<String>, tree: &mut String, s: &str) {
        for w in s.split(' ') {
            text.push(w.to_string());
            tree.push_str(w);
            tree.push(' ');
        }
    }
    match x {
        X::Atom(a) => t(text, tree, a),
        X::Full => {
            tree.push_str("(RANGE_EXPR ");
            t(text, tree, "..");
            tree.push(')')
        }
        X::Bin(_, ty, op, l, r) => {
            tree.push_str(&format!("({} ", ty));
            show(l, text, tree);
            t(text, tree, op);
            show(r, text, tree);
            tree.push(')');
        }
        X::Pre(op, ty, x) => {
            tree.push_str(&format!("({} ", ty));
            t(text, tree, op);
            show(x, text, tree);
            tree.push(')');
        }
        X::RangeTo(op, x) => {
            tree.push_str("(RANGE_EXPR ");
            t(text, tree, op);
            show(x, text, tree);
            tree.push(')');
        }
        X::RangeFrom(op, x) => {
            tree.push_str("(RANGE_EXPR ");
            show(x, text, tree);
            t(text, tree, op);
            tree.push(')');
        }
        X::Cast(x, ty) => {
            tree.push_str("(CAST_EXPR ");
            show(x, text, tree);
            t(text, tree, "as");
            t(text, tree, ty);
            tree.push(')');
        }
        X::Paren(x) => {
            tree.push_str("(PAREN_EXPR ");
            t(text, tree, "(");
            show(x, text, tree);
            t(text, tree, ")");
            tree.push(')');
        }
        X::Post(ty, xs, k) => {
            tree.push_str(&format!("({} ", ty));
            show(&xs[0], text, tree);
            match k {
                0 => {
                    t(text, tree, ".");
                    t(text, tree, "f")
                }
                4 => t(text, tree, "?"),
                3 => {
                    t(text, tree, "[");
                    show(&xs[1], text, tree);
                    t(text, tree, "]")
                }
                _ => {
                    if *k == 1 {
                        t(text, tree, ".");
                        t(text, tree, "m");
                    }
                    t(text, tree, "(");
                    for (i, x) in xs[1..].iter().enumerate() {
                        if i > 0 {
                            text.push(",".into());
                        }
                        tree.push_str("(VALUE_ARGUMENT ");
                        show(x, text, tree);
                        tree.push(')');
                        if i + 2 < xs.len() {
                            tree.push_str(", ");
                        }
                    }
                    t(text, tree, ")")
                }
            }
            tree.push(')');
        }
    }
}

const EXPR_NODES: &[&str] = &[
    "PRODUCT_EXPR", "SUM_EXPR", "BIT_SHIFT", "BIT_AND", "BIT_XOR", "BIT_OR", "COMPARISON", "LOGICAL_AND", "LOGICAL_OR", "RANGE_EXPR",
    "ASSIGNMENT_EXPR", "NEGATION_EXPR", "NOT_EXPR", "DEREFERENCE_EXPR", "REFERENCE_EXPR", "CAST_EXPR", "PAREN_EXPR", "FIELD_EXPR",
    "METHOD_CALL_EXPR", "CALL_EXPR", "INDEX_EXPR", "TRY_EXPR", "VALUE_ARGUMENT", "ERROR", "FILE",
];

fn sx(n: fall_tree::Node, out: &mut String) {
    let lang = n.file().language();
    let name = lang.node_type_info(n.ty()).name;
    if EXPR_NODES.contains(&name) {
        out.push_str(&format!("({} ", name));
        for c in n.children() {
            if !lang.node_type_info(c.ty()).whitespace_like {
                sx(c, out)
            }
        }
        out.push(')');
    } else {
        out.push_str(&n.text().to_string().chars().filter(|c| !c.is_whitespace()).collect::<String>());
        out.push(' ');
    }
}

fn find_named<'f>(n: fall_tree::Node<'f>, name: &str) -> Option<fall_tree::Node<'f>> {
    if n.file().language().node_type_info(n.ty()).name == name {
        return Some(n);
    }
    n.children().filter_map(|c| find_named(c, name)).next()
}

fn rust_ops(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let less = g.bool();
    let depth = g.range(1, 5);
    let x = rust_expr(g, depth, less);
    let (mut toks, mut want) = (Vec::new(), String::new());
    show(&x, &mut toks, &mut want);
    // in a let statement, as a statement of its own, as an argument, in a condition
    let frame = g.below(4);
    let (before, after) = [("fn f() { let v = ", "; }"), ("fn f() { ", "; }"), ("const C: X = ", ";"), ("fn f() { g(1, ", "); }")][frame];
    let text = format!("{}{}{}", before, toks.join(" "), after);
    ctx.describe(|| format!("text {:?}\nexpected {}", text, want));
    let f = langs::by_name("rust").language.parse(text.as_str());
    let holder = match frame {
        0 => "LET_STMT",
        1 => "EXPR_STMT",
        2 => "CONST_DEF",
        _ => "CALL_EXPR",
    };
    let h = match find_named(f.root(), holder) {
        Some(h) => h,
        None => return Err(format!("no {} in\n{}", holder, fall_tree::dump_file(&f)).into()),
    };
    let kids: Vec<_> = h.children().filter(|c| !f.language().node_type_info(c.ty()).whitespace_like).collect();
    let name = |n: fall_tree::Node| f.language().node_type_info(n.ty()).name;
    // the expression is the child before the semicolon / the last argument
    let e = match frame {
        1 => kids[0],
        3 => {
            let a = kids.iter().rev().find(|c| name(**c) == "VALUE_ARGUMENT");
            match a.and_then(|a| a.children().find(|c| !f.language().node_type_info(c.ty()).whitespace_like)) {
                Some(e) => e,
                None => return Err(format!("no argument in\n{}", fall_tree::dump_file(&f)).into()),
            }
        }
        _ => match kids.iter().position(|c| name(*c) == "SEMI") {
            Some(i) if i > 0 => kids[i - 1],
            _ => return Err(format!("{} has no semicolon in\n{}", holder, fall_tree::dump_file(&f)).into()),
        },
    };
    let mut got = String::new();
    sx(e, &mut got);
    ensure!(got == want, "{:?} is grouped as {}\nexpected {}", toks.join(" "), got, want);
    ensure!(!has_error(&f), "errors in {:?}:\n{}", text, fall_tree::dump_file(&f));
    if toks.len() >= 5 {
        ctx.class("rust");
        ctx.nontrivial(text);
    }
    Ok(())
}

fn c07(g: &mut Gen, ctx: &mut Ctx) -> Res {
    if g.bool() {
        random_table(g, ctx)
    } else {
        rust_ops(g, ctx)
    }
}

pub const C07: Prop = Prop {
    id: "C07",
    rule: "at least two different operators took part (random tables) or at least 5 tokens in the expression (Rust); keyed by table and text",
    run: c07,
    quick: 1_500_000,
    thorough: 60_000_000,
    tape: 160,
    threads: 0,
    exemplars: &[],
    assumptions: &["in random tables, an operator has at most one prefix and one infix or postfix role"],
    min_nontrivial_pct: 30,
};
