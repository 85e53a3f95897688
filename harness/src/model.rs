//! A grammar model independent of the engine's own data types.
use fall_parse as dst;
use serde_json::Value;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Pub { ty: usize, body: usize, replaceable: bool },
    PubReplace { ty: usize, body: usize },
    Or(Vec<usize>),
    And(Vec<usize>, Option<usize>),
    Token(usize),
    CtxToken(usize, String),
    Rep(usize),
    WithSkip(usize, usize),
    Opt(usize),
    Not(usize),
    Eof,
    Any,
    Layer(usize, usize),
    Pratt(Pratt),
    Enter(usize, usize),
    Exit(usize, usize),
    IsIn(usize),
    Call(usize, Vec<(usize, usize)>),
    Var(usize),
    PrevIs(Vec<usize>),
    Inject(usize, usize),
    Cached(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pratt {
    pub atoms: Vec<usize>,
    /// ty, op, priority
    pub prefixes: Vec<(usize, usize, u32)>,
    /// ty, op, priority, has_rhs
    pub infixes: Vec<(usize, usize, u32, bool)>,
}

fn u(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn us(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(u).collect()
}

impl E {
    pub fn from_json(v: &Value) -> E {
        if let Some(s) = v.as_str() {
            return match s {
                "Eof" => E::Eof,
                "Any" => E::Any,
                _ => panic!("unknown expression {}", s),
            };
        }
        let (k, v) = v.as_object().unwrap().iter().next().unwrap();
        let two = || (u(&v[0]), u(&v[1]));
        match k.as_str() {
            "Pub" => E::Pub { ty: u(&v["ty"]), body: u(&v["body"]), replaceable: v["replaceable"].as_bool().unwrap() },
            "PubReplace" => E::PubReplace { ty: u(&v["ty"]), body: u(&v["body"]) },
            "Or" => E::Or(us(v)),
            "And" => E::And(us(&v[0]), v[1].as_u64().map(|x| x as usize)),
            "Token" => E::Token(u(v)),
            "ContextualToken" => E::CtxToken(u(&v[0]), v[1].as_str().unwrap().to_owned()),
            "Rep" => E::Rep(u(v)),
            "WithSkip" => E::WithSkip(two().0, two().1),
            "Opt" => E::Opt(u(v)),
            "Not" => E::Not(u(v)),
            "Layer" => E::Layer(two().0, two().1),
            "Pratt" => E::Pratt(Pratt {
                atoms: us(&v["atoms"]),
                prefixes: v["prefixes"].as_array().unwrap().iter().map(|p| (u(&p["ty"]), u(&p["op"]), u(&p["priority"]) as u32)).collect(),
                infixes: v["infixes"].as_array().unwrap().iter()
                    .map(|p| (u(&p["ty"]), u(&p["op"]), u(&p["priority"]) as u32, p["has_rhs"].as_bool().unwrap())).collect(),
            }),
            "Enter" => E::Enter(two().0, two().1),
            "Exit" => E::Exit(two().0, two().1),
            "IsIn" => E::IsIn(u(v)),
            "Call" => E::Call(u(&v[0]), v[1].as_array().unwrap().iter().map(|p| (u(&p[0]), u(&p[1]))).collect()),
            "Var" => E::Var(u(v)),
            "PrevIs" => E::PrevIs(us(v)),
            "Inject" => E::Inject(two().0, two().1),
            "Cached" => E::Cached(u(v)),
            _ => panic!("unknown expression {}", k),
        }
    }

    pub fn to_dst(&self) -> dst::Expr {
        let r = |x: &usize| dst::ExprRef(*x as u32);
        let t = |x: &usize| dst::NodeTypeRef(*x as u32);
        match self {
            E::Pub { ty, body, replaceable } => dst::Expr::Pub { ty: t(ty), body: r(body), replaceable: *replaceable },
            E::PubReplace { ty, body } => dst::Expr::PubReplace { ty: t(ty), body: r(body) },
            E::Or(xs) => dst::Expr::Or(xs.iter().map(r).collect()),
            E::And(xs, c) => dst::Expr::And(xs.iter().map(r).collect(), *c),
            E::Token(x) => dst::Expr::Token(t(x)),
            E::CtxToken(x, s) => dst::Expr::ContextualToken(t(x), s.clone()),
            E::Rep(x) => dst::Expr::Rep(r(x)),
            E::WithSkip(a, b) => dst::Expr::WithSkip(r(a), r(b)),
            E::Opt(x) => dst::Expr::Opt(r(x)),
            E::Not(x) => dst::Expr::Not(r(x)),
            E::Eof => dst::Expr::Eof,
            E::Any => dst::Expr::Any,
            E::Layer(a, b) => dst::Expr::Layer(r(a), r(b)),
            E::Pratt(p) => dst::Expr::Pratt(Box::new(dst::PrattTable {
                atoms: p.atoms.iter().map(r).collect(),
                prefixes: p.prefixes.iter().map(|(ty, op, pr)| dst::Prefix { ty: t(ty), op: r(op), priority: *pr }).collect(),
                infixes: p.infixes.iter()
                    .map(|(ty, op, pr, rhs)| dst::Infix { ty: t(ty), op: r(op), priority: *pr, has_rhs: *rhs }).collect(),
            })),
            E::Enter(c, x) => dst::Expr::Enter(dst::Context(*c as u32), r(x)),
            E::Exit(c, x) => dst::Expr::Exit(dst::Context(*c as u32), r(x)),
            E::IsIn(c) => dst::Expr::IsIn(dst::Context(*c as u32)),
            E::Call(x, args) => dst::Expr::Call(r(x), args.iter().map(|(a, e)| (dst::Arg(*a as u32), r(e))).collect()),
            E::Var(a) => dst::Expr::Var(dst::Arg(*a as u32)),
            E::PrevIs(ts) => dst::Expr::PrevIs(ts.iter().map(t).collect()),
            E::Inject(a, b) => dst::Expr::Inject(r(a), r(b)),
            E::Cached(x) => dst::Expr::Cached(r(x)),
        }
    }
}

/// rules[0] is the start rule; node type index 0 is ERROR
#[derive(Clone, Debug)]
pub struct Grammar {
    pub rules: Vec<E>,
    pub n_types: usize,
}
