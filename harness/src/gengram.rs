//! Random well-formed grammars (no left recursion, no repetition of something that can match
//! nothing, injection only between nodes) and texts around them.
use crate::dynlang::*;
use crate::gen::Gen;
use crate::langs::{chars, min_depths, span, Deriver};
use crate::model::{Grammar, Pratt, E};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Pub,
    Private,
    Replaceable,
    PrattRule,
    Param(usize, usize),
    Cached,
    /// without a node of its own
    CachedPrivate,
}

pub struct Opts {
    pub cached: bool,
    pub contexts: bool,
    pub big: bool,
    /// numbers of contexts and parameters that many others came before
    pub wide: bool,
}

struct B<'o> {
    rules: Vec<E>,
    kinds: Vec<Kind>,
    nullable: Vec<bool>,
    n_types: usize,
    n_args: usize,
    pub_types: Vec<usize>,
    /// rules whose bodies call nothing themselves. Only they get arguments that mention
    /// parameters: what such an argument means is then what a substitution says, as no rule
    /// can be under way twice with one built out of the other
    leaf: Vec<bool>,
    ctx_base: usize,
    o: &'o Opts,
}

#[derive(Clone, Copy)]
struct Pos {
    rule: usize,
    guarded: bool,
    consume: bool,
    depth: usize,
    /// inside a cached rule: no lookahead, no context
    plain: bool,
    /// inside an argument
    arg: bool,
    /// whose body is being written: its parameters are in scope
    owner: usize,
    /// inside an argument that may mention them
    vars: bool,
}

const PLAIN_TOKS: &[usize] = &[FIRST_TOK, FIRST_TOK + 1, FIRST_TOK + 2, FIRST_TOK + 3, WORD, NUM, PLUS, LT, LPAREN, RPAREN];

impl<'o> B<'o> {
    fn push(&mut self, e: E) -> usize {
        self.rules.push(e);
        self.rules.len() - 1
    }

    fn new_type(&mut self) -> usize {
        self.n_types += 1;
        self.pub_types.push(self.n_types - 1);
        self.n_types - 1
    }

    fn tok(&mut self, g: &mut Gen) -> usize {
        let t = *g.pick(PLAIN_TOKS);
        self.push(E::Token(t))
    }

    fn refs(&self, p: Pos, f: impl Fn(Kind) -> bool) -> Vec<usize> {
        (1..self.kinds.len())
            .filter(|&j| (p.guarded && !p.arg) || j > p.rule)
            .filter(|&j| !(p.consume && self.nullable[j]))
            .filter(|&j| !p.plain || matches!(self.kinds[j], Kind::Cached | Kind::CachedPrivate))
            .filter(|&j| f(self.kinds[j]))
            .collect()
    }

    fn seq(&mut self, g: &mut Gen, p: Pos) -> usize {
        let n = if p.consume { g.range(1, 4) } else { g.range(0, 3) };
        let mut parts = Vec::new();
        let mut q = Pos { depth: p.depth + 1, ..p };
        let lead = if p.consume { g.below(n) } else { n };
        let mut consumed = p.guarded;
        for i in 0..n {
            q.consume = i == lead;
            q.guarded = consumed;
            let before_consumes = q.consume;
            // optional parts first, then the part that must consume
            parts.push(self.expr(g, q));
            if before_consumes {
                consumed = true;
            }
        }
        let commit = if g.chance(1, 4) && n > 0 {
            let lo = if p.consume { lead + 1 } else { 0 };
            Some(g.range(lo, n))
        } else {
            None
        };
        self.push(E::And(parts, commit))
    }

    fn call(&mut self, g: &mut Gen, p: Pos) -> Option<usize> {
        let mut c = self.refs(p, |k| matches!(k, Kind::Param(..)));
        if p.arg {
            c.retain(|&k| self.leaf[k]);
        }
        if c.is_empty() || self.leaf[p.owner] || p.depth > 8 {
            return None;
        }
        let k = *g.pick(&c);
        let (first, n) = match self.kinds[k] {
            Kind::Param(f, n) => (f, n),
            _ => unreachable!(),
        };
        let own = match self.kinds[p.owner] {
            Kind::Param(f, n) if !p.arg || p.vars => Some((f, n)),
            _ => None,
        };
        let mut args = Vec::new();
        for a in first..first + n {
            let x = match own {
                // inside a parametric rule: pass parameters on, possibly permuted
                Some((f, m)) if k == p.owner || g.bool() => {
                    let v = f + g.below(m);
                    self.push(E::Var(v))
                }
                // a recursive call inside its own body never builds bigger arguments
                _ => {
                    let vars = self.leaf[k] && k > p.owner && (!p.arg || p.vars);
                    let depth = if g.bool() { 9 } else { (p.depth + 1).max(3) };
                    let q = Pos { rule: k.max(p.rule), guarded: false, consume: true, depth, arg: true, vars, ..p };
                    if vars && own.is_some() && g.bool() {
                        self.seq(g, Pos { depth: 3, ..q })
                    } else {
                        self.expr(g, q)
                    }
                }
            };
            args.push((a, x));
        }
        Some(self.push(E::Call(k, args)))
    }

    fn expr(&mut self, g: &mut Gen, p: Pos) -> usize {
        let deep = p.depth > 4;
        let q = Pos { depth: p.depth + 1, ..p };
        if !p.consume && g.chance(2, 5) {
            let k = g.weighted(if p.plain { &[6, 6, 1, 0, 0, 0, 0] } else { &[5, 5, 2, 1, 2, 2, 1] });
            match k {
                0 => {
                    let consume = g.chance(3, 4);
                    let x = self.expr(g, Pos { consume, ..q });
                    return self.push(E::Opt(x));
                }
                1 => {
                    let x = self.expr(g, Pos { consume: true, ..q });
                    return self.push(E::Rep(x));
                }
                2 => {
                    let consume = g.chance(9, 10);
                    let x = self.expr(g, Pos { consume, ..q });
                    return self.push(E::Not(x));
                }
                3 => return self.push(E::Eof),
                4 if self.o.contexts => {
                    let c = self.ctx_base + g.below(3);
                    return self.push(E::IsIn(c));
                }
                5 if !self.pub_types.is_empty() => {
                    let n = g.range(1, 2);
                    let ts = (0..n).map(|_| *g.pick(&self.pub_types)).collect();
                    return self.push(E::PrevIs(ts));
                }
                _ => {}
            }
        }
        if deep {
            return match g.weighted(&[4, 2, 1]) {
                1 => match self.refs(p, |k| !matches!(k, Kind::Param(..))).as_slice() {
                    [] => self.tok(g),
                    rs => *g.pick(rs),
                },
                2 if !p.plain => {
                    let (t, s) = pick_ctx(g);
                    self.push(E::CtxToken(t, s.to_string()))
                }
                _ => self.tok(g),
            };
        }
        let ws: &[usize] = if p.plain {
            &[6, 1, 5, 5, 3, 1, 0, 0, 0, 0, 0, 0]
        } else {
            //  tok ctx ref seq or any layer skip call var inject enter
            if p.depth < 2 { &[1, 1, 5, 8, 6, 0, 3, 4, 4, 4, 4, 3] } else { &[6, 2, 6, 6, 4, 1, 3, 3, 3, 4, 3, 3] }
        };
        match g.weighted(ws) {
            0 => self.tok(g),
            1 => {
                let (t, s) = pick_ctx(g);
                self.push(E::CtxToken(t, s.to_string()))
            }
            2 => match self.refs(p, |k| !matches!(k, Kind::Param(..))).as_slice() {
                [] => self.tok(g),
                rs => *g.pick(rs),
            },
            3 => self.seq(g, p),
            4 => {
                let n = g.range(if p.consume { 1 } else { 0 }, 3);
                let xs = (0..n).map(|_| self.expr(g, q)).collect();
                self.push(E::Or(xs))
            }
            5 => self.push(E::Any),
            6 => {
                if g.bool() {
                    // `( <layer {<not )> <any>}* body> )`
                    let open = self.push(E::Token(LPAREN));
                    let close = self.push(E::Token(RPAREN));
                    let not = self.push(E::Not(close));
                    let any = self.push(E::Any);
                    let step = self.push(E::And(vec![not, any], None));
                    let l = self.push(E::Rep(step));
                    let b = self.expr(g, Pos { consume: false, guarded: true, ..q });
                    let layer = self.push(E::Layer(l, b));
                    let close2 = self.push(E::Token(RPAREN));
                    let commit = if g.bool() { Some(g.range(1, 2)) } else { None };
                    self.push(E::And(vec![open, layer, close2], commit))
                } else {
                    let l = self.expr(g, q);
                    let b = self.expr(g, Pos { consume: false, ..q });
                    self.push(E::Layer(l, b))
                }
            }
            7 => {
                let consume = g.chance(5, 6);
                let first = self.expr(g, Pos { consume, ..q });
                let body = self.expr(g, q);
                self.push(E::WithSkip(first, body))
            }
            8 => match self.call(g, p) {
                Some(c) => c,
                None => self.tok(g),
            },
            9 => match self.kinds[p.owner] {
                Kind::Param(f, n) if !p.arg || p.vars => {
                    let v = f + g.below(n);
                    self.push(E::Var(v))
                }
                _ => self.tok(g),
            },
            10 => {
                let is_node = |k: Kind| matches!(k, Kind::Pub | Kind::Replaceable | Kind::Cached);
                let bodies = self.refs(Pos { consume: p.consume, ..p }, is_node);
                let pre = self.refs(Pos { consume: true, ..p }, is_node);
                if bodies.is_empty() || pre.is_empty() {
                    return self.tok(g);
                }
                let n = g.range(1, 2);
                let mut parts = Vec::new();
                for _ in 0..n {
                    let x = *g.pick(&pre);
                    parts.push(match g.below(3) {
                        0 => self.push(E::Opt(x)),
                        1 => self.push(E::Rep(x)),
                        _ => x,
                    });
                }
                let prefix = self.push(E::And(parts, None));
                let b = *g.pick(&bodies);
                let body = if g.bool() && bodies.len() > 1 {
                    let b2 = *g.pick(&bodies);
                    self.push(E::Or(vec![b, b2]))
                } else {
                    b
                };
                self.push(E::Inject(prefix, body))
            }
            _ => {
                if self.o.contexts && g.chance(1, 2) {
                    // alternatives that tell the contexts apart, inside of some
                    let n = g.range(2, 3);
                    let mut alts = Vec::new();
                    for _ in 0..n {
                        let c = self.ctx_base + g.below(3);
                        let mut test = self.push(E::IsIn(c));
                        if g.chance(1, 3) {
                            test = self.push(E::Not(test));
                        }
                        let x = if g.chance(1, 3) { self.expr(g, q) } else { self.tok(g) };
                        alts.push(self.push(E::And(vec![test, x], None)));
                    }
                    if g.bool() {
                        alts.push(self.tok(g));
                    }
                    let mut x = self.push(E::Or(alts));
                    for _ in 0..g.range(1, 3) {
                        let c = self.ctx_base + g.below(3);
                        x = self.push(if g.chance(2, 3) { E::Enter(c, x) } else { E::Exit(c, x) });
                    }
                    return x;
                }
                let x = self.expr(g, q);
                if !self.o.contexts {
                    return x;
                }
                let c = self.ctx_base + g.below(3);
                if g.chance(2, 3) {
                    self.push(E::Enter(c, x))
                } else {
                    self.push(E::Exit(c, x))
                }
            }
        }
    }

    fn pratt(&mut self, g: &mut Gen, rule: usize) -> Pratt {
        let base = Pos { rule, guarded: false, consume: true, depth: 9, plain: false, arg: false, owner: rule, vars: false };
        let mut atoms = Vec::new();
        let n = g.range(1, 3);
        for _ in 0..n {
            let ty = self.new_type();
            let body = match g.weighted(&[3, 2, 1]) {
                0 => self.tok(g),
                1 => {
                    let a = self.push(E::Token(LPAREN));
                    let b = self.push(E::Token(RPAREN));
                    self.push(E::And(vec![a, rule, b], if g.bool() { Some(1) } else { None }))
                }
                _ => self.expr(g, base),
            };
            atoms.push(self.push(E::Pub { ty, body, replaceable: false }));
        }
        let op = |b: &mut Self, g: &mut Gen| match g.weighted(&[5, 2, 2, 1]) {
            0 => {
                let t = *g.pick(&[PLUS, MINUS, STAR, BANG, LT]);
                b.push(E::Token(t))
            }
            1 => {
                let (t, s) = *g.pick(&[CTX[0], CTX[2]]);
                b.push(E::CtxToken(t, s.to_string()))
            }
            2 => {
                let x = b.push(E::Token(PLUS));
                let y = b.push(E::Token(MINUS));
                b.push(E::Or(vec![x, y]))
            }
            _ => {
                let x = b.push(E::Token(LT));
                let y = b.tok(g);
                b.push(E::And(vec![x, y], if g.bool() { Some(1) } else { None }))
            }
        };
        let n = g.range(0, 2);
        let prefixes = (0..n).map(|_| {
            let ty = self.new_type();
            let o = op(self, g);
            (ty, o, if g.bool() { 999 } else { g.range(1, 4) as u32 })
        }).collect();
        let n = g.range(0, 4);
        let infixes = (0..n).map(|_| {
            let ty = self.new_type();
            let o = op(self, g);
            let post = g.chance(1, 3);
            (ty, o, if post { 999 } else { g.range(1, 4) as u32 }, !post)
        }).collect();
        Pratt { atoms, prefixes, infixes }
    }
}

pub fn grammar(g: &mut Gen, o: &Opts) -> Grammar {
    grammar_rules(g, o).0
}

/// the grammar and how many of its expressions are rules (the first ones)
pub fn grammar_rules(g: &mut Gen, o: &Opts) -> (Grammar, usize) {
    let n = g.range(3, if o.big { 10 } else { 6 });
    let base = if o.wide && g.chance(1, 8) { (g.range(6, 40), g.range(12, 40)) } else { (0, 0) };
    let mut b = B { rules: vec![E::Any; n], kinds: Vec::new(), nullable: Vec::new(), n_types: FIRST_NODE, n_args: base.0, pub_types: vec![], leaf: vec![], ctx_base: base.1, o };
    for i in 0..n {
        let k = if i == 0 { Kind::Pub } else {
            match g.weighted(&[8, 4, 2, 2, 3, if o.cached { 5 } else { 0 }]) {
                0 => Kind::Pub,
                1 => Kind::Private,
                2 => Kind::Replaceable,
                3 => Kind::PrattRule,
                4 if b.n_args < base.0 + 10 => {
                    let m = g.range(1, 3);
                    b.n_args += m;
                    Kind::Param(b.n_args - m, m)
                }
                5 => if g.chance(1, 3) { Kind::CachedPrivate } else { Kind::Cached },
                _ => Kind::Pub,
            }
        };
        b.kinds.push(k);
        let nullable = i == 0 || (g.chance(1, 6) && matches!(k, Kind::Pub | Kind::Private | Kind::Replaceable));
        b.nullable.push(nullable);
        let leaf = matches!(k, Kind::Param(..)) && g.bool();
        b.leaf.push(leaf);
    }
    let tys: Vec<usize> = (0..n).map(|i| if matches!(b.kinds[i], Kind::Private | Kind::PrattRule | Kind::Param(..) | Kind::CachedPrivate) { 0 } else { b.new_type() }).collect();
    for i in 0..n {
        let p = Pos { rule: i, guarded: false, consume: !b.nullable[i], depth: 0, plain: false, arg: false, owner: i, vars: false };
        let e = match b.kinds[i] {
            Kind::Pub => {
                let body = if i == 0 && !g.chance(1, 6) {
                    // a list of items, the usual shape of a file
                    let q = Pos { consume: true, depth: 1, ..p };
                    let m = g.range(1, 3);
                    let mut xs: Vec<usize> = Vec::new();
                    let items = b.refs(q, |k| !matches!(k, Kind::Param(..)));
                    let reusable = b.refs(q, |k| matches!(k, Kind::Cached | Kind::CachedPrivate));
                    for j in 0..m {
                        let x = if items.is_empty() || (j == 0 && g.chance(1, 3)) {
                            b.expr(g, q)
                        } else if !reusable.is_empty() && g.bool() {
                            *g.pick(&reusable)
                        } else {
                            *g.pick(&items)
                        };
                        xs.push(x);
                    }
                    let mut x = b.push(E::Or(xs));
                    match g.below(4) {
                        0 => {}
                        1 => {
                            let any = b.push(E::Any);
                            x = b.push(E::WithSkip(any, x))
                        }
                        2 => {
                            let first = b.tok(g);
                            x = b.push(E::WithSkip(first, x))
                        }
                        _ => {
                            let eof = b.push(E::Eof);
                            let not = b.push(E::Not(eof));
                            let any = b.push(E::Any);
                            let any = b.push(E::And(vec![not, any], None));
                            x = b.push(E::Or(vec![x, any]))
                        }
                    }
                    b.push(E::Rep(x))
                } else {
                    b.expr(g, p)
                };
                E::Pub { ty: tys[i], body, replaceable: false }
            }
            Kind::Private | Kind::Param(..) => {
                let x = b.expr(g, p);
                // alias through a one-element choice, as the generator of parsers does
                E::Or(vec![x])
            }
            Kind::Replaceable => {
                let n = g.range(1, 3);
                let mut xs = Vec::new();
                for _ in 0..n {
                    let x = b.expr(g, Pos { depth: 2, ..p });
                    xs.push(if g.chance(2, 3) {
                        let ty = b.new_type();
                        b.push(E::PubReplace { ty, body: x })
                    } else { x });
                }
                let body = b.push(E::Or(xs));
                E::Pub { ty: tys[i], body, replaceable: true }
            }
            Kind::PrattRule => E::Pratt(b.pratt(g, i)),
            Kind::Cached | Kind::CachedPrivate => {
                // usually delimited by a leading word and a `;` that occurs nowhere else; where a
                // match is not decided by its own tokens, the checks of incremental parsing
                // leave the case out
                let shape = g.weighted(&[7, 2, 2]);
                let head = b.tok(g);
                let mut mid = b.expr(g, Pos { consume: false, guarded: shape < 2, plain: true, depth: 1, ..p });
                // may replace the type of its own node or of the one around it
                let replaces = g.chance(2, 5);
                if replaces {
                    let ty = b.new_type();
                    let body = if g.bool() { mid } else { b.tok(g) };
                    let r = b.push(E::PubReplace { ty, body });
                    let o = b.push(E::Opt(r));
                    mid = if body == mid { o } else { b.push(E::And(vec![mid, o], None)) };
                }
                let semi = b.push(E::Token(SEMI));
                let parts = match shape {
                    0 => vec![head, mid, semi],
                    1 => vec![head, mid],
                    _ => vec![mid, head],
                };
                let commit = if g.chance(1, 3) { Some(if shape == 2 { 2 } else { 1 }) } else { None };
                let seq = b.push(E::And(parts, commit));
                if b.kinds[i] == Kind::CachedPrivate {
                    E::Cached(seq)
                } else {
                    let c = b.push(E::Cached(seq));
                    E::Pub { ty: tys[i], body: c, replaceable: replaces && g.chance(3, 4) }
                }
            }
        };
        b.rules[i] = e;
    }
    (Grammar { n_types: b.n_types, rules: b.rules }, n)
}

/// texts in and around the language of a grammar
pub fn text(g: &mut Gen, gr: &Grammar, budget: usize) -> String {
    let md = min_depths(gr);
    let any: Vec<usize> = (FIRST_TOK..FIRST_TOK + TOKS.len()).collect();
    let broken = *g.pick(&[0, 0, 4, 12]);
    let mut d = Deriver { g: gr, min_depth: &md, out: vec![], budget, any_types: &any, broken, steps: 0 };
    d.derive(g, 0, &[], 0);
    let mut toks: Vec<String> = Vec::new();
    for (t, s) in d.out {
        toks.push(match s {
            Some(s) => s,
            None => g.pick(samples(t)).to_string(),
        });
        if toks.len() > 60 {
            break;
        }
    }
    let n = *g.pick(&[0, 0, 1, 2, 4]);
    for _ in 0..n {
        let i = g.below(toks.len() + 1);
        match g.below(4) {
            0 => toks.insert(i, token(g)),
            1 if !toks.is_empty() => {
                let i = i.min(toks.len() - 1);
                toks[i] = token(g);
            }
            2 if !toks.is_empty() => {
                toks.remove(i.min(toks.len() - 1));
            }
            _ if toks.len() > 1 => {
                let i = i.min(toks.len() - 2);
                toks.swap(i, i + 1)
            }
            _ => {}
        }
    }
    let mut s = String::new();
    if g.chance(1, 4) {
        s.push_str(trivia(g));
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            s.push_str(trivia(g));
        }
        s.push_str(t);
    }
    if g.chance(1, 3) {
        s.push_str(trivia(g));
    }
    s
}

pub fn token(g: &mut Gen) -> String {
    match g.weighted(&[12, 2, 1]) {
        0 => {
            let t = g.range(FIRST_TOK, FIRST_TOK + TOKS.len() - 1);
            g.pick(samples(t)).to_string()
        }
        1 => pick_ctx(g).1.to_string(),
        _ => chars(g, 2),
    }
}

pub fn trivia(g: &mut Gen) -> &'static str {
    match g.weighted(&[10, 4, 3, 2, 1]) {
        0 => " ",
        1 => "",
        2 => "\n",
        3 => "\n\n",
        _ => g.pick(&["#c\n", " #c\n ", "\n#c\n#d\n", " \n\n#e\n", "\t"]),
    }
}

/// an edit of a text: the operations and what the text becomes
pub fn edit(g: &mut Gen, text: &str, frag: &mut dyn FnMut(&mut Gen) -> String) -> (fall_tree::TextEdit, String) {
    use fall_tree::{tu, TextEditOp, TextRange};
    let n = g.weighted(&[0, 10, 3, 1]).max(1);
    let mut cuts: Vec<usize> = Vec::new();
    for _ in 0..n {
        let (a, b) = span(g, text);
        cuts.push(a);
        cuts.push(b);
    }
    if n > 1 {
        cuts.sort();
    }
    let mut ops = Vec::new();
    let mut new = String::new();
    let mut at = 0;
    for c in cuts.chunks(2) {
        if c[0] > at || g.chance(1, 8) {
            ops.push(TextEditOp::Copy(TextRange::from_to(tu(at as u32), tu(c[0] as u32))));
            new.push_str(&text[at..c[0]]);
        }
        at = c[1];
        let ins = match g.weighted(&[2, 5, 1]) {
            0 => String::new(),
            1 => frag(g),
            _ => {
                let (x, y) = span(g, text);
                text[x..y].to_string()
            }
        };
        if !ins.is_empty() || g.chance(1, 8) {
            ops.push(TextEditOp::Insert(ins.as_str().into()));
            new.push_str(&ins);
        }
    }
    if at < text.len() || g.chance(1, 4) {
        ops.push(TextEditOp::Copy(TextRange::from_to(tu(at as u32), tu(text.len() as u32))));
        new.push_str(&text[at..]);
    }
    (fall_tree::TextEdit { ops }, new)
}
