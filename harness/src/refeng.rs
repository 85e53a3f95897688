//! Reference semantics of grammars: a purely functional PEG interpreter that returns trees.
//! Nothing is shared with the engine under test except the grammar model.
use crate::dynlang::{is_ws, Binder};
use crate::model::{Grammar, Pratt, E};
use crate::tree::Snap;

#[derive(Clone, Debug)]
pub struct Tok {
    pub ty: usize,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug)]
pub enum T {
    /// type, number of raw tokens
    Tok(usize, usize),
    Node(usize, Vec<T>),
}

impl T {
    fn has_error(&self) -> bool {
        match self {
            T::Tok(..) => false,
            T::Node(ty, kids) => *ty == 0 || kids.iter().any(T::has_error),
        }
    }
}

/// the part of the parser's state a failed attempt must leave no trace in
#[derive(Clone, Debug)]
struct St {
    pos: usize,
    end: usize,
    prev: Option<usize>,
    repl: Option<usize>,
}

pub struct Ref<'a> {
    g: &'a Grammar,
    text: &'a str,
    toks: &'a [Tok],
    ctx: Vec<bool>,
    args: Vec<Option<usize>>,
    pub steps: u64,
    pub limit: u64,
    /// one past the last token (or end of input) looked at so far
    seen: usize,
    /// some reusable rule matched but looked past the end of its match
    pub nonlocal: bool,
    pub features: std::collections::BTreeSet<&'static str>,
}

pub struct TooLong;

type R = Result<Option<(St, Vec<T>)>, TooLong>;

impl<'a> Ref<'a> {
    pub fn new(g: &'a Grammar, text: &'a str, toks: &'a [Tok], limit: u64) -> Ref<'a> {
        Ref { g, text, toks, ctx: vec![false; 64], args: vec![None; 64], steps: 0, limit, seen: 0, nonlocal: false, features: Default::default() }
    }

    /// the children list of the root, and the root's type
    pub fn file(&mut self) -> Result<T, TooLong> {
        let st = St { pos: 0, end: self.toks.len(), prev: None, repl: None };
        let file_ty = match self.g.rules[0] {
            E::Pub { ty, .. } => ty,
            _ => panic!(),
        };
        let (pos, ty, mut kids) = match self.go(0, st)? {
            Some((st, mut ts)) => match ts.pop() {
                Some(T::Node(ty, kids)) if ts.is_empty() => (st.pos, ty, kids),
                _ => panic!(),
            },
            None => {
                self.features.insert("start-fails");
                (0, file_ty, vec![])
            }
        };
        if pos < self.toks.len() {
            self.features.insert("leftover");
            kids.push(T::Node(0, (pos..self.toks.len()).map(|i| T::Tok(self.toks[i].ty, 1)).collect()));
        }
        Ok(T::Node(ty, kids))
    }

    fn look(&mut self, pos: usize) {
        self.seen = self.seen.max(pos + 1);
    }

    fn one(&mut self, st: St) -> Option<(St, Vec<T>)> {
        self.look(st.pos);
        if st.pos == st.end {
            return None;
        }
        let t = T::Tok(self.toks[st.pos].ty, 1);
        Some((St { pos: st.pos + 1, ..st }, vec![t]))
    }

    fn go(&mut self, e: usize, st: St) -> R {
        self.steps += 1;
        if self.steps > self.limit {
            return Err(TooLong);
        }
        let g = self.g;
        Ok(match &g.rules[e] {
            E::Pub { ty, body, replaceable } => {
                let mut st = st;
                if *replaceable {
                    st.repl = None;
                }
                match self.go(*body, st)? {
                    None => None,
                    Some((mut st, kids)) => {
                        let mut t = *ty;
                        if *replaceable {
                            if let Some(r) = st.repl.take() {
                                self.features.insert("replaced");
                                t = r;
                            }
                        }
                        st.prev = Some(*ty);
                        Some((st, vec![T::Node(t, kids)]))
                    }
                }
            }
            E::PubReplace { ty, body } => self.go(*body, st)?.map(|(st, k)| (St { repl: Some(*ty), ..st }, k)),
            E::Or(xs) => {
                for &x in xs {
                    if let Some(r) = self.go(x, st.clone())? {
                        return Ok(Some(r));
                    }
                }
                None
            }
            E::And(xs, commit) => {
                let need = commit.unwrap_or(xs.len());
                let mut st = st;
                let mut out = Vec::new();
                for (i, &x) in xs.iter().enumerate() {
                    match self.go(x, st.clone())? {
                        Some((s, k)) => {
                            st = s;
                            out.extend(k)
                        }
                        None if i < need => return Ok(None),
                        None => {
                            self.features.insert("commit-recovery");
                            out.push(T::Node(0, vec![]));
                            return Ok(Some((st, out)));
                        }
                    }
                }
                Some((st, out))
            }
            E::Token(t) => match self.one(st) {
                Some(r) if matches!(r.1[0], T::Tok(x, _) if x == *t) => Some(r),
                _ => None,
            },
            E::CtxToken(t, s) => {
                self.look(st.pos);
                if st.pos == st.end {
                    return Ok(None);
                }
                // the text must be spelled by whole tokens that directly follow each other
                let from = self.toks[st.pos].start;
                let mut n = 0;
                let mut at = from;
                while at < from + s.len() && st.pos + n < st.end && self.toks[st.pos + n].start == at {
                    at = self.toks[st.pos + n].end;
                    n += 1;
                }
                // a match is decided by its own tokens alone
                if at < from + s.len() {
                    self.look(st.pos + n);
                } else {
                    self.look(st.pos + n - 1);
                }
                if at == from + s.len() && self.text.get(from..at) == Some(s) {
                    self.features.insert("contextual");
                    Some((St { pos: st.pos + n, ..st }, vec![T::Tok(*t, n)]))
                } else {
                    None
                }
            }
            E::Rep(x) => {
                let mut st = st;
                let mut out = Vec::new();
                while let Some((s, k)) = self.go(*x, st.clone())? {
                    st = s;
                    out.extend(k)
                }
                Some((st, out))
            }
            E::Opt(x) => Some(self.go(*x, st.clone())?.unwrap_or((st, vec![]))),
            E::Not(x) => match self.go(*x, st.clone())? {
                Some(_) => {
                    self.features.insert("not-fails");
                    None
                }
                None => Some((st, vec![])),
            },
            E::Eof => if {
                self.look(st.pos);
                st.pos == st.end
            } { Some((st, vec![])) } else { None },
            E::Any => self.one(st),
            E::Layer(l, x) => match self.go(*l, st.clone())? {
                None => None,
                Some((rest, _)) => {
                    self.features.insert("layer");
                    let inner = St { end: rest.pos, ..st.clone() };
                    let (mut done, mut out) = self.go(*x, inner.clone())?.unwrap_or((inner, vec![]));
                    if done.pos < rest.pos {
                        self.features.insert("layer-leftover");
                        out.push(T::Node(0, (done.pos..rest.pos).map(|i| T::Tok(self.toks[i].ty, 1)).collect()));
                    }
                    done.pos = rest.pos;
                    done.end = st.end;
                    Some((done, out))
                }
            },
            E::WithSkip(first, body) => {
                let mut skipped = Vec::new();
                let mut st = st;
                loop {
                    if self.go(*first, st.clone())?.is_some() {
                        if let Some((s, k)) = self.go(*body, st.clone())? {
                            let mut out = Vec::new();
                            if !skipped.is_empty() {
                                self.features.insert("skipped");
                                out.push(T::Node(0, skipped));
                            }
                            out.extend(k);
                            return Ok(Some((s, out)));
                        }
                    }
                    match self.one(st.clone()) {
                        None => return Ok(None),
                        Some((s, k)) => {
                            skipped.extend(k);
                            st = s;
                        }
                    }
                }
            }
            E::Pratt(p) => self.pratt(p, st, 0)?.map(|(s, t)| (s, vec![t])),
            E::Enter(c, x) => {
                let old = std::mem::replace(&mut self.ctx[*c], true);
                let r = self.go(*x, st);
                self.ctx[*c] = old;
                r?
            }
            E::Exit(c, x) => {
                let old = std::mem::replace(&mut self.ctx[*c], false);
                let r = self.go(*x, st);
                self.ctx[*c] = old;
                r?
            }
            E::IsIn(c) => if self.ctx[*c] {
                self.features.insert("is-in");
                Some((st, vec![]))
            } else { None },
            E::Call(x, args) => {
                let old = self.args.clone();
                let mut new = old.clone();
                // arguments are bound all at once; a parameter passed on means the caller's
                for &(a, v) in args {
                    new[a] = match &g.rules[v] {
                        E::Var(i) => old[*i],
                        _ => Some(v),
                    };
                }
                self.args = new;
                let r = self.go(*x, st);
                self.args = old;
                r?
            }
            E::Var(i) => {
                self.features.insert("param");
                let x = self.args[*i].unwrap();
                self.go(x, st)?
            }
            E::PrevIs(ts) => if st.prev.map_or(false, |p| ts.contains(&p)) {
                self.features.insert("prev-is");
                Some((st, vec![]))
            } else { None },
            E::Inject(prefix, body) => match self.go(*prefix, st.clone())? {
                None => None,
                Some((s1, pre)) => match self.go(*body, s1.clone())? {
                    None => None,
                    Some((s2, mut ts)) => {
                        if s1.pos != st.pos {
                            self.features.insert("injected");
                            match &mut ts[0] {
                                T::Node(_, kids) => {
                                    let mut v = pre;
                                    v.extend(kids.drain(..));
                                    *kids = v;
                                }
                                T::Tok(..) => panic!("generator: inject into a token"),
                            }
                        } else {
                            let mut v = pre;
                            v.extend(ts);
                            ts = v;
                        }
                        Some((s2, ts))
                    }
                },
            },
            E::Cached(x) => {
                let start = st.pos;
                let before = std::mem::replace(&mut self.seen, start);
                let r = self.go(*x, st)?;
                if let Some((st, kids)) = &r {
                    // what contains errors is not reused
                    if self.seen > st.pos && !kids.iter().any(T::has_error) {
                        self.nonlocal = true;
                    }
                }
                self.seen = self.seen.max(before);
                r
            }
        })
    }

    /// Operator expressions.  Operators are tried in table order; an operator applies where its
    /// priority is at least the current level; a right operand is read one level higher.
    fn pratt(&mut self, p: &Pratt, st: St, level: u32) -> Result<Option<(St, T)>, TooLong> {
        let mut found = None;
        for &a in &p.atoms {
            if let Some((s, mut k)) = self.go(a, st.clone())? {
                found = Some((s, k.pop().unwrap()));
                assert!(k.is_empty(), "generator: an atom must be one node");
                break;
            }
        }
        if found.is_none() {
            for &(ty, op, prio) in &p.prefixes {
                if let Some((s, mut k)) = self.go(op, st.clone())? {
                    if let Some((mut s, t)) = self.pratt(p, s, prio)? {
                        self.features.insert("prefix-op");
                        k.push(t);
                        s.prev = Some(ty);
                        found = Some((s, T::Node(ty, k)));
                        break;
                    }
                }
            }
        }
        let (mut st, mut lhs) = match found {
            None => return Ok(None),
            Some(x) => x,
        };
        'more: loop {
            for &(ty, op, prio, rhs) in &p.infixes {
                if prio < level {
                    continue;
                }
                if let Some((s, ops)) = self.go(op, st.clone())? {
                    let mut kids = vec![lhs];
                    kids.extend(ops);
                    st = s;
                    if rhs {
                        match self.pratt(p, st.clone(), prio + 1)? {
                            Some((s, t)) => {
                                self.features.insert("bin-op");
                                kids.push(t);
                                st = s;
                            }
                            None => {
                                self.features.insert("missing-operand");
                                kids.push(T::Node(0, vec![]))
                            }
                        }
                    } else {
                        self.features.insert("postfix-op");
                    }
                    st.prev = Some(ty);
                    lhs = T::Node(ty, kids);
                    continue 'more;
                }
            }
            return Ok(Some((st, lhs)));
        }
    }
}

/// places trivia: `raw` includes whitespace-like tokens
pub fn place(root: &T, raw: &[Tok], text: &str, file_ty: usize, binder: Binder) -> Vec<Snap> {
    place_with(root, raw, text, file_ty, binder, &is_ws, &crate::dynlang::nt)
}

pub fn place_with(
    root: &T, raw: &[Tok], text: &str, file_ty: usize, binder: Binder,
    is_ws: &dyn Fn(usize) -> bool, nt: &dyn Fn(usize) -> fall_tree::NodeType,
) -> Vec<Snap> {
    struct P<'a> {
        raw: &'a [Tok],
        text: &'a str,
        file_ty: usize,
        binder: Binder,
        at: usize,
        out: Vec<Snap>,
        is_ws: &'a dyn Fn(usize) -> bool,
        nt: &'a dyn Fn(usize) -> fall_tree::NodeType,
    }
    impl<'a> P<'a> {
        fn run(&self) -> Vec<(fall_tree::NodeType, &'a str)> {
            self.raw[self.at..].iter().take_while(|t| (self.is_ws)(t.ty)).map(|t| ((self.nt)(t.ty), &self.text[t.start..t.end])).collect()
        }
        fn bind(&self, ty: usize, leading: bool) -> (usize, usize) {
            let run = self.run();
            let n = run.len();
            (n, if ty == self.file_ty { n } else { (self.binder)((self.nt)(ty), run, leading) })
        }
        fn here(&self) -> usize {
            self.raw.get(self.at).map_or(self.text.len(), |t| t.start)
        }
        fn leaf(&mut self, depth: u32) {
            let t = &self.raw[self.at];
            self.out.push(Snap { depth, ty: (self.nt)(t.ty).0, start: t.start, end: t.end });
            self.at += 1;
        }
        fn node(&mut self, t: &T, depth: u32) {
            match t {
                T::Tok(ty, n) => {
                    while (self.is_ws)(self.raw[self.at].ty) {
                        self.leaf(depth);
                    }
                    let start = self.raw[self.at].start;
                    self.at += n;
                    let end = self.raw[self.at - 1].end;
                    self.out.push(Snap { depth, ty: (self.nt)(*ty).0, start, end });
                }
                T::Node(ty, kids) => {
                    if depth > 0 {
                        let (n, own) = self.bind(*ty, true);
                        for _ in 0..n - own {
                            self.leaf(depth);
                        }
                    }
                    let me = self.out.len();
                    let start = self.here();
                    self.out.push(Snap { depth, ty: (self.nt)(*ty).0, start, end: start });
                    for k in kids {
                        self.node(k, depth + 1);
                    }
                    let (_, own) = self.bind(*ty, false);
                    for _ in 0..own {
                        self.leaf(depth + 1);
                    }
                    let end = self.here();
                    self.out[me].end = end;
                }
            }
        }
    }
    let mut p = P { raw, text, file_ty, binder, at: 0, out: vec![], is_ws, nt };
    p.node(root, 0);
    p.out
}

/// reference lexer for dynlang's fixed token set
pub fn lex(text: &str) -> Vec<Tok> {
    use crate::dynlang::*;
    fn one(s: &str) -> Option<(usize, usize)> {
        let c = s.chars().next()?;
        let run = |f: &dyn Fn(char) -> bool| s.chars().take_while(|&c| f(c)).map(|c| c.len_utf8()).sum::<usize>();
        if c.is_whitespace() {
            return Some((WS, run(&|c| c.is_whitespace())));
        }
        if c == '#' {
            let n = run(&|c| c != '\n');
            return Some((COMMENT, if s[n..].starts_with('\n') { n + 1 } else { n }));
        }
        if ('g'..='z').contains(&c) {
            return Some((WORD, run(&|c| ('g'..='z').contains(&c))));
        }
        if c.is_ascii_digit() {
            return Some((NUM, run(&|c| c.is_ascii_digit())));
        }
        let i = TOKS[..15].iter().position(|t| t.0.starts_with(c))?;
        Some((FIRST_TOK + i, 1))
    }
    let mut out: Vec<Tok> = Vec::new();
    let mut at = 0;
    while at < text.len() {
        match one(&text[at..]) {
            Some((ty, n)) => {
                out.push(Tok { ty, start: at, end: at + n });
                at += n;
            }
            None => {
                let start = at;
                loop {
                    at += text[at..].chars().next().unwrap().len_utf8();
                    if at >= text.len() || one(&text[at..]).is_some() {
                        break;
                    }
                }
                out.push(Tok { ty: 0, start, end: at });
            }
        }
    }
    out
}
