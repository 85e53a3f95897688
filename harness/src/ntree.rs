//! A plain copy of a syntax tree, and naive readings of it.
use fall_tree::{File, Node};

pub struct Nd {
    pub ty: u32,
    pub s: usize,
    pub e: usize,
    pub up: Option<usize>,
    pub kids: Vec<usize>,
}

pub struct Tree {
    pub nodes: Vec<Nd>,
    pub text: String,
    ws: Vec<bool>,
    names: Vec<String>,
}

impl Tree {
    pub fn of(f: &File) -> Tree {
        let mut nodes = Vec::new();
        fn go(n: Node, up: Option<usize>, out: &mut Vec<Nd>) -> usize {
            let i = out.len();
            let (s, e) = crate::tree::r(n);
            out.push(Nd { ty: n.ty().0, s, e, up, kids: Vec::new() });
            for c in n.children() {
                let k = go(c, Some(i), out);
                out[i].kids.push(k);
            }
            i
        }
        go(f.root(), None, &mut nodes);
        let info: Vec<_> = nodes.iter().map(|n| f.language().node_type_info(fall_tree::NodeType(n.ty))).collect();
        Tree {
            ws: info.iter().map(|i| i.whitespace_like).collect(),
            names: info.iter().map(|i| i.name.to_string()).collect(),
            nodes,
            text: f.text().to_string(),
        }
    }
    pub fn name(&self, i: usize) -> &str {
        &self.names[i]
    }
    pub fn is_ws(&self, i: usize) -> bool {
        self.ws[i]
    }
    pub fn str(&self, i: usize) -> &str {
        &self.text[self.nodes[i].s..self.nodes[i].e]
    }
    pub fn rng(&self, i: usize) -> (usize, usize) {
        (self.nodes[i].s, self.nodes[i].e)
    }
    /// non-empty leaves, left to right
    pub fn leaves(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|&i| self.nodes[i].kids.is_empty() && self.nodes[i].s < self.nodes[i].e).collect()
    }
    /// the one or two leaves touching an offset
    pub fn touching(&self, off: usize) -> Vec<usize> {
        self.leaves().into_iter().filter(|&i| self.nodes[i].s <= off && off <= self.nodes[i].e).collect()
    }
    pub fn ancestors(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while let Some(u) = self.nodes[*v.last().unwrap()].up {
            v.push(u);
        }
        v
    }
    /// nearest common ancestor
    pub fn common(&self, a: usize, b: usize) -> usize {
        let bs = self.ancestors(b);
        self.ancestors(a).into_iter().find(|x| bs.contains(x)).unwrap()
    }
    /// the deepest node holding both ends of a range
    pub fn covering(&self, s: usize, e: usize) -> usize {
        match (self.touching(s).last(), self.touching(e).first()) {
            (Some(&a), Some(&b)) => self.common(a, b),
            _ => 0,
        }
    }
    pub fn child(&self, i: usize, name: &str) -> Option<usize> {
        self.nodes[i].kids.iter().cloned().find(|&k| self.names[k] == name)
    }
    pub fn children(&self, i: usize, name: &str) -> Vec<usize> {
        self.nodes[i].kids.iter().cloned().filter(|&k| self.names[k] == name).collect()
    }
    pub fn all(&self, name: &str) -> Vec<usize> {
        (0..self.nodes.len()).filter(|&i| self.names[i] == name).collect()
    }
    pub fn post_order(&self) -> Vec<usize> {
        fn go(t: &Tree, i: usize, out: &mut Vec<usize>) {
            for &k in &t.nodes[i].kids {
                go(t, k, out);
            }
            out.push(i);
        }
        let mut v = Vec::new();
        go(self, 0, &mut v);
        v
    }
    pub fn index(&self, i: usize) -> Option<(usize, usize)> {
        let u = self.nodes[i].up?;
        Some((u, self.nodes[u].kids.iter().position(|&k| k == i).unwrap()))
    }
    /// text with disjoint ranges replaced
    pub fn with(&self, mut edits: Vec<((usize, usize), String)>) -> String {
        edits.sort();
        let mut out = String::new();
        let mut at = 0;
        for ((s, e), t) in edits {
            out.push_str(&self.text[at..s]);
            out.push_str(&t);
            at = e;
        }
        out.push_str(&self.text[at..]);
        out
    }
}
