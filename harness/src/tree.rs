//! Reading trees through the public interface.
use crate::driver::Fail;
use crate::ensure;
use fall_tree::{File, Node};

pub fn r(n: Node) -> (usize, usize) {
    (n.range().start().utf8_len(), n.range().end().utf8_len())
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Snap {
    pub depth: u32,
    pub ty: u32,
    pub start: usize,
    pub end: usize,
}

pub fn snap(f: &File) -> Vec<Snap> {
    let mut out = Vec::new();
    fn go(n: Node, depth: u32, out: &mut Vec<Snap>) {
        let (start, end) = r(n);
        out.push(Snap { depth, ty: n.ty().0, start, end });
        for c in n.children() {
            go(c, depth + 1, out)
        }
    }
    go(f.root(), 0, &mut out);
    out
}

pub fn render(f: &File, s: &[Snap]) -> String {
    let text = f.text().to_string();
    let lang = f.language();
    let mut out = String::new();
    for (i, x) in s.iter().enumerate() {
        let leaf = s.get(i + 1).map_or(true, |n| n.depth <= x.depth);
        for _ in 0..x.depth {
            out.push_str("  ");
        }
        out.push_str(lang.node_type_info(fall_tree::NodeType(x.ty)).name);
        if leaf {
            out.push_str(&format!(" {:?}", text.get(x.start..x.end).unwrap_or("<bad range>")));
        }
        out.push_str(&format!(" [{}; {})\n", x.start, x.end));
    }
    out
}

pub fn diff(fa: &File, a: &[Snap], fb: &File, b: &[Snap]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or_else(|| a.len().min(b.len()));
    format!("first difference at node {}\nexpected:\n{}\nactual:\n{}", i, render(fa, a), render(fb, b))
}

/// the lossless-tree invariants
pub fn check_lossless(f: &File, text: &str) -> Result<usize, Fail> {
    ensure!(f.text().to_string() == text, "the file's text {:?} is not the input {:?}", f.text(), text);
    let root = f.root();
    ensure!(root.parent().is_none(), "the root has a parent");
    ensure!(r(root) == (0, text.len()), "the root covers {:?} of a text of {} bytes", r(root), text.len());
    let mut leaves = String::new();
    let mut count = 0;
    fn go(n: Node, text: &str, leaves: &mut String, count: &mut usize) -> Result<(), Fail> {
        *count += 1;
        let (s, e) = r(n);
        ensure!(s <= e && e <= text.len() && text.is_char_boundary(s) && text.is_char_boundary(e), "bad range {:?}", (s, e));
        ensure!(n.text() == &text[s..e], "node text {:?} is not the text of its range", n.text());
        let mut at = s;
        let mut any = false;
        for c in n.children() {
            any = true;
            ensure!(c.parent() == Some(n), "child of {:?} at {:?} has another parent", n, r(n));
            ensure!(r(c).0 == at, "children of {:?} {:?} leave a gap or overlap at {}", n, r(n), at);
            at = r(c).1;
            go(c, text, leaves, count)?;
        }
        if any {
            ensure!(at == e, "children of {:?} {:?} end at {}", n, r(n), at);
        } else {
            leaves.push_str(&text[s..e]);
        }
        Ok(())
    }
    go(root, text, &mut leaves, &mut count)?;
    ensure!(leaves == text, "leaves spell {:?} instead of {:?}", leaves, text);
    Ok(count)
}

pub fn has_error(f: &File) -> bool {
    snap(f).iter().any(|s| s.ty == 0)
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
