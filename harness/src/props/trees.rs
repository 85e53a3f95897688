//! Tree search, visitors, tree edits.
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use crate::langs::{self, floor, Lang};
use crate::tree::*;
use fall_tree::search::{self, Direction, LeafAtOffset};
use fall_tree::{tu, File, FileEdit, Node, NodeType, TextRange};

fn rg(a: usize, b: usize) -> TextRange {
    TextRange::from_to(tu(a as u32), tu(b as u32))
}

/// the tree as plain data, next to the nodes themselves
struct Flat<'f> {
    nodes: Vec<Node<'f>>,
    parent: Vec<Option<usize>>,
    children: Vec<Vec<usize>>,
}

impl<'f> Flat<'f> {
    fn new(f: &'f File) -> Flat<'f> {
        let mut x = Flat { nodes: vec![], parent: vec![], children: vec![] };
        fn go<'f>(x: &mut Flat<'f>, n: Node<'f>, parent: Option<usize>) -> usize {
            let id = x.nodes.len();
            x.nodes.push(n);
            x.parent.push(parent);
            x.children.push(vec![]);
            let cs: Vec<Node> = n.children().collect();
            for c in cs {
                let k = go(x, c, Some(id));
                x.children[id].push(k);
            }
            id
        }
        go(&mut x, f.root(), None);
        x
    }
    fn r(&self, i: usize) -> (usize, usize) {
        r(self.nodes[i])
    }
    fn leaves(&self, of: usize) -> Vec<usize> {
        self.subtree(of).into_iter().filter(|&i| self.children[i].is_empty() && self.r(i).0 < self.r(i).1).collect()
    }
    /// preorder ids of a subtree
    fn subtree(&self, of: usize) -> Vec<usize> {
        let mut out = vec![of];
        for &c in &self.children[of] {
            out.extend(self.subtree(c))
        }
        out
    }
    fn post(&self, of: usize) -> Vec<usize> {
        let mut out = vec![];
        for &c in &self.children[of] {
            out.extend(self.post(c))
        }
        out.push(of);
        out
    }
    fn path(&self, mut i: usize) -> Vec<usize> {
        let mut out = vec![i];
        while let Some(p) = self.parent[i] {
            out.push(p);
            i = p;
        }
        out
    }
    fn lca(&self, a: usize, b: usize) -> usize {
        let pb = self.path(b);
        *self.path(a).iter().find(|x| pb.contains(x)).unwrap()
    }
    fn id(&self, n: Node) -> usize {
        self.nodes.iter().position(|&m| m == n).expect("a node that is not in the tree")
    }
    fn ids(&self, ns: impl IntoIterator<Item = Node<'f>>) -> Vec<usize> {
        ns.into_iter().map(|n| self.id(n)).collect()
    }
}

fn sample_file(g: &mut Gen, budget: usize) -> (&'static Lang, String) {
    let l = langs::pick(g);
    let t = l.text(g, budget);
    // keep the quadratic checks cheap
    let t = t[..floor(&t, 600)].to_string();
    (l, t)
}

// ------------------------------------------------------------------------------------ C10
fn c10(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let (l, text) = sample_file(g, 40);
    ctx.describe(|| format!("{} text {:?}", l.name, text));
    let f = l.language.parse(text.as_str());
    let x = Flat::new(&f);
    let n = x.nodes.len();
    // the same file once more
    let f2 = l.language.parse(text.as_str());
    let y = Flat::new(&f2).nodes;
    for _ in 0..12 {
        // a node to start from, mostly the root
        let base = if g.bool() { 0 } else { g.below(n) };
        let (bs, be) = x.r(base);
        let at = g.range(bs, be);
        let node = x.nodes[base];
        let leaves = x.leaves(base);
        ctx.evals += 1;
        // leaf at offset
        let touching: Vec<usize> = leaves.iter().cloned().filter(|&i| x.r(i).0 <= at && at <= x.r(i).1).collect();
        let got = search::find_leaf_at_offset(node, tu(at as u32));
        let got_ids = x.ids(got);
        ensure!(got_ids == touching, "leaves at offset {} of node {:?} {:?}: {:?}, expected {:?}", at, node, (bs, be), got_ids, touching);
        ensure!(got.left_biased().map(|n| x.id(n)) == touching.first().cloned(), "left leaf at {} is {:?}", at, got.left_biased());
        ensure!(got.right_biased().map(|n| x.id(n)) == touching.last().cloned(), "right leaf at {} is {:?}", at, got.right_biased());
        ensure!(matches!(got, LeafAtOffset::None) == touching.is_empty(), "no leaf at {}", at);
        // covering node of a range
        let to = g.range(at, be);
        let want = if leaves.is_empty() {
            base
        } else {
            let first = *leaves.iter().rev().find(|&&i| x.r(i).0 <= at).unwrap();
            let last = *leaves.iter().find(|&&i| x.r(i).1 >= to).unwrap();
            x.lca(first, last)
        };
        let got = search::find_covering_node(node, rg(at, to));
        ensure!(x.id(got) == want, "node covering {}..{} in {:?}: {:?} {:?}, expected {:?} {:?}", at, to, node, got, r(got), x.nodes[want], x.r(want));
        let (cs, ce) = r(got);
        ensure!(cs <= at && to <= ce, "the covering node {:?} does not cover {}..{}", (cs, ce), at, to);
        // neighbourhood
        let i = g.below(n);
        let node = x.nodes[i];
        let path = x.ids(search::ancestors(node));
        ensure!(path == x.path(i), "ancestors of node {}: {:?}", i, path);
        for (dir, d) in [(Direction::Left, -1isize), (Direction::Right, 1)] {
            let want = x.parent[i].and_then(|p| {
                let k = x.children[p].iter().position(|&c| c == i).unwrap() as isize + d;
                if k < 0 { None } else { x.children[p].get(k as usize).cloned() }
            });
            let got = search::sibling(node, dir).map(|n| x.id(n));
            ensure!(got == want, "{:?} sibling of node {} {:?}: {:?}, expected {:?}", dir, i, node, got, want);
        }
        ensure!(search::is_leaf(node) == (x.children[i].is_empty() && x.r(i).0 < x.r(i).1), "is_leaf of {:?} {:?}", node, x.r(i));
        ensure!(x.ids(search::subtree(node)) == x.post(i), "subtree of {:?}", node);
        let mut pre = vec![];
        fall_tree::walk_tree(node, |n| pre.push(x.id(n)));
        ensure!(pre == x.subtree(i), "walk of {:?}", node);
        let mut post = vec![];
        search::traversal::bottom_up(node, |n| post.push(x.id(n)));
        ensure!(post == x.post(i), "bottom-up traversal of {:?}", node);
        // by type
        let ty = x.nodes[g.below(n)].ty();
        let kids: Vec<usize> = x.children[i].iter().cloned().filter(|&c| x.nodes[c].ty() == ty).collect();
        ensure!(search::child_of_type(node, ty).map(|n| x.id(n)) == kids.first().cloned(), "first child of a type, of {:?}", node);
        ensure!(x.ids(search::children_of_type(node, ty)) == kids, "children of a type, of {:?}", node);
        match kids.first() {
            Some(&k) => ensure!(x.id(search::child_of_type_exn(node, ty)) == k, "child of type"),
            None => ensure!(guarded(|| search::child_of_type_exn(node, ty).ty()).is_err(), "a child that does not exist was found"),
        }
        let want: Vec<usize> = x.post(i).into_iter().filter(|&k| x.nodes[k].ty() == ty).collect();
        ensure!(x.ids(search::descendants_of_type(node, ty)) == want, "descendants of a type, of {:?}", node);
        // visitors see every node once, bottom up, the handlers of one node in the order given
        let tys: Vec<NodeType> = (0..g.range(1, 3)).map(|_| x.nodes[g.below(n)].ty()).collect();
        let log = fall_tree::visitor::process_subtree_bottom_up(
            node,
            fall_tree::visitor::visitor(Vec::new())
                .visit_nodes(&tys, |n, log: &mut Vec<(u8, Node)>| log.push((0, n)))
                .visit_nodes(&[ty], |n, log| log.push((1, n))),
        );
        let log: Vec<(u8, usize)> = log.into_iter().map(|(k, n)| (k, x.id(n))).collect();
        let mut want = vec![];
        for k in x.post(i) {
            if tys.contains(&x.nodes[k].ty()) {
                want.push((0, k))
            }
            if x.nodes[k].ty() == ty {
                want.push((1, k))
            }
        }
        ensure!(log == want, "visited {:?}, expected {:?}", log, want);
        let one = fall_tree::visitor::process_node(node, fall_tree::visitor::visitor(0).visit_nodes(&tys, |_, c: &mut i32| *c += 1));
        ensure!(one == tys.contains(&node.ty()) as i32, "visiting one node");
        // identity
        let j = g.below(n);
        ensure!((x.nodes[i] == x.nodes[j]) == (i == j), "node identity");
        ensure!(x.nodes[i] != y[i] && y[i] != x.nodes[j], "a node equals a node of another file");
        ensure!(std::ptr::eq(node.file(), &f) && std::ptr::eq(y[i].file(), &f2), "the file of a node");
        ensure!(node.text() == &text[x.r(i).0..x.r(i).1], "the text of {:?} is {:?}", node, node.text());
        let again = x.parent[i].and_then(|p| x.nodes[p].children().find(|&c| c == node)).unwrap_or(f.root());
        ensure!(again == node && hash_of(&again) == hash_of(&node), "the same node reached in two ways differs");
    }
    let set: std::collections::HashSet<Node> = x.nodes.iter().cloned().chain(y.iter().cloned()).chain(x.nodes.iter().cloned()).collect();
    ensure!(set.len() == 2 * n, "{} nodes in a set of two files of {}", set.len(), n);
    if n >= 8 {
        ctx.class(l.name);
        ctx.nontrivial((l.name, text));
    }
    Ok(())
}

pub const C10: Prop = Prop {
    id: "C10",
    rule: "the tree has at least 8 nodes; keyed by language and text",
    run: c10,
    quick: 180_000,
    thorough: 7_200_000,
    tape: 260,
    threads: 0,
    exemplars: &[],
    assumptions: &[],
    min_nontrivial_pct: 30,
};

// ------------------------------------------------------------------------------------ C12
fn c12(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let (l, text) = sample_file(g, 40);
    let f = l.language.parse(text.as_str());
    let x = Flat::new(&f);
    let n = x.nodes.len();
    let other = l.text(g, 10);
    let f2 = l.language.parse(&other[..floor(&other, 300)]);
    let y = Flat::new(&f2);
    #[derive(Debug, Clone)]
    enum Op {
        Delete(usize),
        Replace(usize, String),
        ReplaceByNode(usize, usize),
        /// by a node of another file
        ReplaceByForeign(usize, usize, String),
        After(usize, String),
        Substring(usize, usize, String),
    }
    let k = g.range(1, 5);
    let mut ops: Vec<Op> = Vec::new();
    // nodes that are deleted or replaced, and ranges of text already spoken for
    let mut gone: Vec<usize> = Vec::new();
    let inside = |a: usize, b: usize| x.path(a).contains(&b);
    for _ in 0..k {
        let i = g.below(n);
        let frag = l.fragment(g);
        match g.below(6) {
            0 | 1 | 2 | 5 if gone.iter().any(|&d| inside(i, d) || inside(d, i)) => {}
            0 => {
                gone.push(i);
                ops.push(Op::Delete(i))
            }
            1 => {
                gone.push(i);
                ops.push(Op::Replace(i, frag))
            }
            2 => {
                gone.push(i);
                ops.push(Op::ReplaceByNode(i, g.below(n)))
            }
            3 => ops.push(Op::After(i, frag)),
            5 => {
                gone.push(i);
                let j = g.below(y.nodes.len());
                let t = y.nodes[j].text().to_string();
                ops.push(Op::ReplaceByForeign(i, j, t))
            }
            _ => {
                let (s, e) = x.r(i);
                let a = floor(&text, g.range(s, e)).max(s);
                let b = floor(&text, g.range(a, e)).max(a);
                let leaves = x.leaves(0);
                let cover = if leaves.is_empty() { 0 } else {
                    let first = *leaves.iter().rev().find(|&&i| x.r(i).0 <= a).unwrap();
                    let last = *leaves.iter().find(|&&i| x.r(i).1 >= b).unwrap();
                    x.lca(first, last)
                };
                if !gone.iter().any(|&d| inside(cover, d) || inside(d, cover)) {
                    gone.push(cover);
                    ops.push(Op::Substring(a, b, frag))
                }
            }
        }
    }
    ctx.describe(|| format!("{} text {:?}\nnodes {:?}\noperations {:?}", l.name, text, (0..n).map(|i| (i, x.r(i))).collect::<Vec<_>>(), ops));
    let mut fe = FileEdit::new(&f);
    for op in &ops {
        match op {
            Op::Delete(i) => fe.delete(x.nodes[*i]),
            Op::Replace(i, s) => fe.replace_with_text(x.nodes[*i], s.clone()),
            Op::ReplaceByNode(i, j) => fe.replace(x.nodes[*i], x.nodes[*j]),
            Op::ReplaceByForeign(i, j, _) => fe.replace(x.nodes[*i], y.nodes[*j]),
            Op::After(i, s) => fe.insert_text_after(x.nodes[*i], s.clone()),
            Op::Substring(a, b, s) => fe.replace_substring(rg(*a, *b), s.clone()),
        }
    }
    let edit = fe.into_text_edit();
    // the model: the tree printed with the operations taken into account
    fn print(x: &Flat, text: &str, i: usize, ops: &[Op], out: &mut String) {
        let (s, e) = x.r(i);
        let mut own = None;
        for op in ops {
            match op {
                Op::Delete(j) if *j == i => own = Some(String::new()),
                Op::Replace(j, t) | Op::ReplaceByForeign(j, _, t) if *j == i => own = Some(t.clone()),
                Op::ReplaceByNode(j, k) if *j == i => own = Some(text[x.r(*k).0..x.r(*k).1].to_string()),
                Op::Substring(a, b, t) if cover(x, *a, *b) == i => own = Some(format!("{}{}{}", &text[s..*a], t, &text[*b..e])),
                _ => {}
            }
        }
        match own {
            Some(t) => out.push_str(&t),
            None if x.children[i].is_empty() => out.push_str(&text[s..e]),
            None => for &c in &x.children[i] {
                print(x, text, c, ops, out)
            },
        }
        for op in ops {
            if let Op::After(j, t) = op {
                if *j == i {
                    out.push_str(t)
                }
            }
        }
    }
    fn cover(x: &Flat, a: usize, b: usize) -> usize {
        let leaves = x.leaves(0);
        if leaves.is_empty() {
            return 0;
        }
        let first = *leaves.iter().rev().find(|&&i| x.r(i).0 <= a).unwrap();
        let last = *leaves.iter().find(|&&i| x.r(i).1 >= b).unwrap();
        x.lca(first, last)
    }
    let mut want = String::new();
    print(&x, &text, 0, &ops, &mut want);
    let got = edit.apply(f.text()).to_string();
    ensure!(got == want, "the edit yields {:?}, expected {:?}\nedit {:?}", got, want, edit.ops);
    if let [Op::Substring(a, b, s)] = ops.as_slice() {
        let direct = format!("{}{}{}", &text[..*a], s, &text[*b..]);
        ensure!(got == direct, "replacing {}..{} by {:?} yields {:?}, expected {:?}", a, b, s, got, direct);
        ctx.class("substring");
    }
    // the edit can be fed back to the file
    let fed = f.edit(&edit);
    ensure!(fed.text().to_string() == want, "after the edit the file's text is {:?}, expected {:?}", fed.text(), want);
    check_lossless(&fed, &want)?;
    if ops.len() >= 2 && n >= 6 {
        ctx.class(l.name);
        ctx.nontrivial((text, format!("{:?}", ops)));
    }
    Ok(())
}

pub const C12: Prop = Prop {
    id: "C12",
    rule: "at least two operations on a tree of at least 6 nodes; keyed by text and operations",
    run: c12,
    quick: 400_000,
    thorough: 16_000_000,
    tape: 260,
    threads: 0,
    exemplars: &[],
    assumptions: &["deleted and replaced nodes do not contain one another"],
    min_nontrivial_pct: 25,
};
