//! property: C10
//! needs: an offset between a token and a node with several tokens
//! breaks: of the two leaves at an offset between tokens, iterating yields the right one twice
//! file: fall/tree/src/search.rs
//! old
//! |            LeafAtOffset::Between(left, right) => { *self = LeafAtOffset::Single(right); Some(left) }
//! new
//! |            LeafAtOffset::Between(left, right) => {
//! |                let first = if left.parent() == right.parent() { left } else { right };
//! |                *self = LeafAtOffset::Single(right);
//! |                Some(first)
//! |            }
use fall_tree::tu;
fn main() {
    let f = lang_rust_syntax::lang_rust().parse("fn foo() { a+b }");
    for i in 0..f.text().len().utf8_len() as u32 {
        let all: Vec<_> = fall_tree::search::find_leaf_at_offset(f.root(), tu(i)).collect();
        for w in all.windows(2) {
            assert_eq!(w[0].range().end(), w[1].range().start());
        }
    }
}
