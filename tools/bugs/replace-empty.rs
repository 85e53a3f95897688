//! property: C13
//! needs: two operations at the same offset, the second an empty deletion or replacement
//! breaks: text inserted in front of an empty replaced range is overwritten
//! file: fall/text/src/text_edit.rs
//! old
//! |        self.advance_to(range.start());
//! |        self.insert_(text.into());
//! |        self.delete_len(range.len());
//! new
//! |        self.advance_to(range.start());
//! |        if range.is_empty() {
//! |            if let Some(TextEditOp::Insert(_)) = self.segments.last() {
//! |                self.segments.pop();
//! |            }
//! |        }
//! |        self.insert_(text.into());
//! |        self.delete_len(range.len());
use fall_text::{tu, TextBuf, TextEditBuilder, TextRange};
fn main() {
    let t = TextBuf::from("abcdef");
    let mut b = TextEditBuilder::new(t.as_text());
    b.insert(tu(2), "X");
    b.replace(TextRange::from_to(tu(2), tu(2)), "Y");
    assert_eq!(b.build().apply(t.as_text()).to_string(), "abXYcdef");
}
