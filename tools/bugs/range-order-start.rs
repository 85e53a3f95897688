//! property: C15
//! needs: two ranges with the same start and different ends
//! breaks: ranges that start together compare as equal
//! file: fall/text/src/text_range.rs
//! old
//! |        } else if self == other {
//! new
//! |        } else if self.start() == other.start() {
use fall_text::{tu, TextRange};
fn main() {
    let r = |a, b| TextRange::from_to(tu(a), tu(b));
    assert_eq!(r(1, 3).partial_cmp(&r(1, 5)), None);
    assert_eq!(r(1, 3).partial_cmp(&r(1, 3)), Some(std::cmp::Ordering::Equal));
    assert!(!(r(1, 3) <= r(1, 5)));
}
