//! property: C14
//! needs: trimming a view whose last visible character takes more than one byte
//! breaks: trimming cuts a multi-byte last character in two
//! file: fall/text/src/text.rs
//! old
//! |            .map(|last| last + s[last..].chars().next().unwrap().len_utf8())
//! new
//! |            .map(|last| last + 1)
use fall_text::TextBuf;
fn main() {
    for s in [" ab ", "\u{e9}", " \u{e9} ", "a\n", "x\t \n", "\u{a0}x\u{a0}", "\u{4e2d}\u{2003}", "", " "].iter() {
        assert_eq!(TextBuf::from(*s).as_text().trim().to_string(), s.trim(), "{:?}", s);
    }
}
