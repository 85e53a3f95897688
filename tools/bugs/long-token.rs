//! property: C02
//! needs: a token of 64 KiB or more
//! breaks: the length of a token is cut to 16 bits; of exactly 65536 bytes none is left
//! file: fall/parse/src/lib.rs
//! old
//! |        let len = tu(m_token.len as u32);
//! new
//! |        let len = tu(m_token.len as u16 as u32);
fn main() {
    let text = format!("//{}", "x".repeat(65_535));
    let f = lang_fall::parse(text.clone());
    assert_eq!(f.root().children().next().unwrap().range().len().utf8_len(), text.len());
}
