//! property: C05
//! needs: a token longer than 4096 bytes
//! breaks: a token longer than 4096 bytes is cut
//! file: fall/parse/src/lib.rs
//! old
//! |        let m_token = self.lexer.next_token(text.to_cow().as_ref());
//! new
//! |        // Tokens are short: do not look through the rest of the file for each of them.
//! |        let text = text.to_cow();
//! |        let mut window = text.len().min(4096);
//! |        while !text.is_char_boundary(window) {
//! |            window += 1;
//! |        }
//! |        let m_token = self.lexer.next_token(&text[..window]);
fn main() {
    let text = format!("// {}", "x".repeat(5000));
    let f = lang_rust_syntax::lang_rust().parse(text.as_str());
    assert_eq!(f.root().children().count(), 1);
}
