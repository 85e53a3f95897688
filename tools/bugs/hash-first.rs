//! property: C30
//! needs: a query with a hash behind its letters
//! breaks: `name#` does not ask for all kinds of symbols
//! file: lang/rust/src/editor/symbol_index.rs
//! old
//! |        let all_symbols = query.contains("#");
//! new
//! |        let all_symbols = query.starts_with("#");
fn main() {
    let dir = std::env::temp_dir().join(format!("hash-first-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("a.rs"), "struct Foo; fn foo() {}").unwrap();
    let index = lang_rust::editor::SymbolIndex::new(vec![dir.clone()]);
    let mut n = 0;
    for _ in 0..100 {
        std::thread::sleep(std::time::Duration::from_millis(100));
        n = index.query("foo#").len();
        if index.query("#foo").len() == 2 { break; }
    }
    std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(n.max(index.query("foo#").len()), 2);
}
