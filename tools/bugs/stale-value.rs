//! property: C31
//! needs: a file whose new contents have no value
//! breaks: a file that can no longer be read keeps its old value
//! file: indxr/src/lib.rs
//! old
//! |                    None => {
//! |                        data.remove(path);
//! |                    },
//! new
//! |                    None => (),
use std::time::Duration;
fn main() {
    let dir = std::env::temp_dir().join(format!("stale-value-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("a.rs"), "x").unwrap();
    let set = indxr::IndexableFileSet::new(vec![dir.clone()], "rs");
    let index = indxr::FileIndex::new(set, Box::new(|p| std::fs::read_to_string(p).ok().filter(|s| s != "bad")));
    let count = || { let mut n = 0; index.process_files(&mut |_| { n += 1; false }); n };
    let wait = |want: usize| { for _ in 0..200 { if count() == want { return true; } std::thread::sleep(Duration::from_millis(50)); } false };
    let a = wait(1);
    std::thread::sleep(Duration::from_millis(500));
    std::fs::write(dir.join("a.rs"), "bad").unwrap();
    let b = wait(0);
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(a && b);
}
