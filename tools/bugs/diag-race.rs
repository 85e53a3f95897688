//! property: C32
//! needs: two threads asking the same question of one analysis at the same time
//! breaks: diagnostics are reported once per thread
//! file: lang/fall/src/analysis/db.rs
//! old
//! |        let mut cache = db.get_cache().lock().unwrap();
//! |
//! |        match cache.entry(key) {
//! |            hash_map::Entry::Vacant(vacant) => {
//! |                db.diagnostics.lock().unwrap().extend(diagnostics);
//! |                vacant.insert(value).clone()
//! new
//! |        db.diagnostics.lock().unwrap().extend(diagnostics);
//! |        let mut cache = db.get_cache().lock().unwrap();
//! |
//! |        match cache.entry(key) {
//! |            hash_map::Entry::Vacant(vacant) => {
//! |                vacant.insert(value).clone()
use std::sync::{Arc, Barrier};
fn main() {
    let text = format!("pub rule file {{ {} }}\n", (0..60).map(|i| format!("x{} <y{}>", i, i)).collect::<Vec<_>>().join(" "));
    let expected = lang_fall::analyse(text.clone()).analyse(|a| a.collect_all_diagnostics().len());
    for _ in 0..200 {
        let f = Arc::new(lang_fall::analyse(text.clone()));
        let barrier = Arc::new(Barrier::new(4));
        let threads: Vec<_> = (0..4).map(|_| {
            let (f, barrier) = (f.clone(), barrier.clone());
            std::thread::spawn(move || { barrier.wait(); f.analyse(|a| a.collect_all_diagnostics().len()) })
        }).collect();
        for t in threads { t.join().unwrap(); }
        assert_eq!(f.analyse(|a| a.collect_all_diagnostics().len()), expected);
    }
}
