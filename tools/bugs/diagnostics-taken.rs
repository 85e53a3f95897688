//! property: C22
//! needs: diagnostics collected twice from one analysis
//! breaks: the second answer is empty
//! file: lang/fall/src/analysis/mod.rs
//! old
//! |        let mut result = self.db.diagnostics.lock().unwrap().clone();
//! new
//! |        let mut result = ::std::mem::replace(&mut *self.db.diagnostics.lock().unwrap(), Vec::new());
fn main() {
    let f = lang_fall::analyse("pub rule file { abc }\n".to_string());
    let a = f.analyse(|a| a.collect_all_diagnostics().len());
    let b = f.analyse(|a| a.collect_all_diagnostics().len());
    assert_eq!((a, b), (1, 1));
}
