//! property: C20
//! needs: two different mistakes at the same place
//! breaks: only one of several mistakes at a place is reported
//! file: lang/fall/src/analysis/mod.rs
//! old
//! |            (priority, d.range.start(), d.range.end())
//! |        });
//! new
//! |            (priority, d.range.start(), d.range.end())
//! |        });
//! |        result.dedup_by_key(|d| d.range);
fn main() {
    let f = lang_fall::analyse("tokenizer { n r\"n\" }\nrule a { n }\n#[atom(1)] rule a { n }\n".to_string());
    let d = f.analyse(|a| a.collect_all_diagnostics());
    assert!(d.iter().any(|d| d.message.contains("Atom")), "{:?}", d.len());
    assert!(d.iter().any(|d| d.message.contains("Duplicate")), "{:?}", d.len());
}
