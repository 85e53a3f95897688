//! property: C26
//! needs: a selection inside a single reference
//! breaks: Extract rule is offered where it does nothing
//! file: lang/fall/src/editor/actions/extract_rule.rs
//! old
//! |    if RefExpr::wrap(expr).is_some() {
//! |        return None;
//! |    }
//! |
//! |    if !apply {
//! |        return Some(ActionResult::Available)
//! |    }
//! new
//! |    if !apply {
//! |        return Some(ActionResult::Available)
//! |    }
//! |
//! |    if RefExpr::wrap(expr).is_some() {
//! |        return None;
//! |    }
use fall_editor::EditorFileImpl;
use fall_tree::{tu, TextRange};
fn main() {
    let text = "pub rule file { abc }\n";
    let f = lang_fall::FileWithAnalysis::parse(text);
    let r = TextRange::from_len(tu(text.find("abc").unwrap() as u32), tu(3));
    for a in f.context_actions(r) {
        assert!(f.apply_context_action(r, a).is_some(), "{}", a);
    }
}
