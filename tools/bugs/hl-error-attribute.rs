//! property: C29
//! needs: a call of a rule with parameters under a name that does not resolve
//! breaks: an unresolved call is marked as a built-in
//! file: lang/fall/src/editor/highlighting.rs
//! old
//! |                    None | Some(CallKind::RuleCall(..)) => hl::FUNCTION,
//! |                    Some(_) => hl::BUILTIN
//! new
//! |                    Some(CallKind::RuleCall(..)) => hl::FUNCTION,
//! |                    None if call.args().next().is_none() => hl::FUNCTION,
//! |                    None | Some(_) => hl::BUILTIN
use fall_editor::EditorFileImpl;
fn main() {
    let text = "pub rule file { <abra file> }\n";
    let f = lang_fall::FileWithAnalysis::parse(text);
    let at = text.find("abra").unwrap() as u32;
    let h = f.highlight();
    assert!(h.iter().any(|&(r, t)| r.start() == fall_tree::tu(at) && t.0 == "function"));
}
