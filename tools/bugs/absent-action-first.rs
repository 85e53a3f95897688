//! property: C37
//! needs: a place where several actions are offered, and the one that should not be is not the first of them
//! breaks: check_no_context_action passes although the action is offered
//! file: fall/editor/src/actions.rs
//! old
//! |    if actions.contains(&action_id) {
//! new
//! |    if actions.first() == Some(&action_id) {
use std::panic::catch_unwind;
use fall_editor::actions::check_no_context_action;
use fall_editor::EditorFileImpl;
use lang_rust::editor::RustEditorFile;

fn main() {
    // every action offered is noticed, wherever it is in the list
    let mut several = 0;
    for text in [
        "use a::b, c;\nstruct S { a: A, b: B }\nfn f(a: A, b: B) {}\n",
        "struct S(A, B);\nenum E { A, B }\nuse foo::bar;\n",
        "struct S{a:A,b:B,}",
    ].iter() {
        for i in 0..=text.len() {
            for j in i..=text.len() {
                let marked = format!("{}^{}^{}", &text[..i], &text[i..j], &text[j..]);
                let file = RustEditorFile::parse(text);
                let range = fall_tree::TextRange::from_to(fall_tree::tu(i as u32), fall_tree::tu(j as u32));
                let offered = file.context_actions(range);
                if offered.len() > 1 {
                    several += 1;
                }
                for id in offered {
                    assert!(catch_unwind(|| check_no_context_action::<RustEditorFile>(id, &marked)).is_err(), "{} at {:?}", id, marked);
                }
            }
        }
    }
    println!("{}", several);
    assert!(several > 0);
}
