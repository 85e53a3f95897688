//! property: C35
//! needs: an edit that inserts text at one place and deletes at a later one, with text in between that stays
//! breaks: the text between an insertion and a later deletion is deleted, too
//! file: code/generic_backend/src/lib.rs
//! old
//! |                    let range = TextRange::from_to(offset, range.start());
//! |                    result.push(VsEdit { delete: range, insert: String::new() })
//! new
//! |                    // an insertion and the deletion behind it are one replacement
//! |                    let insert: Option<VsEdit> = if inserted { result.pop() } else { None };
//! |                    let start = insert.as_ref().map_or(offset, |e| e.delete.start());
//! |                    let text = insert.map_or(String::new(), |e| e.insert);
//! |                    let range = TextRange::from_to(start, range.start());
//! |                    result.push(VsEdit { delete: range, insert: text });
//! |                    inserted = false;
//! old
//! |    let mut offset = tu(0);
//! |    for op in edit.ops {
//! new
//! |    let mut offset = tu(0);
//! |    let mut inserted = false;
//! |    for op in edit.ops {
//! old
//! |                let range = TextRange::from_len(offset, tu(0));
//! |                result.push(VsEdit { delete: range, insert: text.to_string() })
//! new
//! |                let range = TextRange::from_len(offset, tu(0));
//! |                result.push(VsEdit { delete: range, insert: text.to_string() });
//! |                inserted = true;
