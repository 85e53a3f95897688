//! property: C06
//! needs: a contextual token of several raw tokens that begins inside a layer and ends outside of it
//! breaks: a contextual token may take tokens beyond the end of the layer it is in
//! file: fall/parse/src/syn_engine/parser.rs
//! old
//! |            if pos.is_empty() {
//! |                return None;
//! |            }
//! |            let cur_start = self.non_ws_indexes[pos.0 as usize].0;
//! new
//! |            if pos.0 as usize == self.non_ws_indexes.len() {
//! |                return None;
//! |            }
//! |            let cur_start = self.non_ws_indexes[pos.0 as usize].0;
mod mini;
use fall_tree::*;
// file { <layer 'a' {'a' 'a' contextually}> <any>* }
fn main() {
    // node types: 0 error, 1 ws, 2 'a', 3 file, 4 aa
    let rules = r#"[{"Pub":{"ty":3,"body":1,"replaceable":false}},
      {"And":[[2,6],null]},
      {"Layer":[3,4]},
      {"Token":2},
      {"Opt":5},
      {"ContextualToken":[4,"aa"]},
      {"Rep":7},
      "Any"]"#;
    let l = mini::language("a", &["file", "aa"], rules);
    let f = l.parse("aa");
    let kids: Vec<_> = f.root().children().map(|n| n.text().to_string()).collect();
    assert_eq!(kids, ["a", "a"]);
}
