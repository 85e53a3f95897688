//! property: C21
//! needs: the question for usages asked right behind the last character of a definition's name
//! breaks: usages are not found from the end of the name of a definition
//! file: lang/fall/src/editor/references/refdec.rs
//! old
//! |                if d.navigation_range().contains_offset_nonstrict(offset) { Some(d) } else { None }
//! new
//! |                if d.navigation_range().contains_offset_nonstrict(offset) && offset < d.navigation_range().end() { Some(d) } else { None }
use fall_tree::tu;
fn main() {
    let text = "pub rule file { abc }\nrule abc { file }\n";
    let f = lang_fall::analyse(text.to_string());
    let def = text.rfind("abc").unwrap() as u32;
    assert_eq!(f.find_usages(tu(def)).len(), 1);
    assert_eq!(f.find_usages(tu(def + 3)).len(), 1);
}
