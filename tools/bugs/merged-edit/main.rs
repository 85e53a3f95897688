use fall_tree::{tu, TextBuf, TextEditBuilder, TextRange};

fn range(a: u32, b: u32) -> TextRange {
    TextRange::from_to(tu(a), tu(b))
}

/// what an editor does with the edits it gets
fn apply(text: &str, edits: &serde_json::Value) -> String {
    let mut result = String::new();
    let mut at = 0;
    for e in edits.as_array().unwrap() {
        let (start, end) = (e["delete"][0].as_u64().unwrap() as usize, e["delete"][1].as_u64().unwrap() as usize);
        result += &text[at..start];
        result += e["insert"].as_str().unwrap();
        at = end;
    }
    result + &text[at..]
}

fn main() {
    let text = "fn foo() { a + b }";
    let buf = TextBuf::from(text);
    for mask in 0..16 {
        let mut b = TextEditBuilder::new(buf.as_text());
        if mask & 1 != 0 { b.insert(tu(0), "pub "); }
        if mask & 2 != 0 { b.delete(range(3, 6)); }
        if mask & 4 != 0 { b.replace(range(11, 12), "92"); }
        if mask & 8 != 0 { b.delete(range(12, 16)); }
        let edit = b.build();
        let expected = edit.apply(buf.as_text()).to_string();
        let edits = serde_json::to_value(generic_backend::to_vs_edits(edit)).unwrap();
        assert_eq!(apply(text, &edits), expected, "{}", edits);
    }
}
