//! property: C07
//! needs: a prefix operator of low priority as the right operand of a stronger binary one
//! breaks: the operand of a prefix operator never reaches further than that of the binary operator around it
//! file: fall/parse/src/syn_engine/pratt.rs
//! old
//! |    let mut tokens = match pratt_prefix(p, table, tokens) {
//! new
//! |    let mut tokens = match pratt_prefix(p, table, tokens, min_prior) {
//! old
//! |    tokens: Pos,
//! |) -> Option<Pos> {
//! |    if let Some(result) = parse_or(p, &table.atoms, tokens) {
//! new
//! |    tokens: Pos,
//! |    min_prior: u32,
//! |) -> Option<Pos> {
//! |    if let Some(result) = parse_or(p, &table.atoms, tokens) {
//! old
//! |            if let Some(rest) = pratt_go(p, table, tokens, prefix.priority) {
//! new
//! |            if let Some(rest) = pratt_go(p, table, tokens, prefix.priority.max(min_prior)) {
mod mini;
// atoms `a`, prefix `-` of priority 1, binary `*` of priority 2 and `+` of priority 1
fn main() {
    // types: 0 error 1 ws 2 a 3 - 4 * 5 + 6 file 7 atom 8 neg 9 mul 10 sum
    let rules = r#"[{"Pub":{"ty":6,"body":1,"replaceable":false}},
      {"Pratt":{"atoms":[2],"prefixes":[{"ty":8,"op":4,"priority":1}],
        "infixes":[{"ty":9,"op":5,"priority":2,"has_rhs":true},{"ty":10,"op":6,"priority":1,"has_rhs":true}]}},
      {"Pub":{"ty":7,"body":3,"replaceable":false}},
      {"Token":2},{"Token":3},{"Token":4},{"Token":5}]"#;
    let l = mini::language("a-*+", &["file", "atom", "neg", "mul", "sum"], rules);
    let d = mini::dump(&l, "a*-a+a");
    let lines: Vec<&str> = d.lines().map(|l| l.trim_end()).collect();
    assert!(lines[1].trim_start().starts_with("mul"), "{}", d);
}
