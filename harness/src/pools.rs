//! Well-formed pieces of Rust and of the grammar language, for properties about files with many items.
pub const RUST_ITEMS: &[&str] = &[
    "fn foo() {}",
    "fn add(x: i32, y: i32) -> i32 { x + y * 2 }",
    "pub fn bar<T: Clone>(t: &T) -> T where T: Copy { let y = t.clone(); if x { y } else { baz(y) } }",
    "struct S;",
    "struct Pair<A, B> { a: A, b: B }",
    "pub struct Tuple(i32, Vec<u8>);",
    "enum Color { Red, Green = 2, Blue(u8), Rgb { r: u8 } }",
    "impl S { fn new() -> S { S } pub fn get(&self) -> i32 { self.x } }",
    "impl<T> Trait for Pair<T, T> { type Out = T; const N: usize = 1; fn f(&mut self) { self.a.b(1)?; } }",
    "trait Shape: Clone { fn area(&self) -> f64; fn name() -> String { String::new() } }",
    "use std::collections::{HashMap, HashSet};",
    "use foo::bar as baz;",
    "mod inner { fn g() { 1 + 1; } struct Z; }",
    "mod out;",
    "const X: u32 = 1 + 2;",
    "static NAME: &'static str = \"abc\";",
    "type Alias<T> = Vec<T>;",
    "extern crate regex;",
    "fn m() { match x { Some(y) => y, None => { return; } } }",
    "fn w() { while let Some(x) = it.next() { println!(\"{}\", x); } for i in 0..10 { s += i; } }",
    "fn l() { let f = |x, y| x + y; loop { break; } }",
    "fn c() { let xs = [1, 2, 3]; xs[0] == 'a' && !b || *p; }",
    "#[derive(Debug)] pub struct D { pub x: &'a str }",
];

pub const FALL_RULES: &[&str] = &[
    "rule foo { bar }",
    "pub rule baz { 'a' <commit> foo* }",
    "pub rule file { foo | bar? | { baz 'x' }* }",
    "rule list(el) { { el <commit> { <eof> | ',' } }* }",
    "#[pratt] pub rule expr { a | b }",
    "#[bin(1)] pub rule sum { expr '+' expr }",
    "rule block(p) { '{' <layer braces p> '}' }",
    "rule empty { }",
    "pub rule long_rule_name { <with_skip first { item <not 'x'> <any> }>* }",
    "#[cached] rule c { <enter 'ctx' d> | <is_in 'ctx'> e }",
];
