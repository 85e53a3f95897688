use crate::driver::Prop;
mod parsing;
mod lexing;
mod shipped;
mod operators;
mod text;
mod trees;
mod analysis;
pub mod editor;
pub mod backend;
pub mod index;
pub mod codegen;
pub mod ast;
mod ast_gen;
pub mod render;
mod helpers;
pub static ALL: &[Prop] = &[
    parsing::C01, parsing::C02, parsing::C03, lexing::C04, lexing::C05, parsing::C06, operators::C07, shipped::C08, shipped::C09,
    trees::C10, ast::C11, trees::C12,
    text::C13, text::C14, text::C15,
    analysis::C19, analysis::C20, analysis::C21, analysis::C22,
    editor::C23, editor::C24, editor::C25, editor::C26, editor::C27, editor::C28, editor::C29,
    index::C30, index::C31, index::C32, shipped::C33, codegen::C16, codegen::C17, codegen::C18, render::C34, backend::C35, backend::C36, helpers::C37,
];
