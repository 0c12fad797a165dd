pub mod prog;
pub mod lsp;
pub mod draw;
pub mod line;
pub mod show;
pub mod whole;
pub mod typing;
