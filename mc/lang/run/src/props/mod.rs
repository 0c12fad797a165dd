pub mod tables;
pub mod print;
pub mod syntax;
pub mod total;
pub mod types;
pub mod session;
pub mod core;
pub mod values;
pub mod share;
pub mod batch;
pub mod files;
pub mod cache;
pub mod chance;
