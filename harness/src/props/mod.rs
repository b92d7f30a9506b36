pub mod parse;
pub mod valid;
pub mod oper;
pub mod trav;
pub mod print;
pub mod errors;
pub mod comp;
pub mod vis;
pub mod defs;
pub mod pipe;
pub mod tgen;
pub mod san;
