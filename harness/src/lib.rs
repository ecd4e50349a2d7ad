pub mod alloc;
pub mod checks;
pub mod cmdline;
pub mod csvp;
pub mod dwarf;
pub mod graph;
pub mod json;
pub mod mutate;
pub mod object;
pub mod report;
pub mod runner;
pub mod select;
pub mod source;
pub mod sut;
pub mod table;
pub mod wasm;
