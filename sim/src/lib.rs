pub mod collect;
pub mod plan;
pub mod byz;
pub mod circ;
pub mod engine;
pub mod extract;
pub mod prog;
pub mod toy;
pub mod wire;
pub mod tree;
pub mod treeutil;
pub mod tiny;
pub mod byzpath;
