//! Checks of curve trees and their gadgets: C09 .. C15.
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod outside;
mod c14;
mod c15;
use ctsim::treeutil as util;
use ctsim::engine::main as run;

fn main() {
    run(&[c09::CHECK, c10::CHECK, c11::CHECK, c12::CHECK, c13::CHECK, c14::CHECK, c15::CHECK]);
}
pub const REAL: &[&str] = &[
    "relations crate (curve trees, membership gadgets, batched gadgets) and bulletproofs crate, unmodified source",
    "merlin transcripts and sha3/keccak",
    "ark-ec / ark-ff / ark-serialize arithmetic",
];
pub const STUBS: &[&str] = &[
    "operating system randomness (rand, getrandom): seeded stream per task",
    "rayon-core thread pool: seeded cooperative scheduler",
    "most runs use small 2-cycles (61, 90, 127 bit) in place of the pasta / secp cycles",
];
