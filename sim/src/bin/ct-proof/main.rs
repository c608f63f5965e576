//! Checks of the proof system: C01 .. C08.
mod c01;
mod c02;
mod c03;
mod c04;
mod c08;
use ctsim::engine::main as run;

fn main() {
    run(&[c01::CHECK, c02::CHECK, c03::CHECK, c04::CHECK, c08::CHECK]);
}
pub const REAL: &[&str] = &[
    "bulletproofs crate (prover, verifier, batch verifier, inner product argument, generators, serialization), unmodified source with its own features",
    "merlin transcripts and sha3/keccak",
    "ark-ec / ark-ff / ark-serialize arithmetic",
];
pub const STUBS: &[&str] = &[
    "operating system randomness (rand, getrandom): seeded stream per task",
    "rayon-core thread pool: seeded cooperative scheduler",
    "some runs use small 2-cycles (61, 90, 127 bit) in place of the pasta / secp cycles",
];
