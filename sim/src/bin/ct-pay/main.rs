//! Checks of payments (C16, C17) and of whole-system determinism (C18).
mod c05;
mod c06;
mod c07;
mod c16;
mod c17;
mod c18;
mod pay;
use ctsim::engine::main as run;

#[global_allocator]
static METER: c06::Meter = c06::Meter;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "C18") && a.get(2).is_some_and(|x| x == "--probe") {
        return c18::probe(&a[3..]);
    }
    run(&[c05::CHECK, c06::CHECK, c07::CHECK, c16::CHECK, c17::CHECK, c18::CHECK]);
}
pub const REAL: &[&str] = &[
    "relations crate (coins, mints, payments, curve trees, membership and range gadgets) and bulletproofs crate, unmodified source",
    "ark-crypto-primitives Schnorr signatures, merlin transcripts, sha3/keccak, blake2",
    "ark-ec / ark-ff / ark-serialize arithmetic",
];
pub const STUBS: &[&str] = &[
    "network, virtual clock, ledger and wallet processes, their disks: the simulator's",
    "operating system randomness (rand, getrandom): seeded stream per task",
    "rayon-core thread pool: seeded cooperative scheduler",
    "most runs use small 2-cycles (90, 127 bit) in place of the pasta / secp cycles",
];
