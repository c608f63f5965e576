//! Thread-local random number generator: the simulator's seam.
//!
//! Replaces rand's ChaCha generator seeded from the operating system by the stream of the
//! simulated run that the calling task belongs to.
use crate::{CryptoRng, Error, RngCore};

/// A handle to the random stream of the current simulated task.
#[derive(Clone, Debug)]
pub struct ThreadRng {
    // not Send, as in the original
    _p: core::marker::PhantomData<*const ()>,
}

/// Retrieve the generator of the current simulated task.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _p: core::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        simctx::next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        simctx::next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        simctx::fill(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        simctx::fill(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
