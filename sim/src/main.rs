//! Deterministic simulation of the triangulate crate. See ../DESIGN.md.

mod alloc;
mod bins;
mod clock;
mod driver;
#[cfg(feature = "svg")]
mod fsim;
mod gen;
mod geom;
mod order;
mod prng;
mod props;
mod real;
mod scn;
mod world;

use std::cell::Cell;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
}
/// Seed what the operating system hands out as randomness on this thread.
pub fn entropy(seed: u64) {
    ENTROPY.set(seed);
}
/// The libc call behind std's hash seeds: simulated.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let _ = ENTROPY.try_with(|e| {
        for k in 0..len {
            let x = prng::mix(e.get().wrapping_add(k as u64 / 8));
            *buf.add(k) = (x >> (8 * (k % 8))) as u8;
        }
        e.set(prng::mix(e.get() ^ len as u64));
    });
    len as isize
}

fn main() {
    driver::main()
}
