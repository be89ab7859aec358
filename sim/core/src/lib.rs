//! The simulator: scheduler, clock, file system and randomness behind libc symbols, and the memory shared
//! with the driver.  Everything the instrumented code calls into lives here.
pub mod heap;
pub mod io;
pub mod mem;
pub mod nursery;
pub mod rng;
pub mod shared;
pub mod sim;
