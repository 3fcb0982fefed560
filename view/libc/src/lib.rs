//! The libc crate without `sync`, which would act on every disk of the machine.
pub use real::*;
/// # Safety
/// none needed
pub unsafe fn sync() {}
