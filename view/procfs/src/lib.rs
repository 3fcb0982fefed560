//! The procfs crate without `drop_caches`, which would act on the whole machine.
pub use real::*;
pub mod sys {
    pub use real::sys::*;
    pub mod vm {
        pub use real::sys::vm::*;
        pub fn drop_caches(_: DropCache) -> real::ProcResult<()> {
            Ok(())
        }
    }
}
