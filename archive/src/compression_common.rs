pub mod buff;
pub mod elf;
