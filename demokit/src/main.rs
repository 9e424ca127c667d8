#![allow(dead_code, unused_imports)]
#[path = "/repo/runner/src/code.rs"]
pub mod code;
#[path = "/repo/runner/src/decode.rs"]
pub mod decode;
#[path = "/repo/runner/src/ecall.rs"]
pub mod ecall;
#[path = "/repo/runner/src/elf.rs"]
pub mod elf;
#[path = "/repo/runner/src/instruction.rs"]
pub mod instruction;
#[path = "/repo/runner/src/poseidon2.rs"]
pub mod poseidon2;
#[path = "/repo/runner/src/state.rs"]
pub mod state;
#[path = "/repo/runner/src/vm.rs"]
pub mod vm;
mod demo;
fn main() { demo::main(); println!("ok"); }
