ID, PROP = "B25", "P06"
NEEDS = "a program that makes an environment call with an unknown number whose low byte is a known one"
BREAKS = "unknown environment calls halt, read tapes or panic instead of only going on"
EDITS = [("runner/src/ecall.rs", "        match self.get_register_value(REG_A0) {\n            ecall::HALT =>", "        match self.get_register_value(REG_A0).to_le_bytes()[0].into() {\n            ecall::HALT =>")]
DEMO = r'''
use crate::code::Code;
use crate::elf::Program;
use crate::instruction::{Args, Instruction, Op};
use crate::state::{RawTapes, State};
use mozak_sdk::core::ecall;
pub fn main() {
    let code = Code([(0u32, Ok(Instruction { op: Op::ECALL, args: Args::default() }))].into_iter().collect());
    let p = Program::create(&[], &[], code);
    let s = State::<plonky2::field::goldilocks_field::GoldilocksField>::new(p.clone(), RawTapes { private_tape: vec![1, 2, 3], ..RawTapes::default() });
    for n in [ecall::HALT, ecall::PRIVATE_TAPE, ecall::PANIC, ecall::POSEIDON2] {
        for k in [1u32 << 8, 1 << 16, 1 << 24, 0xffff_ff00] {
            let (aux, _, t) = s.clone().set_register_value(10, n | k).set_register_value(12, 2).execute_instruction(&p).unwrap();
            assert!(!t.has_halted() && !aux.will_halt && aux.mem_addresses_used.is_empty(), "{}", n | k);
            assert_eq!(t.get_pc(), 4);
        }
    }
}
'''
