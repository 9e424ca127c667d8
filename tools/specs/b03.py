ID, PROP = "B03", "P03"
NEEDS = "an indirect jump whose base register is odd while the offset is even (or the other way round)"
BREAKS = "the jump target keeps its lowest bit"
EDITS = [("runner/src/vm.rs", "let new_pc = self.get_register_value(inst.rs1).wrapping_add(inst.imm) & !1;", "let new_pc = self.get_register_value(inst.rs1).wrapping_add(inst.imm & !1);")]
DEMO = r'''
use crate::instruction::{Args, Instruction, Op};
use crate::state::{State, RawTapes};
use crate::elf::Program;
use crate::code::Code;
pub fn main() {
    let code = Code([(0u32, Ok(Instruction { op: Op::JALR, args: Args { rd: 1, rs1: 6, imm: 8, ..Args::default() } }))].into_iter().collect());
    let p = Program::create(&[], &[], code);
    let s = State::<plonky2::field::goldilocks_field::GoldilocksField>::new(p.clone(), RawTapes::default());
    for (base, want) in [(100u32, 108u32), (101, 108), (u32::MAX, 6)] {
        let (_, _, s2) = s.clone().set_register_value(6, base).execute_instruction(&p).unwrap();
        assert_eq!(s2.get_pc(), want);
    }
}
'''
