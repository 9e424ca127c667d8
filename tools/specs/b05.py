ID, PROP = "B05", "P05"
NEEDS = "a logical right shift by a register amount of at least 32 (only its low five bits count)"
BREAKS = "the recorded second operand of the shift is wrong although the machine result is right"
EDITS = [("runner/src/vm.rs", "1u32 << (rs2_raw.wrapping_add(inst.args.imm) & 0b1_1111)", "1u32.checked_shl(rs2_raw.wrapping_add(inst.args.imm)).unwrap_or_default()")]
DEMO = r'''
use crate::instruction::{Args, Instruction, Op};
pub fn main() {
    for (amt, want) in [(3u32, 8u32), (0, 1), (35, 8), (u32::MAX, 1 << 31)] {
        let (_, rec) = crate::code::execute([Instruction { op: Op::SRL, args: Args { rd: 5, rs1: 6, rs2: 7, imm: 0 } }], &[], &[(6, 0xF0), (7, amt)]);
        assert_eq!(rec.executed[0].aux.op2, want);
    }
}
'''
