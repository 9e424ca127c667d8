use crate::instruction::{Args, Instruction, Op};
pub fn main() {
    let (_, rec) = crate::code::execute([Instruction { op: Op::ADD, args: Args { rd: 5, rs1: 6, imm: 3, ..Args::default() } }], &[], &[(6, 4)]);
    assert_eq!(rec.last_state.get_register_value(5), 7);
}
