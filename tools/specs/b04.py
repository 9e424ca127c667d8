ID, PROP = "B04", "P04"
NEEDS = "a half-word or word store to an address that is not a multiple of its size"
BREAKS = "an unaligned store writes the wrong bytes while the recorded address is right"
EDITS = [("runner/src/vm.rs", """            (0..bytes)
                .map(|i| addr.wrapping_add(i))
                .zip(raw_value.to_le_bytes())""", """            (0..bytes)
                .map(|i| addr | i)
                .zip(raw_value.to_le_bytes())""")]
DEMO = r'''
use crate::instruction::{Args, Instruction, Op};
pub fn main() {
    for a in [100u32, 101, 102, 103] {
        let (_, rec) = crate::code::execute([Instruction { op: Op::SW, args: Args { rs1: 6, rs2: 7, ..Args::default() } }], &[], &[(6, 0x0403_0201), (7, a)]);
        for i in 0..4 { assert_eq!(u32::from(rec.last_state.load_u8(a + i)), i + 1, "store at {a}"); }
    }
}
'''
