ID, PROP = "B02", "P02"
NEEDS = "the remainder of the most negative number by minus one"
BREAKS = "signed remainder overflow returns the dividend instead of zero"
EDITS = [("runner/src/vm.rs", """        (a, 0) => a,
        // overflow when -2^31 / -1
        (-0x8000_0000, -1) => 0,
        (a, b) => a % b,
    }) as u32""", """        // covers division by zero and the overflow of -2^31 / -1
        (a, b) => a.checked_rem(b).unwrap_or(a),
    }) as u32""")]
DEMO = r'''
use crate::instruction::{Args, Instruction, Op};
pub fn main() {
    let r = |a: u32, b: u32| crate::code::execute([Instruction { op: Op::REM, args: Args { rd: 5, rs1: 6, rs2: 7, imm: 0 } }], &[], &[(6, a), (7, b)]).1.last_state.get_register_value(5);
    assert_eq!(r(7, 0), 7);
    assert_eq!(r((-7i32) as u32, 4), (-3i32) as u32);
    assert_eq!(r(0x8000_0000, u32::MAX), 0);
}
'''
