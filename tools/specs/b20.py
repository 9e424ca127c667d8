ID, PROP = "B20", "P38"
NEEDS = "a program with read-only data that is stored and read back"
BREAKS = "read-only data is left out of a stored program; read back, the program runs on zeros there, and may write there"
EDITS = [("runner/src/elf.rs", "    pub ro_memory: Data,\n", "    #[serde(skip)]\n    pub ro_memory: Data,\n")]
DEMO = r'''
use crate::code::Code;
use crate::elf::Program;
use crate::instruction::{Args, Instruction, Op};
pub fn main() {
    let code = Code([(0u32, Ok(Instruction { op: Op::LW, args: Args { rd: 5, imm: 400, ..Args::default() } }))].into_iter().collect());
    let program = Program::create(&[(400, 7), (401, 9)], &[(800, 3)], code);
    let stored = serde_json::to_string(&program).unwrap();
    let back: Program = serde_json::from_str(&stored).unwrap();
    assert_eq!(program, back);
}
'''
