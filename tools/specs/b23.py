ID, PROP = "B23", "P09"
NEEDS = "a program file with a segment that is both writable and executable"
BREAKS = "code in a writable segment is not loaded as code: the program cannot be run there"
EDITS = [("runner/src/elf.rs", "            |flags, _| flags & elf::abi::PF_X == elf::abi::PF_X,\n", "            |flags, _| flags & (elf::abi::PF_X | elf::abi::PF_W) == elf::abi::PF_X,\n")]
DEMO = r'''
use crate::elf::Program;
fn image(segments: &[(u32, u32, &[u8], u32)]) -> Vec<u8> {
    let mut head = vec![0u8; 52];
    head[..7].copy_from_slice(b"\x7fELF\x01\x01\x01");
    head[16..18].copy_from_slice(&2u16.to_le_bytes());
    head[18..20].copy_from_slice(&243u16.to_le_bytes());
    head[20..24].copy_from_slice(&1u32.to_le_bytes());
    head[24..28].copy_from_slice(&0x1000u32.to_le_bytes());
    head[28..32].copy_from_slice(&52u32.to_le_bytes());
    head[42..44].copy_from_slice(&32u16.to_le_bytes());
    head[44..46].copy_from_slice(&(segments.len() as u16).to_le_bytes());
    let mut at = 52 + 32 * segments.len() as u32;
    let mut data = vec![];
    for (flags, addr, bytes, mem) in segments {
        for w in [1, at, *addr, *addr, bytes.len() as u32, *mem, *flags, 4] { head.extend(w.to_le_bytes()); }
        at += bytes.len() as u32;
        data.extend_from_slice(bytes);
    }
    head.extend(data);
    head
}
pub fn main() {
    // addi x5, x0, 7 in segments of every kind of access
    let word = 0x0070_0293u32.to_le_bytes();
    let file = image(&[(5, 0x1000, &word, 4), (7, 0x2000, &word, 8), (6, 0x3000, &word, 4), (4, 0x4000, &word, 4), (1, 0x5000, &word, 4), (3, 0x6000, &word, 4)]);
    for program in [Program::vanilla_load_elf(&file).unwrap(), Program::mozak_load_program(&file).unwrap()] {
        for (addr, code) in [(0x1000u32, true), (0x2000, true), (0x3000, false), (0x4000, false), (0x5000, true), (0x6000, true)] {
            assert_eq!(program.ro_code.get_instruction(addr).is_some(), code, "code at {addr:#x}");
        }
        assert!(program.ro_code.get_instruction(0x1000).unwrap().is_ok());
        assert_eq!(program.rw_memory.get(&0x2000), Some(&word[0]));
        assert_eq!(program.rw_memory.get(&0x2007), Some(&0));
    }
}
'''
