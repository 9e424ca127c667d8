ID, PROP = "B01", "P01"
NEEDS = "a shift-left-immediate word whose reserved bit 25 is set together with a zero low shift amount"
BREAKS = "a reserved encoding is decoded as a multiplication by a wrong constant instead of being rejected"
EDITS = [("runner/src/decode.rs", """            0x1 if 0 == itype.imm & !0b1_1111 => (Op::MUL, Args {
                imm: 1 << itype.imm,""", """            0x1 if 0 == itype.imm & !0b11_1111 => (Op::MUL, Args {
                imm: 1 << (itype.imm & 0b1_1111),""")]
DEMO = r'''
use crate::decode::decode_instruction;
pub fn main() {
    // slli x1, x2, 5 is fine; the same word with bit 25 set is reserved in RV32
    let ok = (5 << 20) | (2 << 15) | (1 << 12) | (1 << 7) | 0b001_0011;
    assert!(decode_instruction(0, ok).is_ok());
    assert!(decode_instruction(0, ok | (1 << 25)).is_err(), "reserved shift accepted");
}
'''
