ID, PROP = "B07", "P07"
NEEDS = "a read that asks for more bytes than the tape has left, followed by another read of the same tape"
BREAKS = "the cursor runs past the end of the tape, so a later read fails instead of delivering nothing"
EDITS = [("runner/src/state.rs", "    let remaining_len = buf.len() - *index;", "    let remaining_len = buf.len().wrapping_sub(*index);"), ("runner/src/state.rs", "    *index += limit;", "    *index += num_bytes.min(buf.len());")]
DEMO = r'''
use crate::instruction::{Args, Instruction, Op};
use crate::decode::ECALL;
use crate::state::{RawTapes, State};
type S = State<plonky2::field::goldilocks_field::GoldilocksField>;

pub fn main() {
    let p = crate::elf::Program::default();
    let mut s = S::new(p, RawTapes { private_tape: vec![1, 2, 3, 4, 5], ..Default::default() });
    let mut got = vec![];
    for n in [3u32, 4, 4] {
        let (aux, t) = s.set_register_value(10, 2).set_register_value(11, 100).set_register_value(12, n).ecall();
        got.push(aux.storage_device_entry.unwrap().data);
        s = t;
    }
    assert_eq!(got, [vec![1, 2, 3], vec![4, 5], vec![]]);
}
'''
