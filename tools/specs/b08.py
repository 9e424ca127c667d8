ID, PROP = "B08", "P08"
NEEDS = "a hash whose output buffer overlaps its input, or a proof of a hash with two or more blocks"
BREAKS = "every block but the last is marked as digest-producing in the record, instead of only the last"
EDITS = [("runner/src/poseidon2.rs", "            gen_output: F::from_bool(false),", "            gen_output: F::from_bool(!sponge_data.is_empty()),")]
DEMO = r'''
use crate::state::{RawTapes, State};
type F = plonky2::field::goldilocks_field::GoldilocksField;
pub fn main() {
    for (n, want) in [(8u32, vec![1u64]), (16, vec![0, 1]), (24, vec![0, 0, 1])] {
        let s = State::<F>::new(crate::elf::Program::default(), RawTapes::default());
        let (aux, _) = s.set_register_value(10, 3).set_register_value(11, 100).set_register_value(12, n).set_register_value(13, 200).ecall();
        let g: Vec<u64> = aux.poseidon2.unwrap().sponge_data.iter().map(|d| d.gen_output.0).collect();
        assert_eq!(g, want);
    }
}
'''
