ID, PROP = "B06", "P03"
NEEDS = "a program whose read-only and read-write images overlap at an address"
BREAKS = "read-write initial contents replace read-only contents where both define a byte"
EDITS = [("runner/src/state.rs", """        let ro: HashMap<u32, u8> = ro.flat_map(HashMap::into_iter).collect();
        let mut rw: HashMap<u32, u8> = rw.flat_map(HashMap::into_iter).collect();""", """        let ro: HashMap<u32, u8> = ro.flat_map(HashMap::into_iter).collect();
        let rw: HashMap<u32, u8> = rw.flat_map(HashMap::into_iter).collect();"""),
  ("runner/src/state.rs", """                rw.extend(ro);
                rw
""", """                let mut data = ro;
                data.extend(rw);
                data
""")]
DEMO = r'''
use crate::elf::Program;
use crate::state::{RawTapes, State};
pub fn main() {
    let p = Program::create(&[(8, 1), (9, 2)], &[(9, 7), (10, 8)], crate::code::Code::default());
    let s = State::<plonky2::field::goldilocks_field::GoldilocksField>::new(p, RawTapes::default());
    assert_eq!([8, 9, 10, 11].map(|a| s.load_u8(a)), [1, 2, 8, 0]);
}
'''
