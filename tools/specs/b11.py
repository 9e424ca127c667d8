ID, PROP = "B11", "P31"
NEEDS = "a first block whose base proof states another state than the base state"
BREAKS = "the chain's base state is not tied to the state the first block starts from"
EDITS = [("recproofs/src/circuits/verify_block/core.rs", "        let prev_base_state_calc = select_hash(builder, non_base, prev_base_state, prev_state_root);", "        let is_base = builder.not(non_base);\n        let expected_base_state = select_hash(builder, is_base, self.base_state_root, prev_state_root);\n        let prev_base_state_calc =\n            select_hash(builder, non_base, prev_base_state, expected_base_state);")]
APPEND = ("recproofs", "circuits/verify_block/core.rs")
DEMO = r'''
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use crate::test_utils::{C, CONFIG, D, F, NON_ZERO_HASHES, ZERO_HASH};

    #[test]
    fn base_is_the_base() {
        let c = test::DummyCircuit::new(&CONFIG);
        let chain = |base: HashOut<F>, start: HashOut<F>| {
            let prev = c.prove_base_unsafe(None, base, start, 0).unwrap();
            matches!(catch_unwind(AssertUnwindSafe(|| c.circuit.verify(c.prove(ZERO_HASH, &prev)?))), Ok(Ok(())))
        };
        assert!(chain(NON_ZERO_HASHES[0], NON_ZERO_HASHES[0]));
        assert!(!chain(NON_ZERO_HASHES[0], NON_ZERO_HASHES[1]));
        assert!(!chain(ZERO_HASH, NON_ZERO_HASHES[1]));
        let _: Option<ProofWithPublicInputs<F, C, D>> = None;
    }
'''
