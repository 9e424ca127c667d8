ID, PROP = "B15", "P29"
NEEDS = "a prover that marks a branch of the event tree as partial for one of its two hashes only"
BREAKS = "the hash the program commits to and the hash the block is built from may cover different sets of events"
EDITS = [("recproofs/src/circuits/build_event_root.rs", "        builder.connect(\n            hash_targets.extension.partial.target,\n            vm_hash_targets.extension.partial.target,\n        );\n", "        // A partial branch must be partial for both of the hashes\n        let both_partial = builder.and(\n            hash_targets.extension.partial,\n            vm_hash_targets.extension.partial,\n        );\n        builder.connect(both_partial.target, hash_targets.extension.partial.target);\n")]
APPEND = ("recproofs", "circuits/build_event_root.rs")
DEMO = r'''
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use crate::circuits::test_data::{EVENT_T0_P0_A_CREDIT, EVENT_T0_P0_A_WRITE};

    #[test]
    fn one_partial_for_both() {
        let l = test::LEAF.prove(&test::BRANCH, EVENT_T0_P0_A_CREDIT).unwrap();
        let r = test::LEAF.prove(&test::BRANCH, EVENT_T0_P0_A_WRITE).unwrap();
        let go = |a: bool, b: bool, r: &LeafProof<_, _, { crate::test_utils::D }>| {
            matches!(catch_unwind(AssertUnwindSafe(|| {
                let mut i = PartialWitness::new();
                test::BRANCH.unbounded.set_witness(&mut i, true, &l.proof, true, &r.proof);
                test::BRANCH.hash.set_witness(&mut i, a);
                test::BRANCH.vm_hash.set_witness(&mut i, b);
                test::BRANCH.circuit.verify(test::BRANCH.circuit.prove(i)?)
            })), Ok(Ok(())))
        };
        assert!(go(false, false, &r) && go(true, true, &l));
        for x in [&l, &r] {
            assert!(!go(true, false, x) && !go(false, true, x));
        }
    }
'''
