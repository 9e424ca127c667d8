ID, PROP = "B09", "P28"
NEEDS = "two present subtrees whose addresses do not share a parent"
BREAKS = "the parents of two present children are no longer compared: leaves of unrelated addresses can be placed side by side"
EDITS = [("recproofs/src/subcircuits/verify_address.rs", "        let parents_match = builder.is_equal(l_parent, r_parent);\n        let parents_match = builder.select(both_present, parents_match.target, one);\n        builder.connect(parents_match, one);\n\n        // Account for \"not present\" values by forwarding the existing value\n        let parent = builder.select(l_present, l_parent, r_parent);\n",
"        // Account for \"not present\" values by forwarding the existing value\n        let parent = builder.select(l_present, l_parent, r_parent);\n        let parents_match = builder.is_equal(l_parent, parent);\n        let parents_match = builder.select(both_present, parents_match.target, one);\n        builder.connect(parents_match, one);\n\n")]
APPEND = ("recproofs", "circuits/state_update.rs")
DEMO = r'''
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use crate::test_utils::{C, CONFIG, D, F, NON_ZERO_HASHES};

    #[test]
    fn siblings_only() {
        let leaf = LeafCircuit::<F, C, D>::new(&CONFIG);
        let branch = BranchCircuit::from_leaf(&CONFIG, &leaf);
        let join = |a: u64, b: u64| {
            let [l, r] = [a, b].map(|x| leaf.prove(NON_ZERO_HASHES[0], NON_ZERO_HASHES[1], Some(x)).unwrap());
            matches!(catch_unwind(AssertUnwindSafe(|| branch.verify(branch.prove(&l, &r)?))), Ok(Ok(())))
        };
        assert!(join(2, 3));
        assert!(join(6, 7));
        assert!(!join(2, 9));
        assert!(!join(2, 7));
        assert!(!join(4, 1));
    }
'''
