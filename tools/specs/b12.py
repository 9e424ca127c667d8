ID, PROP = "B12", "P32"
NEEDS = "an untouched object read after a finalization (a later block)"
BREAKS = "a read of an existing object is noted in its leaf but the proofs above it are not brought up to date"
EDITS = [("node/src/block_proposer/state.rs", "            (&LeafKind::Unused { object }, Operation::Read) => {\n                recalc = true;\n", "            (&LeafKind::Unused { object }, Operation::Read) => {\n                recalc = false;\n")]
APPEND = ("node", "block_proposer/state.rs")
DEMO = r'''
    use crate::block_proposer::test_data::{CONFIG, SIMPLE_STATE_1};

    #[test]
    fn reads_reach_the_root() {
        let aux = AuxStateData::new(&CONFIG, 3);
        let mut s = State::new(&aux, 3);
        for a in [1, 6] { s.apply_operation(Address(a), Operation::Upsert(SIMPLE_STATE_1)); }
        s.finalize();
        assert!(!s.root.proof.summary_present());
        s.apply_operation(Address(6), Operation::Read);
        assert!(s.root.proof.summary_present());
        let one = s.root.proof.summary();
        s.finalize();
        s.apply_operation(Address(1), Operation::Read);
        assert!(s.root.proof.summary_present());
        assert_ne!(one, s.root.proof.summary());
    }
'''
