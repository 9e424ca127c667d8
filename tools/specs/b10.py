ID, PROP = "B10", "P30"
NEEDS = "an object created (or taken over) without its data being written"
BREAKS = "the block in which an object is created is not recorded unless its data or credits change as well"
EDITS = [("recproofs/src/circuits/match_delta/core.rs", "        let updated = builder.or(give_owner_flag, write_flag);\n        let updated = builder.or(updated, credits_updated);\n", "        let updated = builder.or(write_flag, credits_updated);\n")]
APPEND = ("recproofs", "circuits/match_delta.rs")
DEMO = r'''
    use crate::circuits::accumulate_delta::test as acc;
    use crate::test_utils::F;
    use crate::{EventType, Object};
    use plonky2::field::types::Field;

    #[test]
    fn creation_is_an_update() {
        let f = F::from_canonical_u64;
        let (none, owner) = ([F::ZERO; 4], [5, 6, 7, 8].map(f));
        let give = acc::LEAF.prove(&acc::BRANCH, 77, none, EventType::GiveOwner, owner).unwrap();
        let take = acc::LEAF.prove(&acc::BRANCH, 77, owner, EventType::TakeOwner, none).unwrap();
        let both = acc::BRANCH.prove(&give, &take).unwrap();
        let old = Object { constraint_owner: none, last_updated: f(3), credits: F::ZERO, data: none };
        let new = Object { constraint_owner: owner, last_updated: f(9), credits: F::ZERO, data: none };
        let proof = test::LEAF.prove(&test::BRANCH, &both, LeafWitnessValue {
            block_height: 9, last_updated: 3, old_owner: none, new_owner: owner, old_data: none, new_data: none, old_credits: 0, new_credits: 0,
        }).unwrap();
        assert_eq!(proof.state_hash(), crate::summarize(77, old.hash(), new.hash()));
    }
'''
