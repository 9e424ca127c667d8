ID, PROP = "B14", "P34"
NEEDS = "a cast whose members emit events in descending order of address, merged with the events of a further member or transaction"
BREAKS = "the tree of events remembers its halves in the wrong order after a merge in reverse: later merges with it are proven over another tree"
EDITS = [("node/src/block_proposer/transactions.rs", "        let event = EventNode::Branch {\n            address,\n            hash,\n            left: Box::new(right),\n            right: Box::new(left),\n        };", "        let event = EventNode::Branch {\n            address,\n            hash,\n            left: Box::new(left),\n            right: Box::new(right),\n        };")]
APPEND = ("node", "block_proposer/transactions.rs")
DEMO = r'''
    use mozak_recproofs::EventType;

    fn leaf(a: u64, v: u64) -> EventNode {
        let f = F::from_canonical_u64;
        let event = Event { owner: [f(1); 4], ty: EventType::Read, address: a, value: [f(v); 4] };
        EventNode::Leaf { hash: event.hash(), event }
    }
    #[test]
    fn reversed() {
        let two = Plonky2Poseidon2Hash::two_to_one;
        let aux: &AuxTransactionData = *test::AUX;
        let (a0, a1, b1) = (leaf(0, 1), leaf(1, 2), leaf(1, 3));
        let (h0, h1, g1) = (a0.hash(), a1.hash(), b1.hash());
        // 1 before 0: merged in reverse
        let (_, e) = aux.merge_events(a1, a0);
        assert_eq!(e.hash(), two(h0, h1));
        // another event of address 1 has to meet the one that is there
        let (p, e) = aux.merge_events(e, b1);
        let want = two(h0, two(h1, g1));
        assert_eq!(e.hash(), want);
        let got = match p { Either::Left(p) => p.merged_hash(), Either::Right(p) => p.merged_hash() };
        assert_eq!(got, want);
    }
'''
