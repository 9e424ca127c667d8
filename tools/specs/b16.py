ID, PROP = "B16", "P12"
NEEDS = "four or more events whose addresses diverge at different heights, a close pair before a distant one"
BREAKS = "the next merge is made at the distance of the last pair of neighbours, not of the closest: the tree takes another shape"
EDITS = [("sdk/src/common/merkle.rs", "            next_height_incr = next_height_incr.min(height_diff);", "            next_height_incr = height_diff;")]
APPEND = ("sdk", "common/merkle.rs")
DEMO = r'''
    #[test]
    fn by_address() {
        let h = |k: u8| Poseidon2Hash([k; 32]);
        let two = Poseidon2Hash::two_to_one;
        assert_eq!(merkleize(vec![(0, h(1)), (4, h(2)), (5, h(3)), (16, h(4))]), two(two(h(1), two(h(2), h(3))), h(4)));
        assert_eq!(merkleize(vec![(1, h(1)), (2, h(2)), (9, h(3))]), two(two(h(1), h(2)), h(3)));
        assert_eq!(merkleize(vec![(0, h(1)), (1, h(2)), (64, h(3)), (96, h(4))]), two(two(h(1), h(2)), two(h(3), h(4))));
        assert_eq!(merkleize(vec![(0, h(1)), (64, h(2)), (65, h(3))]), two(h(1), two(h(2), h(3))));
    }
'''
