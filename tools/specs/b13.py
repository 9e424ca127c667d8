ID, PROP = "B13", "P33"
NEEDS = "two unrelated nodes of different height, the left-hand one the higher"
BREAKS = "a cousin below another height is said to be on the wrong side"
EDITS = [("node/src/block_proposer.rs", "            (Ordering::Less, false) | (Ordering::Greater, true) =>\n                return BranchAddressComparison::RightCousin,\n            (Ordering::Greater, false) | (Ordering::Less, true) =>\n                return BranchAddressComparison::LeftCousin,", "            (Ordering::Less, _) => return BranchAddressComparison::RightCousin,\n            (Ordering::Greater, _) => return BranchAddressComparison::LeftCousin,")]
APPEND = ("node", "block_proposer.rs")
DEMO = r'''
    #[test]
    fn cousins() {
        use BranchAddressComparison::{LeftCousin, RightCousin};
        let at = |height: usize, addr: u64| BranchAddress { height, addr: Address(addr) };
        for h in 0..5 {
            for a in 0..32u64 {
                for k in 0..8u64 {
                    let (low, high) = (at(h, a), at(h + 2, k));
                    let up = a >> 2;
                    if up == k { continue; }
                    assert_eq!(low.compare(high), if up < k { RightCousin } else { LeftCousin });
                    assert_eq!(high.compare(low), if up < k { LeftCousin } else { RightCousin });
                }
            }
        }
    }
'''
