ID, PROP = "B24", "P15"
NEEDS = "an input to the padded hash whose length is a multiple of eight"
BREAKS = "whole blocks are hashed unpadded: the data with its own padding appended hashes to the same digest"
EDITS = [("sdk/src/native/poseidon.rs", "    padded_input.push(1);\n\n    padded_input.resize(padded_input.len().next_multiple_of(RATE), 0);\n", "    if padded_input.is_empty() || padded_input.len() % RATE != 0 {\n        padded_input.push(1);\n        padded_input.resize(padded_input.len().next_multiple_of(RATE), 0);\n    }\n")]
APPEND = ("sdk", "native/poseidon.rs")
DEMO = r'''
    #[test]
    fn padding_is_seen() {
        for n in 0..40u8 {
            let data: Vec<u8> = (0..n).map(|x| x.wrapping_mul(7)).collect();
            let mut padded = data.clone();
            padded.push(1);
            while padded.len() % RATE != 0 { padded.push(0); }
            assert!(poseidon2_hash_with_pad(&data) == poseidon2_hash_no_pad(&padded), "{n}");
            assert!(poseidon2_hash_with_pad(&data) != poseidon2_hash_with_pad(&padded), "{n}");
        }
    }
'''
