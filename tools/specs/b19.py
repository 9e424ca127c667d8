ID, PROP = "B19", "P35"
NEEDS = "a signer who does not take the private key's limbs from bytes"
BREAKS = "limbs of the private key are not held to 8 bits: what hashes to the public key need not be a private key of 32 bytes"
EDITS = [("signatures/src/zk_friendly/sig.rs", "        chain!(msg_target, public_key_target, private_key_target)\n", "        chain!(msg_target, public_key_target)\n")]
APPEND = ("signatures", "zk_friendly/poseidon.rs")
DEMO = r'''
    use plonky2::field::types::Field;
    use plonky2::iop::witness::WitnessWrite;
    use plonky2::plonk::circuit_data::CircuitConfig;
    use plonky2::plonk::config::{GenericHashOut, PoseidonGoldilocksConfig};
    use crate::zk_friendly::sig::Message;
    type S = ZkSigPoseidonSigner<GoldilocksField, PoseidonGoldilocksConfig, 2>;
    use plonky2::field::goldilocks_field::GoldilocksField;

    #[test]
    fn only_bytes_are_keys() {
        let config = CircuitConfig::standard_recursion_config();
        // an honest signature
        let sk = PrivateKey::new(std::array::from_fn(|i| 7 * i as u8 + 1));
        let pk: PublicKey = S::hash_private_key(&sk).into();
        let msg = Message::new([5; 32]);
        let (circuit, sig) = S::sign(config, &sk, &pk, &msg);
        assert_eq!(sig.public_inputs[..32], pk.get_limbs_field());
        assert_eq!(sig.public_inputs[32..], msg.get_limbs_field());
        // which targets are the private key's: those the public key is the hash of
        let prove = |limbs: [GoldilocksField; 32]| {
            let hash = PoseidonHash::hash_or_noop(&limbs);
            let bytes = hash.to_bytes();
            let mut builder = CircuitBuilder::<GoldilocksField, 2>::new(CircuitConfig::standard_recursion_config());
            let mut w = PartialWitness::new();
            let (a, b) = S::hash_circuit(&mut w, &mut builder, &sk, &pk);
            let m = builder.add_virtual_target_arr::<32>();
            for i in 0..32 {
                w.set_target(a[i], limbs[i]);
                w.set_target(b[i], GoldilocksField::from_canonical_u8(bytes[i]));
                w.set_target(m[i], GoldilocksField::from_canonical_u8(9));
            }
            circuit.prove(w).is_ok()
        };
        let mut limbs = sk.get_limbs_field();
        assert!(prove(limbs));
        limbs[3] = GoldilocksField::from_canonical_u64(300);
        assert!(!prove(limbs));
    }
'''
