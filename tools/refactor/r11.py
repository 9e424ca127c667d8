# Behaviour-preserving edits of the signatures crate
D="signatures/src/zk_friendly/"; SIG=D+"sig.rs"; U=D+"utils.rs"; PO=D+"poseidon.rs"; SH=D+"sha256.rs"; KE=D+"keccak256.rs"
R={}
R["s1_helper"]=[(U,"""    for i in 0..4 {
        let u64_target = limbs[8 * i..8 * i + 8]
            .iter()
            .rev()
            .fold(zero, |acc, limb| builder.mul_add(acc, base, *limb));
        builder.connect(hash_out_target.elements[i], u64_target);
    }
    hash_out_target
}
""","""    for (element, word) in hash_out_target.elements.iter().zip(limbs.chunks_exact(8)) {
        let u64_target = recombine(builder, word.iter().rev(), zero, base);
        builder.connect(*element, u64_target);
    }
    hash_out_target
}

fn recombine<'a, F: RichField + Extendable<D>, const D: usize>(
    builder: &mut CircuitBuilder<F, D>,
    limbs: impl Iterator<Item = &'a Target>,
    zero: Target,
    base: Target,
) -> Target {
    let mut acc = zero;
    for limb in limbs {
        acc = builder.mul_add(acc, base, *limb);
    }
    acc
}
""")]
R["s2_direct"]=[(U,"""    let hash_out_target = builder.add_virtual_hash();
    let zero = builder.zero();
    let base = builder.constant(F::from_canonical_u16(1 << 8));
    for i in 0..4 {
        let u64_target = limbs[8 * i..8 * i + 8]
            .iter()
            .rev()
            .fold(zero, |acc, limb| builder.mul_add(acc, base, *limb));
        builder.connect(hash_out_target.elements[i], u64_target);
    }
    hash_out_target
""","""    let zero = builder.zero();
    let elements = std::array::from_fn(|i| {
        limbs[8 * i..8 * (i + 1)]
            .iter()
            .rev()
            .fold(zero, |acc, limb| builder.mul_const_add(F::from_canonical_u16(256), acc, *limb))
    });
    HashOutTarget { elements }
""")]
R["s3_order"]=[(SIG,"""        chain!(msg_target, public_key_target, private_key_target)
            .for_each(|target_limb| builder.range_check(target_limb, 8));
""","""        for limbs in [&private_key_target, &public_key_target, &msg_target] {
            for limb in limbs {
                builder.range_check(*limb, 8);
            }
        }
"""),(SIG,"""        // convert slices to field slices.
        let msg_field = msg.get_limbs().map(|x| F::from_canonical_u8(x));
        let private_key_field = private_key.get_limbs().map(|x| F::from_canonical_u8(x));
        let public_key_field = public_key.get_limbs().map(|x| F::from_canonical_u8(x));

        witness.set_target_arr(&private_key_target, &private_key_field);
        witness.set_target_arr(&public_key_target, &public_key_field);
        witness.set_target_arr(&msg_target, &msg_field);
""","""        for (targets, limbs) in [
            (&msg_target, msg.get_limbs()),
            (&public_key_target, public_key.get_limbs()),
            (&private_key_target, private_key.get_limbs()),
        ] {
            for (&target, limb) in targets.iter().zip(limbs) {
                witness.set_target(target, F::from_canonical_u8(limb));
            }
        }
""")]
R["s4_pis"]=[(SIG,"""        builder.register_public_inputs(&public_key_target);
        builder.register_public_inputs(&msg_target);

        builder.print_gate_counts(0);
        let circuit = builder.build::<C>();
        let proof = circuit.prove(witness).unwrap();
        (circuit, proof.into())
""","""        let public_inputs: Vec<Target> = public_key_target.into_iter().chain(msg_target).collect();
        builder.register_public_inputs(&public_inputs);
        let circuit = builder.build::<C>();
        let proof = circuit.prove(witness).expect("the key should sign");
        let sig = Self::Sig::from(proof);
        (circuit, sig)
"""),(SIG,"""        circuit.verify(sig.into())
""","""        let proof: ProofWithPublicInputs<F, C, D> = sig.into();
        circuit.verify(proof)?;
        Ok(())
""")]
R["s5_hash"]=[(SH,"""        let mut hasher = Sha256::new();
        hasher.update(private_key.get_limbs());
        PublicKey::new(hasher.finalize().into())
""","""        PublicKey::new(Sha256::digest(private_key.get_limbs()).into())
"""),(KE,"""        let mut hasher = Keccak256::new();
        hasher.update(private_key.get_limbs());
        PublicKey::new(hasher.finalize().into())
""","""        let digest: [u8; NUM_LIMBS_U8] = Keccak256::new()
            .chain_update(private_key.get_limbs())
            .finalize()
            .into();
        PublicKey::new(digest)
"""),(KE,"""            private_key_target.input.limbs.to_vec().as_slice()[..8]
                .try_into()
""","""            private_key_target.input.limbs[0..8]
                .try_into()
"""),(SH,"""            private_key_target.input.limbs.to_vec().as_slice()[..8]
                .try_into()
""","""            private_key_target
                .input
                .limbs
                .iter()
                .take(8)
                .copied()
                .collect::<Vec<_>>()
                .as_slice()
                .try_into()
"""),(PO,"""        let private_key_target = builder.add_virtual_target_arr::<NUM_LIMBS_U8>();
        let public_key_target = builder.add_virtual_target_arr::<NUM_LIMBS_U8>();

        // hash the private key
        let hash_private_key = builder.hash_or_noop::<PoseidonHash>(private_key_target.to_vec());
        let public_key_as_hash = get_hashout(builder, &public_key_target);
""","""        let public_key_target: [Target; NUM_LIMBS_U8] = builder.add_virtual_target_arr();
        let private_key_target: [Target; NUM_LIMBS_U8] = builder.add_virtual_target_arr();

        let public_key_as_hash = get_hashout(builder, &public_key_target);
        // hash the private key
        let hash_private_key =
            builder.hash_n_to_hash_no_pad::<PoseidonHash>(private_key_target.to_vec());
""")]
