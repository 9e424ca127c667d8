# Behaviour-preserving edits of wrapping and shrinking
V="circuits/src/stark/recursive_verifier.rs"
R={}
R["w1_loop"]=[(V,"""    while last_degree_bits > target_degree_bits {
        shrink_circuit""","""    loop {
        if last_degree_bits <= target_degree_bits {
            break;
        }
        shrink_circuit""")]
R["w2_helper"]=[(V,"""        let last_vk = builder.constant_verifier_data(verifier_only);
        builder.verify_proof::<C>(&proof_with_pis_target, &last_vk, common);
""","""        Self::check(&mut builder, &proof_with_pis_target, verifier_only, common);
"""),(V,"""    pub fn prove(
        &self,
        proof: &ProofWithPublicInputs<F, C, D>,
    ) -> Result<ProofWithPublicInputs<F, C, D>> {
        let mut inputs = PartialWitness::new();
        inputs.set_proof_with_pis_target""","""    fn check(
        builder: &mut CircuitBuilder<F, D>,
        proof: &ProofWithPublicInputsTarget<D>,
        key: &VerifierOnlyCircuitData<C, D>,
        common: &CommonCircuitData<F, D>,
    ) {
        let key = builder.constant_verifier_data(key);
        builder.verify_proof::<C>(proof, &key, common);
    }

    pub fn prove(
        &self,
        proof: &ProofWithPublicInputs<F, C, D>,
    ) -> Result<ProofWithPublicInputs<F, C, D>> {
        let mut inputs = PartialWitness::new();
        inputs.set_proof_with_pis_target""")]
R["w3_registered"]=[(V,"builder.register_public_inputs(&proof_with_pis_target.public_inputs); // carry PIs forward","""for &target in &proof_with_pis_target.public_inputs {
            builder.register_public_input(target);
        }""")]
R["w4_pad"]=[(V,"""    let min_gates = (1 << (target_degree_bits - 1)) + 1;
    while builder.num_gates() < min_gates {
        builder.add_gate(NoopGate, vec![]);
    }""","""    let half = 1 << (target_degree_bits - 1);
    while builder.num_gates() <= half {
        builder.add_gate(NoopGate, vec![]);
    }""")]
R["w5_state"]=[(V,"""    let mut last_degree_bits = common.degree_bits();
    assert!(last_degree_bits >= target_degree_bits);

    let mut shrink_circuit = PlonkWrapperCircuit::new(verifier_only, common, shrink_config.clone());
    let mut shrunk_proof = shrink_circuit.prove(proof)?;
""","""    let mut last_degree_bits = common.degree_bits();
    if last_degree_bits < target_degree_bits {
        panic!("the circuit is smaller than asked for already");
    }

    let wrap = |vk: &VerifierOnlyCircuitData<C, D>, common: &CommonCircuitData<F, D>| {
        PlonkWrapperCircuit::<F, C, D>::new(vk, common, shrink_config.clone())
    };
    let mut shrink_circuit = wrap(verifier_only, common);
    let mut shrunk_proof = shrink_circuit.prove(proof)?;
"""),(V,"""        shrink_circuit = PlonkWrapperCircuit::new(
            &shrink_circuit.circuit.verifier_only,
            &shrink_circuit.circuit.common,
            shrink_config.clone(),
        );
        let shrunk_degree_bits = shrink_circuit.circuit.common.degree_bits();""","""        let CircuitData {
            verifier_only: vk,
            common: data,
            ..
        } = &shrink_circuit.circuit;
        shrink_circuit = wrap(vk, data);
        let shrunk_degree_bits = shrink_circuit.circuit.common.degree_bits();""")]
R["w6_inner"]=[(V,"""        while builder.num_gates() < 1 << 5 {
            builder.add_gate(NoopGate, vec![]);
        }
        builder.build::<C>().common""","""        for _ in builder.num_gates()..32 {
            builder.add_gate(NoopGate, vec![]);
        }
        let data = builder.build::<C>();
        data.common""")]
