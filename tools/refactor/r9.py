RC="recproofs/src/"
MD=RC+"circuits/match_delta.rs"; MC=RC+"circuits/match_delta/core.rs"; VB=RC+"circuits/verify_block/core.rs"; LB=RC+"lib.rs"
R={}
R["h9_split_iter"]=[(MC,"""            let object_flags = builder.split_le(object_flags, EventFlags::count());

            (
                object_flags[EventFlags::WriteFlag.index()],
                object_flags[EventFlags::GiveOwnerFlag.index()],
                object_flags[EventFlags::TakeOwnerFlag.index()],
            )
""","""            let bits = builder.split_le(object_flags, EventFlags::count());
            let at = |flag: EventFlags| bits[flag.index()];

            (
                at(EventFlags::WriteFlag),
                at(EventFlags::GiveOwnerFlag),
                at(EventFlags::TakeOwnerFlag),
            )
""")]
R["h9_assert_one"]=[(MC,"        builder.connect(unchanged_or_flag.target, one);\n","        builder.assert_one(unchanged_or_flag.target);\n"),
 (MC,"        builder.connect(ownership_mode, one); // Exactly one mode is selected\n","        builder.assert_one(ownership_mode); // Exactly one mode is selected\n"),
 (MC,"        let one = builder.one();\n\n        let block_height","        let block_height")]
R["h9_order"]=[(MC,"""        // Require ownership to be complete
        builder.connect(give_owner_flag.target, take_owner_flag.target);

""",""),(MC,"""        // Use block_height for any writes
""","""        // Require ownership to be complete
        builder.connect(take_owner_flag.target, give_owner_flag.target);

        // Use block_height for any writes
"""),(MC,"let is_owner_change = builder.add(is_creation.target, is_deletion.target);","let is_owner_change = builder.add(is_deletion.target, is_creation.target);")]
R["h9_select_bool"]=[(MC,"""        let new_last_updated = builder.select(updated, block_height, last_updated);
        let new_last_updated = zero_if(builder, is_deletion, new_last_updated);
""","""        let kept = builder.not(updated);
        let new_last_updated = builder.select(kept, last_updated, block_height);
        let zero = builder.zero();
        let new_last_updated = builder.select(is_deletion, zero, new_last_updated);
""")]
R["h9_hash_vec"]=[(MC,"""        let old_hash = chain!(old_owner, [last_updated, old_credits], old_data).collect();
        let old_hash = builder.hash_n_to_hash_no_pad::<Poseidon2Hash>(old_hash);
""","""        let mut old_inputs = Vec::with_capacity(10);
        old_inputs.extend(old_owner);
        old_inputs.push(last_updated);
        old_inputs.push(old_credits);
        old_inputs.extend_from_slice(&old_data);
        let old_hash = builder.hash_n_to_hash_no_pad::<Poseidon2Hash>(old_inputs);
"""),(MC,"""        let state_hash = chain!([address], old_hash.elements, new_hash.elements).collect();
        let state_hash = builder.hash_n_to_hash_no_pad::<Poseidon2Hash>(state_hash);
""","""        let state_hash = builder.hash_n_to_hash_no_pad::<Poseidon2Hash>(
            std::iter::once(address)
                .chain(old_hash.elements)
                .chain(new_hash.elements)
                .collect::<Vec<_>>(),
        );
""")]
R["h9_virtual_arr"]=[(MC,"        let old_owner = [(); 4].map(|()| builder.add_virtual_target());\n        let new_owner = [(); 4].map(|()| builder.add_virtual_target());\n","        let old_owner: [Target; 4] = builder.add_virtual_target_arr();\n        let new_owner = builder.add_virtual_target_arr::<4>();\n"),
 (MC,"        let old_data = [(); 4].map(|()| builder.add_virtual_target());\n","        let old_data: [Target; 4] = builder.add_virtual_targets(4).try_into().unwrap();\n"),
 (MC,"        let new_data = [(); 4].map(|()| builder.add_virtual_target());\n","        let new_data = core::array::from_fn(|_| builder.add_virtual_target());\n")]
R["h9_md_helper"]=[(MD,"""        let verifier =
            builder.constant_verifier_data(&accumulate_event_circuit.circuit.verifier_only);
        builder.verify_proof::<C>(
            &targets.accumulate_event,
            &verifier,
            &accumulate_event_circuit.circuit.common,
        );
        // Make sure the proof's recursion was bound to this very circuit
        {
            let acc_verifier = accumulate_event_circuit
                .unbounded
                .indices
                .verifier
                .get_target(&targets.accumulate_event.public_inputs);
            builder.connect_verifier_data(&acc_verifier, &verifier);
        }
""","""        Self::verify_accumulated(&mut builder, accumulate_event_circuit, &targets.accumulate_event);
"""),(MD,"""    fn indices(&self) -> Indices {
        Indices {
            unbounded: self.unbounded.indices.clone(),
            event_hash: self.event_hash.indices,
            state_hash: self.state_hash.indices,
            compare_delta: self.compare_delta.indices,
            block_height: self.block_height.indices,
        }
    }

    pub fn prove(
        &self,
        branch""","""    fn verify_accumulated(
        builder: &mut CircuitBuilder<F, D>,
        acc: &accumulate_delta::BranchCircuit<F, C, D>,
        proof: &ProofWithPublicInputsTarget<D>,
    ) {
        let expected = builder.constant_verifier_data(&acc.circuit.verifier_only);
        let claimed = acc.unbounded.indices.verifier.get_target(&proof.public_inputs);
        builder.connect_verifier_data(&expected, &claimed);
        builder.verify_proof::<C>(proof, &expected, &acc.circuit.common);
    }

    fn indices(&self) -> Indices {
        let Self { unbounded, event_hash, state_hash, compare_delta, block_height, .. } = self;
        Indices {
            unbounded: unbounded.indices.clone(),
            event_hash: event_hash.indices,
            state_hash: state_hash.indices,
            compare_delta: compare_delta.indices,
            block_height: block_height.indices,
        }
    }

    pub fn prove(
        &self,
        branch""")]
R["h9_md_indices"]=[(MD,"""        // flags
        let acc_flags = accumulate_event_circuit
            .partial_state
            .indices
            .object_flags
            .get_target(&targets.accumulate_event.public_inputs);
""","""        // flags
        let acc_indices = &accumulate_event_circuit.partial_state.indices;
        let acc_pis = &targets.accumulate_event.public_inputs;
        let acc_flags = acc_indices.object_flags.get_target(acc_pis);
"""),(MD,"""            let acc_old_owner = accumulate_event_circuit
                .partial_state
                .indices
                .old_owner
                .get_target(&targets.accumulate_event.public_inputs);
""","""            let acc_old_owner = acc_indices.old_owner.get_target(acc_pis);
"""),(MD,"""        let has_owner = builder.is_nonzero(acc_flags.owner);
        // Writes are also only allowed by the old owner
        let has_old_owner = builder.or(acc_flags.write, has_owner);
        // New data is claimed by ensures just as much as by writes
        let has_new_data = builder.is_nonzero(acc_flags.new_data);
""","""        let has_owner = builder.or(acc_flags.give_owner, acc_flags.take_owner);
        let has_new_data = builder.or(acc_flags.write, acc_flags.ensure);
        // Writes are also only allowed by the old owner
        let has_old_owner = builder.or(has_owner, acc_flags.write);
""")]
R["h9_md_credit"]=[(MD,"""            let calc_credit_delta = builder.sub(
                compare_delta_targets.new_credits,
                compare_delta_targets.old_credits,
            );
            builder.connect(calc_credit_delta, acc_credit_delta);
""","""            let expected = builder.add(compare_delta_targets.old_credits, acc_credit_delta);
            builder.connect(compare_delta_targets.new_credits, expected);
"""),(MD,"""        connect_arrays(&mut builder, block_height_targets.inputs.values, [
            compare_delta_targets.block_height,
        ]);
""","""        let [height] = block_height_targets.inputs.values;
        builder.connect(compare_delta_targets.block_height, height);
"""),(MD,"use crate::{connect_arrays, maybe_connect};","use crate::maybe_connect;")]
R["h9_md_prove"]=[(MD,"""        let mut inputs = PartialWitness::new();
        self.unbounded.set_witness(&mut inputs, &branch.circuit);
        inputs.set_target(
            self.compare_delta.targets.block_height,
            F::from_canonical_u64(v.block_height),
        );
        inputs.set_target(
            self.compare_delta.targets.last_updated,
            F::from_canonical_u64(v.last_updated),
        );
        inputs.set_target(
            self.compare_delta.targets.old_credits,
            F::from_canonical_u64(v.old_credits),
        );
        inputs.set_target(
            self.compare_delta.targets.new_credits,
            F::from_canonical_u64(v.new_credits),
        );
        inputs.set_target_arr(&self.compare_delta.targets.old_owner, &v.old_owner);
        inputs.set_target_arr(&self.compare_delta.targets.new_owner, &v.new_owner);
        inputs.set_target_arr(&self.compare_delta.targets.old_data, &v.old_data);
        inputs.set_target_arr(&self.compare_delta.targets.new_data, &v.new_data);
""","""        let LeafWitnessValue { block_height, last_updated, old_owner, new_owner, old_data, new_data, old_credits, new_credits } = v;
        let t = &self.compare_delta.targets;
        let mut inputs = PartialWitness::new();
        for (target, value) in [
            (t.block_height, block_height),
            (t.last_updated, last_updated),
            (t.old_credits, old_credits),
            (t.new_credits, new_credits),
        ] {
            inputs.set_target(target, F::from_canonical_u64(value));
        }
        for (targets, values) in [
            (&t.old_owner, &old_owner),
            (&t.new_owner, &new_owner),
            (&t.old_data, &old_data),
            (&t.new_data, &new_data),
        ] {
            inputs.set_target_arr(targets, values);
        }
        self.unbounded.set_witness(&mut inputs, &branch.circuit);
""")]
R["h9_vb_register"]=[(VB,"""        builder.register_public_inputs(&self.verifier.circuit_digest.elements);
        for i in 0..builder.config.fri_config.num_cap_elements() {
            builder.register_public_inputs(&self.verifier.constants_sigmas_cap.0[i].elements);
        }
        builder.register_public_inputs(&self.base_state_root.elements);
        builder.register_public_inputs(&self.state_root.elements);
        builder.register_public_input(self.block_height);
""","""        let VerifierCircuitTarget { constants_sigmas_cap, circuit_digest } = &self.verifier;
        builder.register_public_inputs(&circuit_digest.elements);
        constants_sigmas_cap
            .0
            .iter()
            .for_each(|hash| builder.register_public_inputs(&hash.elements));
        for root in [self.base_state_root, self.state_root] {
            builder.register_public_inputs(&root.elements);
        }
        builder.register_public_inputs(&[self.block_height]);
""")]
R["h9_vb_base"]=[(VB,"""        let non_base = builder.is_nonzero(prev_block_height);
""","""        let zero = builder.zero();
        let is_base = builder.is_equal(prev_block_height, zero);
"""),(VB,"        let verifier_calc = select_verifier(builder, non_base, &self.verifier, &dummy_verifier);\n","        let verifier_calc = select_verifier(builder, is_base, &dummy_verifier, &self.verifier);\n"),
 (VB,"""        let block_height_calc = builder.add_const(prev_block_height, F::ONE);
        builder.connect(self.block_height, block_height_calc);
""","""        let one = builder.one();
        let block_height_calc = builder.sub(self.block_height, one);
        builder.connect(prev_block_height, block_height_calc);
"""),(VB,"""        let prev_base_state_calc = select_hash(builder, non_base, prev_base_state, prev_state_root);
        builder.connect_hashes(prev_base_state_calc, prev_base_state);
""","""        let prev_base_state_calc = select_hash(builder, is_base, prev_state_root, prev_base_state);
        builder.connect_hashes(prev_base_state, prev_base_state_calc);
""")]
R["h9_vb_zero"]=[(VB,"""        // The root address must be 0
        let address = su
            .address
            .indices
            .node_address
            .get_target(&proof.public_inputs);
        builder.assert_zero(address);
""",""),(VB,"""        let summary_root = su
            .summarized""","""        // The root address must be 0
        let indices = &su.address.indices;
        let root_address = builder.zero();
        builder.connect(indices.node_address.get_target(&proof.public_inputs), root_address);

        let summary_root = su
            .summarized"""),(VB,"""        builder.assert_one(summary_present.target);
""","""        let present = builder.constant_bool(true);
        builder.connect(present.target, summary_present.target);
""")]
R["h9_vb_shape"]=[(VB,"""        while builder.num_gates() < (common.degree() / 2) {
            builder.add_gate(NoopGate, vec![]);
        }
        // Make sure we have every gate to match `common_data`.
        for g in &common.gates {
            builder.add_gate_to_gate_set(g.clone());
        }
""","""        let min_gates = common.degree() / 2;
        loop {
            if builder.num_gates() >= min_gates {
                break;
            }
            builder.add_gate(NoopGate, vec![]);
        }
        // Make sure we have every gate to match `common_data`.
        common.gates.iter().cloned().for_each(|g| builder.add_gate_to_gate_set(g));
"""),(VB,"""        for i in 0..self.dummy.common.num_public_inputs {
            let target = self.dummy.prover_only.public_inputs[i];
            if dummy_inputs.try_get_target(target).is_none() {
                dummy_inputs.set_target(target, F::ZERO);
            }
        }
""","""        for &target in &self.dummy.prover_only.public_inputs {
            if let None = dummy_inputs.try_get_target(target) {
                dummy_inputs.set_target(target, F::ZERO);
            }
        }
""")]
R["h9_lib_select"]=[(LB,"""        elements: core::array::from_fn(|i| builder.select(b, h0.elements[i], h1.elements[i])),
""","""        elements: zip(h0.elements, h1.elements)
            .map(|(x, y)| builder.select(b, x, y))
            .collect_vec()
            .try_into()
            .unwrap(),
"""),(LB,"""    // (1-b) * t
    // t - b*t
    // -1*b*t + 1*t
    builder.arithmetic(F::NEG_ONE, F::ONE, b.target, t, t)
""","""    let product = builder.mul(b.target, t);
    builder.sub(t, product)
""")]
AD=RC+"circuits/accumulate_delta/core.rs"; UP=RC+"subcircuits/unpruned.rs"; UB=RC+"subcircuits/unbounded.rs"; VA=RC+"subcircuits/verify_address.rs"; ME=RC+"circuits/merge/core.rs"; VP=RC+"circuits/verify_program/core.rs"; IX=RC+"indices.rs"; SU=RC+"subcircuits/summarized.rs"
R["h9_ad_flags"]=[(AD,"""        // These flags can only be set once, so we can just add
        let write_flag_calc = builder.add(left_flags.write.target, right_flags.write.target);
        let give_owner_flag_calc =
            builder.add(left_flags.give_owner.target, right_flags.give_owner.target);
        let take_owner_flag_calc =
            builder.add(left_flags.take_owner.target, right_flags.take_owner.target);
        builder.connect(write_flag_calc, parent_flags.write.target);
        builder.connect(give_owner_flag_calc, parent_flags.give_owner.target);
        builder.connect(take_owner_flag_calc, parent_flags.take_owner.target);
""","""        // These flags can only be set once, so we can just add
        for (left, right, parent) in [
            (left_flags.write, right_flags.write, parent_flags.write),
            (left_flags.give_owner, right_flags.give_owner, parent_flags.give_owner),
            (left_flags.take_owner, right_flags.take_owner, parent_flags.take_owner),
        ] {
            let sum = builder.add(left.target, right.target);
            builder.connect(sum, parent.target);
        }
"""),(AD,"""        right.object_flags = builder.select(partial, zero, right.object_flags);
        right.credit_delta = builder.select(partial, zero, right.credit_delta);
""","""        right.object_flags = crate::zero_if(builder, partial, right.object_flags);
        right.credit_delta = crate::zero_if(builder, partial, right.credit_delta);
"""),(AD,"""    ) -> BranchTargets {
        let zero = builder.zero();

        let left = Self::direction""","""    ) -> BranchTargets {
        let left = Self::direction""")]
R["h9_ad_sides"]=[(AD,"""        // Presence check for matching object fields
        let left_has_new_data = builder.is_nonzero(left_flags.new_data);
        let right_has_new_data = builder.is_nonzero(right_flags.new_data);
        let left_has_owner = builder.is_nonzero(left_flags.owner);
        let right_has_owner = builder.is_nonzero(right_flags.owner);
        let left_has_old_owner = builder.or(left_flags.write, left_has_owner);
        let right_has_old_owner = builder.or(right_flags.write, right_has_owner);

        // Enforce restrictions on all the object fields
        maybe_connect(builder, self.old_owner, left_has_old_owner, left.old_owner);
        maybe_connect(
            builder,
            self.old_owner,
            right_has_old_owner,
            right.old_owner,
        );

        maybe_connect(builder, self.new_owner, left_has_owner, left.new_owner);
        maybe_connect(builder, self.new_owner, right_has_owner, right.new_owner);

        maybe_connect(builder, self.old_data, left_flags.read, left.old_data);
        maybe_connect(builder, self.old_data, right_flags.read, right.old_data);

        maybe_connect(builder, self.new_data, left_has_new_data, left.new_data);
        maybe_connect(builder, self.new_data, right_has_new_data, right.new_data);
""","""        // Enforce restrictions on all the object fields
        for (side, flags) in [(&left, &left_flags), (&right, &right_flags)] {
            let has_new_data = builder.is_nonzero(flags.new_data);
            let has_owner = builder.is_nonzero(flags.owner);
            let has_old_owner = builder.or(flags.write, has_owner);
            maybe_connect(builder, self.old_owner, has_old_owner, side.old_owner);
            maybe_connect(builder, self.new_owner, has_owner, side.new_owner);
            maybe_connect(builder, self.old_data, flags.read, side.old_data);
            maybe_connect(builder, self.new_data, has_new_data, side.new_data);
        }
""")]
R["h9_ad_sign"]=[(AD,"""        let credit_delta_sign = builder.mul_const_add(-F::TWO, credit_delta_sign, one);
        let credit_delta_calc = builder.mul(credit_delta_val, credit_delta_sign);
        builder.connect(credit_delta_calc, self.credit_delta);
""","""        let negated = builder.neg(credit_delta_val);
        let is_debit = BoolTarget::new_unsafe(credit_delta_sign);
        let credit_delta_calc = builder.select(is_debit, negated, credit_delta_val);
        builder.connect(self.credit_delta, credit_delta_calc);
"""),(AD,"""        let credit_delta_sign = builder.select(is_credit_delta, event_value[3], zero);
""","""        let credit_delta_sign = builder.mul(is_credit_delta.target, event_value[3]);
"""),(AD,"""        let zero = builder.zero();
        let one = builder.one();
        let write_const""","""        let zero = builder.zero();
        let write_const""")]
R["h9_ad_fromevent"]=[(AD,"""        let (old_owner, new_owner) = match event.ty {
            EventType::Write | EventType::CreditDelta => (event.owner, zero),
            EventType::Read | EventType::Ensure => (zero, zero),
            EventType::GiveOwner => (event.owner, event.value),
            EventType::TakeOwner => (event.value, event.owner),
        };
""","""        let old_owner = match event.ty {
            EventType::Write | EventType::CreditDelta | EventType::GiveOwner => event.owner,
            EventType::TakeOwner => event.value,
            EventType::Read | EventType::Ensure => zero,
        };
        let new_owner = if event.ty == EventType::GiveOwner {
            event.value
        } else if event.ty == EventType::TakeOwner {
            event.owner
        } else {
            zero
        };
"""),(AD,"""                let value = match event.value[3] {
                    sign if sign.is_zero() => value,
                    sign if sign.is_one() => -value,
                    _ => unreachable!(),
                };
                (BitFlags::EMPTY, value)
""","""                let sign = event.value[3];
                assert!(sign.is_zero() || sign.is_one());
                (BitFlags::empty(), if sign.is_one() { -value } else { value })
""")]
R["h9_up_inline"]=[(UP,"""        let hasher = if vm_hashing {
            byte_wise_hash
        } else {
            CircuitBuilder::hash_n_to_hash_no_pad::<Poseidon2Hash>
        };

        let l_values""","""        let l_values"""),(UP,"""        let unpruned_hash_calc = hasher(
            builder,
            chain!(l_values.elements, r_values.elements).collect(),
        );
""","""        let elements = [l_values.elements, r_values.elements].concat();
        let unpruned_hash_calc = if vm_hashing {
            byte_wise_hash(builder, elements)
        } else {
            builder.hash_n_to_hash_no_pad::<Poseidon2Hash>(elements)
        };
""")]
R["h9_ub_sides"]=[(UB,"""        let left_verifier = leaf.indices.verifier.get_target(&left_proof.public_inputs);
        let right_verifier = leaf.indices.verifier.get_target(&right_proof.public_inputs);
        builder.connect_verifier_data(&self.verifier, &left_verifier);
        builder.connect_verifier_data(&self.verifier, &right_verifier);

        let left_verifier = select_verifier(builder, left_is_leaf, &leaf_verifier, &self.verifier);
        let right_verifier =
            select_verifier(builder, right_is_leaf, &leaf_verifier, &self.verifier);
        builder.verify_proof::<C>(&left_proof, &left_verifier, common);
        builder.verify_proof::<C>(&right_proof, &right_verifier, common);
""","""        for (proof, is_leaf) in [(&left_proof, left_is_leaf), (&right_proof, right_is_leaf)] {
            let claimed = leaf.indices.verifier.get_target(&proof.public_inputs);
            builder.connect_verifier_data(&claimed, &self.verifier);
            let selected = select_verifier(builder, is_leaf, &leaf_verifier, &claimed);
            builder.verify_proof::<C>(proof, &selected, common);
        }
""")]
R["h9_va"]=[(VA,"""        let parents_match = builder.is_equal(l_parent, r_parent);
        let parents_match = builder.select(both_present, parents_match.target, one);
        builder.connect(parents_match, one);
""","""        let difference = builder.sub(l_parent, r_parent);
        let mismatch = builder.mul(both_present.target, difference);
        builder.assert_zero(mismatch);
"""),(VA,"""        let l_parent = builder.div(l_address, two);
        let r_parent = builder.add_const(r_address, -F::ONE);
        let r_parent = builder.div(r_parent, two);
""","""        let half = builder.inverse(two);
        let l_parent = builder.mul(l_address, half);
        let r_even = builder.sub(r_address, one);
        let r_parent = builder.mul(half, r_even);
""")]
R["h9_va2"]=[(VA,"""        let node_address = node_address.map_or(F::ZERO.sub_one(), F::from_canonical_u64);
        inputs.set_bool_target(self.targets.node_present, node_present);
        inputs.set_target(self.targets.node_address, node_address);
""","""        let node_address = match node_address {
            Some(address) => F::from_canonical_u64(address),
            None => F::NEG_ONE,
        };
        inputs.set_target(self.targets.node_address, node_address);
        inputs.set_bool_target(self.targets.node_present, node_present);
"""),(VA,"""        let check_neg_one = builder.add_const(node_address, F::ONE);
        let node_present_calc = builder.is_nonzero(check_neg_one);
        builder.connect(node_present_calc.target, node_present.target);
""","""        let absent_address = builder.neg_one();
        let absent = builder.is_equal(node_address, absent_address);
        let node_present_calc = builder.not(absent);
        builder.connect(node_present_calc.target, node_present.target);
""")]
R["h9_me_struct"]=[(ME,"""        let a_present_calc = builder.or(left_a_present, right_a_present);
        builder.connect(self.a_present.target, a_present_calc.target);

        let b_present_calc = builder.or(left_b_present, right_b_present);
        builder.connect(self.b_present.target, b_present_calc.target);

        let merged_present_calc = builder.or(left_merged_present, right_merged_present);
        builder.connect(self.merged_present.target, merged_present_calc.target);

        let a_hash_calc =
            hash_or_forward(builder, left_a_present, left_a, right_a_present, right_a);
        let b_hash_calc =
            hash_or_forward(builder, left_b_present, left_b, right_b_present, right_b);
        let merged_hash_calc = hash_or_forward(
            builder,
            left_merged_present,
            left_merged,
            right_merged_present,
            right_merged,
        );

        builder.connect_hashes(a_hash_calc, self.a_hash);
        builder.connect_hashes(b_hash_calc, self.b_hash);
        builder.connect_hashes(merged_hash_calc, self.merged_hash);
""","""        let mut combine = |present: BoolTarget, hash, l_present, l_hash, r_present, r_hash| {
            let present_calc = builder.or(l_present, r_present);
            let hash_calc = hash_or_forward(builder, l_present, l_hash, r_present, r_hash);
            builder.connect(present.target, present_calc.target);
            builder.connect_hashes(hash, hash_calc);
        };
        combine(self.a_present, self.a_hash, left_a_present, left_a, right_a_present, right_a);
        combine(self.b_present, self.b_hash, left_b_present, left_b, right_b_present, right_b);
        combine(
            self.merged_present,
            self.merged_hash,
            left_merged_present,
            left_merged,
            right_merged_present,
            right_merged,
        );
"""),(ME,"""        at_least_one_true(builder, [a_is_zero, self.a_present]);
        at_least_one_true(builder, [b_is_zero, self.b_present]);
""","""        let a_ok = builder.or(self.a_present, a_is_zero);
        let b_ok = builder.or(self.b_present, b_is_zero);
        let ok = builder.and(a_ok, b_ok);
        builder.assert_one(ok.target);
"""),(ME,"use crate::{at_least_one_true, hash_is_zero, hash_or_forward};","use crate::{hash_is_zero, hash_or_forward};")]
R["h9_me_witness"]=[(ME,"""        inputs.set_bool_target(self.targets.inputs.a_present, a_hash.is_some());
        inputs.set_bool_target(self.targets.inputs.b_present, b_hash.is_some());
        inputs.set_hash_target(self.targets.inputs.a_hash, a_hash.unwrap_or_default());
        inputs.set_hash_target(self.targets.inputs.b_hash, b_hash.unwrap_or_default());
""","""        let SubCircuitInputs { a_present, a_hash: a_target, b_present, b_hash: b_target, .. } =
            &self.targets.inputs;
        for (present, target, hash) in
            [(a_present, a_target, a_hash), (b_present, b_target, b_hash)]
        {
            let (is_present, value) = match hash {
                Some(hash) => (true, hash),
                None => (false, HashOut::ZERO),
            };
            inputs.set_bool_target(*present, is_present);
            inputs.set_hash_target(*target, value);
        }
""")]
R["h9_vp"]=[(VP,"""            chain!(
                [&program_verifier.circuit_digest],
                &program_verifier.constants_sigmas_cap.0,
            )
            .flat_map(|v| &v.elements)
            .copied()
            .collect(),
""","""            {
                let mut elements = program_verifier.circuit_digest.elements.to_vec();
                for hash in &program_verifier.constants_sigmas_cap.0 {
                    elements.extend_from_slice(&hash.elements);
                }
                elements
            },
"""),(VP,"""            for v in hash {
                builder.assert_zero(v);
            }
            for v in vm_hash {
                builder.assert_zero(v);
            }
""","""            let zero = builder.zero();
            for v in hash.into_iter().chain(vm_hash) {
                builder.connect(v, zero);
            }
"""),(VP,"""        let expected_verifier =
            select_verifier(builder, events_present, &real_verifier, &proof_verifier);
        builder.connect_verifier_data(&proof_verifier, &expected_verifier);
""","""        let events_absent = builder.not(events_present);
        let expected_verifier =
            select_verifier(builder, events_absent, &proof_verifier, &real_verifier);
        builder.connect_verifier_data(&expected_verifier, &proof_verifier);
""")]
R["h9_ix"]=[(IX,"""        Self(
            public_inputs
                .iter()
                .position(|&pi| pi == target)
                .expect("target not found"),
        )
""","""        for (i, pi) in public_inputs.iter().enumerate() {
            if *pi == target {
                return Self(i);
            }
        }
        panic!("target not found")
""")]
R["h9_lib_eq"]=[(LB,"""    let eq = a
        .into_iter_fixed()
        .zip(b)
        .map(|(h0, h1)| builder.is_equal(h0, h1))
        .collect();
    and_helper(builder, eq)
""","""    let mut all = builder._true();
    for (x, y) in zip(a, b) {
        let eq = builder.is_equal(x, y);
        all = builder.and(all, eq);
    }
    all
"""),(LB,"""    // Select the hash based on presence
    select_hash(builder, both_present, hash_both, hash_absent)
""","""    // Select the hash based on presence
    let some_absent = builder.not(both_present);
    select_hash(builder, some_absent, hash_absent, hash_both)
"""),(LB,"""    let zero = h0
        .into()
        .elements
        .into_iter_fixed()
        .map(|h0| builder.is_nonzero(h0))
        .collect();
    // If any elements are non-zero, then it's non-zero
    or_helper(builder, zero)
""","""    let [h0, h1, h2, h3] = h0.into().elements;
    let bits = [
        builder.is_nonzero(h0),
        builder.is_nonzero(h1),
        builder.is_nonzero(h2),
        builder.is_nonzero(h3),
    ];
    // If any elements are non-zero, then it's non-zero
    or_helper(builder, bits)
""")]
R["h9_su"]=[(SU,"""        let l_present = left.summary_hash_present;
        let l_hash = left.summary_hash;
        let r_present = right.summary_hash_present;
        let r_hash = right.summary_hash;
""","""        let SubCircuitInputs { summary_hash_present: l_present, summary_hash: l_hash } = left;
        let SubCircuitInputs { summary_hash_present: r_present, summary_hash: r_hash } = right;
"""),(SU,"""        self.set_witness_unsafe(
            inputs,
            summary_hash.is_some(),
            summary_hash.unwrap_or(HashOut::ZERO),
        );
""","""        if let Some(hash) = summary_hash {
            self.set_witness_unsafe(inputs, true, hash);
        } else {
            self.set_witness_unsafe(inputs, false, HashOut::ZERO);
        }
""")]
