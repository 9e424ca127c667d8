K="circuits/src/stark/"
PR=K+"prover.rs"; VE=K+"verifier.rs"; BP=K+"batch_prover.rs"; BV=K+"batch_verifier.rs"; RV=K+"recursive_verifier.rs"
R={}
R["pr6_zpolys"]=[(PR,"""    let z_poly_public_sub_table = public_sub_table_data.z_polys();

    // commit to both z poly of ctl and open public
    let z_polys = vec![ctl_data.z_polys(), z_poly_public_sub_table]
        .into_iter()
        .flatten()
        .collect_vec();
""","""    // commit to both z poly of ctl and open public
    let mut z_polys = ctl_data.z_polys();
    z_polys.extend(public_sub_table_data.z_polys());
""")]
R["pr6_caps"]=[(PR,"""    let trace_caps = trace_commitments
        .each_ref()
        .map(|c| c.merkle_tree.cap.clone());
    // Add trace commitments to the challenger entropy pool.
    let mut challenger = Challenger::<F, C::Hasher>::new();
    for cap in &trace_caps {
        challenger.observe_cap(cap);
    }
""","""    let mut challenger = Challenger::<F, C::Hasher>::new();
    let trace_caps = trace_commitments
        .each_ref()
        .map(|commitment| commitment.merkle_tree.cap.clone());
    // Add trace commitments to the challenger entropy pool.
    trace_caps.iter().for_each(|cap| challenger.observe_cap(cap));
""")]
R["pr6_helper"]=[(PR,"""    let ctl_zs_cap = ctl_zs_commitment.merkle_tree.cap.clone();
    challenger.observe_cap(&ctl_zs_cap);

    let alphas = challenger.get_n_challenges(config.num_challenges);
""","""    let ctl_zs_cap = ctl_zs_commitment.merkle_tree.cap.clone();
    let alphas = absorb_and_squeeze::<F, C, D>(challenger, &ctl_zs_cap, config.num_challenges);
"""),(PR,"""/// Compute proof for a single STARK table, with lookup data.
""","""/// Observe a commitment, then draw challenges.
fn absorb_and_squeeze<F, C, const D: usize>(
    challenger: &mut Challenger<F, C::Hasher>,
    cap: &MerkleCap<F, C::Hasher>,
    count: usize,
) -> Vec<F>
where
    F: RichField + Extendable<D>,
    C: GenericConfig<D, F = F>, {
    challenger.observe_cap(cap);
    challenger.get_n_challenges(count)
}

/// Compute proof for a single STARK table, with lookup data.
""")]
R["pr6_ensure"]=[(PR,"""    ensure!(
        zeta.exp_power_of_2(degree_bits) != F::Extension::ONE,
        "Opening point is in the subgroup."
    );
""","""    if zeta.exp_power_of_2(degree_bits) == F::Extension::ONE {
        return Err(anyhow::anyhow!("Opening point is in the subgroup."));
    }
"""),(PR,"use anyhow::{ensure, Result};","use anyhow::Result;"),(PR,"""    let num_make_rows_public_data = public_sub_table_data.len();
""",""),(PR,"num_zs: ctl_data.len() + num_make_rows_public_data","num_zs: public_sub_table_data.len() + ctl_data.len()")]
R["pr6_progid"]=[(PR,"""    let hashout = hash_pad_func(
        &itertools::chain!(
            [entry_point],
            hash_pad_func(&program_trace_cap.flatten()).elements,
            hash_pad_func(&elf_memory_init_trace_cap.flatten()).elements,
        )
        .collect_vec(),
    );
""","""    let program_hash = hash_pad_func(&program_trace_cap.flatten());
    let memory_hash = hash_pad_func(&elf_memory_init_trace_cap.flatten());
    let mut elements = vec![entry_point];
    elements.extend_from_slice(&program_hash.elements);
    elements.extend_from_slice(&memory_hash.elements);
    let hashout = hash_pad_func(&elements);
""")]
R["pr6_inputs"]=[(PR,"""    let cpu_skeleton_stark = [public_inputs.entry_point];
    let public_inputs = TableKindSetBuilder::<&[_]> {
        cpu_skeleton_stark: &cpu_skeleton_stark,
        ..Default::default()
    }
    .build();
""","""    let entry_point = [public_inputs.entry_point];
    let mut builder = TableKindSetBuilder::<&[_]>::default();
    builder.cpu_skeleton_stark = entry_point.as_slice();
    let public_inputs = builder.build();
"""),(PR,"""            &mut challenger.clone(),
            &mut timing,
        )
        .unwrap()
""","""            &mut challenger.clone(),
            &mut timing,
        )
        .expect("proving a table failed")
""")]
R["ve6_order"]=[(VE,"""    let program_id = get_program_id::<F, C, D>(
        all_proof.public_inputs.entry_point,
        &all_proof.proofs[TableKind::Program].trace_cap,
        &all_proof.proofs[TableKind::ElfMemoryInit].trace_cap,
    );
    ensure!(program_id == all_proof.program_id);

    all_starks!(""","""    all_starks!("""),(VE,"""        config,
    )?;
    debug!("Verified");
""","""        config,
    )?;

    let expected_program_id = get_program_id::<F, C, D>(
        all_proof.public_inputs.entry_point,
        &all_proof.proofs[TableKind::Program].trace_cap,
        &all_proof.proofs[TableKind::ElfMemoryInit].trace_cap,
    );
    ensure!(
        all_proof.program_id == expected_program_id,
        "program id does not match"
    );
    debug!("Verified");
""")]
R["ve6_quot"]=[(VE,"""    for (i, chunk) in quotient_polys
        .chunks(stark.quotient_degree_factor())
        .enumerate()
    {
        ensure!(
            vanishing_polys_zeta[i] == z_h_zeta * reduce_with_powers(chunk, zeta_pow_deg),
            "Mismatch between evaluation and opening of quotient polynomial"
        );
    }
""","""    let factor = stark.quotient_degree_factor();
    for i in 0..quotient_polys.len() / factor {
        let chunk = &quotient_polys[i * factor..(i + 1) * factor];
        let quotient = reduce_with_powers(chunk, zeta_pow_deg);
        if quotient * z_h_zeta != vanishing_polys_zeta[i] {
            anyhow::bail!("Mismatch between evaluation and opening of quotient polynomial");
        }
    }
""")]
R["ve6_chunkz"]=[(VE,"""    for (i, chunk) in quotient_polys
        .chunks(stark.quotient_degree_factor())
        .enumerate()
    {
        ensure!(
            vanishing_polys_zeta[i] == z_h_zeta * reduce_with_powers(chunk, zeta_pow_deg),
""","""    for (chunk, vanishing) in quotient_polys
        .chunks(stark.quotient_degree_factor())
        .zip(vanishing_polys_zeta)
    {
        ensure!(
            vanishing == z_h_zeta * reduce_with_powers(chunk, zeta_pow_deg),
""")]
R["ve6_l0"]=[(VE,"""    let invs = F::batch_multiplicative_inverse(&[n * (x - F::ONE), n * (g * x - F::ONE)]);

    (z_x * invs[0], z_x * invs[1])
""","""    let first = (n * (x - F::ONE)).inverse();
    let last = (n * (g * x - F::ONE)).inverse();

    (first * z_x, last * z_x)
""")]
R["ve6_shape"]=[(VE,"""    ensure!(ctl_zs.len() == num_ctl_zs);
    ensure!(ctl_zs_next.len() == num_ctl_zs);
    ensure!(ctl_zs_last.len() == num_ctl_zs);
    ensure!(quotient_polys.len() == stark.num_quotient_polys(config));
""","""    for zs_len in [ctl_zs.len(), ctl_zs_next.len(), ctl_zs_last.len()] {
        ensure!(zs_len == num_ctl_zs, "wrong number of running sums");
    }
    let expected_quotients = stark.num_quotient_polys(config);
    ensure!(expected_quotients == quotient_polys.len());
""")]
R["ve6_caps"]=[(VE,"""    ensure!(trace_cap.height() == cap_height);
    ensure!(ctl_zs_cap.height() == cap_height);
    ensure!(quotient_polys_cap.height() == cap_height);

    validate_openings_shape(""","""    let all_caps_ok = [trace_cap, ctl_zs_cap, quotient_polys_cap]
        .iter()
        .all(|cap| cap.height() == cap_height);
    ensure!(all_caps_ok, "wrong cap height");

    validate_openings_shape(""")]
R["ve6_inline"]=[(VE,"""    let ctl_zs_last = &proof.openings.ctl_zs_last;
    let merkle_caps = vec![
        proof.trace_cap.clone(),
        proof.ctl_zs_cap.clone(),
        proof.quotient_polys_cap.clone(),
    ];

    verify_fri_proof::<F, C, D>(
        &stark.fri_instance(
            challenges.stark_zeta,
            F::primitive_root_of_unity(degree_bits),
            0,
            vec![],
            config,
            Some(&LookupConfig {
                degree_bits,
                num_zs: ctl_zs_last.len(),
            }),
        ),
        &proof.openings.to_fri_openings(),
        &challenges.fri_challenges,
        &merkle_caps,
        &proof.opening_proof,
        &config.fri_params(degree_bits),
    )?;

    Ok(())
""","""    let num_zs = proof.openings.ctl_zs_last.len();
    let lookup_config = LookupConfig { degree_bits, num_zs };
    let g = F::primitive_root_of_unity(degree_bits);
    let instance = stark.fri_instance(
        challenges.stark_zeta,
        g,
        0,
        Vec::new(),
        config,
        Some(&lookup_config),
    );
    let caps = [&proof.trace_cap, &proof.ctl_zs_cap, &proof.quotient_polys_cap].map(Clone::clone);

    verify_fri_proof::<F, C, D>(
        &instance,
        &proof.openings.to_fri_openings(),
        &challenges.fri_challenges,
        &caps,
        &proof.opening_proof,
        &config.fri_params(degree_bits),
    )
""")]
R["bp6_sorted"]=[(BP,"""    let mut sorted_degree_bits: Vec<usize> =
        all_kind!(|kind| (!public_table_kinds.contains(&kind)).then_some(degree_bits[kind]))
            .iter()
            .filter_map(|d| *d)
            .collect_vec();
    sorted_degree_bits.sort_unstable();
    sorted_degree_bits.reverse();
    sorted_degree_bits.dedup();
    sorted_degree_bits
""","""    let mut sizes = std::collections::BTreeSet::new();
    all_kind!(|kind| {
        if !public_table_kinds.contains(&kind) {
            sizes.insert(degree_bits[kind]);
        }
    });
    sizes.into_iter().rev().collect()
""")]
R["bp6_merge"]=[(BP,"""    for ins in instances {
        assert_eq!(ins.oracles.len(), ORACLE_COUNT);
        assert_eq!(ins.batches.len(), BATCH_COUNT);

        for i in 0..ORACLE_COUNT {
            assert_eq!(res.oracles[i].blinding, ins.oracles[i].blinding);
            res.oracles[i].num_polys += ins.oracles[i].num_polys;
        }

        for i in 0..BATCH_COUNT {
            assert_eq!(res.batches[i].point, ins.batches[i].point);
            for poly in ins.batches[i].polynomials.iter().copied() {
                let mut poly = poly;
                poly.polynomial_index += polynomial_index_start[poly.oracle_index];
                res.batches[i].polynomials.push(poly);
            }
        }

        for (i, item) in polynomial_index_start
            .iter_mut()
            .enumerate()
            .take(ORACLE_COUNT)
        {
            *item += ins.oracles[i].num_polys;
        }
    }

    res
}

pub(crate) fn merge_fri_instances_target""","""    for ins in instances {
        assert_eq!(ins.oracles.len(), ORACLE_COUNT);
        assert_eq!(ins.batches.len(), BATCH_COUNT);

        for (batch, merged) in ins.batches.iter().zip(res.batches.iter_mut()) {
            assert_eq!(merged.point, batch.point);
            merged.polynomials.extend(batch.polynomials.iter().map(|poly| {
                let mut poly = *poly;
                poly.polynomial_index += polynomial_index_start[poly.oracle_index];
                poly
            }));
        }

        for i in 0..ORACLE_COUNT {
            let num_polys = ins.oracles[i].num_polys;
            assert_eq!(res.oracles[i].blinding, ins.oracles[i].blinding);
            res.oracles[i].num_polys += num_polys;
            polynomial_index_start[i] += num_polys;
        }
    }

    res
}

pub(crate) fn merge_fri_instances_target""")]
R["bp6_inst"]=[(BP,"""    let fri_instances = all_starks!(
        mozak_stark,
        |stark, kind| if public_table_kinds.contains(&kind) {
            None
        } else {
            Some({
                let g = F::primitive_root_of_unity(degree_bits[kind]);
                stark.fri_instance(
                    zeta,
                    g,
                    0,
                    vec![],
                    config,
                    Some(&LookupConfig {
                        degree_bits: degree_bits[kind],
                        num_zs: num_ctl_zs_per_table[kind],
                    }),
                )
            })
        }
    );
""","""    let fri_instances = all_starks!(mozak_stark, |stark, kind| {
        (!public_table_kinds.contains(&kind)).then(|| {
            let lookup = LookupConfig {
                num_zs: num_ctl_zs_per_table[kind],
                degree_bits: degree_bits[kind],
            };
            let generator = F::primitive_root_of_unity(lookup.degree_bits);
            stark.fri_instance(zeta, generator, 0, vec![], config, Some(&lookup))
        })
    });
"""),(BP,"""    let mut polynomial_index_start = [0, 0, 0];
    let res = fri_instance_groups
        .iter()
        .map(|ins| merge_fri_instances(ins, &mut polynomial_index_start))
        .collect::<Vec<_>>();
    res
""","""    let mut polynomial_index_start = [0; ORACLE_COUNT];
    let mut merged = Vec::with_capacity(fri_instance_groups.len());
    for group in &fri_instance_groups {
        merged.push(merge_fri_instances(group, &mut polynomial_index_start));
    }
    merged
""")]
R["bp6_indices"]=[(BP,"""        let mut poly_start_index = 0;
        for deg in &sorted_degree_bits {
            let mut bmt_start_index = 0;
            all_kind!(|kind| {
                if !public_table_kinds.contains(&kind) && degree_bits[kind] == *deg {
                    bmt_start_indices[kind] = Some(bmt_start_index);
                    poly_start_indices[kind] = Some(poly_start_index);
                    bmt_start_index += poly_count[kind];
                    poly_start_index += poly_count[kind];
                }
            });
        }
""","""        let mut group_start = 0;
        for deg in &sorted_degree_bits {
            let mut within_group = 0;
            all_kind!(|kind| {
                if public_table_kinds.contains(&kind) || degree_bits[kind] != *deg {
                    // Not part of this group.
                } else {
                    bmt_start_indices[kind] = Some(within_group);
                    poly_start_indices[kind] = Some(group_start + within_group);
                    within_group += poly_count[kind];
                }
            });
            group_start += within_group;
        }
""")]
R["bp6_trace"]=[(BP,"""    let mut batch_trace_polys: Vec<_> = batch_traces_poly_values
        .iter()
        .filter_map(|t| *t)
        .flat_map(std::clone::Clone::clone)
        .collect();
""","""    let mut batch_trace_polys = vec![];
    for trace in batch_traces_poly_values.iter().flatten() {
        batch_trace_polys.extend(trace.iter().cloned());
    }
"""),(BP,"""    all_kind!(|kind| {
        if let Some(c) = trace_caps[kind].clone() {
            challenger.observe_cap(&c);
        }
    });
""","""    for cap in trace_caps.iter().flatten() {
        challenger.observe_cap(cap);
    }
""")]
R["rv6_prove"]=[(RV,"""                for (row_target, row) in
                    zip_eq(public_sub_table_values_target, public_sub_table_values)
                {
                    for (&values_target, &values) in zip_eq(row_target, row) {
                        inputs.set_target(values_target, values);
                    }
                }
            }
        });

        // Set public inputs
        let cpu_skeleton_target =
            &self.proof.table_targets[TableKind::CpuSkeleton].stark_proof_with_pis_target;
        inputs.set_target_arr(
            cpu_skeleton_target.public_inputs.as_ref(),
            all_proof.public_inputs.borrow(),
        );

        let program_id_elements = all_proof.program_id.0 .0.map(F::from_canonical_u8);
        inputs.set_target_arr(self.proof.program_id.as_ref(), &program_id_elements);

        self.circuit.prove(inputs)
""","""                for (row_target, row) in
                    zip_eq(public_sub_table_values_target, public_sub_table_values)
                {
                    inputs.set_target_arr(row_target, row);
                }
            }
        });

        let program_id_elements = all_proof.program_id.0 .0.map(F::from_canonical_u8);
        for (target, element) in zip_eq(self.proof.program_id, program_id_elements) {
            inputs.set_target(target, element);
        }

        // Set public inputs
        let skeleton = &self.proof.table_targets[TableKind::CpuSkeleton];
        inputs.set_target_arr(
            skeleton.stark_proof_with_pis_target.public_inputs.as_ref(),
            all_proof.public_inputs.borrow(),
        );

        self.circuit.prove(inputs)
""")]
R["rv6_zh"]=[(RV,"""    let mut scale = ReducingFactorTarget::new(zeta_pow_deg);
    for (i, chunk) in quotient_polys
        .chunks(stark.quotient_degree_factor())
        .enumerate()
    {
        let recombined_quotient = scale.reduce(chunk, builder);
        let computed_vanishing_poly = builder.mul_extension(z_h_zeta, recombined_quotient);
        builder.connect_extension(vanishing_polys_zeta[i], computed_vanishing_poly);
    }
}

/// Recursively verifies an inner proof.""","""    for (chunk, vanishing) in quotient_polys
        .chunks(stark.quotient_degree_factor())
        .zip(vanishing_polys_zeta)
    {
        let mut scale = ReducingFactorTarget::new(zeta_pow_deg);
        let recombined_quotient = scale.reduce(chunk, builder);
        let computed = builder.mul_extension(recombined_quotient, z_h_zeta);
        builder.connect_extension(computed, vanishing);
    }
}

/// Recursively verifies an inner proof.""")]
R["rv6_batchchal"]=[(RV,"""        let StarkProofTarget {
            ref ctl_zs_cap,
            ref quotient_polys_cap,
            opening_proof:
                Some(FriProofTarget {
                    ref commit_phase_merkle_caps,
                    ref final_poly,
                    ref pow_witness,
                    ..
                }),
            ..
        } = batch_stark_proof_target
        else {
            panic!("should not happen")
        };

        let num_challenges = inner_config.num_challenges;

        challenger.observe_cap(ctl_zs_cap);

        let stark_alphas = challenger.get_n_challenges(&mut builder, num_challenges);

        challenger.observe_cap(quotient_polys_cap);
        let stark_zeta""","""        let FriProofTarget {
            commit_phase_merkle_caps,
            final_poly,
            pow_witness,
            ..
        } = batch_stark_proof_target.opening_proof.as_ref().unwrap();

        challenger.observe_cap(&batch_stark_proof_target.ctl_zs_cap);

        let stark_alphas = challenger.get_n_challenges(&mut builder, inner_config.num_challenges);

        challenger.observe_cap(&batch_stark_proof_target.quotient_polys_cap);
        let stark_zeta""")]
R["rv6_openings"]=[(RV,"""    let batch_count = 3;
    let empty_fri_opening_target = FriOpeningsTarget {
        batches: (0..batch_count)
            .map(|_| FriOpeningBatchTarget { values: vec![] })
            .collect(),
    };
    let mut fri_openings_target = vec![empty_fri_opening_target; sorted_degree_bits.len()];

    for (i, d) in sorted_degree_bits.iter().enumerate() {
        all_kind!(
            |kind| if degree_bits[kind] == *d && !public_table_kinds.contains(&kind) {
                let openings = stark_proof_with_pis_target[kind]
                    .proof
                    .openings
                    .to_fri_openings(builder.zero());
                assert!(openings.batches.len() == batch_count);
                for j in 0..batch_count {
                    fri_openings_target[i].batches[j]
                        .values
                        .extend(openings.batches[j].values.clone());
                }
            }
        );
    }
""","""    let batch_count = 3;
    let mut fri_openings_target = Vec::new();
    for d in &sorted_degree_bits {
        let mut values = vec![vec![]; batch_count];
        all_kind!(|kind| {
            let in_group = degree_bits[kind] == *d && !public_table_kinds.contains(&kind);
            if in_group {
                let zero = builder.zero();
                let openings = stark_proof_with_pis_target[kind].proof.openings.to_fri_openings(zero);
                assert_eq!(openings.batches.len(), batch_count);
                for (mine, theirs) in values.iter_mut().zip(openings.batches) {
                    mine.extend(theirs.values);
                }
            }
        });
        fri_openings_target.push(FriOpeningsTarget {
            batches: values
                .into_iter()
                .map(|values| FriOpeningBatchTarget { values })
                .collect(),
        });
    }
""")]
R["rv6_pub"]=[(RV,"""    let table_targets = all_starks!(mozak_stark, |stark, kind| {
        let ctl_vars = CtlCheckVarsTarget::from_proof(
            kind,
            &stark_proof_with_pis_target[kind].proof,
            &mozak_stark.cross_table_lookups,
            &mozak_stark.public_sub_tables,
            &ctl_challenges,
        );

        let mut challenger = RecursiveChallenger::from_state(state);
        let challenges_target = stark_proof_with_pis_target[kind]
            .proof
            .get_challenges::<F, C>(&mut builder, &mut challenger, inner_config);
""","""    let table_targets = all_starks!(mozak_stark, |stark, kind| {
        let proof_target = &stark_proof_with_pis_target[kind].proof;
        let mut table_challenger = RecursiveChallenger::from_state(state);
        let challenges_target = proof_target.get_challenges::<F, C>(
            &mut builder,
            &mut table_challenger,
            inner_config,
        );

        let ctl_vars = CtlCheckVarsTarget::from_proof(
            kind,
            proof_target,
            &mozak_stark.cross_table_lookups,
            &mozak_stark.public_sub_tables,
            &ctl_challenges,
        );
""")]
