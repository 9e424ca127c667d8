# Behaviour-preserving edits of the command-line tool
C="cli/src/main.rs"; RU="cli/src/runner.rs"; TU="cli/src/trace_utils.rs"
R={}
R["c1_read_all"]=[(C,"""            let mut buffer: Vec<u8> = vec![];
            proof.read_to_end(&mut buffer)?;
            let all_proof""","""            let buffer = read_all(&mut proof)?;
            let all_proof"""),(C,"""            let mut vk_buffer: Vec<u8> = vec![];
            verifier_key.read_to_end(&mut vk_buffer)?;
""","""            let vk_buffer = read_all(&mut verifier_key)?;
"""),(C,"""            let mut proof_buffer: Vec<u8> = vec![];
            proof.read_to_end(&mut proof_buffer)?;
""","""            let proof_buffer = read_all(&mut proof)?;
"""),(C,"""/// Run me eg like""","""fn read_all(input: &mut Input) -> Result<Vec<u8>> {
    let mut buffer = Vec::new();
    input.read_to_end(&mut buffer)?;
    Ok(buffer)
}

/// Run me eg like""")]
R["c2_cast_set"]=[(C,"""            let cast_list: Vec<_> = system_tape
                .call_tape
                .writer
                .clone()
                .into_iter()
                .flat_map(|CrossProgramCall { callee, caller, .. }| [callee, caller])
                .filter(|prog| !prog.is_null_program())
                .sorted()
                .dedup()
                .collect();
""","""            let mut cast = std::collections::BTreeSet::new();
            for CrossProgramCall { callee, caller, .. } in &system_tape.call_tape.writer {
                for id in [callee, caller] {
                    if !id.is_null_program() {
                        cast.insert(*id);
                    }
                }
            }
            let cast_list: Vec<_> = cast.into_iter().collect();
""")]
R["c3_cap_helper"]=[(C,"""                    let trace = generate_call_tape_trace(&record.executed);
                    let poly_values = trace_rows_to_poly_values(trace);

                    let trace_commitment = PolynomialBatch::<F, C, D>::from_values(
                        poly_values,
                        rate_bits,
                        false, // blinding
                        cap_height,
                        &mut TimingTree::default(),
                        None, // fft_root_table
                    );

                    call_tape_hash = Some(trace_commitment.merkle_tree.cap);
""","""                    let trace = generate_call_tape_trace(&record.executed);
                    call_tape_hash = Some(commit(trace_rows_to_poly_values(trace), rate_bits, cap_height).merkle_tree.cap);
"""),(C,"""            let trace = generate_program_rom_trace(&program);
            let trace_poly_values = trace_rows_to_poly_values(trace);
            let rate_bits = config.fri_config.rate_bits;
            let cap_height = config.fri_config.cap_height;
            let trace_commitment = PolynomialBatch::<F, C, D>::from_values(
                trace_poly_values,
                rate_bits,
                false, // blinding
                cap_height,
                &mut TimingTree::default(),
                None, // fft_root_table
            );
""","""            let trace = generate_program_rom_trace(&program);
            let trace_poly_values = trace_rows_to_poly_values(trace);
            let fri = &config.fri_config;
            let trace_commitment = commit(trace_poly_values, fri.rate_bits, fri.cap_height);
"""),(C,"""/// Run me eg like""","""fn commit(
    columns: Vec<plonky2::field::polynomial::PolynomialValues<F>>,
    rate_bits: usize,
    cap_height: usize,
) -> PolynomialBatch<F, C, D> {
    PolynomialBatch::<F, C, D>::from_values(
        columns,
        rate_bits,
        false, // blinding
        cap_height,
        &mut TimingTree::default(),
        None, // fft_root_table
    )
}

/// Run me eg like""")]
R["c4_ensure"]=[(C,"""            assert_eq!(
                public_inputs.program_hash_as_bytes.to_vec(),
                ProgramIdentifier::from(program_id)
                    .inner()
                    .into_iter()
                    .map(F::from_canonical_u8)
                    .collect_vec()
            );
            println!("Public""","""            let expected = ProgramIdentifier::from(program_id).inner();
            let proven = &public_inputs.program_hash_as_bytes;
            for (byte, element) in expected.iter().zip(proven.iter()) {
                anyhow::ensure!(
                    F::from_canonical_u8(*byte) == *element,
                    "the proof is of another program"
                );
            }
            println!("Public""")]
R["c5_bytes"]=[(C,"""            let serialized = serde_json::to_string(&all_proof).unwrap();
            proof.write_all(serialized.as_bytes())?;
""","""            let serialized = serde_json::to_vec(&all_proof)?;
            proof.write_all(&serialized)?;
            proof.flush()?;
""")]
R["c6_match"]=[(C,"""            let mut batch_all_proof: Option<BatchProof<F, C, D>> = None;
            let mut batch_degree_bits: Option<TableKindArray<usize>> = None;
            if let Some(mut batch_proof_output) = batch_proof {""","""            let mut batch: Option<(BatchProof<F, C, D>, TableKindArray<usize>)> = None;
            if let Some(mut batch_proof_output) = batch_proof {"""),(C,"""                batch_all_proof = Some(proof);
                batch_degree_bits = Some(degree_bits);
                let serialized = serde_json::to_string(&batch_all_proof).unwrap();
                batch_proof_output.write_all(serialized.as_bytes())?;
""","""                let serialized = serde_json::to_string(&proof).unwrap();
                batch_proof_output.write_all(serialized.as_bytes())?;
                batch = Some((proof, degree_bits));
"""),(C,"""                    if let Some(batch_proof) = batch_all_proof {
                        let degree_bits = batch_degree_bits.unwrap();
""","""                    if let Some((batch_proof, degree_bits)) = batch {
""")]
R["c7_verify_fn"]=[(C,"""        Command::Verify { mut proof } => {
            let stark = S::default();
            let mut buffer: Vec<u8> = vec![];
            proof.read_to_end(&mut buffer)?;
            let all_proof: AllProof<F, C, D> = serde_json::from_slice(&buffer)?;
            verify_proof(&stark, all_proof, &config)?;
            println!("proof verified successfully!");
        }""","""        Command::Verify { proof } => verify_file(proof, &config)?,"""),(C,"""/// Run me eg like""","""fn verify_file(mut proof: Input, config: &StarkConfig) -> Result<()> {
    let mut buffer: Vec<u8> = vec![];
    proof.read_to_end(&mut buffer)?;
    let all_proof: AllProof<F, C, D> = serde_json::from_slice(&buffer)?;
    if let Err(e) = verify_proof(&S::default(), all_proof, config) {
        return Err(e);
    }
    println!("proof verified successfully!");
    Ok(())
}

/// Run me eg like""")]
R["c8_order"]=[(C,"""                cast_list
                    .iter()
                    .filter_map(|id: &ProgramIdentifier| {
                        mapping.get(id).map(|path| (*id, curr_dir.join(path)))
                    })
                    .sorted_by_key(|(id, _)| id != &entrypoint_program_id)
                    .collect()
""","""                let mut found = Vec::new();
                let mut rest = Vec::new();
                for id in cast_list {
                    let Some(path) = mapping.get(id) else {
                        continue;
                    };
                    let entry = (*id, curr_dir.join(path));
                    if *id == entrypoint_program_id {
                        found.push(entry);
                    } else {
                        rest.push(entry);
                    }
                }
                found.extend(rest);
                found
""")]
R["c9_cap_inline"]=[(TU,"""    let rate_bits = config.fri_config.rate_bits;
    let cap_height = config.fri_config.cap_height;
    let trace_commitment = PolynomialBatch::<F, C, D>::from_values(
        trace_poly_values,
        rate_bits,
        false,
        cap_height,
        &mut TimingTree::default(),
        None,
    );
    trace_commitment.merkle_tree.cap""","""    let starky::config::StarkConfig { fri_config, .. } = config;
    let mut timing = TimingTree::default();
    PolynomialBatch::<F, C, D>::from_values(
        trace_poly_values,
        fri_config.rate_bits,
        false,
        fri_config.cap_height,
        &mut timing,
        None,
    )
    .merkle_tree
    .cap"""),(RU,"""    let elf_memory_init_trace = generate_elf_memory_init_trace::<F>(program);
    let program_rom_trace = generate_program_rom_trace::<F>(program);

    let elf_memory_init_cap = get_trace_merkle_cap::<F, C, D, _>(elf_memory_init_trace, config);
    let program_cap = get_trace_merkle_cap::<F, C, D, _>(program_rom_trace, config);
""","""    let program_cap =
        get_trace_merkle_cap::<F, C, D, _>(generate_program_rom_trace::<F>(program), config);
    let elf_memory_init_cap =
        get_trace_merkle_cap::<F, C, D, _>(generate_elf_memory_init_trace::<F>(program), config);
""")]
R["c10_state"]=[(C,"""            let state: State<F> = State::new(program.clone(), raw_tapes);
            step(&program, state)?;
        }""","""            let state: State<F> = State::new(program.clone(), raw_tapes);
            let record = step(&program, state)?;
            debug!("ran {} steps", record.executed.len());
        }"""),(C,"""            let stark = if cli.debug {
                MozakStark::default_debug()
            } else {
                MozakStark::default()
            };""","""            let stark = match cli.debug {
                true => MozakStark::default_debug(),
                false => MozakStark::default(),
            };""")]
