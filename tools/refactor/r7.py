S="circuits/src/"
CPU=S+"cpu/generation.rs"; SK=S+"cpu_skeleton/generation.rs"; XO=S+"xor/generation.rs"; BS=S+"bitshift/generation.rs"; PR=S+"program/generation.rs"
ME=S+"memory/generation.rs"; FW=S+"memory_fullword/generation.rs"; ZI=S+"memory_zeroinit/generation.rs"; MI=S+"memoryinit/generation.rs"; SD=S+"storage_device/generation.rs"
SP=S+"poseidon2_sponge/generation.rs"; PO=S+"poseidon2_output_bytes/generation.rs"; RC=S+"rangecheck/generation.rs"; R8=S+"rangecheck_u8/generation.rs"; RE=S+"register/generation.rs"; UT=S+"utils.rs"
R={}
R["g7_cpu_skip"]=[(CPU,"""        {
            if let Op::ADD = inst.op {
                continue;
            }

            let op1_value = state.get_register_value(inst.args.rs1);
            let op2_value = state.get_register_value(inst.args.rs2);
            if op1_value < op2_value && Op::BLTU == inst.op {
                continue;
            }
        }
""","""        if has_own_table(state, inst) {
            continue;
        }
"""),(CPU,"""/// This is a wrapper to make the Expr mechanics work directly with a Field.
""","""/// Instructions that are handled by their own tables.
fn has_own_table<F: RichField>(state: &State<F>, inst: &Instruction) -> bool {
    match inst.op {
        Op::ADD => true,
        Op::BLTU => {
            state.get_register_value(inst.args.rs1) < state.get_register_value(inst.args.rs2)
        }
        _ => false,
    }
}

/// This is a wrapper to make the Expr mechanics work directly with a Field.
""")]
R["g7_cpu_selectors"]=[(CPU,"""                is_private_tape: F::from_bool(matches!(
                    (inst.op, io.op),
                    (Op::ECALL, StorageDeviceOpcode::StorePrivate)
                )),
                is_public_tape: F::from_bool(matches!(
                    (inst.op, io.op),
                    (Op::ECALL, StorageDeviceOpcode::StorePublic)
                )),
""","""                is_private_tape: stores_to(StorageDeviceOpcode::StorePrivate),
                is_public_tape: stores_to(StorageDeviceOpcode::StorePublic),
"""),(CPU,"""        let mut row = CpuState {
            clk: F""","""        let stores_to = |tape: StorageDeviceOpcode| {
            F::from_bool(inst.op == Op::ECALL && io.op == tape)
        };
        let mut row = CpuState {
            clk: F"""),(CPU,"""        generate_shift_row(&mut row, aux);
        generate_mul_row(&mut row, aux);
        generate_div_row(&mut row, inst, aux);
""","""        generate_mul_row(&mut row, aux);
        generate_div_row(&mut row, inst, aux);
        generate_shift_row(&mut row, aux);
""")]
R["g7_shift"]=[(CPU,"""    let shift_amount = if shift_power == 0 {
        0
    } else {
        31_u32 - shift_power.leading_zeros()
    };
    row.bitshift = Bitshift {
        amount: shift_amount,
        multiplier: shift_power,
    }
    .map(from_u32);
""","""    let shift_amount = match shift_power {
        0 => 0,
        power => 31_u32 - power.leading_zeros(),
    };
    row.bitshift.amount = from_u32(shift_amount);
    row.bitshift.multiplier = from_u32(shift_power);
""")]
R["g7_bitshift"]=[(BS,"""    filter_shift_trace(cpu_trace).for_each(|amount| {
        multiplicities[usize::try_from(amount).expect("cast should succeed")] += 1;
    });
""","""    for amount in filter_shift_trace(cpu_trace) {
        let amount = usize::try_from(amount).expect("cast should succeed");
        multiplicities[amount] += 1;
    }
"""),(XO,"""        filter_xor_trace(cpu_trace)
            .map(|execution| XorColumnsView {
                is_execution_row: F::ONE,
                execution,
                limbs: execution.map(to_bits),
            })
            .collect_vec()
    })""","""        let mut rows = vec![];
        for execution in filter_xor_trace(cpu_trace) {
            let limbs = execution.map(to_bits);
            rows.push(XorColumnsView {
                is_execution_row: F::ONE,
                limbs,
                execution,
            });
        }
        rows
    })""")]
R["g7_skeleton"]=[(SK,"""    let last_row = &[Row {
        state: last_state.clone(),
        // `Aux` has auxiliary information about an executed CPU cycle.
        // The last state is the final state after the last execution.  Thus naturally it has no
        // associated auxiliary execution information. We use a dummy aux to make the row
        // generation work, but we could refactor to make this unnecessary.
        ..executed.last().unwrap().clone()
    }];

    let trace = chain![executed, last_row]
        .map(|Row { state, .. }| CpuSkeleton {
            clk: F::from_noncanonical_u64(state.clk),
            pc: F::from_canonical_u32(state.get_pc()),
            is_running: F::from_bool(!state.halted),
        })
        .collect();
""","""    let trace = chain![executed.iter().map(|row| &row.state), [last_state]]
        .map(|state| CpuSkeleton {
            clk: F::from_noncanonical_u64(state.clk),
            pc: F::from_canonical_u32(state.get_pc()),
            is_running: F::from_bool(!state.halted),
        })
        .collect();
""")]
R["g7_program"]=[(PR,"""        .filter_map(|(&pc, &inst)| {
            Some(ProgramRom::from(
                Instruction::from((pc, inst.ok()?)).map(F::from_canonical_u32),
            ))
        })
""","""        .filter_map(|(&pc, &inst)| inst.ok().map(|inst| (pc, inst)))
        .map(|located| Instruction::from(located).map(F::from_canonical_u32))
        .map(ProgramRom::from)
""")]
R["g7_mem_exec"]=[(ME,"""        .filter(|row| {
            row.aux.mem.is_some() && matches!(row.instruction.op, Op::LB | Op::LBU | Op::SB)
        })
        .map(|row| {
            let addr: F = get_memory_inst_addr(row);
            let op = row.instruction.op;
            Memory {
                addr,
                clk: get_memory_inst_clk(row),
                is_store: F::from_bool(matches!(op, Op::SB)),
                is_load: F::from_bool(matches!(op, Op::LB | Op::LBU)),
                is_init: F::ZERO,
                value: get_memory_raw_value(row),

                ..Default::default()
            }
        })
""","""        .filter(|row| row.aux.mem.is_some())
        .filter_map(|row| {
            let is_store = match row.instruction.op {
                Op::SB => true,
                Op::LB | Op::LBU => false,
                _ => return None,
            };
            Some(Memory {
                clk: get_memory_inst_clk(row),
                addr: get_memory_inst_addr(row),
                value: get_memory_raw_value(row),
                is_store: F::from_bool(is_store),
                is_load: F::from_bool(!is_store),
                is_init: F::ZERO,
                ..Default::default()
            })
        })
""")]
R["g7_fullword"]=[(FW,"""                let addrs = (0..4)
                    .map(|i| F::from_canonical_u32(base_addr.wrapping_add(i)))
                    .collect_vec()
                    .try_into()
                    .unwrap();
                let limbs = s
                    .aux
                    .dst_val
                    .to_le_bytes()
                    .into_iter()
                    .map(F::from_canonical_u8)
                    .collect_vec()
                    .try_into()
                    .unwrap();
""","""                let addrs =
                    [0, 1, 2, 3].map(|i| F::from_canonical_u32(base_addr.wrapping_add(i)));
                let limbs = s.aux.dst_val.to_le_bytes().map(F::from_canonical_u8);
"""),(FW,"""    trace.resize(
        trace.len().next_power_of_two().max(MIN_TRACE_LENGTH),
        FullWordMemory {
            // Some columns need special treatment..
            ops: Ops::default(),
            // .. and all other columns just have their last value duplicated.
            ..trace.last().copied().unwrap_or_default()
        },
    );
""","""    let mut dummy = trace.last().copied().unwrap_or_default();
    dummy.ops = Ops::default();
    let padded_len = trace.len().next_power_of_two().max(MIN_TRACE_LENGTH);
    trace.resize(padded_len, dummy);
""")]
R["g7_zeroinit"]=[(ZI,"""        .flat_map(|row| row.aux.mem_addresses_used.clone())
        // Our constraints""","""        .flat_map(|row| row.aux.mem_addresses_used.iter().copied())
        // Our constraints"""),(ZI,"""    let trace: Vec<_> = used_in_execution
        .difference(&init_in_program)
        .map(|&addr| MemoryZeroInit {
            addr: F::from_canonical_u32(addr),
            filter: F::ONE,
        })
        .collect();
""","""    let trace: Vec<_> = used_in_execution
        .into_iter()
        .filter(|addr| !init_in_program.contains(addr))
        .map(|addr| MemoryZeroInit {
            filter: F::ONE,
            addr: F::from_canonical_u32(addr),
        })
        .collect();
""")]
R["g7_meminit"]=[(MI,"""    [(F::ZERO, &program.ro_memory), (F::ONE, &program.rw_memory)]
        .iter()
        .flat_map(|&(is_writable, mem)| {
            mem.iter().map(move |(&addr, &value)| MemoryInit {
                filter: F::ONE,
                is_writable,
                address: F::from_canonical_u32(addr),
                value: F::from_canonical_u8(value),
            })
        })
        .collect_vec()
""","""    let region = |is_writable: F, mem: &Data| {
        mem.iter()
            .map(|(&addr, &value)| MemoryInit {
                is_writable,
                address: F::from_canonical_u32(addr),
                filter: F::ONE,
                value: F::from_canonical_u8(value),
            })
            .collect_vec()
    };
    let mut rows = region(F::ZERO, &program.ro_memory);
    rows.extend(region(F::ONE, &program.rw_memory));
    rows
"""),(MI,"use mozak_runner::elf::Program;","use mozak_runner::elf::{Data, Program};"),(MI,"""    let mut memory_inits: Vec<MemoryInit<F>> = chain! {
        elf_memory_init(program),
    }
    .collect();

    memory_inits.sort_by_key(|init| init.address.to_canonical_u64());

    let trace""","""    let memory_inits: Vec<MemoryInit<F>> = elf_memory_init(program)
        .into_iter()
        .sorted_by_key(|init| init.address.to_canonical_u64())
        .collect();

    let trace"""),(MI,"use itertools::{chain, Itertools};","use itertools::Itertools;")]
R["g7_storage_filter"]=[(SD,"""    step_rows.iter().filter(move |row| {
        (Some(which_tape) == row.aux.storage_device_entry.as_ref().map(|io| io.op))
            && matches!(row.instruction.op, Op::ECALL,)
    })
""","""    step_rows
        .iter()
        .filter(|row| row.instruction.op == Op::ECALL)
        .filter(move |row| match &row.aux.storage_device_entry {
            Some(io) => io.op == which_tape,
            None => false,
        })
""")]
R["g7_sponge"]=[(SP,"""    for i in 0..unroll_count {
        let ops: Ops<F> = Ops {
            is_init_permute: F::from_bool(i == 0),
            is_permute: F::from_bool(i != 0),
        };
        let sponge_datum = poseidon2
            .sponge_data
            .get(i as usize)
            .expect("unroll_count not consistent with number of permutations");
""","""    for (i, sponge_datum) in poseidon2.sponge_data.iter().enumerate() {
        let is_first = i == 0;
        let ops: Ops<F> = Ops {
            is_init_permute: F::from_bool(is_first),
            is_permute: F::from_bool(!is_first),
        };
"""),(SP,"""    let unroll_count = u32::try_from(poseidon2.sponge_data.len()).expect("too many rows");

""",""),(SP,"""        filter(step_rows)
            .map(|s| unroll_sponge_data(s))
            .collect_vec()
            .into_iter()
            .flatten()
            .collect::<Vec<Poseidon2Sponge<F>>>(),
""","""        filter(step_rows).flat_map(unroll_sponge_data).collect(),
"""),(SP,"use itertools::Itertools;\n","")]
R["g7_rangecheck"]=[(RC,"""            .filter_map(|(prev_row, row)| {
                let mult = looking_table.filter_column.eval(prev_row, row);
                mult.is_nonzero().then_some((
                    column.eval(prev_row, row).to_canonical(),
                    looking_table.filter_column.eval(prev_row, row),
                ))
            })
            .collect()
""","""            .map(|(prev_row, row)| {
                (
                    column.eval(prev_row, row).to_canonical(),
                    looking_table.filter_column.eval(prev_row, row),
                )
            })
            .filter(|(_, mult)| mult.is_nonzero())
            .collect()
""")]
R["g7_rangecheck_loop"]=[(RC,"""        trace
            .iter()
            .circular_tuple_windows()
            .filter_map(|(prev_row, row)| {
                let mult = looking_table.filter_column.eval(prev_row, row);
                mult.is_nonzero().then_some((
                    column.eval(prev_row, row).to_canonical(),
                    looking_table.filter_column.eval(prev_row, row),
                ))
            })
            .collect()
""","""        let mut looked_up = vec![];
        for (prev_row, row) in trace.iter().circular_tuple_windows() {
            let mult = looking_table.filter_column.eval(prev_row, row);
            if mult.is_nonzero() {
                looked_up.push((column.eval(prev_row, row).to_canonical(), mult));
            }
        }
        looked_up
"""),(RE,"""    let values: Vec<_> = extract_raw(trace, looking_table);
    values
        .into_iter()
        .map(|value| {
            let RegisterCtl {
                addr,
                value,
                clk,
                op,
            } = value.into_iter().collect();
            let ops = Ops::from(op);
            Register {
                addr,
                value,
                clk,
                ops,
            }
        })
        .collect()
""","""    let mut rows = vec![];
    for value in extract_raw(trace, looking_table) {
        let ctl: RegisterCtl<F> = value.into_iter().collect();
        rows.push(Register {
            clk: ctl.clk,
            ops: Ops::from(ctl.op),
            addr: ctl.addr,
            value: ctl.value,
        });
    }
    rows
""")]
R["g7_u8"]=[(R8,"""        .chain((0..=u8::MAX).map(|v| (F::from_canonical_u8(v), F::ZERO)))
        .into_group_map()
        .into_iter()
        .sorted_by_key(|(value, _)| value.to_noncanonical_u64())
        .map(|(value, mults)| RangeCheckU8 {
            value,
            multiplicity: mults.into_iter().sum(),
        })
        .collect()
""","""        .chain((0..=u8::MAX).map(F::from_canonical_u8).map(|v| (v, F::ZERO)))
        .into_group_map()
        .into_iter()
        .map(|(value, mults)| RangeCheckU8 {
            multiplicity: mults.into_iter().sum(),
            value,
        })
        .sorted_by_key(|row| row.value.to_noncanonical_u64())
        .collect()
""")]
R["g7_mult"]=[(CPU,"""        .iter()
        .map(|&inst| ProgramMult {
            // We use `remove` instead of a plain `get` to deal with duplicates (from padding) in
            // the ROM.
            mult_in_cpu: F::from_canonical_usize(counts.remove(&inst.pc).unwrap_or_default()),
            rom_row: inst,
        })
        .collect()
""","""        .iter()
        .copied()
        .map(|rom_row| {
            // We use `remove` instead of a plain `get` to deal with duplicates (from padding) in
            // the ROM.
            let mult = counts.remove(&rom_row.pc).unwrap_or(0);
            ProgramMult {
                rom_row,
                mult_in_cpu: F::from_canonical_usize(mult),
            }
        })
        .collect()
""")]
