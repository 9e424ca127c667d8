# Behaviour-preserving edits of the trace generators, in further styles
B="circuits/src/"
CP=B+"cpu/generation.rs"; ME=B+"memory/generation.rs"; RE=B+"register/generation.rs"; RC=B+"rangecheck/generation.rs"
FW=B+"memory_fullword/generation.rs"; MI=B+"memoryinit/generation.rs"; ZI=B+"memory_zeroinit/generation.rs"; SK=B+"cpu_skeleton/generation.rs"; PR=B+"program/generation.rs"; GE=B+"generation.rs"
R={}
R["v1_pad_loop"]=[(CP,"""    let len = trace.len().next_power_of_two().max(MIN_TRACE_LENGTH);
    let padding = CpuState {""","""    let len = trace.len().max(MIN_TRACE_LENGTH).next_power_of_two();
    let padding = CpuState {"""),(CP,"""    trace.resize(len, padding);
    trace
""","""    let missing = len - trace.len();
    trace.extend(std::iter::repeat(padding).take(missing));
    trace
""")]
R["v2_ecall_match"]=[(CP,"""                is_private_tape: F::from_bool(matches!(
                    (inst.op, io.op),
                    (Op::ECALL, StorageDeviceOpcode::StorePrivate)
                )),
                is_public_tape: F::from_bool(matches!(
                    (inst.op, io.op),
                    (Op::ECALL, StorageDeviceOpcode::StorePublic)
                )),
""","""                is_private_tape: on_ecall(StorageDeviceOpcode::StorePrivate),
                is_public_tape: on_ecall(StorageDeviceOpcode::StorePublic),
"""),(CP,"""        let mut row = CpuState {
            clk:""","""        let on_ecall = |wanted: StorageDeviceOpcode| {
            if inst.op == Op::ECALL && io.op == wanted {
                F::ONE
            } else {
                F::ZERO
            }
        };
        let mut row = CpuState {
            clk:""")]
R["v3_skip_helper"]=[(CP,"""            if let Op::ADD = inst.op {
                continue;
            }

            let op1_value = state.get_register_value(inst.args.rs1);
            let op2_value = state.get_register_value(inst.args.rs2);
            if op1_value < op2_value && Op::BLTU == inst.op {
                continue;
            }
""","""            let has_own_table = match inst.op {
                Op::ADD => true,
                Op::BLTU =>
                    state.get_register_value(inst.args.rs2)
                        > state.get_register_value(inst.args.rs1),
                _ => false,
            };
            if has_own_table {
                continue;
            }
""")]
R["v4_mul_prod"]=[(CP,"""    let prod = if product_sign {
        u64::MAX - op1_mul_op2_abs + 1
    } else {
        op1_mul_op2_abs
    };
""","""    let prod = if product_sign {
        op1_mul_op2_abs.wrapping_neg()
    } else {
        op1_mul_op2_abs
    };
""")]
R["v5_shift"]=[(CP,"""    let shift_amount = if shift_power == 0 {
        0
    } else {
        31_u32 - shift_power.leading_zeros()
    };
""","""    let shift_amount = match shift_power {
        0 => 0,
        nonzero => 31 - nonzero.leading_zeros(),
    };
""")]
R["v6_div_early"]=[(CP,"""        if dividend_full_range == i64::from(i32::MIN) && divisor_full_range == -1 {
            // Special case for dividend == -2^31, divisor == -1:
            // quotient_sign == 1 (quotient = -2^31).
            row.skip_check_quotient_sign = F::ONE;
            row.quotient_sign = F::ONE;
        }
        let remainder =""","""        let overflows = (dividend_full_range, divisor_full_range) == (i64::from(i32::MIN), -1);
        if overflows {
            row.quotient_sign = F::ONE;
            row.skip_check_quotient_sign = F::ONE;
        }
        let remainder =""")]
R["v7_mem_filter"]=[(ME,"""    step_rows
        .iter()
        .filter(|row| {
            row.aux.mem.is_some() && matches!(row.instruction.op, Op::LB | Op::LBU | Op::SB)
        })
        .map(|row| {
            let addr: F = get_memory_inst_addr(row);
            let op = row.instruction.op;
            Memory {
                addr,
""","""    step_rows.iter().filter_map(|row| {
            row.aux.mem?;
            let op = row.instruction.op;
            if !matches!(op, Op::LB | Op::LBU | Op::SB) {
                return None;
            }
            let addr: F = get_memory_inst_addr(row);
            Some(Memory {
                addr,
"""),(ME,"""                value: get_memory_raw_value(row),

                ..Default::default()
            }
        })
""","""                value: get_memory_raw_value(row),

                ..Default::default()
            })
        })
""")]
R["v8_ro_loop"]=[(ME,"""    let read_only_addresses: HashSet<F> = memory_init_rows
        .iter()
        .filter(|row| row.filter.is_nonzero() && row.is_writable.is_zero())
        .map(|row| row.address)
        .collect();
""","""    let mut read_only_addresses: HashSet<F> = HashSet::new();
    for row in memory_init_rows {
        if row.is_writable.is_zero() && !row.filter.is_zero() {
            read_only_addresses.insert(row.address);
        }
    }
"""),(ME,"""    let merged_trace: Vec<_> = merged_trace
        .into_iter()
        .map(|mem| Memory {
            is_writable: F::from_bool(!read_only_addresses.contains(&mem.addr)),
            ..mem
        })
        .collect();
""","""    for mem in &mut merged_trace {
        mem.is_writable = if read_only_addresses.contains(&mem.addr) {
            F::ZERO
        } else {
            F::ONE
        };
    }
""")]
R["v9_tapes"]=[(ME,"""        transform_storage(private_tape_rows),
        transform_storage(public_tape_rows),
        transform_storage(call_tape_rows),
        transform_storage(event_tape_rows),
        transform_storage(events_commitment_tape_rows),
        transform_storage(castlist_commitment_tape_rows),
        transform_storage(self_prog_id_tape_rows),
        transform""","""        [
            private_tape_rows,
            public_tape_rows,
            call_tape_rows,
            event_tape_rows,
            events_commitment_tape_rows,
            castlist_commitment_tape_rows,
            self_prog_id_tape_rows,
        ]
        .into_iter()
        .flat_map(transform_storage),
        transform""")]
R["v10_sort"]=[(ME,"    merged_trace.sort_by_key(key);\n","    merged_trace.sort_by(|left, right| key(left).cmp(&key(right)));\n")]
R["v11_extract"]=[(RE,"""    let values: Vec<_> = extract_raw(trace, looking_table);
    values
        .into_iter()
        .map(|value| {
            let RegisterCtl {
                addr,
                value,
                clk,
                op,
            } = value.into_iter().collect();
            let ops = Ops::from(op);
            Register {
                addr,
                value,
                clk,
                ops,
            }
        })
        .collect()
""","""    let mut rows = Vec::new();
    for row in extract_raw(trace, looking_table) {
        let ctl: RegisterCtl<F> = row.into_iter().collect();
        rows.push(Register {
            ops: ctl.op.into(),
            clk: ctl.clk,
            value: ctl.value,
            addr: ctl.addr,
        });
    }
    rows
""")]
R["v12_sort_reg"]=[(RE,"""    trace.sort_by_key(|row| {
        (
            row.addr.to_noncanonical_u64(),
            row.augmented_clk().to_noncanonical_u64(),
        )
    });
    trace
""","""    let position = |row: &Register<F>| {
        let clk = row.augmented_clk();
        (row.addr.to_noncanonical_u64(), clk.to_noncanonical_u64())
    };
    trace.sort_by(|a, b| position(a).cmp(&position(b)));
    trace
""")]
R["v13_partition"]=[(RE,"""    let (zeros_read, zeros_write): (Vec<_>, Vec<_>) = zeros
        .into_iter()
        .partition(|row| row.ops.is_write.is_zero());

    let zeros_read = zeros_read.into_iter().map(RegisterZeroRead::from).collect();
    let zeros_write = zeros_write
        .into_iter()
        .map(RegisterZeroWrite::from)
        .collect();
""","""    let mut zeros_read = vec![];
    let mut zeros_write = vec![];
    for row in zeros {
        if row.ops.is_write.is_nonzero() {
            zeros_write.push(RegisterZeroWrite::from(row));
        } else {
            zeros_read.push(RegisterZeroRead::from(row));
        }
    }
""")]
R["v14_mult"]=[(RC,"""            .filter_map(|(prev_row, row)| {
                let mult = looking_table.filter_column.eval(prev_row, row);
                mult.is_nonzero().then_some((
                    column.eval(prev_row, row).to_canonical(),
                    looking_table.filter_column.eval(prev_row, row),
                ))
            })
            .collect()
""","""            .map(|(prev_row, row)| (looking_table.filter_column.eval(prev_row, row), prev_row, row))
            .filter(|(mult, ..)| mult.is_nonzero())
            .map(|(mult, prev_row, row)| (column.eval(prev_row, row).to_canonical(), mult))
            .collect()
""")]
R["v15_fullword"]=[(FW,"""                let addrs = (0..4)
                    .map(|i| F::from_canonical_u32(base_addr.wrapping_add(i)))
                    .collect_vec()
                    .try_into()
                    .unwrap();
                let limbs = s
                    .aux
                    .dst_val
                    .to_le_bytes()
                    .into_iter()
                    .map(F::from_canonical_u8)
                    .collect_vec()
                    .try_into()
                    .unwrap();
""","""                let addrs = [0_u32, 1, 2, 3]
                    .map(|i| F::from_canonical_u32(base_addr.wrapping_add(i)));
                let limbs = s.aux.dst_val.to_le_bytes().map(F::from_canonical_u8);
""")]
R["v16_meminit"]=[(MI,"""    [(F::ZERO, &program.ro_memory), (F::ONE, &program.rw_memory)]
        .iter()
        .flat_map(|&(is_writable, mem)| {
            mem.iter().map(move |(&addr, &value)| MemoryInit {
                filter: F::ONE,
                is_writable,
                address: F::from_canonical_u32(addr),
                value: F::from_canonical_u8(value),
            })
        })
        .collect_vec()
""","""    let row = |is_writable: bool, addr: u32, value: u8| MemoryInit {
        filter: F::ONE,
        is_writable: F::from_bool(is_writable),
        address: F::from_canonical_u32(addr),
        value: F::from_canonical_u8(value),
    };
    let read_only = program.ro_memory.iter().map(|(a, v)| row(false, *a, *v));
    let writable = program.rw_memory.iter().map(|(a, v)| row(true, *a, *v));
    read_only.chain(writable).collect()
""")]
R["v17_zero"]=[(ZI,"""    let trace: Vec<_> = used_in_execution
        .difference(&init_in_program)
        .map(|&addr| MemoryZeroInit {
            addr: F::from_canonical_u32(addr),
            filter: F::ONE,
        })
        .collect();
""","""    let trace: Vec<_> = used_in_execution
        .into_iter()
        .filter(|addr| !init_in_program.contains(addr))
        .map(|addr| MemoryZeroInit {
            filter: F::ONE,
            addr: F::from_canonical_u32(addr),
        })
        .collect();
""")]
R["v18_used"]=[(ZI,"""        .flat_map(|row| row.aux.mem_addresses_used.clone())
""","""        .flat_map(|row| row.aux.mem_addresses_used.iter().copied())
""")]
R["v19_skel"]=[(SK,"""    let ExecutionRecord {
        executed,
        last_state,
    } = record;
""",""),(SK,"""    let last_row = &[Row {
        state: last_state.clone(),
        // `Aux` has auxiliary information about an executed CPU cycle.
        // The last state is the final state after the last execution.  Thus naturally it has no
        // associated auxiliary execution information. We use a dummy aux to make the row
        // generation work, but we could refactor to make this unnecessary.
        ..executed.last().unwrap().clone()
    }];

    let trace = chain![executed, last_row]
        .map(|Row { state, .. }| CpuSkeleton {
""","""    let states = record
        .executed
        .iter()
        .map(|row| &row.state)
        .chain(std::iter::once(&record.last_state));

    let trace = states
        .map(|state| CpuSkeleton {
""")]
R["v20_rom"]=[(PR,"""        .filter_map(|(&pc, &inst)| {
            Some(ProgramRom::from(
                Instruction::from((pc, inst.ok()?)).map(F::from_canonical_u32),
            ))
        })
        .collect::<Vec<_>>();

    roms.sort_by_key(|entry| entry.pc.to_canonical_u64());
""","""        .filter_map(|(&pc, &inst)| inst.ok().map(|inst| (pc, inst)))
        .map(Instruction::from)
        .map(|inst| ProgramRom::from(inst.map(F::from_canonical_u32)))
        .collect::<Vec<_>>();

    roms.sort_unstable_by_key(|entry| entry.pc.to_canonical_u64());
""")]
R["v21_gen"]=[(GE,"    let add_trace = ops::add::generate(record);\n    let blt_trace = ops::blt_taken::generate(record);\n",""),
 (GE,"trace_rows_to_poly_values(add_trace)","trace_rows_to_poly_values(add_rows)"),(GE,"trace_rows_to_poly_values(blt_trace)","trace_rows_to_poly_values(blt_taken_rows)")]
R["v22_asc"]=[(GE,"""    izip![(0..).map(F::from_canonical_u64), cs]
        .map(|(i, x)| i * x)
        .sum()
""","""    let mut total = F::ZERO;
    for (i, x) in cs.into_iter().enumerate() {
        total += F::from_canonical_usize(i) * x;
    }
    total
""")]
