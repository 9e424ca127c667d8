S="circuits/src/"
CPU=S+"cpu/generation.rs"; ME=S+"memory/generation.rs"; MC=S+"memory/columns.rs"; SD=S+"storage_device/generation.rs"; UT=S+"utils.rs"; RE=S+"register/generation.rs"; TC=S+"tape_commitments/generation.rs"
P2=S+"poseidon2/generation.rs"; HW=S+"memory_halfword/generation.rs"
R={}
R["g8_mul"]=[(CPU,"""    let compute_sign_and_abs: fn(bool, u32) -> (bool, u32) = |is_signed, value| {
        let full_range = compute_full_range(is_signed, value);
        let is_negative = full_range.is_negative();
        let absolute_value = full_range.unsigned_abs() as u32;
        (is_negative, absolute_value)
    };
    let (is_op2_negative, op2_abs) =
        compute_sign_and_abs(row.inst.is_op2_signed.is_nonzero(), aux.op2);
    let (is_op1_negative, op1_abs) =
        compute_sign_and_abs(row.inst.is_op1_signed.is_nonzero(), aux.op1);

    // Determine product sign and absolute value.
    let mut product_sign = is_op1_negative ^ is_op2_negative;
    let op1_mul_op2_abs = u64::from(op1_abs) * u64::from(op2_abs);

    row.skip_check_product_sign = if op1_mul_op2_abs == 0 {
        product_sign = false;
        F::ONE
    } else {
        F::ZERO
    };

    row.product_sign = if product_sign { F::ONE } else { F::ZERO };
""","""    let op1 = compute_full_range(row.inst.is_op1_signed.is_nonzero(), aux.op1);
    let op2 = compute_full_range(row.inst.is_op2_signed.is_nonzero(), aux.op2);
    let op1_abs = op1.unsigned_abs() as u32;
    let op2_abs = op2.unsigned_abs() as u32;

    // Determine product sign and absolute value.
    let op1_mul_op2_abs = u64::from(op1_abs) * u64::from(op2_abs);
    let is_zero = op1_mul_op2_abs == 0;
    let product_sign = !is_zero && (op1 < 0) != (op2 < 0);

    row.skip_check_product_sign = F::from_bool(is_zero);
    row.product_sign = F::from_bool(product_sign);
"""),(CPU,"""        u64::MAX - op1_mul_op2_abs + 1
""","""        op1_mul_op2_abs.wrapping_neg()
"""),(CPU,"""    let low = (prod & 0xffff_ffff) as u32;
    let high = (prod >> 32) as u32;
    row""","""    let high = (prod >> 32) as u32;
    let low = prod as u32;
    row"""),(CPU,"""    let inv_helper_val = if product_sign {
        high
    } else {
        0xffff_ffff - high
    };
""","""    let inv_helper_val = if product_sign { high } else { !high };
""")]
R["g8_div"]=[(CPU,"""    if divisor_full_range == 0 {
        row.quotient_value""","""    row.op2_value_inv = from_u32::<F>(aux.op2).try_inverse().unwrap_or_default();
    if divisor_full_range == 0 {
        row.quotient_value"""),(CPU,"""        row.quotient_sign = if row.inst.is_op2_signed.is_nonzero() {
            F::ONE
        } else {
            F::ZERO
        };
""","""        row.quotient_sign = F::from_bool(row.inst.is_op2_signed.is_nonzero());
"""),(CPU,"""        row.quotient_sign = F::from_bool(quotient_full_range.is_negative());
        row.skip_check_quotient_sign = F::from_bool(quotient_full_range == 0);
        if dividend_full_range == i64::from(i32::MIN) && divisor_full_range == -1 {
            // Special case for dividend == -2^31, divisor == -1:
            // quotient_sign == 1 (quotient = -2^31).
            row.skip_check_quotient_sign = F::ONE;
            row.quotient_sign = F::ONE;
        }
""","""        // Special case for dividend == -2^31, divisor == -1:
        // quotient_sign == 1 (quotient = -2^31).
        let overflows = dividend_full_range == i64::from(i32::MIN) && divisor_full_range == -1;
        row.quotient_sign = F::from_bool(overflows || quotient_full_range.is_negative());
        row.skip_check_quotient_sign = F::from_bool(overflows || quotient_full_range == 0);
"""),(CPU,"""        row.remainder_sign = F::from_bool(remainder.is_negative());
    }
    row.op2_value_inv = from_u32::<F>(aux.op2).try_inverse().unwrap_or_default();
""","""        row.remainder_sign = F::from_bool(remainder < 0);
    }
""")]
R["g8_div_early"]=[(CPU,"""        row.remainder_sign = F::from_bool(dividend_full_range.is_negative());
        row.skip_check_quotient_sign = F::ONE;
    } else {
        let quotient_full_range = if matches!(inst.op, Op::SRA) {
            dividend_full_range.div_euclid(divisor_full_range)
        } else {
            dividend_full_range / divisor_full_range
        };
        row.quotient_value""","""        row.remainder_sign = F::from_bool(dividend_full_range.is_negative());
        row.skip_check_quotient_sign = F::ONE;
    } else {
        let quotient_full_range = match inst.op {
            Op::SRA => dividend_full_range.div_euclid(divisor_full_range),
            _ => dividend_full_range / divisor_full_range,
        };
        row.quotient_value""")]
R["g8_signs"]=[(CPU,"""    row.dst_sign_bit = F::from_bool(match inst.op {
        Op::LB => aux.dst_val >= 1 << 7,
        Op::LH => aux.dst_val >= 1 << 15,
        _ => false,
    });
""","""    let is_negative = match inst.op {
        Op::LB => aux.dst_val > 0x7F,
        Op::LH => aux.dst_val > 0x7FFF,
        _ => false,
    };
    row.dst_sign_bit = if is_negative { F::ONE } else { F::ZERO };
"""),(CPU,"""    row.op1_sign_bit = F::from_bool(op1_full_range < 0);
    row.op2_sign_bit = F::from_bool(op2_full_range < 0);

    row.less_than = F::from_bool(op1_full_range < op2_full_range);
    let abs_diff = op1_full_range.abs_diff(op2_full_range);
    row.abs_diff = F::from_noncanonical_u64(abs_diff);
""","""    row.op1_sign_bit = F::from_bool(op1_full_range.is_negative());
    row.op2_sign_bit = F::from_bool(op2_full_range.is_negative());

    let less_than = op2_full_range > op1_full_range;
    row.less_than = F::from_bool(less_than);
    row.abs_diff = F::from_noncanonical_u64((op1_full_range - op2_full_range).unsigned_abs());
""")]
R["g8_xor"]=[(CPU,"""    let a = match inst.op {
        Op::AND | Op::OR | Op::XOR | Op::SB | Op::SH => state.get_register_value(inst.args.rs1),
        Op::SRL | Op::SLL | Op::SRA => 0b1_1111,
        _ => 0,
    };
    let b = match inst.op {
        Op::AND | Op::OR | Op::XOR | Op::SRL | Op::SLL | Op::SRA => state
            .get_register_value(inst.args.rs2)
            .wrapping_add(inst.args.imm),
        Op::SB => 0x0000_00FF,
        Op::SH => 0x0000_FFFF,
        _ => 0,
    };
    XorView""","""    let rs1 = state.get_register_value(inst.args.rs1);
    let op2 = state
        .get_register_value(inst.args.rs2)
        .wrapping_add(inst.args.imm);
    let (a, b) = match inst.op {
        Op::AND | Op::OR | Op::XOR => (rs1, op2),
        Op::SRL | Op::SLL | Op::SRA => (31, op2),
        Op::SB => (rs1, u32::from(u8::MAX)),
        Op::SH => (rs1, u32::from(u16::MAX)),
        _ => (0, 0),
    };
    XorView""")]
R["g8_branch"]=[(CPU,"""    let signed_diff = signed_diff(row);
    row.cmp_diff_inv = signed_diff.try_inverse().unwrap_or_default();
    row.normalised_diff = F::from_bool(signed_diff.is_nonzero());
""","""    let difference = signed_diff(row);
    if difference.is_zero() {
        row.cmp_diff_inv = F::ZERO;
        row.normalised_diff = F::ZERO;
    } else {
        row.cmp_diff_inv = difference.inverse();
        row.normalised_diff = F::ONE;
    }
""")]
R["g8_memory"]=[(ME,"""    let read_only_addresses: HashSet<F> = memory_init_rows
        .iter()
        .filter(|row| row.filter.is_nonzero() && row.is_writable.is_zero())
        .map(|row| row.address)
        .collect();

    merged_trace.sort_by_key(key);
    let merged_trace: Vec<_> = merged_trace
        .into_iter()
        .map(|mem| Memory {
            is_writable: F::from_bool(!read_only_addresses.contains(&mem.addr)),
            ..mem
        })
        .collect();
""","""    merged_trace.sort_by_key(key);
    let mut read_only_addresses = HashSet::new();
    for row in memory_init_rows {
        if row.filter.is_nonzero() && row.is_writable.is_zero() {
            read_only_addresses.insert(row.address);
        }
    }
    for mem in &mut merged_trace {
        mem.is_writable = F::from_bool(!read_only_addresses.contains(&mem.addr));
    }
""")]
R["g8_memcols"]=[(MC,"""        if (val.ops.is_load + val.ops.is_store).is_zero() {
            vec![]
        } else {
            izip!(val.addrs, val.limbs)
                .map(|(addr, value)| Memory {
                    clk: val.clk,
                    addr,
                    value,
                    is_store: val.ops.is_store,
                    is_load: val.ops.is_load,
                    ..Default::default()
                })
                .collect()
        }
    }
}

impl<F: RichField> From<&FullWordMemory<F>> for Vec<Memory<F>> {
""","""        if (val.ops.is_load + val.ops.is_store).is_zero() {
            return vec![];
        }
        let byte = |i: usize| Memory {
            clk: val.clk,
            addr: val.addrs[i],
            value: val.limbs[i],
            is_store: val.ops.is_store,
            is_load: val.ops.is_load,
            ..Default::default()
        };
        vec![byte(0), byte(1)]
    }
}

impl<F: RichField> From<&FullWordMemory<F>> for Vec<Memory<F>> {
"""),(MC,"""        row.filter.is_one().then(|| Memory {
            is_writable: row.is_writable,
            addr: row.address,
            is_init: F::ONE,
            value: row.value,
            clk: F::ONE,
            ..Default::default()
        })
""","""        if !row.filter.is_one() {
            return None;
        }
        let mut memory = Memory {
            addr: row.address,
            value: row.value,
            clk: F::ONE,
            ..Default::default()
        };
        memory.is_init = F::ONE;
        memory.is_writable = row.is_writable;
        Some(memory)
""")]
R["g8_storage"]=[(SD,"""                    data.into_iter().enumerate().map(move |(i, local_value)| {
                        let local_address = addr.wrapping_add(u32::try_from(i).unwrap());
                        let local_size = len - i - 1;
                        StorageDevice {
                            clk: get_memory_inst_clk(s),
                            addr: F::from_canonical_u32(local_address),
                            size: F::from_canonical_usize(local_size),
                            value: F::from_canonical_u8(local_value),
                            ops: Ops {
                                is_storage_device: F::ZERO,
                                is_memory_store: is_storage_device_opcode(op),
                            },
                            is_lv_and_nv_are_memory_rows: F::from_bool(i + 1 != len),
                        }
                    })
""","""                    data.into_iter().zip(0_u32..).map(move |(local_value, i)| {
                        let left = len - usize::try_from(i).unwrap() - 1;
                        StorageDevice {
                            clk: get_memory_inst_clk(s),
                            addr: F::from_canonical_u32(addr.wrapping_add(i)),
                            size: F::from_canonical_usize(left),
                            value: F::from_canonical_u8(local_value),
                            ops: Ops {
                                is_memory_store: is_storage_device_opcode(op),
                                ..Ops::default()
                            },
                            is_lv_and_nv_are_memory_rows: F::from_bool(left != 0),
                        }
                    })
""")]
R["g8_utils"]=[(UT,"""    let len = trace.len().next_power_of_two().max(MIN_TRACE_LENGTH);
    pad_trace_with_default_to_len(trace, len)
""","""    pad_trace_with_row(trace, Row::default())
"""),(UT,"""    let len = trace.len().next_power_of_two().max(MIN_TRACE_LENGTH);
    trace.resize(len, trace.last().unwrap().clone());
    trace
}

#[must_use]
pub fn pad_trace_with_last_to_len""","""    let last = trace.last().unwrap().clone();
    let len = trace.len().max(MIN_TRACE_LENGTH).next_power_of_two();
    while trace.len() < len {
        trace.push(last.clone());
    }
    trace
}

#[must_use]
pub fn pad_trace_with_last_to_len"""),(UT,"pub fn pad_trace_with_last<Row: Default + Clone>(mut trace","pub fn pad_trace_with_last<Row: Clone + Default>(mut trace")]
R["g8_registers"]=[(RE,"""    let (zeros, general): (Vec<_>, Vec<_>) = trace.into_iter().partition(|row| row.addr.is_zero());
    let (zeros_read, zeros_write): (Vec<_>, Vec<_>) = zeros
        .into_iter()
        .partition(|row| row.ops.is_write.is_zero());

    let zeros_read = zeros_read.into_iter().map(RegisterZeroRead::from).collect();
    let zeros_write = zeros_write
        .into_iter()
        .map(RegisterZeroWrite::from)
        .collect();
""","""    let mut zeros_read = vec![];
    let mut zeros_write = vec![];
    let mut general = vec![];
    for row in trace {
        if row.addr.is_nonzero() {
            general.push(row);
        } else if row.ops.is_write.is_nonzero() {
            zeros_write.push(RegisterZeroWrite::from(row));
        } else {
            zeros_read.push(RegisterZeroRead::from(row));
        }
    }
"""),(RE,"""    let first_state = record
        .executed
        .first()
        .map_or(&record.last_state, |row| &row.state);
""","""    let first_state = match record.executed.first() {
        Some(row) => &row.state,
        None => &record.last_state,
    };
""")]
R["g8_regsort"]=[(RE,"""    trace.sort_by_key(|row| {
        (
            row.addr.to_noncanonical_u64(),
            row.augmented_clk().to_noncanonical_u64(),
        )
    });
    trace
""","""    trace.sort_by_cached_key(|row| {
        let clk = row.augmented_clk();
        (row.addr.to_canonical_u64(), clk.to_canonical_u64())
    });
    trace
""")]
R["g8_tape"]=[(TC,"""    let is_castlist_commitment_tape_row = F::from_bool(matches!(
        which_tape_commitment,
        StorageDeviceOpcode::StoreCastListCommitmentTape
    ));

    let is_event_commitment_tape_row = F::from_bool(matches!(
        which_tape_commitment,
        StorageDeviceOpcode::StoreEventsCommitmentTape
    ));

    let castlist_commitment_tape_multiplicity =
        is_castlist_commitment_tape_row * num_tape_commitment_ecalls;
    let event_commitment_tape_multiplicity =
        is_event_commitment_tape_row * num_tape_commitment_ecalls;
""","""    let is_castlist = which_tape_commitment == StorageDeviceOpcode::StoreCastListCommitmentTape;
    let is_event = which_tape_commitment == StorageDeviceOpcode::StoreEventsCommitmentTape;
    let is_castlist_commitment_tape_row = F::from_bool(is_castlist);
    let is_event_commitment_tape_row = F::from_bool(is_event);

    let only_if = |yes: bool| if yes { num_tape_commitment_ecalls } else { F::ZERO };
    let castlist_commitment_tape_multiplicity = only_if(is_castlist);
    let event_commitment_tape_multiplicity = only_if(is_event);
"""),(TC,"""        .filter(|row| {
            row.aux
                .storage_device_entry
                .as_ref()
                .is_some_and(|io| io.op == which_tape)
        })
        .count()
""","""        .filter_map(|row| row.aux.storage_device_entry.as_ref())
        .filter(|io| io.op == which_tape)
        .count()
""")]
R["g8_poseidon"]=[(P2,"""    for r in 0..(ROUNDS_F / 2) {
        <Field as Poseidon2>::constant_layer(&mut current_state, r);
        let mut s_box_input_qube = current_state;
        s_box_input_qube
            .iter_mut()
            .for_each(|x: &mut Field| *x = x_qube(*x));
        <Field as Poseidon2>::sbox_layer(&mut current_state);
        Field::matmul_external(&mut current_state);
        outputs.push(FullRoundOutput {
            state: current_state,
            s_box_input_qube,
        });
    }

    outputs
}
""","""    (0..(ROUNDS_F / 2))
        .map(|r| full_round(&mut current_state, r))
        .collect()
}

fn full_round<Field: RichField>(
    state: &mut [Field; STATE_SIZE],
    r: usize,
) -> FullRoundOutput<Field> {
    <Field as Poseidon2>::constant_layer(state, r);
    let s_box_input_qube = state.map(x_qube);
    <Field as Poseidon2>::sbox_layer(state);
    Field::matmul_external(state);
    FullRoundOutput {
        state: *state,
        s_box_input_qube,
    }
}
"""),(P2,"""    let mut outputs = Vec::new();
    assert_eq!(STATE_SIZE, WIDTH);
    let mut current_state = *preimage;
""","""    assert_eq!(STATE_SIZE, WIDTH);
    let mut current_state = *preimage;
"""),(P2,"        let s_box_input_qube_0 = current_state[0] * current_state[0] * current_state[0];\n","        let s_box_input_qube_0 = x_qube(current_state[0]);\n")]
R["g8_half"]=[(HW,"""                    limbs: [
                        F::from_canonical_u32(s.aux.dst_val & 0xFF),
                        F::from_canonical_u32((s.aux.dst_val >> 8) & 0xFF),
                    ],
""","""                    limbs: {
                        let [low, high, ..] = s.aux.dst_val.to_le_bytes();
                        [low, high].map(F::from_canonical_u8)
                    },
"""),(HW,"""                let mem_addr0 = s.aux.mem.unwrap_or_default().addr;
                let mem_addr1 = mem_addr0.wrapping_add(1);
                HalfWordMemory {
                    clk: get_memory_inst_clk(s),
                    addrs: [
                        F::from_canonical_u32(mem_addr0),
                        F::from_canonical_u32(mem_addr1),
                    ],
""","""                let addr = s.aux.mem.unwrap_or_default().addr;
                HalfWordMemory {
                    clk: get_memory_inst_clk(s),
                    addrs: [addr, addr.wrapping_add(1)].map(F::from_canonical_u32),
""")]
