# Behaviour-preserving edits of the runner in other styles
V="runner/src/vm.rs"; S="runner/src/state.rs"; E="runner/src/ecall.rs"; P="runner/src/poseidon2.rs"; L="runner/src/elf.rs"; C="runner/src/code.rs"; D="runner/src/decode.rs"
R={}
R["q1_stepfn_loop"]=[(V,"""    let mut executed = vec![];
    while !last_state.has_halted() {
        let (aux, instruction, new_state) = last_state.clone().execute_instruction(program)?;
        executed.push(Row {
            state: last_state,
            instruction,
            aux,
        });
        log::trace!("clk: {:?}, {:?}", new_state.clk, instruction);
        last_state = new_state;
""","""    let mut executed = Vec::new();
    loop {
        if last_state.has_halted() {
            break;
        }
        let before = last_state.clone();
        let (aux, instruction, after) = last_state.execute_instruction(program)?;
        log::trace!("clk: {:?}, {:?}", after.clk, instruction);
        executed.push(Row {
            state: before,
            instruction,
            aux,
        });
        last_state = after;
""")]
R["q2_replace"]=[(V,"""        executed.push(Row {
            state: last_state,
            instruction,
            aux,
        });
        log::trace!("clk: {:?}, {:?}", new_state.clk, instruction);
        last_state = new_state;
""","""        log::trace!("clk: {:?}, {:?}", new_state.clk, instruction);
        let state = std::mem::replace(&mut last_state, new_state);
        executed.push(Row {
            state,
            instruction,
            aux,
        });
""")]
R["q3_rop_fn"]=[(V,"""        macro_rules! rop {
            ($op: expr) => {
                self.register_op(&inst.args, $op)
            };
        }
""",""),(V,"""            Op::ADD => rop!(u32::wrapping_add),""","""            Op::ADD | Op::SLL | Op::SRL | Op::SRA | Op::SLT | Op::SLTU | Op::AND | Op::OR | Op::XOR | Op::SUB | Op::MUL | Op::MULH | Op::MULHU | Op::MULHSU | Op::DIV | Op::DIVU | Op::REM | Op::REMU => self.register_op(&inst.args, alu(inst.op)),"""),
(V,"""            // Only use lower 5 bits of rs2 or imm
            Op::SLL => rop!(|a, b| a << (b & 0b1_1111)),
            // Only use lower 5 bits of rs2 or imm
            Op::SRL => rop!(|a, b| a >> (b & 0b1_1111)),
            // Only use lower 5 bits of rs2 or imm
            Op::SRA => rop!(|a, b| (a as i32 >> (b & 0b1_1111) as i32) as u32),
            Op::SLT => rop!(|a, b| u32::from((a as i32) < (b as i32))),
            Op::SLTU => rop!(|a, b| u32::from(a < b)),
            Op::AND => rop!(core::ops::BitAnd::bitand),
            Op::OR => rop!(core::ops::BitOr::bitor),
            Op::XOR => rop!(core::ops::BitXor::bitxor),
            Op::SUB => rop!(u32::wrapping_sub),

""",""),(V,"""            Op::MUL => rop!(u32::wrapping_mul),
            Op::MULH => rop!(mulh),
            Op::MULHU => rop!(mulhu),
            Op::MULHSU => rop!(mulhsu),
            Op::DIV => rop!(div),
            Op::DIVU => rop!(divu),
            Op::REM => rop!(rem),
            Op::REMU => rop!(remu),
""",""),(V,"""impl<F: RichField> State<F> {
    #[must_use]
    pub fn jalr(""","""/// The function an arithmetic instruction computes
#[allow(clippy::cast_sign_loss, clippy::cast_possible_wrap)]
fn alu(op: Op) -> fn(u32, u32) -> u32 {
    match op {
        Op::ADD => u32::wrapping_add,
        Op::SUB => u32::wrapping_sub,
        Op::SLL => |a, b| a.wrapping_shl(b),
        Op::SRL => |a, b| a.wrapping_shr(b),
        Op::SRA => |a, b| (a as i32).wrapping_shr(b) as u32,
        Op::SLT => |a, b| ((a as i32) < (b as i32)).into(),
        Op::SLTU => |a, b| (a < b).into(),
        Op::AND => |a, b| a & b,
        Op::OR => |a, b| a | b,
        Op::XOR => |a, b| a ^ b,
        Op::MUL => u32::wrapping_mul,
        Op::MULH => mulh,
        Op::MULHU => mulhu,
        Op::MULHSU => mulhsu,
        Op::DIV => div,
        Op::DIVU => divu,
        Op::REM => rem,
        Op::REMU => remu,
        _ => unreachable!("not an arithmetic instruction"),
    }
}

impl<F: RichField> State<F> {
    #[must_use]
    pub fn jalr(""")]
R["q4_checked_div"]=[(V,"""    match (a as i32, b as i32) {
        (_, 0) => 0xFFFF_FFFF,
        (a, b) => a.overflowing_div(b).0 as u32,
    }""","""    let (a, b) = (a as i32, b as i32);
    if b == 0 {
        return u32::MAX;
    }
    a.wrapping_div(b) as u32"""),(V,"""    match (a, b) {
        (_, 0) => 0xFFFF_FFFF,
        (a, b) => a / b,
    }""","""    a.checked_div(b).unwrap_or(u32::MAX)"""),(V,"""    (match (a as i32, b as i32) {
        (a, 0) => a,
        // overflow when -2^31 / -1
        (-0x8000_0000, -1) => 0,
        (a, b) => a % b,
    }) as u32""","""    if b == 0 {
        a
    } else {
        (a as i32).wrapping_rem(b as i32) as u32
    }"""),(V,"""    match (a, b) {
        (a, 0) => a,
        (a, b) => a % b,
    }""","""    a.checked_rem(b).unwrap_or(a)""")]
R["q5_loads_slices"]=[(V,"""pub fn lhu_raw(mem: &[u8; 4]) -> u32 { u16::from_le_bytes([mem[0], mem[1]]).into() }""","""pub fn lhu_raw(mem: &[u8; 4]) -> u32 {
    let [lo, hi, ..] = *mem;
    u32::from(lo) | u32::from(hi) << 8
}"""),(V,"""    (raw, i32::from(raw as i16) as u32)""","""    (raw, ((raw << 16) as i32 >> 16) as u32)"""),(V,"""    (raw, i32::from(raw as i8) as u32)""","""    let signed = i64::from(raw as u8 as i8);
    (raw, signed as u32)""")]
R["q6_store_tryfold"]=[(V,"""            (0..bytes)
                .map(|i| addr.wrapping_add(i))
                .zip(raw_value.to_le_bytes())
                .fold(self, |acc, (i, byte)| acc.store_u8(i, byte).unwrap())
                .bump_pc(),""","""            raw_value
                .to_le_bytes()
                .into_iter()
                .take(bytes as usize)
                .zip(0u32..)
                .try_fold(self, |acc, (byte, i)| {
                    acc.store_u8(addr.wrapping_add(i), byte)
                })
                .unwrap()
                .bump_pc(),""")]
R["q7_inst_let_else"]=[(V,"""        let inst = self
            .current_instruction(program)
            .ok_or(anyhow!("Can't find instruction."))?
            .map_err(|e| {
                anyhow!(
                    "Unknown instruction {:x} at address {:x}",
                    e.instruction,
                    e.pc
                )
            })?;
""","""        let Some(decoded) = self.current_instruction(program) else {
            return Err(anyhow!("Can't find instruction."));
        };
        let inst = match decoded {
            Ok(inst) => *inst,
            Err(e) => anyhow::bail!(
                "Unknown instruction {:x} at address {:x}",
                e.instruction,
                e.pc
            ),
        };
""")]
R["q8_op2_trait"]=[(V,"""        let op2 = if matches!(
            inst.op,
            Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU
        ) {
            rs2_raw
        } else if matches!(inst.op, Op::SRL | Op::SLL | Op::SRA) {
            1u32 << (rs2_raw.wrapping_add(inst.args.imm) & 0b1_1111)
        } else {
            rs2_raw.wrapping_add(inst.args.imm)
        };
""","""        let sum = rs2_raw.wrapping_add(inst.args.imm);
        let op2 = match OpClass::of(inst.op) {
            OpClass::Branch => rs2_raw,
            OpClass::Shift => 1u32.wrapping_shl(sum),
            OpClass::Other => sum,
        };
"""),(V,"""/// Each row corresponds to""","""enum OpClass {
    Branch,
    Shift,
    Other,
}

impl OpClass {
    const fn of(op: Op) -> Self {
        match op {
            Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU => Self::Branch,
            Op::SRL | Op::SLL | Op::SRA => Self::Shift,
            _ => Self::Other,
        }
    }
}

/// Each row corresponds to""")]
R["q9_aux_mut"]=[(V,"""        let (aux, state) = match inst.op {""","""        let (mut aux, state) = match inst.op {"""),(V,"""        Ok((
            Aux {
                new_pc: state.get_pc(),
                op1,
                op2,
                op2_raw: rs2_raw,
                ..aux
            },
            inst,
            state.bump_clock(),
        ))""","""        aux.new_pc = state.get_pc();
        (aux.op1, aux.op2, aux.op2_raw) = (op1, op2, rs2_raw);
        let state = state.bump_clock();
        Ok((aux, inst, state))""")]
R["q10_aux_ctor"]=[(S,"""impl<F: RichField> State<F> {
    #[must_use]
    pub fn halt(""","""impl<F: RichField> Aux<F> {
    fn with_result(dst_val: u32) -> Self {
        let mut aux = Self::default();
        aux.dst_val = dst_val;
        aux
    }
}

impl<F: RichField> State<F> {
    #[must_use]
    pub fn halt("""),(S,"""        (
            Aux {
                dst_val,
                ..Aux::default()
            },
            self.set_register_value(data.rd, dst_val).bump_pc(),
        )
    }

    #[must_use]
    /// # Panics
    ///
    /// Panics if conversion""","""        let aux = Aux::with_result(dst_val);
        (aux, self.set_register_value(data.rd, dst_val).bump_pc())
    }

    #[must_use]
    /// # Panics
    ///
    /// Panics if conversion""")]
R["q11_memload_fromfn"]=[(S,"""        let mut mem_addresses_used: Vec<u32> = (0..4).map(|i| addr.wrapping_add(i)).collect();

        let mem = mem_addresses_used
            .iter()
            .map(|&addr| self.load_u8(addr))
            .collect::<Vec<_>>()
            .try_into()
            .unwrap();

        mem_addresses_used.truncate(bytes as usize);
        let (raw_value, dst_val) = op(&mem);
""","""        let window = [0u32, 1, 2, 3].map(|i| addr.wrapping_add(i));
        let mem: [u8; 4] = core::array::from_fn(|i| self.load_u8(window[i]));
        let (raw_value, dst_val) = op(&mem);
        let mem_addresses_used = window[..bytes as usize].to_vec();
""")]
R["q12_load_u32_fold"]=[(S,"""        const WORD_SIZE: usize = 4;
        let mut bytes = [0_u8; WORD_SIZE];
        for (i, byte) in (0_u32..).zip(bytes.iter_mut()) {
            *byte = self.load_u8(addr.wrapping_add(i));
        }
        u32::from_le_bytes(bytes)""","""        (0..4u32)
            .rev()
            .map(|i| self.load_u8(addr.wrapping_add(i)))
            .fold(0u32, |word, byte| word << 8 | u32::from(byte))""")]
R["q13_branch_closure"]=[(S,"""        let op1 = self.get_register_value(data.rs1);
        let op2 = self.get_register_value(data.rs2);
        (
            Aux::default(),
            if op(op1, op2) {
                self.set_pc(data.imm)
            } else {
                self.bump_pc()
            },
        )""","""        let [op1, op2] = [data.rs1, data.rs2].map(|r| self.get_register_value(r));
        let target = match op(op1, op2) {
            true => data.imm,
            false => self.get_pc().wrapping_add(4),
        };
        (Aux::default(), self.set_pc(target))""")]
R["q14_setreg_getmut"]=[(S,"""        if index != 0 {
            self.registers[usize::from(index)] = value;
        }
        self""","""        match index {
            0 => {}
            i => self.registers[i as usize] = value,
        }
        self""")]
R["q15_store_guard"]=[(S,"""        if self.memory.is_read_only.contains(&addr) {
            Err(anyhow!(
                "cannot write to ro_memory: address - {:#0x}, value - {:#0x}",
                addr,
                value,
            ))
        } else {
            self.memory.data.insert(addr, value);
            Ok(self)
        }""","""        anyhow::ensure!(
            !self.memory.is_read_only.contains(&addr),
            "cannot write to ro_memory: address - {:#0x}, value - {:#0x}",
            addr,
            value,
        );
        let _previous = self.memory.data.insert(addr, value);
        Ok(self)""")]
R["q16_mem_entry_method"]=[(S,"""impl StateMemory {
""","""impl StateMemory {
    fn byte(&self, addr: u32) -> u8 {
        match self.data.get(&addr) {
            Some(&byte) => byte,
            None => 0,
        }
    }

"""),(S,"""self.memory.data.get(&addr).copied().unwrap_or_default()""","""self.memory.byte(addr)""")]
R["q17_new_union"]=[(S,"""        let ro: HashMap<u32, u8> = ro.flat_map(HashMap::into_iter).collect();
        let mut rw: HashMap<u32, u8> = rw.flat_map(HashMap::into_iter).collect();
        StateMemory {
            is_read_only: ro.keys().copied().collect(),
            data: {
                rw.extend(ro);
                rw
            },
        }""","""        let mut memory = StateMemory::default();
        for (addr, byte) in rw.flatten() {
            memory.data.insert(addr, byte);
        }
        for (addr, byte) in ro.flatten() {
            memory.data.insert(addr, byte);
            memory.is_read_only.insert(addr);
        }
        memory""")]
R["q18_state_new_from"]=[(S,"""        Self {
            pc,
            memory: StateMemory::new(once(ro_memory), once(rw_memory)),
            private_tape: StorageDeviceTape {
                data: raw_tapes.private_tape.into(),
                read_index: 0,
            },
            public_tape: StorageDeviceTape {
                data: raw_tapes.public_tape.into(),
                read_index: 0,
            },
            call_tape: StorageDeviceTape {
                data: raw_tapes.call_tape.into(),
                read_index: 0,
            },
            event_tape: StorageDeviceTape {
                data: raw_tapes.event_tape.into(),
                read_index: 0,
            },
            cast_list_commitment_tape""","""        let [private_tape, public_tape, call_tape, event_tape] = [
            raw_tapes.private_tape,
            raw_tapes.public_tape,
            raw_tapes.call_tape,
            raw_tapes.event_tape,
        ]
        .map(|bytes| StorageDeviceTape {
            data: Rc::from(bytes),
            ..Default::default()
        });
        Self {
            pc,
            memory: StateMemory::new(once(ro_memory), once(rw_memory)),
            private_tape,
            public_tape,
            call_tape,
            event_tape,
            cast_list_commitment_tape""")]
R["q19_ecall_tape_select"]=[(E,"""        let data = match op {
            StorageDeviceOpcode::StorePublic => read_bytes(
                &self.public_tape.data,
                &mut self.public_tape.read_index,
                num_bytes_requested as usize,
            ),
            StorageDeviceOpcode::StorePrivate => read_bytes(
                &self.private_tape.data,
                &mut self.private_tape.read_index,
                num_bytes_requested as usize,
            ),
            StorageDeviceOpcode::StoreCallTape => read_bytes(
                &self.call_tape.data,
                &mut self.call_tape.read_index,
                num_bytes_requested as usize,
            ),
            StorageDeviceOpcode::StoreEventTape => read_bytes(
                &self.event_tape.data,
                &mut self.event_tape.read_index,
                num_bytes_requested as usize,
            ),
            StorageDeviceOpcode::StoreEventsCommitmentTape => read_bytes(
                &self.events_commitment_tape.0,
                &mut 0,
                num_bytes_requested as usize,
            ),
            StorageDeviceOpcode::StoreCastListCommitmentTape => read_bytes(
                &self.cast_list_commitment_tape.0,
                &mut 0,
                num_bytes_requested as usize,
            ),
            StorageDeviceOpcode::StoreSelfProgIdTape => read_bytes(
                &self.self_prog_id_tape,
                &mut 0,
                num_bytes_requested as usize,
            ),
            StorageDeviceOpcode::None => panic!(),
        };
""","""        let n = num_bytes_requested as usize;
        let streamed = match op {
            StorageDeviceOpcode::StorePublic => Some(&mut self.public_tape),
            StorageDeviceOpcode::StorePrivate => Some(&mut self.private_tape),
            StorageDeviceOpcode::StoreCallTape => Some(&mut self.call_tape),
            StorageDeviceOpcode::StoreEventTape => Some(&mut self.event_tape),
            _ => None,
        };
        let data = if let Some(tape) = streamed {
            read_bytes(&tape.data, &mut tape.read_index, n)
        } else {
            let fixed = match op {
                StorageDeviceOpcode::StoreEventsCommitmentTape => &self.events_commitment_tape.0,
                StorageDeviceOpcode::StoreCastListCommitmentTape => {
                    &self.cast_list_commitment_tape.0
                }
                StorageDeviceOpcode::StoreSelfProgIdTape => &self.self_prog_id_tape,
                _ => unreachable!(),
            };
            fixed[..n.min(fixed.len())].to_vec()
        };
""")]
R["q20_ecall_write_loop"]=[(E,"""        let data_len = u32::try_from(data.len()).expect("cannot fit data.len() into u32");
        let mem_addresses_used: Vec<u32> = (0..data_len)
            .map(|i| buffer_start.wrapping_add(i))
            .collect();
""","""        let data_len = u32::try_from(data.len()).expect("cannot fit data.len() into u32");
        let mut mem_addresses_used = Vec::with_capacity(data.len());
        let mut state = self;
        let mut addr = buffer_start;
        for &byte in &data {
            mem_addresses_used.push(addr);
            state = state.store_u8(addr, byte).unwrap();
            addr = addr.wrapping_add(1);
        }
"""),(E,"""                    data: data.clone(),""","""                    data,"""),(E,"""            data.iter()
                .enumerate()
                .fold(self, |acc, (i, byte)| {
                    acc.store_u8(
                        buffer_start.wrapping_add(u32::try_from(i).expect("cannot fit i into u32")),
                        *byte,
                    )
                    .unwrap()
                })
                .bump_pc(),""","""            state.bump_pc(),""")]
R["q21_ecall_opcode_table"]=[(E,"""        match self.get_register_value(REG_A0) {
            ecall::HALT => self.ecall_halt(),
            ecall::PRIVATE_TAPE => self.ecall_read(StorageDeviceOpcode::StorePrivate),
            ecall::PUBLIC_TAPE => self.ecall_read(StorageDeviceOpcode::StorePublic),
            ecall::CALL_TAPE => self.ecall_read(StorageDeviceOpcode::StoreCallTape),
            ecall::EVENT_TAPE => self.ecall_read(StorageDeviceOpcode::StoreEventTape),
            ecall::EVENTS_COMMITMENT_TAPE =>
                self.ecall_read(StorageDeviceOpcode::StoreEventsCommitmentTape),
            ecall::CAST_LIST_COMMITMENT_TAPE =>
                self.ecall_read(StorageDeviceOpcode::StoreCastListCommitmentTape),
            ecall::SELF_PROG_ID_TAPE => self.ecall_read(StorageDeviceOpcode::StoreSelfProgIdTape),
            ecall::PANIC""","""        const TAPES: [(u32, StorageDeviceOpcode); 7] = [
            (ecall::PRIVATE_TAPE, StorageDeviceOpcode::StorePrivate),
            (ecall::PUBLIC_TAPE, StorageDeviceOpcode::StorePublic),
            (ecall::CALL_TAPE, StorageDeviceOpcode::StoreCallTape),
            (ecall::EVENT_TAPE, StorageDeviceOpcode::StoreEventTape),
            (
                ecall::EVENTS_COMMITMENT_TAPE,
                StorageDeviceOpcode::StoreEventsCommitmentTape,
            ),
            (
                ecall::CAST_LIST_COMMITMENT_TAPE,
                StorageDeviceOpcode::StoreCastListCommitmentTape,
            ),
            (
                ecall::SELF_PROG_ID_TAPE,
                StorageDeviceOpcode::StoreSelfProgIdTape,
            ),
        ];
        let number = self.get_register_value(REG_A0);
        if let Some(&(_, op)) = TAPES.iter().find(|(id, _)| *id == number) {
            return self.ecall_read(op);
        }
        match number {
            ecall::HALT => self.ecall_halt(),
            ecall::PANIC""")]
R["q22_sponge_struct"]=[(P,"""    for chunk in inputs.chunks(P::RATE) {
        perm.set_from_slice(chunk, 0);
        permute_and_record_data(&mut perm, &mut sponge_data);
    }
""","""    inputs.chunks_exact(P::RATE).for_each(|chunk| {
        perm.set_from_slice(chunk, 0);
        permute_and_record_data(&mut perm, &mut sponge_data);
    });
"""),(P,"""    sponge_data
        .last_mut()
        .expect("Can't fail at least one elem must be there")
        .gen_output = F::from_bool(true);""","""    let last = sponge_data.len() - 1;
    sponge_data[last].gen_output = F::ONE;"""),(P,"""            gen_output: F::from_bool(false),""","""            gen_output: F::ZERO,""")]
R["q23_poseidon_loop"]=[(P,"""            izip!(0.., hash)
                .fold(self, |updated_self, (i, byte)| {
                    updated_self
                        .store_u8(output_ptr.wrapping_add(i), byte)
                        .unwrap()
                })
                .bump_pc(),""","""            {
                let mut state = self;
                for (i, byte) in hash.into_iter().enumerate() {
                    state = state
                        .store_u8(output_ptr.wrapping_add(i as u32), byte)
                        .expect("the digest goes to writable memory");
                }
                state.bump_pc()
            },"""),(P,"""        let mem_addresses_used: Vec<u32> = chain!(
            (0..input_len).map(|i| input_ptr.wrapping_add(i)),
            izip!(0.., &hash).map(|(i, _)| output_ptr.wrapping_add(i))
        )
        .collect();""","""        let range = |start: u32, len: u32| (0..len).map(move |i| start.wrapping_add(i));
        let mut mem_addresses_used: Vec<u32> = range(input_ptr, input_len).collect();
        mem_addresses_used.extend(range(output_ptr, DIGEST_BYTES as u32));""")]
R["q24_elf_flags_struct"]=[(L,"""        let ro_memory = Data(Program::extract_elf_data(
            check_program_flags,
            input,
            &segments,
        ));
""","""        let load = |wanted: fn(u32, &ProgramHeader) -> bool| {
            Program::extract_elf_data(wanted, input, &segments)
        };
        let ro_memory = Data(load(check_program_flags));
"""),(L,"""        let rw_memory = Data(Program::extract_elf_data(
            |flags, _| {
                (flags & elf::abi::PF_R == elf::abi::PF_R)
                    && (flags & elf::abi::PF_W == elf::abi::PF_W)
            },
            input,
            &segments,
        ));
""","""        let rw_memory = Data(load(|flags, _| {
            const RW: u32 = elf::abi::PF_R | elf::abi::PF_W;
            flags & RW == RW
        }));
"""),(L,"""        let ro_code = Code::from(&Program::extract_elf_data(
            |flags, _| flags & elf::abi::PF_X == elf::abi::PF_X,
            input,
            &segments,
        ));""","""        let ro_code = Code::from(&load(|flags, _| flags & elf::abi::PF_X != 0));""")]
R["q25_elf_validate_split"]=[(L,"""        ensure!(elf.ehdr.class == Class::ELF32, "Not a 32-bit ELF");
        ensure!(
            elf.ehdr.e_machine == elf::abi::EM_RISCV,
            "Invalid machine type, must be RISC-V"
        );
        ensure!(
            elf.ehdr.e_type == elf::abi::ET_EXEC,
            "Invalid ELF type, must be executable"
        );
        let entry_point: u32 = elf.ehdr.e_entry.try_into()?;
        ensure!(entry_point % 4 == 0, "Misaligned entrypoint");
        let segments = elf
            .segments()
            .ok_or_else(|| anyhow!("Missing segment table"))?;
        ensure!(segments.len() <= 256, "Too many program headers");
        Ok((elf, entry_point, segments))""","""        let header = &elf.ehdr;
        if header.class != Class::ELF32 {
            return Err(anyhow!("Not a 32-bit ELF"));
        }
        if header.e_machine != elf::abi::EM_RISCV {
            return Err(anyhow!("Invalid machine type, must be RISC-V"));
        }
        if header.e_type != elf::abi::ET_EXEC {
            return Err(anyhow!("Invalid ELF type, must be executable"));
        }
        let entry_point = u32::try_from(header.e_entry)?;
        if entry_point & 3 != 0 {
            return Err(anyhow!("Misaligned entrypoint"));
        }
        match elf.segments() {
            None => Err(anyhow!("Missing segment table")),
            Some(segments) if segments.len() > 256 => Err(anyhow!("Too many program headers")),
            Some(segments) => Ok((elf, entry_point, segments)),
        }""")]
