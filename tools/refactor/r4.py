S="runner/src/"
VM=S+"vm.rs"; ST=S+"state.rs"; EC=S+"ecall.rs"; P2=S+"poseidon2.rs"; DE=S+"decode.rs"; EL=S+"elf.rs"; CO=S+"code.rs"
R = {}
R["a_divs"] = [(VM, """    match (a as i32, b as i32) {
        (_, 0) => 0xFFFF_FFFF,
        (a, b) => a.overflowing_div(b).0 as u32,
    }
""", """    if b == 0 {
        return u32::MAX;
    }
    (a as i32).wrapping_div(b as i32) as u32
"""), (VM, """    match (a, b) {
        (_, 0) => 0xFFFF_FFFF,
        (a, b) => a / b,
    }
""", "    a.checked_div(b).unwrap_or(u32::MAX)\n"), (VM, """    (match (a as i32, b as i32) {
        (a, 0) => a,
        // overflow when -2^31 / -1
        (-0x8000_0000, -1) => 0,
        (a, b) => a % b,
    }) as u32
""", """    let (dividend, divisor) = (a as i32, b as i32);
    match divisor {
        0 => a,
        _ => dividend.wrapping_rem(divisor) as u32,
    }
"""), (VM, """    match (a, b) {
        (a, 0) => a,
        (a, b) => a % b,
    }
""", """    a.checked_rem(b).unwrap_or(a)
""")]
R["a_mulh"] = [(VM, "pub fn mulh(a: u32, b: u32) -> u32 { ((i64::from(a as i32) * i64::from(b as i32)) >> 32) as u32 }", """pub fn mulh(a: u32, b: u32) -> u32 {
    let product = (a as i32 as i64) * (b as i32 as i64);
    (product as u64 >> 32) as u32
}"""), (VM, "pub fn mulhu(a: u32, b: u32) -> u32 { ((u64::from(a) * u64::from(b)) >> 32) as u32 }", """pub fn mulhu(a: u32, b: u32) -> u32 {
    let wide = u64::from(b) * u64::from(a);
    let [_, _, _, _, high @ ..] = wide.to_le_bytes();
    u32::from_le_bytes(high)
}""")]
R["a_loads"] = [(VM, "    (raw, i32::from(raw as i8) as u32)\n", "    let sign_extended = ((raw << 24) as i32) >> 24;\n    (raw, sign_extended as u32)\n"),
 (VM, "    (raw, i32::from(raw as i16) as u32)\n", "    let value = if raw & 0x8000 == 0 { raw } else { raw | 0xffff_0000 };\n    (raw, value)\n"),
 (VM, "pub fn lhu_raw(mem: &[u8; 4]) -> u32 { u16::from_le_bytes([mem[0], mem[1]]).into() }", "pub fn lhu_raw(mem: &[u8; 4]) -> u32 { u32::from(mem[0]) | (u32::from(mem[1]) << 8) }")]
R["a_jalr"] = [(VM, """        let new_pc = self.get_register_value(inst.rs1).wrapping_add(inst.imm) & !1;
        let dst_val = self.get_pc().wrapping_add(4);
        (
            Aux {
                dst_val,
                ..Default::default()
            },
            self.set_pc(new_pc).set_register_value(inst.rd, dst_val),
        )
""", """        let Args { rd, rs1, imm, .. } = *inst;
        let return_address = self.pc.wrapping_add(4);
        let target = self.get_register_value(rs1).wrapping_add(imm);
        let state = self
            .set_register_value(rd, return_address)
            .set_pc((target >> 1) << 1);
        let aux = Aux {
            dst_val: return_address,
            ..Aux::default()
        };
        (aux, state)
""")]
R["a_store"] = [(VM, """        let mem_addresses_used: Vec<u32> = (0..bytes).map(|i| addr.wrapping_add(i)).collect();
        (
            Aux {
                dst_val: raw_value,
                mem: Some(MemEntry { addr, raw_value }),
                mem_addresses_used,
                ..Default::default()
            },
            (0..bytes)
                .map(|i| addr.wrapping_add(i))
                .zip(raw_value.to_le_bytes())
                .fold(self, |acc, (i, byte)| acc.store_u8(i, byte).unwrap())
                .bump_pc(),
        )
""", """        let mem_addresses_used: Vec<u32> = (0..bytes).map(|i| addr.wrapping_add(i)).collect();
        let mut state = self;
        for (&address, byte) in mem_addresses_used.iter().zip(raw_value.to_le_bytes()) {
            state = state
                .store_u8(address, byte)
                .expect("store to read-only memory");
        }
        let aux = Aux {
            dst_val: raw_value,
            mem: Some(MemEntry { addr, raw_value }),
            mem_addresses_used,
            ..Default::default()
        };
        (aux, state.bump_pc())
""")]
R["a_mask"] = [(VM, "        let mask = u32::MAX >> (32 - 8 * bytes);\n        let raw_value: u32 = self.get_register_value(inst.rs1) & mask;\n", """        let value = self.get_register_value(inst.rs1);
        let raw_value: u32 = match bytes {
            1 => u32::from(value as u8),
            2 => u32::from(value as u16),
            _ => value,
        };
""")]
R["a_op2_fn"] = [(VM, """        let op2 = if matches!(
            inst.op,
            Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU
        ) {
            rs2_raw
        } else if matches!(inst.op, Op::SRL | Op::SLL | Op::SRA) {
            1u32 << (rs2_raw.wrapping_add(inst.args.imm) & 0b1_1111)
        } else {
            rs2_raw.wrapping_add(inst.args.imm)
        };
""", """        let op2 = effective_op2(&inst, rs2_raw);
"""), (VM, "/// Each row corresponds to the state of the VM _just before_ executing the\n", """fn effective_op2(inst: &Instruction, rs2_raw: u32) -> u32 {
    let sum = rs2_raw.wrapping_add(inst.args.imm);
    match inst.op {
        Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU => rs2_raw,
        Op::SRL | Op::SLL | Op::SRA => 1_u32.wrapping_shl(sum),
        _ => sum,
    }
}

/// Each row corresponds to the state of the VM _just before_ executing the
""")]
R["a_exec_tail"] = [(VM, """        Ok((
            Aux {
                new_pc: state.get_pc(),
                op1,
                op2,
                op2_raw: rs2_raw,
                ..aux
            },
            inst,
            state.bump_clock(),
        ))
""", """        let mut aux = aux;
        aux.op1 = op1;
        aux.op2_raw = rs2_raw;
        aux.op2 = op2;
        aux.new_pc = state.pc;
        let mut state = state;
        state.clk += 1;
        Ok((aux, inst, state))
""")]
R["a_exec_fetch"] = [(VM, """        let inst = self
            .current_instruction(program)
            .ok_or(anyhow!("Can't find instruction."))?
            .map_err(|e| {
                anyhow!(
                    "Unknown instruction {:x} at address {:x}",
                    e.instruction,
                    e.pc
                )
            })?;
""", """        let inst = match self.current_instruction(program) {
            None => return Err(anyhow!("Can't find instruction.")),
            Some(Err(e)) =>
                return Err(anyhow!(
                    "Unknown instruction {:x} at address {:x}",
                    e.instruction,
                    e.pc
                )),
            Some(Ok(inst)) => *inst,
        };
""")]
R["a_shift_ops"] = [(VM, "            Op::SLL => rop!(|a, b| a << (b & 0b1_1111)),", "            Op::SLL => rop!(u32::wrapping_shl),"), (VM, "            Op::SRL => rop!(|a, b| a >> (b & 0b1_1111)),", "            Op::SRL => rop!(|a, b| a.wrapping_shr(b)),"),
 (VM, "rop!(|a, b| (a as i32 >> (b & 0b1_1111) as i32) as u32)", "rop!(|a, b| (a as i32).wrapping_shr(b) as u32)"), (VM, "rop!(|a, b| u32::from((a as i32) < (b as i32)))", "rop!(|a, b| ((a as i32) < (b as i32)) as u32)"), (VM, "rop!(|a, b| u32::from(a < b))", "rop!(|a, b| if a < b { 1 } else { 0 })"),
 (VM, "rop!(core::ops::BitAnd::bitand)", "rop!(|a, b| a & b)"), (VM, "|a, b| (a as i32) >= (b as i32)", "|a, b| !((a as i32) < (b as i32))"), (VM, "|a, b| a >= b", "|a, b| b <= a")]
R["a_step"] = [(VM, "    while !last_state.has_halted() {\n        let (aux, instruction, new_state)", "    loop {\n        if last_state.has_halted() {\n            break;\n        }\n        let (aux, instruction, new_state)"),
 (VM, """        executed.push(Row {
            state: last_state,
            instruction,
            aux,
        });
        log::trace!("clk: {:?}, {:?}", new_state.clk, instruction);
        last_state = new_state;
""", """        let state = std::mem::replace(&mut last_state, new_state);
        log::trace!("clk: {:?}, {:?}", last_state.clk, instruction);
        executed.push(Row {
            state,
            aux,
            instruction,
        });
""")]
R["a_regs"] = [(ST, """        if index != 0 {
            self.registers[usize::from(index)] = value;
        }
        self
""", """        match index {
            0 => self,
            i => {
                self.registers[i as usize] = value;
                self
            }
        }
"""), (ST, "    pub fn get_register_value(&self, index: u8) -> u32 { self.registers[usize::from(index)] }", """    pub fn get_register_value(&self, index: u8) -> u32 {
        let index: usize = index.into();
        self.registers[index]
    }""")]
R["a_memnew"] = [(ST, """        let ro: HashMap<u32, u8> = ro.flat_map(HashMap::into_iter).collect();
        let mut rw: HashMap<u32, u8> = rw.flat_map(HashMap::into_iter).collect();
        StateMemory {
            is_read_only: ro.keys().copied().collect(),
            data: {
                rw.extend(ro);
                rw
            },
        }
""", """        let mut data: HashMap<u32, u8> = HashMap::default();
        for map in rw {
            data.extend(map);
        }
        let mut is_read_only = HashSet::default();
        for map in ro {
            for (addr, byte) in map {
                is_read_only.insert(addr);
                data.insert(addr, byte);
            }
        }
        Self { data, is_read_only }
""")]
R["a_load_get"] = [(ST, "        self.memory.data.get(&addr).copied().unwrap_or_default()", "        match self.memory.data.get(&addr) {\n            Some(byte) => *byte,\n            None => 0,\n        }"),
 (ST, """        if self.memory.is_read_only.contains(&addr) {
            Err(anyhow!(
                "cannot write to ro_memory: address - {:#0x}, value - {:#0x}",
                addr,
                value,
            ))
        } else {
            self.memory.data.insert(addr, value);
            Ok(self)
        }
""", """        let StateMemory {
            data, is_read_only, ..
        } = &mut self.memory;
        anyhow::ensure!(
            !is_read_only.contains(&addr),
            "cannot write to ro_memory: address - {addr:#0x}, value - {value:#0x}"
        );
        data.insert(addr, value);
        Ok(self)
""")]
R["a_memload"] = [(ST, """        let mut mem_addresses_used: Vec<u32> = (0..4).map(|i| addr.wrapping_add(i)).collect();

        let mem = mem_addresses_used
            .iter()
            .map(|&addr| self.load_u8(addr))
            .collect::<Vec<_>>()
            .try_into()
            .unwrap();

        mem_addresses_used.truncate(bytes as usize);
        let (raw_value, dst_val) = op(&mem);
""", """        let mut mem = [0u8; 4];
        for i in 0..4u32 {
            mem[i as usize] = self.load_u8(addr.wrapping_add(i));
        }
        let mem_addresses_used: Vec<u32> = (0..bytes).map(|i| addr.wrapping_add(i)).collect();
        let (raw_value, dst_val) = op(&mem);
""")]
R["a_memload2"] = [(ST, """        let mem = mem_addresses_used
            .iter()
            .map(|&addr| self.load_u8(addr))
            .collect::<Vec<_>>()
            .try_into()
            .unwrap();
""", """        let mem = self.load_u32(addr).to_le_bytes();
"""), (ST, """        for (i, byte) in (0_u32..).zip(bytes.iter_mut()) {
            *byte = self.load_u8(addr.wrapping_add(i));
        }
""", """        for i in 0..WORD_SIZE {
            bytes[i] = self.load_u8(addr.wrapping_add(i as u32));
        }
""")]
R["a_branch"] = [(ST, """        (
            Aux::default(),
            if op(op1, op2) {
                self.set_pc(data.imm)
            } else {
                self.bump_pc()
            },
        )
""", """        let next_pc = if op(op1, op2) {
            data.imm
        } else {
            self.get_pc().wrapping_add(4)
        };
        (Aux::default(), self.set_pc(next_pc))
""")]
R["a_ec_helper"] = [(EC, """        let msg_ptr = self.get_register_value(REG_A1);
        let msg_len = self.get_register_value(REG_A2);
        let mut msg_vec = vec![];
        for i in 0..msg_len {
            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
        }
        panic!(
""", """        let msg_vec = self.message_bytes();
        panic!(
"""), (EC, """        let msg_ptr = self.get_register_value(REG_A1);
        let msg_len = self.get_register_value(REG_A2);
        let mut msg_vec = vec![];
        for i in 0..msg_len {
            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
        }
        log::debug!(
""", """        let msg_vec = self.message_bytes();
        log::debug!(
"""), (EC, "    fn ecall_halt(self) -> (Aux<F>, Self) {", """    fn message_bytes(&self) -> Vec<u8> {
        let ptr = self.get_register_value(REG_A1);
        let len = self.get_register_value(REG_A2);
        (0..len).map(|i| self.load_u8(ptr.wrapping_add(i))).collect()
    }

    fn ecall_halt(self) -> (Aux<F>, Self) {""")]
R["a_ec_dispatch"] = [(EC, """        match self.get_register_value(REG_A0) {
            ecall::HALT => self.ecall_halt(),
            ecall::PRIVATE_TAPE => self.ecall_read(StorageDeviceOpcode::StorePrivate),
            ecall::PUBLIC_TAPE => self.ecall_read(StorageDeviceOpcode::StorePublic),
            ecall::CALL_TAPE => self.ecall_read(StorageDeviceOpcode::StoreCallTape),
            ecall::EVENT_TAPE => self.ecall_read(StorageDeviceOpcode::StoreEventTape),
            ecall::EVENTS_COMMITMENT_TAPE =>
                self.ecall_read(StorageDeviceOpcode::StoreEventsCommitmentTape),
            ecall::CAST_LIST_COMMITMENT_TAPE =>
                self.ecall_read(StorageDeviceOpcode::StoreCastListCommitmentTape),
            ecall::SELF_PROG_ID_TAPE => self.ecall_read(StorageDeviceOpcode::StoreSelfProgIdTape),
            ecall::PANIC => self.ecall_panic(),
            ecall::POSEIDON2 => self.ecall_poseidon2(),
            ecall::VM_TRACE_LOG => self.ecall_trace_log(),
            _ => (Aux::default(), self.bump_pc()),
        }
""", """        let number = self.get_register_value(REG_A0);
        let device = match number {
            ecall::PRIVATE_TAPE => StorageDeviceOpcode::StorePrivate,
            ecall::PUBLIC_TAPE => StorageDeviceOpcode::StorePublic,
            ecall::CALL_TAPE => StorageDeviceOpcode::StoreCallTape,
            ecall::EVENT_TAPE => StorageDeviceOpcode::StoreEventTape,
            ecall::EVENTS_COMMITMENT_TAPE => StorageDeviceOpcode::StoreEventsCommitmentTape,
            ecall::CAST_LIST_COMMITMENT_TAPE => StorageDeviceOpcode::StoreCastListCommitmentTape,
            ecall::SELF_PROG_ID_TAPE => StorageDeviceOpcode::StoreSelfProgIdTape,
            _ => StorageDeviceOpcode::None,
        };
        if device != StorageDeviceOpcode::None {
            return self.ecall_read(device);
        }
        match number {
            ecall::HALT => self.ecall_halt(),
            ecall::PANIC => self.ecall_panic(),
            ecall::POSEIDON2 => self.ecall_poseidon2(),
            ecall::VM_TRACE_LOG => self.ecall_trace_log(),
            _ => (Aux::default(), self.bump_pc()),
        }
""")]
R["a_ec_read"] = [(EC, """        let mem_addresses_used: Vec<u32> = (0..data_len)
            .map(|i| buffer_start.wrapping_add(i))
            .collect();
        (
            Aux {
                dst_val: data_len,
                mem_addresses_used,
                storage_device_entry: Some(StorageDeviceEntry {
                    addr: buffer_start,
                    op,
                    data: data.clone(),
                }),
                ..Default::default()
            },
            data.iter()
                .enumerate()
                .fold(self, |acc, (i, byte)| {
                    acc.store_u8(
                        buffer_start.wrapping_add(u32::try_from(i).expect("cannot fit i into u32")),
                        *byte,
                    )
                    .unwrap()
                })
                .bump_pc(),
        )
""", """        let mut mem_addresses_used = Vec::with_capacity(data.len());
        let mut state = self;
        for (i, &byte) in (0..data_len).zip(&data) {
            let addr = buffer_start.wrapping_add(i);
            mem_addresses_used.push(addr);
            state = state.store_u8(addr, byte).unwrap();
        }
        let entry = StorageDeviceEntry {
            addr: buffer_start,
            op,
            data,
        };
        (
            Aux {
                dst_val: data_len,
                mem_addresses_used,
                storage_device_entry: Some(entry),
                ..Default::default()
            },
            state.bump_pc(),
        )
""")]
R["a_p2_inline"] = [(P2, """            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr.wrapping_add(i))))
            .collect();
""", """            .map(|i| input_ptr.wrapping_add(i))
            .map(|addr| self.load_u8(addr))
            .map(F::from_canonical_u8)
            .collect();
"""), (P2, """    for chunk in inputs.chunks(P::RATE) {
        perm.set_from_slice(chunk, 0);
        permute_and_record_data(&mut perm, &mut sponge_data);
    }
""", """    for chunk in inputs.chunks_exact(P::RATE) {
        perm.set_from_slice(chunk, 0);
        permute_and_record_data(&mut perm, &mut sponge_data);
    }
"""), (P2, "    assert_eq!(inputs.len() % P::RATE, 0);", "    assert!(inputs.len() % P::RATE == 0, \"input length must be a multiple of the rate\");")]
R["a_de_ops"] = [(DE, """        0b010_0011 => match bf.funct3() {
            0x0 => (Op::SB, stype),
            0x1 => (Op::SH, stype),
            0x2 => (Op::SW, stype),
            _ => return default(),
        },
""", """        0b010_0011 => {
            let op = match bf.funct3() {
                0x0 => Op::SB,
                0x1 => Op::SH,
                0x2 => Op::SW,
                _ => return default(),
            };
            (op, stype)
        }
"""), (DE, "    let u = segments.iter().fold(0, |acc, (msb, lsb)| -> u32 {\n        let bits: u32 = word.bit_range(*msb, *lsb);\n        (acc << (msb - lsb + 1)) | bits\n    });\n", "    let mut u: u32 = 0;\n    for &(msb, lsb) in segments {\n        let width = msb - lsb + 1;\n        let bits = (word >> lsb) & (u32::MAX >> (32 - width));\n        u = (u << width) | bits;\n    }\n")]
R["a_de_array"] = [(DE, "    let rtype = Args {\n        rd,\n        rs1,\n        rs2,\n        ..Default::default()\n    };\n", "    let rtype = Args {\n        rd,\n        rs1,\n        rs2,\n        imm: 0,\n    };\n"), (DE, "    let rs1 = bf.rs1();\n    let rs2 = bf.rs2();\n    let rd = bf.rd();\n", "    let register = |lowest_bit: u32| ((word >> lowest_bit) & 0x1f) as u8;\n    let (rd, rs1, rs2) = (register(7), register(15), register(20));\n")]
R["a_el_fn"] = [(EL, """        for (addr, val) in image.iter() {
            assert!(addr % 4 == 0, "Misaligned code: {addr:x} {val:x}");
        }
""", """        if let Some((addr, val)) = image.iter().find(|(addr, _)| **addr % 4 != 0) {
            panic!("Misaligned code: {addr:x} {val:x}");
        }
""")]
