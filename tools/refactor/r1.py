VM="runner/src/vm.rs"; ST="runner/src/state.rs"; EC="runner/src/ecall.rs"; P2="runner/src/poseidon2.rs"; DE="runner/src/decode.rs"; EL="runner/src/elf.rs"; CO="runner/src/code.rs"
R = {}
R["vm_mul_helper"] = [
 (VM, "pub fn mulh(a: u32, b: u32) -> u32 { ((i64::from(a as i32) * i64::from(b as i32)) >> 32) as u32 }",
  "pub fn mulh(a: u32, b: u32) -> u32 {\n    let product = signed_wide(a) * signed_wide(b);\n    (product >> u32::BITS) as u32\n}\n\n#[allow(clippy::cast_possible_wrap)]\nfn signed_wide(x: u32) -> i64 { i64::from(x as i32) }"),
 (VM, "pub fn mulhsu(a: u32, b: u32) -> u32 { ((i64::from(a as i32) * i64::from(b)) >> 32) as u32 }",
  "pub fn mulhsu(a: u32, b: u32) -> u32 {\n    let lhs = signed_wide(a);\n    let rhs = i64::from(b);\n    let wide = lhs.wrapping_mul(rhs);\n    wide.wrapping_shr(32) as u32\n}"),
 (VM, "pub fn mulhu(a: u32, b: u32) -> u32 { ((u64::from(a) * u64::from(b)) >> 32) as u32 }",
  "pub fn mulhu(a: u32, b: u32) -> u32 {\n    let wide: u128 = u128::from(a) * u128::from(b);\n    ((wide >> 32) & 0xFFFF_FFFF) as u32\n}"),
]
R["vm_div_if"] = [
 (VM, "    match (a as i32, b as i32) {\n        (_, 0) => 0xFFFF_FFFF,\n        (a, b) => a.overflowing_div(b).0 as u32,\n    }",
  "    if b == 0 {\n        return u32::MAX;\n    }\n    (a as i32).wrapping_div(b as i32) as u32"),
 (VM, "    match (a, b) {\n        (_, 0) => 0xFFFF_FFFF,\n        (a, b) => a / b,\n    }", "    a.checked_div(b).unwrap_or(u32::MAX)"),
 (VM, "    (match (a as i32, b as i32) {\n        (a, 0) => a,\n        // overflow when -2^31 / -1\n        (-0x8000_0000, -1) => 0,\n        (a, b) => a % b,\n    }) as u32",
  "    let (dividend, divisor) = (a as i32, b as i32);\n    if divisor == 0 {\n        return a;\n    }\n    dividend.wrapping_rem(divisor) as u32"),
 (VM, "    match (a, b) {\n        (a, 0) => a,\n        (a, b) => a % b,\n    }", "    match a.checked_rem(b) {\n        Some(r) => r,\n        None => a,\n    }"),
]
R["vm_loads"] = [
 (VM, "pub fn lhu_raw(mem: &[u8; 4]) -> u32 { u16::from_le_bytes([mem[0], mem[1]]).into() }", "pub fn lhu_raw(mem: &[u8; 4]) -> u32 {\n    let lo = u32::from(mem[0]);\n    let hi = u32::from(mem[1]);\n    lo | (hi << 8)\n}"),
 (VM, "    let raw = lbu_raw(mem);\n    (raw, i32::from(raw as i8) as u32)", "    let raw = lbu_raw(mem);\n    let extended = ((raw << 24) as i32) >> 24;\n    (raw, extended as u32)"),
 (VM, "    let raw = lhu_raw(mem);\n    (raw, i32::from(raw as i16) as u32)", "    let raw = lhu_raw(mem);\n    let sign = raw & 0x8000 != 0;\n    (raw, if sign { raw | 0xFFFF_0000 } else { raw })"),
 (VM, "pub fn lw(mem: &[u8; 4]) -> (u32, u32) { dup(u32::from_le_bytes(*mem)) }", "pub fn lw(mem: &[u8; 4]) -> (u32, u32) {\n    let mut word = 0u32;\n    for (i, b) in mem.iter().enumerate() {\n        word |= u32::from(*b) << (8 * i);\n    }\n    dup(word)\n}"),
]
R["vm_store_loop"] = [
 (VM, "        let mask = u32::MAX >> (32 - 8 * bytes);\n        let raw_value: u32 = self.get_register_value(inst.rs1) & mask;", "        let value = self.get_register_value(inst.rs1);\n        let raw_value: u32 = match bytes {\n            1 => value & 0xFF,\n            2 => value & 0xFFFF,\n            _ => value,\n        };"),
 (VM, """        (
            Aux {
                dst_val: raw_value,
                mem: Some(MemEntry { addr, raw_value }),
                mem_addresses_used,
                ..Default::default()
            },
            (0..bytes)
                .map(|i| addr.wrapping_add(i))
                .zip(raw_value.to_le_bytes())
                .fold(self, |acc, (i, byte)| acc.store_u8(i, byte).unwrap())
                .bump_pc(),
        )""", """        let mut state = self;
        for (i, byte) in (0..bytes).zip(raw_value.to_le_bytes().iter()) {
            let target = addr.wrapping_add(i);
            state = state.store_u8(target, *byte).unwrap();
        }
        let aux = Aux {
            dst_val: raw_value,
            mem: Some(MemEntry { addr, raw_value }),
            mem_addresses_used,
            ..Default::default()
        };
        (aux, state.bump_pc())"""),
]
R["vm_op2_match"] = [
 (VM, """        let op2 = if matches!(
            inst.op,
            Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU
        ) {
            rs2_raw
        } else if matches!(inst.op, Op::SRL | Op::SLL | Op::SRA) {
            1u32 << (rs2_raw.wrapping_add(inst.args.imm) & 0b1_1111)
        } else {
            rs2_raw.wrapping_add(inst.args.imm)
        };
""", """        let rs2_plus_imm = rs2_raw.wrapping_add(inst.args.imm);
        let op2 = match inst.op {
            Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU => rs2_raw,
            Op::SRL | Op::SLL | Op::SRA => 1u32 << (rs2_plus_imm % 32),
            _ => rs2_plus_imm,
        };
"""),
 (VM, "Op::SLL => rop!(|a, b| a << (b & 0b1_1111)),", "Op::SLL => rop!(u32::wrapping_shl),"),
 (VM, "Op::SLTU => rop!(|a, b| u32::from(a < b)),", "Op::SLTU => rop!(|a, b| if a < b { 1 } else { 0 }),"),
 (VM, "Op::SRA => rop!(|a, b| (a as i32 >> (b & 0b1_1111) as i32) as u32),", "Op::SRA => rop!(|a, b| (a as i32).wrapping_shr(b) as u32),"),
 (VM, "Op::BGE => self.branch_op(&inst.args, |a, b| (a as i32) >= (b as i32)),", "Op::BGE => self.branch_op(&inst.args, |a, b| !((a as i32) < (b as i32))),"),
 (VM, "Op::BNE => self.branch_op(&inst.args, |a, b| a != b),", "Op::BNE => self.branch_op(&inst.args, |a, b| (a ^ b) != 0),"),
]
R["vm_exec_split"] = [
 (VM, """        Ok((
            Aux {
                new_pc: state.get_pc(),
                op1,
                op2,
                op2_raw: rs2_raw,
                ..aux
            },
            inst,
            state.bump_clock(),
        ))
    }
}
""", """        let mut aux = aux;
        aux.new_pc = state.get_pc();
        aux.op1 = op1;
        aux.op2 = op2;
        aux.op2_raw = rs2_raw;
        let next = state.bump_clock();
        Ok((aux, inst, next))
    }
}
"""),
 (VM, """        executed.push(Row {
            state: last_state,
            instruction,
            aux,
        });
        log::trace!("clk: {:?}, {:?}", new_state.clk, instruction);
        last_state = new_state;
""", """        log::trace!("clk: {:?}, {:?}", new_state.clk, instruction);
        let before = std::mem::replace(&mut last_state, new_state);
        executed.push(Row {
            state: before,
            aux,
            instruction,
        });
"""),
]
R["vm_exec_match_inst"] = [
 (VM, """        let inst = self
            .current_instruction(program)
            .ok_or(anyhow!("Can't find instruction."))?
            .map_err(|e| {
                anyhow!(
                    "Unknown instruction {:x} at address {:x}",
                    e.instruction,
                    e.pc
                )
            })?;
""", """        let inst = match self.current_instruction(program) {
            None => return Err(anyhow!("Can't find instruction.")),
            Some(Err(e)) => {
                return Err(anyhow!(
                    "Unknown instruction {:x} at address {:x}",
                    e.instruction,
                    e.pc
                ))
            }
            Some(Ok(inst)) => *inst,
        };
"""),
 (VM, "    while !last_state.has_halted() {\n", "    loop {\n        if last_state.has_halted() {\n            break;\n        }\n"),
]
R["st_load_store"] = [
 (ST, """        let mut mem_addresses_used: Vec<u32> = (0..4).map(|i| addr.wrapping_add(i)).collect();

        let mem = mem_addresses_used
            .iter()
            .map(|&addr| self.load_u8(addr))
            .collect::<Vec<_>>()
            .try_into()
            .unwrap();

        mem_addresses_used.truncate(bytes as usize);
        let (raw_value, dst_val) = op(&mem);
""", """        let mem_addresses_used: Vec<u32> = (0..bytes).map(|i| addr.wrapping_add(i)).collect();
        let mut mem = [0u8; 4];
        for (i, slot) in mem.iter_mut().enumerate() {
            *slot = self.load_u8(addr.wrapping_add(u32::try_from(i).unwrap()));
        }
        let (raw_value, dst_val) = op(&mem);
"""),
 (ST, """        if self.memory.is_read_only.contains(&addr) {
            Err(anyhow!(
                "cannot write to ro_memory: address - {:#0x}, value - {:#0x}",
                addr,
                value,
            ))
        } else {
            self.memory.data.insert(addr, value);
            Ok(self)
        }
""", """        if self.memory.is_read_only.contains(&addr) {
            return Err(anyhow!(
                "cannot write to ro_memory: address - {:#0x}, value - {:#0x}",
                addr,
                value,
            ));
        }
        let StateMemory { data, .. } = &mut self.memory;
        data.insert(addr, value);
        Ok(self)
"""),
 (ST, "    pub fn load_u8(&self, addr: u32) -> u8 {\n        self.memory.data.get(&addr).copied().unwrap_or_default()\n", "    pub fn load_u8(&self, addr: u32) -> u8 {\n        match self.memory.data.get(&addr) {\n            Some(byte) => *byte,\n            None => 0,\n        }\n"),
]
R["st_regs"] = [
 (ST, "        // R0 is always 0\n        if index != 0 {\n            self.registers[usize::from(index)] = value;\n        }\n        self\n", "        // R0 is always 0\n        if index == 0 {\n            return self;\n        }\n        let reg = &mut self.registers[index as usize];\n        *reg = value;\n        self\n"),
 (ST, "    pub fn bump_pc(self) -> Self { self.bump_pc_n(4) }", "    pub fn bump_pc(mut self) -> Self {\n        self.pc = self.pc.wrapping_add(4);\n        self\n    }"),
 (ST, """        let op1 = self.get_register_value(data.rs1);
        let op2 = self.get_register_value(data.rs2);
        (
            Aux::default(),
            if op(op1, op2) {
                self.set_pc(data.imm)
            } else {
                self.bump_pc()
            },
        )
""", """        let taken = op(
            self.get_register_value(data.rs1),
            self.get_register_value(data.rs2),
        );
        let target = if taken { data.imm } else { self.pc.wrapping_add(4) };
        (Aux::default(), self.set_pc(target))
"""),
 (ST, """        let dst_val = op(op1, op2);
        (
            Aux {
                dst_val,
                ..Aux::default()
            },
            self.set_register_value(data.rd, dst_val).bump_pc(),
        )
""", """        let dst_val = op(op1, op2);
        let next = self.bump_pc().set_register_value(data.rd, dst_val);
        let mut aux = Aux::default();
        aux.dst_val = dst_val;
        (aux, next)
"""),
]
R["st_memory_new"] = [
 (ST, """        let ro: HashMap<u32, u8> = ro.flat_map(HashMap::into_iter).collect();
        let mut rw: HashMap<u32, u8> = rw.flat_map(HashMap::into_iter).collect();
        StateMemory {
            is_read_only: ro.keys().copied().collect(),
            data: {
                rw.extend(ro);
                rw
            },
        }
""", """        let mut data: HashMap<u32, u8> = HashMap::new();
        for map in rw {
            data.extend(map);
        }
        let mut is_read_only = HashSet::new();
        for map in ro {
            for (addr, byte) in map {
                is_read_only.insert(addr);
                data.insert(addr, byte);
            }
        }
        StateMemory { data, is_read_only }
"""),
 (ST, "        let state: State<F> = State::default();\n\n        Self {\n            pc,\n            memory: StateMemory::new(once(ro_memory), once(rw_memory)),\n            ..state\n        }\n", "        let mut state: State<F> = State::default();\n        state.memory = StateMemory::new(once(ro_memory), once(rw_memory));\n        state.pc = pc;\n        state\n"),
]
R["st_tapes_helper"] = [
 (ST, """            private_tape: StorageDeviceTape {
                data: raw_tapes.private_tape.into(),
                read_index: 0,
            },
            public_tape: StorageDeviceTape {
                data: raw_tapes.public_tape.into(),
                read_index: 0,
            },
            call_tape: StorageDeviceTape {
                data: raw_tapes.call_tape.into(),
                read_index: 0,
            },
            event_tape: StorageDeviceTape {
                data: raw_tapes.event_tape.into(),
                read_index: 0,
            },
""", """            private_tape: StorageDeviceTape::from_bytes(raw_tapes.private_tape),
            public_tape: StorageDeviceTape::from_bytes(raw_tapes.public_tape),
            call_tape: StorageDeviceTape::from_bytes(raw_tapes.call_tape),
            event_tape: StorageDeviceTape::from_bytes(raw_tapes.event_tape),
"""),
 (ST, "impl From<Data> for StorageDeviceTape {", "impl StorageDeviceTape {\n    fn from_bytes(bytes: Vec<u8>) -> Self {\n        let data: Rc<[u8]> = Rc::from(bytes);\n        StorageDeviceTape {\n            read_index: 0,\n            data,\n        }\n    }\n}\n\nimpl From<Data> for StorageDeviceTape {"),
]
R["st_read_bytes"] = [
 (ST, """    let remaining_len = buf.len() - *index;
    let limit = num_bytes.min(remaining_len);
    let read = buf[*index..(*index + limit)].to_vec();
""", """    let start = *index;
    let remaining = &buf[start..];
    let remaining_len = remaining.len();
    let limit = if num_bytes < remaining_len { num_bytes } else { remaining_len };
    let read: Vec<u8> = remaining.iter().take(limit).copied().collect();
"""),
]
R["st_read_bytes2"] = [
 (ST, """    let limit = num_bytes.min(remaining_len);
    let read = buf[*index..(*index + limit)].to_vec();
""", """    let end = std::cmp::min(buf.len(), index.saturating_add(num_bytes));
    let limit = end - *index;
    let read = buf[*index..end].to_owned();
"""),
]
R["ec_match"] = [
 (EC, """        let data = match op {
            StorageDeviceOpcode::StorePublic => read_bytes(
                &self.public_tape.data,
                &mut self.public_tape.read_index,
                num_bytes_requested as usize,
            ),
            StorageDeviceOpcode::StorePrivate => read_bytes(
                &self.private_tape.data,
                &mut self.private_tape.read_index,
                num_bytes_requested as usize,
            ),
            StorageDeviceOpcode::StoreCallTape => read_bytes(
                &self.call_tape.data,
                &mut self.call_tape.read_index,
                num_bytes_requested as usize,
            ),
            StorageDeviceOpcode::StoreEventTape => read_bytes(
                &self.event_tape.data,
                &mut self.event_tape.read_index,
                num_bytes_requested as usize,
            ),
""", """        let n = num_bytes_requested as usize;
        let data = match op {
            StorageDeviceOpcode::StorePublic => Self::read_tape(&mut self.public_tape, n),
            StorageDeviceOpcode::StorePrivate => Self::read_tape(&mut self.private_tape, n),
            StorageDeviceOpcode::StoreCallTape => Self::read_tape(&mut self.call_tape, n),
            StorageDeviceOpcode::StoreEventTape => Self::read_tape(&mut self.event_tape, n),
"""),
 (EC, "    fn ecall_halt(self)", "    fn read_tape(tape: &mut crate::state::StorageDeviceTape, n: usize) -> Vec<u8> {\n        let crate::state::StorageDeviceTape { data, read_index } = tape;\n        read_bytes(data, read_index, n)\n    }\n\n    fn ecall_halt(self)"),
 (EC, """            data.iter()
                .enumerate()
                .fold(self, |acc, (i, byte)| {
                    acc.store_u8(
                        buffer_start.wrapping_add(u32::try_from(i).expect("cannot fit i into u32")),
                        *byte,
                    )
                    .unwrap()
                })
                .bump_pc(),
""", """            {
                let mut state = self;
                let mut dest = buffer_start;
                for byte in &data {
                    state = state.store_u8(dest, *byte).unwrap();
                    dest = dest.wrapping_add(1);
                }
                state.bump_pc()
            },
"""),
]
R["ec_store_zip"] = [
 (EC, """            data.iter()
                .enumerate()
                .fold(self, |acc, (i, byte)| {
                    acc.store_u8(
                        buffer_start.wrapping_add(u32::try_from(i).expect("cannot fit i into u32")),
                        *byte,
                    )
                    .unwrap()
                })
                .bump_pc(),
""", """            (0..data_len)
                .zip(&data)
                .fold(self, |acc, (i, &byte)| {
                    acc.store_u8(buffer_start.wrapping_add(i), byte).unwrap()
                })
                .bump_pc(),
"""),
 (EC, """        match self.get_register_value(REG_A0) {
            ecall::HALT => self.ecall_halt(),""", """        let id = self.get_register_value(REG_A0);
        if id == ecall::HALT {
            return self.ecall_halt();
        }
        match id {"""),
]
R["ec_msgs"] = [
 (EC, """        let mut msg_vec = vec![];
        for i in 0..msg_len {
            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
        }
        panic!(""", """        let msg_vec: Vec<u8> = (0..msg_len)
            .map(|i| self.load_u8(msg_ptr.wrapping_add(i)))
            .collect();
        panic!("""),
]
R["p2_loop"] = [
 (P2, """        let input: Vec<F> = (0..input_len)
            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr.wrapping_add(i))))
            .collect();
""", """        let mut input: Vec<F> = Vec::with_capacity(input_len as usize);
        for i in 0..input_len {
            let byte = self.load_u8(input_ptr.wrapping_add(i));
            input.push(F::from_canonical_u8(byte));
        }
"""),
 (P2, """    // Absorb all input chunks.
    for chunk in inputs.chunks(P::RATE) {
        perm.set_from_slice(chunk, 0);
        permute_and_record_data(&mut perm, &mut sponge_data);
    }
""", """    // Absorb all input chunks.
    inputs.chunks(P::RATE).for_each(|chunk| {
        perm.set_from_slice(chunk, 0);
        permute_and_record_data(&mut perm, &mut sponge_data);
    });
"""),
 (P2, """            izip!(0.., hash)
                .fold(self, |updated_self, (i, byte)| {
                    updated_self
                        .store_u8(output_ptr.wrapping_add(i), byte)
                        .unwrap()
                })
                .bump_pc(),
""", """            hash.into_iter()
                .zip(0u32..)
                .fold(self.bump_pc(), |acc, (byte, offset)| {
                    acc.store_u8(output_ptr.wrapping_add(offset), byte).unwrap()
                }),
"""),
]
R["p2_permute_fn"] = [
 (P2, """    let permute_and_record_data = |perm: &mut P, sponge_data: &mut Vec<SpongeData<F>>| {
        const STATE_SIZE: usize = 12;
        assert_eq!(STATE_SIZE, P::WIDTH);
        let preimage: [F; STATE_SIZE] = perm
            .as_ref()
            .try_into()
            .expect("length must be equal to poseidon2 STATE_SIZE");
        perm.permute();
        let output = perm
            .as_ref()
            .try_into()
            .expect("length must be equal to poseidon2 STATE_SIZE");
        sponge_data.push(SpongeData {
            preimage,
            output,
            gen_output: F::from_bool(false),
        });
    };

""", ""),
 (P2, "        permute_and_record_data(&mut perm, &mut sponge_data);\n", "        sponge_data.push(permute_once::<F, P>(&mut perm));\n"),
 (P2, "// Based on hash_n_to_m_no_pad()", """fn permute_once<F: RichField, P: PlonkyPermutation<F>>(perm: &mut P) -> SpongeData<F> {
    assert_eq!(WIDTH, P::WIDTH);
    let preimage: [F; WIDTH] = perm.as_ref().try_into().expect("bad state size");
    perm.permute();
    let output: [F; WIDTH] = perm.as_ref().try_into().expect("bad state size");
    SpongeData {
        preimage,
        output,
        gen_output: F::ZERO,
    }
}

// Based on hash_n_to_m_no_pad()"""),
]
R["de_imm"] = [
 (DE, """    let len: usize = segments.iter().map(|(msb, lsb)| msb - lsb + 1).sum();
    let u = segments.iter().fold(0, |acc, (msb, lsb)| -> u32 {
        let bits: u32 = word.bit_range(*msb, *lsb);
        (acc << (msb - lsb + 1)) | bits
    });
""", """    let mut len = 0usize;
    let mut u = 0u32;
    for &(msb, lsb) in segments {
        let width = msb - lsb + 1;
        let bits: u32 = (word >> lsb) & (u32::MAX >> (32 - width));
        u = (u << width) | bits;
        len += width;
    }
"""),
 (DE, "    let bit_size = std::mem::size_of::<u32>() * 8;\n", "    let bit_size = u32::BITS as usize;\n"),
]
R["de_helper"] = [
 (DE, """    let itype = Args {
        rs1,
        rd,
        imm: extract_immediate(word, &[(31, 20)], 0),
        ..Default::default()
    };
""", """    let imm_i = extract_immediate(word, &[(31, 20)], 0);
    let itype = Args {
        rs1,
        rs2: 0,
        rd,
        imm: imm_i,
    };
"""),
 (DE, """    let itype_load = Args {
        rs2: rs1,
        rd,
        imm: extract_immediate(word, &[(31, 20)], 0),
        ..Default::default()
    };
""", """    let itype_load = Args {
        rs1: itype.rs2,
        rs2: itype.rs1,
        ..itype
    };
"""),
 (DE, """        0b000_0011 => match bf.funct3() {
            0x0 => (Op::LB, itype_load),
            0x1 => (Op::LH, itype_load),
            0x2 => (Op::LW, itype_load),
            0x4 => (Op::LBU, itype_load),
            0x5 => (Op::LHU, itype_load),
            _ => return default(),
        },
""", """        0b000_0011 => {
            let op = match bf.funct3() {
                0x0 => Op::LB,
                0x1 => Op::LH,
                0x2 => Op::LW,
                0x4 => Op::LBU,
                0x5 => Op::LHU,
                _ => return default(),
            };
            (op, itype_load)
        }
"""),
 (DE, """        0b110_0111 => match bf.funct3() {
            0x0 => (Op::JALR, itype),
            _ => return default(),
        },
""", """        0b110_0111 if bf.funct3() == 0 => (Op::JALR, itype),
"""),
]
R["de_srli"] = [
 (DE, """            0x5 => {
                let imm = itype.imm;
                let imm_masked: u32 = imm.bit_range(4, 0);
                let itype = Args {
                    imm: imm_masked,
                    ..itype
                };
                // Masks the first 7 bits in a word to differentiate between an
                // SRAI/SRLI instruction. They have the same funct3 value and are
                // differentiated by their 30th bit, for which SRAI = 1 and SRLI = 0.
                match imm.bit_range(11, 5) {
                    // For RISC-V it's SRAI, but we handle it as SRA.
                    0b010_0000 => (Op::SRA, itype),
                    // For RISC-V it's SRLI, but we handle it as DIVU.
                    0 => (Op::DIVU, Args {
                        imm: 1 << itype.imm,
                        ..itype
                    }),
                    _ => return default(),
                }
            }
""", """            0x5 => {
                let shamt = u32::from(bf.shamt());
                match bf.funct7() {
                    0x20 => (Op::SRA, Args { imm: shamt, ..itype }),
                    0x00 => (Op::DIVU, Args {
                        imm: 1u32 << shamt,
                        ..itype
                    }),
                    _ => return default(),
                }
            }
"""),
 (DE, """            0x1 if 0 == itype.imm & !0b1_1111 => (Op::MUL, Args {
                imm: 1 << itype.imm,
                ..itype
            }),
""", """            0x1 if bf.funct7() == 0 => (Op::MUL, Args {
                imm: 1 << bf.shamt(),
                ..itype
            }),
"""),
]
R["el_loop"] = [
 (EL, """        let ro_memory = Data(Program::extract_elf_data(
            check_program_flags,
            input,
            &segments,
        ));

        let rw_memory""", """        let read = |check: fn(u32, &ProgramHeader) -> bool| Program::extract_elf_data(check, input, &segments);
        let ro_memory = Data(read(check_program_flags));

        let rw_memory"""),
 (EL, """            .filter(|program_header| program_header.p_type == elf::abi::PT_LOAD)
            .filter(|program_header| check_program_flags(program_header.p_flags, program_header))
""", """            .filter(|ph| {
                ph.p_type == elf::abi::PT_LOAD && check_program_flags(ph.p_flags, ph)
            })
"""),
 (EL, """                (flags & elf::abi::PF_R == elf::abi::PF_R)
                    && (flags & elf::abi::PF_W == elf::abi::PF_W)
""", """                let rw = elf::abi::PF_R | elf::abi::PF_W;
                flags & rw == rw
"""),
]
R["el_extract_loop"] = [
 (EL, """        segments
            .iter()
            .filter(|program_header| program_header.p_type == elf::abi::PT_LOAD)
            .filter(|program_header| check_program_flags(program_header.p_flags, program_header))
            .map(|program_header| -> anyhow::Result<_> {
                let file_size: usize = program_header.p_filesz.try_into()?;
                let mem_size: usize = program_header.p_memsz.try_into()?;
                let vaddr: u32 = program_header.p_vaddr.try_into()?;
                let offset = program_header.p_offset.try_into()?;

                let min_size = min(file_size, mem_size);
                let max_size = max(file_size, mem_size);
                Ok((vaddr..).zip(
                    chain!(&input[offset..][..min_size], repeat(&0u8))
                        .take(max_size)
                        .copied(),
                ))
            })
            .flatten_ok()
            .try_collect()
            .expect("extract elf data should always succeed")
""", """        let mut out = HashMap::new();
        for ph in segments.iter() {
            if ph.p_type != elf::abi::PT_LOAD || !check_program_flags(ph.p_flags, &ph) {
                continue;
            }
            let file_size: usize = ph.p_filesz.try_into().unwrap();
            let mem_size: usize = ph.p_memsz.try_into().unwrap();
            let vaddr: u32 = ph.p_vaddr.try_into().unwrap();
            let offset: usize = ph.p_offset.try_into().unwrap();
            let min_size = min(file_size, mem_size);
            let max_size = max(file_size, mem_size);
            let bytes = chain!(&input[offset..][..min_size], repeat(&0u8)).take(max_size);
            for (addr, byte) in (vaddr..).zip(bytes) {
                out.insert(addr, *byte);
            }
        }
        out
"""),
 (EL, "use itertools::{chain, iproduct, Itertools};", "#[allow(unused_imports)]\nuse itertools::{chain, iproduct, Itertools};"),
]
R["co_image"] = [
 (CO, """            for (i, byte) in (0_u32..).zip(bytes.iter_mut()) {
                *byte = m.get(&addr.wrapping_add(i)).copied().unwrap_or_default();
            }
            u32::from_le_bytes(bytes)
""", """            for i in 0..WORD_SIZE {
                if let Some(b) = m.get(&addr.wrapping_add(i as u32)) {
                    bytes[i] = *b;
                }
            }
            u32::from_le_bytes(bytes)
"""),
 (CO, """        Self(
            image
                .keys()
                .map(|addr| addr & !3)
                .collect::<HashSet<_>>()
                .into_iter()
                .map(|key| (key, decode_instruction(key, load_u32(image, key))))
                .collect(),
        )
""", """        let words: HashSet<u32> = image.keys().map(|addr| addr - addr % 4).collect();
        let mut code = HashMap::new();
        for pc in words {
            let word = load_u32(image, pc);
            code.insert(pc, decode_instruction(pc, word));
        }
        Self(code)
"""),
]
R["co_exec"] = [
 (CO, """    let state = regs.iter().fold(state0, |state, (rs, val)| {
        state.set_register_value(*rs, *val)
    });

    let record = step(&program, state).unwrap();
""", """    let mut state = state0;
    for &(rs, val) in regs {
        state = state.set_register_value(rs, val);
    }

    let record = step(&program, state).expect("execution failed");
"""),
]
