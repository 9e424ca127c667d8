D="sdk/src/"
MK=D+"common/merkle.rs"; SY=D+"common/system.rs"; CT=D+"mozakvm/calltape.rs"; ET=D+"mozakvm/eventtape.rs"; IT=D+"mozakvm/inputtape.rs"
NC=D+"native/calltape.rs"; NE=D+"native/eventtape.rs"; NI=D+"native/inputtape.rs"; ID=D+"native/identity.rs"; NS=D+"native/systemtape.rs"; NP=D+"native/poseidon.rs"; GP=D+"mozakvm/poseidon.rs"
AL=D+"core/alloc.rs"; EC=D+"core/ecall.rs"; EN=D+"core/env.rs"; CR="cli/src/runner.rs"
R={}
R["mk5_helper"]=[(MK,"""    hashes.entries(.., |e| {
        let Some(mut left) = e.remove() else { return };
        left.0 = left.0.checked_shr(height_incr).unwrap_or_default();
""","""    let shift = |addr: u64| -> u64 {
        if height_incr >= u64::BITS {
            0
        } else {
            addr >> height_incr
        }
    };

    hashes.entries(.., |e| {
        let Some(mut left) = e.remove() else { return };
        left.0 = shift(left.0);
"""),(MK,"""        while let Some(mut right) = e.remove() {
            right.0 = right.0.checked_shr(height_incr).unwrap_or_default();
""","""        while let Some(mut right) = e.remove() {
            right.0 = shift(right.0);
"""),(MK,"""                right = next;
                right.0 = right.0.checked_shr(height_incr).unwrap_or_default();
""","""                right = (shift(next.0), next.1);
""")]
R["mk5_height"]=[(MK,"""            let height_diff = u64::BITS - (left.0 ^ right.0).leading_zeros();
            next_height_incr = next_height_incr.min(height_diff);
""","""            let differing = left.0 ^ right.0;
            let height_diff = match differing {
                0 => 0,
                d => d.ilog2() + 1,
            };
            if height_diff < next_height_incr {
                next_height_incr = height_diff;
            }
""")]
R["mk5_loop"]=[(MK,"""    let mut height_incr = 0; // merkleize events at the same address to start
    while hashes_with_addr.len() > 1 {
        height_incr = merkleize_step(&mut hashes_with_addr, height_incr);
    }

    hashes_with_addr.first().map(|x| x.1).unwrap_or_default()
""","""    let mut height_incr = 0; // merkleize events at the same address to start
    loop {
        match hashes_with_addr.as_slice() {
            [] => return Poseidon2Hash::default(),
            [(_, root)] => return *root,
            _ => height_incr = merkleize_step(&mut hashes_with_addr, height_incr),
        }
    }
""")]
R["mk5_rewrite"]=[(MK,"""    hashes.entries(.., |e| {
        let Some(mut left) = e.remove() else { return };
        left.0 = left.0.checked_shr(height_incr).unwrap_or_default();

        while let Some(mut right) = e.remove() {
            right.0 = right.0.checked_shr(height_incr).unwrap_or_default();

            // Combine the two items and insert the result
            if left.0 == right.0 {
                let hash = Poseidon2Hash::two_to_one(left.1, right.1);
                let Ok(_) = e.try_insert_outside((left.0, hash)) else {
                    unreachable!()
                };

                // Make sure to get a new left item
                let Some(next) = e.remove() else { return };
                right = next;
                right.0 = right.0.checked_shr(height_incr).unwrap_or_default();
            } else {
                let Ok(_) = e.try_insert_outside(left) else {
                    unreachable!()
                };
            }

            // At this point left and right both represent unmerged items
            // See how soon we can merge them by comparing their MSB with XOR
            // and record the lowest
            let height_diff = u64::BITS - (left.0 ^ right.0).leading_zeros();
            next_height_incr = next_height_incr.min(height_diff);

            left = right;
        }

        // Re-insert any unused left items
        let Ok(_) = e.try_insert_outside(left) else {
            unreachable!()
        };
    });
""","""    let mut merged: Vec<(u64, Poseidon2Hash)> = Vec::with_capacity(hashes.len());
    let mut pending: Option<(u64, Poseidon2Hash)> = None;
    for (addr, hash) in hashes.drain(..) {
        let addr = addr.checked_shr(height_incr).unwrap_or_default();
        pending = match pending {
            Some((left_addr, left)) if left_addr == addr => {
                merged.push((addr, Poseidon2Hash::two_to_one(left, hash)));
                None
            }
            Some(left) => {
                merged.push(left);
                Some((addr, hash))
            }
            None => Some((addr, hash)),
        };
    }
    if let Some(left) = pending {
        merged.push(left);
    }
    for pair in merged.windows(2) {
        let height_diff = u64::BITS - (pair[0].0 ^ pair[1].0).leading_zeros();
        next_height_incr = next_height_incr.min(height_diff);
    }
    *hashes = merged;
"""),(MK,"use vec_entries::EntriesExt;\n\n","")]
R["sy5_len"]=[(SY,"""    let mut len_bytes = [0; 4];
    call_tape_read(&mut len_bytes);
    let len: usize = u32::from_le_bytes(len_bytes).try_into().unwrap();
    let buf: &'static mut Vec<u8> = Box::leak(Box::new(vec![0; len]));
    call_tape_read(buf);
""","""    let buf = read_length_prefixed(call_tape_read);
"""),(SY,"""    let mut len_bytes = [0; 4];
    event_tape_read(&mut len_bytes);
    let len: usize = u32::from_le_bytes(len_bytes).try_into().unwrap();
    let buf: &'static mut Vec<u8> = Box::leak(Box::new(vec![0; len]));
    event_tape_read(buf);
""","""    let buf = read_length_prefixed(event_tape_read);
"""),(SY,"""/// Emit an event from `mozak_vm` to""","""#[cfg(target_os = "mozakvm")]
/// Reads a length and that many bytes, which are leaked.
fn read_length_prefixed(read: fn(&mut [u8])) -> &'static [u8] {
    let mut prefix = [0u8; 4];
    read(&mut prefix);
    let mut contents = vec![0u8; u32::from_le_bytes(prefix) as usize];
    read(&mut contents);
    Box::leak(contents.into_boxed_slice())
}

/// Emit an event from `mozak_vm` to""")]
R["sy5_hint"]=[(SY,"""        let mut size_hint_bytes = [0; 4];

        ioread_public(&mut size_hint_bytes);
        let size_hint: usize = u32::from_le_bytes(size_hint_bytes).try_into().unwrap();
        let public_input_tape = PublicInputTapeType::with_size_hint(size_hint);

        ioread_private(&mut size_hint_bytes);
        let size_hint: usize = u32::from_le_bytes(size_hint_bytes).try_into().unwrap();
        let private_input_tape = PrivateInputTapeType::with_size_hint(size_hint);
""","""        let read_hint = |read: fn(&mut [u8])| -> usize {
            let mut bytes = [0u8; 4];
            read(&mut bytes);
            bytes
                .iter()
                .rev()
                .fold(0usize, |acc, &b| (acc << 8) | usize::from(b))
        };
        let private_input_tape = PrivateInputTapeType::with_size_hint(read_hint(ioread_private));
        let public_input_tape = PublicInputTapeType::with_size_hint(read_hint(ioread_public));
""")]
R["sy5_castlist"]=[(SY,"""    let cast_list: Vec<ProgramIdentifier> = archived_cpc_messages
        .iter()
        .map(|m| {
            m.callee
                .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
                .unwrap()
        })
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
""","""    let mut seen = BTreeSet::new();
    for message in archived_cpc_messages.iter() {
        let callee: ProgramIdentifier = message
            .callee
            .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
            .unwrap();
        seen.insert(callee);
    }
    let cast_list = Vec::from_iter(seen);
""")]
R["sy5_shutdown"]=[(SY,"""        let calculated_commitment_ev = merkleize(
            canonical_event_temporal_hints
                .iter()
                .map(|x| {
                    (
                        // May not be the best idea if
                        // `addr` > goldilock's prime, cc
                        // @Kapil
                        u64::from_le_bytes(x.0.address.inner()),
                        x.0.canonical_hash(),
                    )
                })
                .collect::<Vec<(u64, Poseidon2Hash)>>(),
        )
        .0;

        assert!(claimed_commitment_ev == calculated_commitment_ev);
""","""        let mut leaves: Vec<(u64, Poseidon2Hash)> = Vec::new();
        for hint in canonical_event_temporal_hints {
            let event = hint.0;
            leaves.push((
                u64::from_le_bytes(event.address.inner()),
                event.canonical_hash(),
            ));
        }
        assert_eq!(Poseidon2Hash::from(claimed_commitment_ev), merkleize(leaves));
""")]
R["sy5_shutdown2"]=[(SY,"""        // Should have read the full call tape
        assert!(
            SYSTEM_TAPE.call_tape.index == SYSTEM_TAPE.call_tape.reader.as_ref().unwrap().len()
        );

        // Should have read the full event tape
        assert!(
            SYSTEM_TAPE.event_tape.index == SYSTEM_TAPE.event_tape.reader.as_ref().unwrap().len()
        );
""","""        let event_tape = &SYSTEM_TAPE.event_tape;
        let call_tape = &SYSTEM_TAPE.call_tape;
        let unread_events = event_tape.index < event_tape.reader.unwrap().len();
        let unread_calls = call_tape.index != call_tape.reader.unwrap().len();
        if unread_events || unread_calls {
            panic!("tapes not fully read");
        }
""")]
R["sy5_castcommit"]=[(SY,"""        let cast_list = &SYSTEM_TAPE.call_tape.cast_list;

        let calculated_commitment_cl = merkleize(
            cast_list
                .iter()
                .enumerate()
                .map(|(idx, x)| (idx as u64, x.0))
                .collect(),
        )
        .0;
""","""        let calculated_commitment_cl =
            merkleize((0u64..).zip(SYSTEM_TAPE.call_tape.cast_list.iter().map(|id| id.0)).collect()).0;
""")]
R["ct5_fields"]=[(CT,"""        assert!(cpcmsg.caller == self.get_self_identity());
        assert!(cpcmsg.callee == recipient_program);
        assert!(self.is_casted_actor(&recipient_program));
""","""        let well_formed = cpcmsg.callee == recipient_program && cpcmsg.caller == self.self_prog_id;
        assert!(well_formed, "caller or callee do not match the call tape");
        if !self.is_casted_actor(&recipient_program) {
            panic!("recipient is not part of the cast list");
        }
"""),(CT,"&ProgramIdentifier::default() == actor || self.cast_list.contains(actor)","self.cast_list.iter().any(|x| x == actor) || *actor == ProgramIdentifier::default()")]
R["ct5_recv"]=[(CT,"""            if self.self_prog_id == callee {
                // First""","""            if self.self_prog_id != callee {
                continue;
            }
            {
                // First""")]
R["ct5_recvfor"]=[(CT,"""        while self.index < self.reader.as_ref().unwrap().len() {
            // Get the "archived" version of the message, where we will
            // pick and choose what we will deserialize
            let zcd_cpcmsg = &self.reader.as_ref().unwrap()[self.index];
""","""        let reader = self.reader.unwrap();
        for position in self.index..reader.len() {
            // Get the "archived" version of the message, where we will
            // pick and choose what we will deserialize
            let zcd_cpcmsg = &reader[position];
""")]
R["ct5_recvget"]=[(CT,"""        while self.index < self.reader.as_ref().unwrap().len() {
            // Get the "archived" version of the message, where we will
            // pick and choose what we will deserialize
            let zcd_cpcmsg = &self.reader.as_ref().unwrap()[self.index];
""","""        while let Some(zcd_cpcmsg) = self.reader.unwrap().get(self.index) {
""")]
R["et5_emit"]=[(ET,"""        assert!(!self.seen[elem_idx]);
        self.seen[elem_idx] = true;
""","""        let already_seen = core::mem::replace(&mut self.seen[elem_idx], true);
        assert!(!already_seen);
"""),(ET,"""        let elem_idx: usize = self.reader.unwrap()[self.index]
            .1
            .to_native()
            .try_into()
            .unwrap();
""","""        let elem_idx = self.reader.unwrap()[self.index].1.to_native() as usize;
""")]
R["et5_helper"]=[(ET,"""        let zcd_canonical_event = &self.reader.as_ref().unwrap()[elem_idx].0;
        let canonical_event: CanonicalEvent = zcd_canonical_event
            .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
            .unwrap();

        assert!(canonical_event == generated_canonical_event);
        self.index += 1;
""","""        assert_eq!(self.event_at(elem_idx), generated_canonical_event);
        self.index = self.index + 1;
"""),(ET,"""impl EventTape {
""","""impl EventTape {
    fn event_at(&self, position: usize) -> CanonicalEvent {
        self.reader.unwrap()[position]
            .0
            .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
            .unwrap()
    }

""")]
R["et5_hash"]=[(ET,"""        let vec_canonical_event: Vec<CanonicalEvent> = vec_canonical_ordered_temporal_hints
            .iter()
            .map(|event| event.0)
            .collect();
        let hashes_with_addr: Vec<(u64, Poseidon2Hash)> = vec_canonical_event
            .iter()
            .map(|event| {
                (
                    u64::from_le_bytes(event.address.inner()),
                    event.canonical_hash(),
                )
            })
            .collect();
        crate::common::merkle::merkleize(hashes_with_addr)
""","""        crate::common::merkle::merkleize(
            vec_canonical_ordered_temporal_hints
                .into_iter()
                .map(|CanonicalOrderedTemporalHints(event, _)| {
                    let address = u64::from_le_bytes(event.address.inner());
                    (address, event.canonical_hash())
                })
                .collect(),
        )
""")]
R["it5_read"]=[(IT,"""        let required_bytes = buf.len();
        let mut serviced_bytes = required_bytes;
        if (self.read_offset + required_bytes) > self.size_hint {
            serviced_bytes = self.size_hint - self.read_offset;
        }
""","""        let serviced_bytes = buf.len().min(self.size_hint - self.read_offset);
"""),(IT,"buf[..serviced_bytes].clone_from_slice(&self.internal_buf[self.read_offset..end_offset]);","buf[..serviced_bytes].copy_from_slice(&self.internal_buf[self.read_offset..][..serviced_bytes]);")]
R["it5_fetch"]=[(IT,"""        let remaining_from_ecall = end_offset.saturating_sub(old_len);

        self.internal_buf.resize(old_len + remaining_from_ecall, 0);
""","""        let remaining_from_ecall = if end_offset > old_len {
            end_offset - old_len
        } else {
            0
        };

        for _ in 0..remaining_from_ecall {
            self.internal_buf.push(0);
        }
"""),(IT,"in (\"a1\") self.internal_buf.as_mut_ptr().add(old_len),","in (\"a1\") self.internal_buf[old_len..].as_mut_ptr(),")]
R["it5_iffetch"]=[(IT,"""        self.internal_buf.resize(old_len + remaining_from_ecall, 0);

        // TODO: maybe move out this function into `ecall.rs` somehow?
        unsafe {
            core::arch::asm!(
                "ecall",
                in ("a0") self.ecall_id,
                in ("a1") self.internal_buf.as_mut_ptr().add(old_len),
                in ("a2") remaining_from_ecall,
            );
        };
""","""        if remaining_from_ecall > 0 {
            self.internal_buf.resize(end_offset, 0);
            unsafe {
                core::arch::asm!(
                    "ecall",
                    in ("a0") self.ecall_id,
                    in ("a1") self.internal_buf.as_mut_ptr().add(old_len),
                    in ("a2") remaining_from_ecall,
                );
            };
        }
""")]
R["it5_seek"]=[(IT,"""        let (base, offset) = match pos {
            std::io::SeekFrom::Start(x) => (x, 0),
            std::io::SeekFrom::End(x) => (self.size_hint as u64, x),
            std::io::SeekFrom::Current(x) => (self.read_offset as u64, x),
        };
        let position = base
            .checked_add_signed(offset)
            .ok_or(std::io::ErrorKind::InvalidInput)?;
        // There is nothing to read past the end of the tape
        self.read_offset = usize::try_from(position)
            .unwrap_or(usize::MAX)
            .min(self.size_hint);
        Ok(self.read_offset as u64)
""","""        let end = self.size_hint as u64;
        let target = match pos {
            std::io::SeekFrom::Start(x) => Some(x),
            std::io::SeekFrom::End(x) => end.checked_add_signed(x),
            std::io::SeekFrom::Current(x) => (self.read_offset as u64).checked_add_signed(x),
        };
        let Some(target) = target else {
            return Err(std::io::ErrorKind::InvalidInput.into());
        };
        let clamped = target.min(end);
        self.read_offset = clamped as usize;
        Ok(clamped)
""")]
R["it5_from"]=[(IT,"""impl Default for PrivateInputTape {
    fn default() -> Self {
        Self(RandomAccessEcallTape {
            ecall_id: ecall::PRIVATE_TAPE,
            read_offset: 0,
            size_hint: 0,
            internal_buf: vec![],
        })
    }
}
""","""impl Default for PrivateInputTape {
    fn default() -> Self { Self::with_size_hint(0) }
}
"""),(IT,"""    pub fn with_size_hint(size_hint: usize) -> Self {
        Self(RandomAccessEcallTape {
            ecall_id: ecall::PRIVATE_TAPE,
            read_offset: 0,
            size_hint,
            internal_buf: vec![],
        })
    }
""","""    pub fn with_size_hint(size_hint: usize) -> Self {
        Self(RandomAccessEcallTape {
            ecall_id: ecall::PRIVATE_TAPE,
            size_hint,
            ..RandomAccessEcallTape::default()
        })
    }
""")]
R["nc5_send"]=[(NC,"""        let inserted_idx = self.writer.len();

        // and... insert
        self.writer.push(msg);

        // resolve the return value and add to where message was
        self.set_self_identity(recipient_program);
        let resolved_value = resolver(argument);
        self.writer[inserted_idx].return_ =
            rkyv::to_bytes::<_, 256, _>(&resolved_value).unwrap().into();
        self.identity_stack.borrow_mut().rm_identity();
""","""        self.writer.push(msg);
        let inserted_idx = self.writer.len() - 1;

        // resolve the return value and add to where message was
        self.identity_stack
            .borrow_mut()
            .add_identity(recipient_program);
        let resolved_value = resolver(argument);
        self.identity_stack.borrow_mut().rm_identity();

        let return_bytes = rkyv::to_bytes::<_, 256, _>(&resolved_value).unwrap();
        if let Some(message) = self.writer.get_mut(inserted_idx) {
            message.return_ = return_bytes.into();
        }
""")]
R["ne5_order"]=[(NE,"""        let mut canonically_sorted = self
            .temporal_ordering
            .iter()
            .zip(0usize..)
            .map(|((_, canonical_event), idx)| (*canonical_event, idx))
            .collect::<Vec<(CanonicalEvent, usize)>>();
        canonically_sorted.sort();
        canonically_sorted
""","""        let mut canonically_sorted = Vec::with_capacity(self.temporal_ordering.len());
        for (idx, (_, canonical_event)) in self.temporal_ordering.iter().enumerate() {
            canonically_sorted.push((*canonical_event, idx));
        }
        canonically_sorted.sort_unstable();
        canonically_sorted
"""),(NE,"""            let mut reversed_ordering = vec![0; original_ordering.len()];

            // Iterate through the original ordering
            for (index, &position) in original_ordering.iter().enumerate() {
                reversed_ordering[position as usize] = u32::try_from(index).unwrap();
            }

            reversed_ordering
""","""            (0..original_ordering.len())
                .map(|time| {
                    let position = original_ordering
                        .iter()
                        .position(|&t| t as usize == time)
                        .unwrap();
                    u32::try_from(position).unwrap()
                })
                .collect()
""")]
R["ne5_emit"]=[(NE,"""        let self_id = self.get_self_identity();
        assert_ne!(self_id, ProgramIdentifier::default());

        self.writer.entry(self_id).or_default().push_temporal(event);
""","""        let self_id = self.identity_stack.borrow().top_identity();
        if self_id == ProgramIdentifier::default() {
            panic!("no program identity");
        }
        let canonical = CanonicalEvent::from_event(&event);
        let tape = self.writer.entry(self_id).or_insert_with(OrderedEvents::default);
        tape.temporal_ordering.push((event, canonical));
""")]
R["ne5_hash"]=[(NE,"""        let canonical_ordered_events = self.get_canonical_ordering();
        let hashes_with_addr = canonical_ordered_events
            .iter()
            .map(|(event, _)| {
                (
                    u64::from_le_bytes(event.address.inner()),
                    event.canonical_hash(),
                )
            })
            .collect::<Vec<_>>();
        crate::common::merkle::merkleize(hashes_with_addr)
""","""        let mut leaves = vec![];
        for (event, _) in self.get_canonical_ordering() {
            leaves.push((u64::from_le_bytes(event.address.inner()), event.canonical_hash()));
        }
        crate::common::merkle::merkleize(leaves)
""")]
R["ni5_write"]=[(NI,"self.writer.entry(self_id).or_default().0.extend(buf);","self.writer.entry(self_id).or_default().0.extend_from_slice(buf);")]
R["ni5_write2"]=[(NI,"""        self.writer.entry(self_id).or_default().0.extend(buf);

        Ok(buf.len())
""","""        let tape = self.writer.entry(self_id).or_insert_with(RawMessage::default);
        for byte in buf {
            tape.0.push(*byte);
        }
        let written = buf.len();
        Ok(written)
""")]
R["id5_rm"]=[(ID,"self.0.truncate(self.0.len().saturating_sub(1));","let _ = self.0.pop();"),(ID,"self.0.last().copied().unwrap_or_default()","match self.0.last() { Some(id) => *id, None => ProgramIdentifier::default() }")]
R["id5_via"]=[(ID,"""pub fn rm_identity() {
    unsafe {
        crate::common::system::SYSTEM_TAPE
            .call_tape
            .identity_stack
            .borrow_mut()
            .rm_identity();
    }
""","""pub fn rm_identity() {
    let stack = unsafe { crate::common::system::SYSTEM_TAPE.event_tape.identity_stack.clone() };
    stack.borrow_mut().rm_identity();
""")]
R["ns5_dump"]=[(NS,"""    let path = std::path::Path::new(file_path);
    let mut file = std::fs::File::create(path).unwrap();
    file.write_all(content).unwrap();
""","""    std::fs::File::create(file_path)
        .unwrap()
        .write_all(content)
        .unwrap();
"""),(NS,"""    write_to_file(
        "out/tape.json",
        &serde_json::to_string_pretty(&tape_clone)
            .unwrap()
            .into_bytes(),
    );
""","""    let json = serde_json::to_string_pretty(&tape_clone).unwrap();
    write_to_file("out/tape.json", json.as_bytes());
""")]
R["ns5_fs"]=[(NS,"""    use std::io::Write;
    let path = std::path::Path::new(file_path);
    let mut file = std::fs::File::create(path).unwrap();
    file.write_all(content).unwrap();
""","""    fs::write(file_path, content).unwrap();
""")]
R["np5_pad"]=[(NP,"""    let mut padded_input = input.to_vec();
    padded_input.push(1);

    padded_input.resize(padded_input.len().next_multiple_of(RATE), 0);
    let data_fields: Vec<GoldilocksField> = padded_input
        .iter()
        .map(|x| GoldilocksField::from_canonical_u8(*x))
        .collect();

    Poseidon2Hash(
        Plonky2Poseidon2Hash::hash_no_pad(&data_fields)
            .to_bytes()
            .try_into()
            .expect("Output length does not match to DIGEST_BYTES"),
    )
""","""    let mut padded_input = input.to_vec();
    padded_input.push(1);
    while padded_input.len() % RATE != 0 {
        padded_input.push(0);
    }
    poseidon2_hash_no_pad(&padded_input)
""")]
R["np5_iter"]=[(NP,"""    padded_input.resize(padded_input.len().next_multiple_of(RATE), 0);
    let data_fields: Vec<GoldilocksField> = padded_input
        .iter()
        .map(|x| GoldilocksField::from_canonical_u8(*x))
        .collect();
""","""    let missing = (RATE - padded_input.len() % RATE) % RATE;
    padded_input.extend(std::iter::repeat(0).take(missing));
    let mut data_fields = Vec::with_capacity(padded_input.len());
    for byte in padded_input {
        data_fields.push(GoldilocksField::from_canonical_u64(u64::from(byte)));
    }
""")]
R["gp5_pad"]=[(GP,"""    padded_input.resize(padded_input.len().next_multiple_of(RATE), 0);

    let mut output = [0; DIGEST_BYTES];
    crate::core::ecall::poseidon2(
        padded_input.as_ptr(),
        padded_input.len(),
        output.as_mut_ptr(),
    );
    Poseidon2Hash(output)
""","""    let blocks = (padded_input.len() + RATE - 1) / RATE;
    padded_input.resize(blocks * RATE, 0);
    poseidon2_hash_no_pad(&padded_input)
""")]
R["al5_align"]=[(AL,"""    let offset = heap_pos & (align - 1);
    if offset != 0 {
        heap_pos += align - offset;
    }
""","""    let offset = heap_pos % align;
    heap_pos += (align - offset) % align;
""")]
R["al5_align2"]=[(AL,"""    let offset = heap_pos & (align - 1);
    if offset != 0 {
        heap_pos += align - offset;
    }
""","""    heap_pos = (heap_pos + align - 1) & !(align - 1);
""")]
R["al5_next"]=[(AL,"""    let offset = heap_pos & (align - 1);
    if offset != 0 {
        heap_pos += align - offset;
    }

    let ptr = heap_pos as *mut u8;
    heap_pos += bytes;

    unsafe { HEAP_POS = heap_pos };
    ptr
""","""    let start = heap_pos.next_multiple_of(align);
    unsafe { HEAP_POS = start + bytes };
    start as *mut u8
""")]
R["en5_out"]=[(EN,"super::ecall::halt(OUTPUT_BYTES.first().copied().unwrap_or_default());","""let output = match OUTPUT_BYTES.get(0) {
            Some(byte) => *byte,
            None => 0,
        };
        super::ecall::halt(output);""")]
R["ec5_generic"]=[(EC,"""pub fn ioread_private(buf: &mut [u8]) {
    unsafe {
        core::arch::asm!(
            "ecall",
            in ("a0") PRIVATE_TAPE,
            in ("a1") buf.as_mut_ptr(),
            in ("a2") buf.len(),
        );
    }
}
""","""fn tape_read(id: u32, buf: &mut [u8]) {
    unsafe {
        asm!(
            "ecall",
            in ("a2") buf.len(),
            in ("a1") buf.as_mut_ptr(),
            in ("a0") id,
        );
    }
}

#[cfg(target_os = "mozakvm")]
pub fn ioread_private(buf: &mut [u8]) { tape_read(PRIVATE_TAPE, buf) }
"""),(EC,"""pub fn events_commitment_tape_read(buf: &mut [u8]) {
    assert!(buf.len() == DIGEST_BYTES);
    unsafe {
        core::arch::asm!(
        "ecall",
        in ("a0") EVENTS_COMMITMENT_TAPE,
        in ("a1") buf.as_mut_ptr(),
        in ("a2") buf.len(),
        );
    }
}
""","""pub fn events_commitment_tape_read(buf: &mut [u8]) {
    assert_eq!(buf.len(), DIGEST_BYTES, "wrong buffer size");
    tape_read(EVENTS_COMMITMENT_TAPE, buf);
}
""")]
R["cr5_prefix"]=[(CR,"""    let data_len = data.len();
    let mut len_prefix_bytes = Vec::with_capacity(data_len + 4);
    len_prefix_bytes.extend_from_slice(
        &(u32::try_from(data.len()))
            .expect("length of data's max size shouldn't be more than u32")
            .to_le_bytes(),
    );
    len_prefix_bytes.extend(data);
""","""    let data_len = data.len();
    let prefix = u32::try_from(data_len)
        .expect("length of data's max size shouldn't be more than u32")
        .to_le_bytes();
    let len_prefix_bytes = [prefix.as_slice(), data.as_slice()].concat();
""")]
R["cr5_prefix2"]=[(CR,"""    let mut len_prefix_bytes = Vec::with_capacity(data_len + 4);
    len_prefix_bytes.extend_from_slice(
        &(u32::try_from(data.len()))
            .expect("length of data's max size shouldn't be more than u32")
            .to_le_bytes(),
    );
    len_prefix_bytes.extend(data);
""","""    let mut len_prefix_bytes = u32::try_from(data_len)
        .expect("length of data's max size shouldn't be more than u32")
        .to_le_bytes()
        .to_vec();
    len_prefix_bytes.append(&mut data.clone());
""")]
R["cr5_tapes"]=[(CR,"""    if sys.is_none() {
        return RawTapes::default();
    }

    let sys = &deserialize_system_tape(sys.unwrap()).unwrap();
""","""    let Some(sys) = sys else {
        return RawTapes::default();
    };
    let sys = deserialize_system_tape(sys).unwrap();
"""),(CR,"""    let cast_list_commitment_tape =
        merkleize(izip!(0.., &cast_list).map(|(idx, x)| (idx, x.0)).collect()).0;
""","""    let mut cast_leaves = Vec::new();
    for (idx, actor) in cast_list.iter().enumerate() {
        cast_leaves.push((idx as u64, actor.0));
    }
    let cast_list_commitment_tape = merkleize(cast_leaves).0;
"""),(CR,"""        RawTapes {
            private_tape: length_prefixed_bytes(
                sys.private_input_tape
                    .writer
                    .get(&self_prog_id)
                    .cloned()
                    .unwrap_or_default()
                    .0,
                "PRIVATE_TAPE",
            ),
            public_tape: length_prefixed_bytes(
                sys.public_input_tape
                    .writer
                    .get(&self_prog_id)
                    .cloned()
                    .unwrap_or_default()
                    .0,
                "PUBLIC_TAPE",
            ),
""","""        let own_bytes = |tape: &mozak_sdk::common::types::PrivateInputTapeType, name: &str| {
            let bytes = match tape.writer.get(&self_prog_id) {
                Some(message) => message.0.clone(),
                None => vec![],
            };
            length_prefixed_bytes(bytes, name)
        };
        RawTapes {
            private_tape: own_bytes(&sys.private_input_tape, "PRIVATE_TAPE"),
            public_tape: own_bytes(&sys.public_input_tape, "PUBLIC_TAPE"),
""")]
R["cr5_castlist"]=[(CR,"""    let cast_list = sys
        .call_tape
        .writer
        .iter()
        .map(|msg| msg.callee)
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect_vec();
""","""    let mut cast_list = sys.call_tape.writer.iter().map(|msg| msg.callee).collect_vec();
    cast_list.sort();
    cast_list.dedup();
""")]
