# Behaviour-preserving edits of the SDK in other styles
M="sdk/src/common/merkle.rs"; GC="sdk/src/mozakvm/calltape.rs"; GE="sdk/src/mozakvm/eventtape.rs"; GI="sdk/src/mozakvm/inputtape.rs"
SY="sdk/src/common/system.rs"; NE="sdk/src/native/eventtape.rs"; NC="sdk/src/native/calltape.rs"; NID="sdk/src/native/identity.rs"; NI="sdk/src/native/inputtape.rs"
NP="sdk/src/native/poseidon.rs"; GP="sdk/src/mozakvm/poseidon.rs"; AL="sdk/src/core/alloc.rs"; PH="sdk/src/common/types/poseidon2hash.rs"
R={}
R["t1_merkle_vec"]=[(M,"""    let mut next_height_incr = u32::MAX;

    hashes.entries(.., |e| {
        let Some(mut left) = e.remove() else { return };
        left.0 = left.0.checked_shr(height_incr).unwrap_or_default();

        while let Some(mut right) = e.remove() {
            right.0 = right.0.checked_shr(height_incr).unwrap_or_default();

            // Combine the two items and insert the result
            if left.0 == right.0 {
                let hash = Poseidon2Hash::two_to_one(left.1, right.1);
                let Ok(_) = e.try_insert_outside((left.0, hash)) else {
                    unreachable!()
                };

                // Make sure to get a new left item
                let Some(next) = e.remove() else { return };
                right = next;
                right.0 = right.0.checked_shr(height_incr).unwrap_or_default();
            } else {
                let Ok(_) = e.try_insert_outside(left) else {
                    unreachable!()
                };
            }

            // At this point left and right both represent unmerged items
            // See how soon we can merge them by comparing their MSB with XOR
            // and record the lowest
            let height_diff = u64::BITS - (left.0 ^ right.0).leading_zeros();
            next_height_incr = next_height_incr.min(height_diff);

            left = right;
        }

        // Re-insert any unused left items
        let Ok(_) = e.try_insert_outside(left) else {
            unreachable!()
        };
    });

    next_height_incr
""","""    let shift = |addr: u64| addr.checked_shr(height_incr).unwrap_or(0);
    let nodes: Vec<(u64, Poseidon2Hash)> = hashes
        .iter()
        .map(|&(addr, hash)| (shift(addr), hash))
        .collect();
    let mut merged: Vec<(u64, Poseidon2Hash)> = Vec::with_capacity(nodes.len());
    let mut next_height_incr = u32::MAX;
    // address of the node before the current one, merged or not
    let mut previous: Option<u64> = None;
    let mut i = 0;
    while i < nodes.len() {
        let (addr, hash) = nodes[i];
        if let Some(before) = previous {
            let height_diff = u64::BITS - (before ^ addr).leading_zeros();
            next_height_incr = next_height_incr.min(height_diff);
        }
        if i + 1 < nodes.len() && nodes[i + 1].0 == addr {
            merged.push((addr, Poseidon2Hash::two_to_one(hash, nodes[i + 1].1)));
            i += 2;
        } else {
            merged.push((addr, hash));
            i += 1;
        }
        previous = Some(addr);
    }
    *hashes = merged;
    next_height_incr
"""),(M,"use vec_entries::EntriesExt;\n\n","")]
R["t2_merkle_recursive"]=[(M,"""pub fn merkleize(mut hashes_with_addr: Vec<(u64, Poseidon2Hash)>) -> Poseidon2Hash {
    let mut height_incr = 0; // merkleize events at the same address to start
    while hashes_with_addr.len() > 1 {
        height_incr = merkleize_step(&mut hashes_with_addr, height_incr);
    }

    hashes_with_addr.first().map(|x| x.1).unwrap_or_default()
}
""","""pub fn merkleize(mut hashes_with_addr: Vec<(u64, Poseidon2Hash)>) -> Poseidon2Hash {
    let mut height_incr = 0; // merkleize events at the same address to start
    loop {
        match hashes_with_addr.as_slice() {
            [] => return Poseidon2Hash::default(),
            [(_, root)] => return *root,
            _ => height_incr = merkleize_step(&mut hashes_with_addr, height_incr),
        }
    }
}
""")]
R["t3_call_fields"]=[(GC,"""        assert!(self.index < self.reader.as_ref().unwrap().len());

        let zcd_cpcmsg = &self.reader.unwrap()[self.index];
        let cpcmsg: CrossProgramCall = zcd_cpcmsg
            .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
            .unwrap();

        // Ensure fields are correctly populated for caller and callee
        assert!(cpcmsg.caller == self.get_self_identity());
        assert!(cpcmsg.callee == recipient_program);
        assert!(self.is_casted_actor(&recipient_program));
""","""        let messages = self.reader.expect("the call tape is not there");
        let Some(zcd_cpcmsg) = messages.get(self.index) else {
            panic!("the call tape is exhausted");
        };
        let cpcmsg: CrossProgramCall = zcd_cpcmsg
            .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
            .unwrap();

        // Ensure fields are correctly populated for caller and callee
        let CrossProgramCall { caller, callee, .. } = &cpcmsg;
        if *caller != self.get_self_identity() || *callee != recipient_program {
            panic!("this call is not the one on the tape");
        }
        assert!(
            recipient_program == ProgramIdentifier::default()
                || self.cast_list.iter().any(|id| *id == recipient_program)
        );
""")]
R["t4_recv_for"]=[(GC,"""        while self.index < self.reader.as_ref().unwrap().len() {
            // Get the "archived" version of the message, where we will
            // pick and choose what we will deserialize
            let zcd_cpcmsg = &self.reader.as_ref().unwrap()[self.index];

            // Mark this as "processed" regardless of what happens next.
            self.index += 1;
""","""        let messages = *self.reader.as_ref().unwrap();
        while let Some(zcd_cpcmsg) = messages.get(self.index) {
            // Mark this as "processed" regardless of what happens next.
            self.index += 1;
"""),(GC,"""            if self.self_prog_id == callee {
""","""            if self.self_prog_id != callee {
                continue;
            }
            {
""")]
R["t5_event_seen"]=[(GE,"""        assert!(!self.seen[elem_idx]);
        self.seen[elem_idx] = true;
""","""        let seen_before = core::mem::replace(&mut self.seen[elem_idx], true);
        assert!(!seen_before);
"""),(GE,"""        assert!(canonical_event == generated_canonical_event);
        self.index += 1;""","""        self.index += 1;
        assert!(canonical_event == generated_canonical_event);""")]
R["t6_event_hash"]=[(GE,"""        let vec_canonical_event: Vec<CanonicalEvent> = vec_canonical_ordered_temporal_hints
            .iter()
            .map(|event| event.0)
            .collect();
        let hashes_with_addr: Vec<(u64, Poseidon2Hash)> = vec_canonical_event
            .iter()
            .map(|event| {
                (
                    u64::from_le_bytes(event.address.inner()),
                    event.canonical_hash(),
                )
            })
            .collect();
        crate::common::merkle::merkleize(hashes_with_addr)""","""        let mut leaves: Vec<(u64, Poseidon2Hash)> = vec![];
        for CanonicalOrderedTemporalHints(event, _) in &vec_canonical_ordered_temporal_hints {
            let address = u64::from_le_bytes(event.address.inner());
            leaves.push((address, event.canonical_hash()));
        }
        crate::common::merkle::merkleize(leaves)""")]
R["t7_read_min"]=[(GI,"""        let required_bytes = buf.len();
        let mut serviced_bytes = required_bytes;
        if (self.read_offset + required_bytes) > self.size_hint {
            serviced_bytes = self.size_hint - self.read_offset;
        }
""","""        let serviced_bytes = buf.len().min(self.size_hint - self.read_offset);
"""),(GI,"""        buf[..serviced_bytes].clone_from_slice(&self.internal_buf[self.read_offset..end_offset]);
        self.read_offset += serviced_bytes;
""","""        let available = &self.internal_buf[self.read_offset..end_offset];
        for (to, from) in buf.iter_mut().zip(available) {
            *to = *from;
        }
        self.read_offset = end_offset;
""")]
R["t8_seek_match"]=[(GI,"""        let (base, offset) = match pos {
            std::io::SeekFrom::Start(x) => (x, 0),
            std::io::SeekFrom::End(x) => (self.size_hint as u64, x),
            std::io::SeekFrom::Current(x) => (self.read_offset as u64, x),
        };
        let position = base
            .checked_add_signed(offset)
            .ok_or(std::io::ErrorKind::InvalidInput)?;
        // There is nothing to read past the end of the tape
        self.read_offset = usize::try_from(position)
            .unwrap_or(usize::MAX)
            .min(self.size_hint);
        Ok(self.read_offset as u64)""","""        let moved = |base: usize, by: i64| (base as u64).checked_add_signed(by);
        let target = match pos {
            std::io::SeekFrom::Start(x) => Some(x),
            std::io::SeekFrom::End(x) => moved(self.size_hint, x),
            std::io::SeekFrom::Current(x) => moved(self.read_offset, x),
        };
        let Some(position) = target else {
            return Err(std::io::ErrorKind::InvalidInput.into());
        };
        // There is nothing to read past the end of the tape
        let position = position.min(self.size_hint as u64);
        self.read_offset = position as usize;
        Ok(position)""")]
R["t9_hint_fn"]=[(SY,"""        let mut size_hint_bytes = [0; 4];

        ioread_public(&mut size_hint_bytes);
        let size_hint: usize = u32::from_le_bytes(size_hint_bytes).try_into().unwrap();
        let public_input_tape = PublicInputTapeType::with_size_hint(size_hint);

        ioread_private(&mut size_hint_bytes);
        let size_hint: usize = u32::from_le_bytes(size_hint_bytes).try_into().unwrap();
        let private_input_tape = PrivateInputTapeType::with_size_hint(size_hint);
""","""        let public_input_tape = PublicInputTapeType::with_size_hint(read_len(|b| ioread_public(b)));
        let private_input_tape =
            PrivateInputTapeType::with_size_hint(read_len(|b| ioread_private(b)));
"""),(SY,"""    let mut len_bytes = [0; 4];
    call_tape_read(&mut len_bytes);
    let len: usize = u32::from_le_bytes(len_bytes).try_into().unwrap();
    let buf: &'static mut Vec<u8> = Box::leak(Box::new(vec![0; len]));
    call_tape_read(buf);
""","""    let len = read_len(|b| call_tape_read(b));
    let buf: &'static mut Vec<u8> = Box::leak(Box::new(vec![0; len]));
    call_tape_read(buf);
"""),(SY,"""    let mut len_bytes = [0; 4];
    event_tape_read(&mut len_bytes);
    let len: usize = u32::from_le_bytes(len_bytes).try_into().unwrap();
""","""    let len = read_len(|b| event_tape_read(b));
"""),(SY,"""#[cfg(target_os = "mozakvm")]
/// Populates a `MozakVM` [`CallTapeType`]""","""/// Reads the length a tape starts with
#[cfg(target_os = "mozakvm")]
fn read_len(read: impl FnOnce(&mut [u8])) -> usize {
    let mut bytes = [0u8; 4];
    read(&mut bytes);
    u32::from_le_bytes(bytes) as usize
}

#[cfg(target_os = "mozakvm")]
/// Populates a `MozakVM` [`CallTapeType`]""")]
R["t10_castlist_btree"]=[(SY,"""    let cast_list: Vec<ProgramIdentifier> = archived_cpc_messages
        .iter()
        .map(|m| {
            m.callee
                .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
                .unwrap()
        })
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
""","""    let mut callees: BTreeSet<ProgramIdentifier> = BTreeSet::new();
    for message in archived_cpc_messages.iter() {
        let callee = message
            .callee
            .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
            .unwrap();
        callees.insert(callee);
    }
    let cast_list = callees.into_iter().collect::<Vec<_>>();
""")]
R["t11_shutdown_fns"]=[(SY,"""        let cast_list = &SYSTEM_TAPE.call_tape.cast_list;

        let calculated_commitment_cl = merkleize(
            cast_list
                .iter()
                .enumerate()
                .map(|(idx, x)| (idx as u64, x.0))
                .collect(),
        )
        .0;

        assert!(claimed_commitment_cl == calculated_commitment_cl);""","""        let leaves = (0u64..)
            .zip(&SYSTEM_TAPE.call_tape.cast_list)
            .map(|(position, id)| (position, id.0))
            .collect();
        let Poseidon2Hash(calculated_commitment_cl) = merkleize(leaves);
        if calculated_commitment_cl != claimed_commitment_cl {
            panic!("cast list does not match its commitment");
        }"""),(SY,"""        assert!(
            SYSTEM_TAPE.call_tape.index == SYSTEM_TAPE.call_tape.reader.as_ref().unwrap().len()
        );

        // Should have read the full event tape
        assert!(
            SYSTEM_TAPE.event_tape.index == SYSTEM_TAPE.event_tape.reader.as_ref().unwrap().len()
        );
""","""        let calls = SYSTEM_TAPE.call_tape.reader.unwrap();
        let events = SYSTEM_TAPE.event_tape.reader.unwrap();
        assert_eq!(SYSTEM_TAPE.call_tape.index, calls.len());
        // Should have read the full event tape
        assert_eq!(SYSTEM_TAPE.event_tape.index, events.len());
""")]
R["t12_native_order"]=[(NE,"""        let mut canonically_sorted = self
            .temporal_ordering
            .iter()
            .zip(0usize..)
            .map(|((_, canonical_event), idx)| (*canonical_event, idx))
            .collect::<Vec<(CanonicalEvent, usize)>>();
        canonically_sorted.sort();
        canonically_sorted""","""        let mut canonically_sorted = Vec::with_capacity(self.temporal_ordering.len());
        for (idx, (_, canonical_event)) in self.temporal_ordering.iter().enumerate() {
            canonically_sorted.push((*canonical_event, idx));
        }
        canonically_sorted.sort();
        canonically_sorted"""),(NE,"""            let mut reversed_ordering = vec![0; original_ordering.len()];

            // Iterate through the original ordering
            for (index, &position) in original_ordering.iter().enumerate() {
                reversed_ordering[position as usize] = u32::try_from(index).unwrap();
            }

            reversed_ordering""","""            let mut reversed_ordering = original_ordering.to_vec();
            let mut index = 0u32;
            for position in original_ordering {
                reversed_ordering[*position as usize] = index;
                index += 1;
            }
            reversed_ordering""")]
R["t13_native_new"]=[(NE,"""        Self {
            temporal_ordering: events
                .into_iter()
                .map(|x| (x.clone(), CanonicalEvent::from_event(&x)))
                .collect(),
        }""","""        let mut ordered = Self::default();
        for event in events {
            ordered.push_temporal(event);
        }
        ordered"""),(NE,"""        let self_id = self.get_self_identity();
        assert_ne!(self_id, ProgramIdentifier::default());

        self.writer.entry(self_id).or_default().push_temporal(event);""","""        let emitter = self.identity_stack.borrow().top_identity();
        if emitter == ProgramIdentifier::default() {
            panic!("events are emitted by programs");
        }
        let events = self
            .writer
            .entry(emitter)
            .or_insert_with(OrderedEvents::default);
        events.push_temporal(event);""")]
R["t14_identity"]=[(NID,"""    pub fn rm_identity(&mut self) { self.0.truncate(self.0.len().saturating_sub(1)); }""","""    pub fn rm_identity(&mut self) {
        if let Some(depth) = self.0.len().checked_sub(1) {
            self.0.truncate(depth);
        }
    }"""),(NID,"""self.0.last().copied().unwrap_or_default() }""","""
        match self.0.as_slice() {
            [.., top] => *top,
            [] => ProgramIdentifier::default(),
        }
    }""")]
R["t15_native_write"]=[(NI,"""        self.writer.entry(self_id).or_default().0.extend(buf);

        Ok(buf.len())""","""        let RawMessage(bytes) = self.writer.entry(self_id).or_default();
        let before = bytes.len();
        bytes.extend_from_slice(buf);
        Ok(bytes.len() - before)""")]
R["t16_pad_fn"]=[(NP,"""    let mut padded_input = input.to_vec();
    padded_input.push(1);

    padded_input.resize(padded_input.len().next_multiple_of(RATE), 0);
    let data_fields: Vec<GoldilocksField> = padded_input
        .iter()
        .map(|x| GoldilocksField::from_canonical_u8(*x))
        .collect();

    Poseidon2Hash(
        Plonky2Poseidon2Hash::hash_no_pad(&data_fields)
            .to_bytes()
            .try_into()
            .expect("Output length does not match to DIGEST_BYTES"),
    )""","""    let zeros = RATE - 1 - input.len() % RATE;
    let padded_input: Vec<u8> = input
        .iter()
        .copied()
        .chain(std::iter::once(1))
        .chain(std::iter::repeat(0).take(zeros))
        .collect();
    poseidon2_hash_no_pad(&padded_input)"""),(GP,"""    let mut padded_input = input.to_vec();
    padded_input.push(1);

    padded_input.resize(padded_input.len().next_multiple_of(RATE), 0);
""","""    let mut padded_input = vec![0; (input.len() / RATE + 1) * RATE];
    padded_input[..input.len()].copy_from_slice(input);
    padded_input[input.len()] = 1;
""")]
R["t17_alloc_round"]=[(AL,"""    let offset = heap_pos & (align - 1);
    if offset != 0 {
        heap_pos += align - offset;
    }

    let ptr = heap_pos as *mut u8;
    heap_pos += bytes;

    unsafe { HEAP_POS = heap_pos };
    ptr""","""    let start = (heap_pos + (align - 1)) & !(align - 1);
    unsafe { HEAP_POS = start + bytes };
    start as *mut u8""")]
R["t18_u64s"]=[(PH,"""        let v = [
            v[0].to_le_bytes(),
            v[1].to_le_bytes(),
            v[2].to_le_bytes(),
            v[3].to_le_bytes(),
        ];
        let v = array_util::flatten(&v);
        let mut r = Self([0; DIGEST_BYTES]);

        let mut i = 0;
        while i < v.len() {
            r.0[i] = v[i];
            i += 1;
        }
        r""","""        let mut bytes = [0; DIGEST_BYTES];
        let mut i = 0;
        while i < DIGEST_BYTES {
            bytes[i] = (v[i / 8] >> (8 * (i % 8))) as u8;
            i += 1;
        }
        Self(bytes)"""),(PH,"""        let flat_vec: Vec<u8> = value.into_iter().flat_map(u64::to_le_bytes).collect();
        flat_vec.into()""","""        Self::from_u64s(value)""")]
R["t19_two_to_one"]=[(PH,"""        poseidon2_hash_no_pad(array_util::flatten(&[l.0, r.0]))""","""        let mut both = [0; 2 * DIGEST_BYTES];
        both[..DIGEST_BYTES].copy_from_slice(&l.0);
        both[DIGEST_BYTES..].copy_from_slice(&r.0);
        poseidon2_hash_no_pad(&both)""")]
