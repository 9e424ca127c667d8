S="sdk/src/"
ME=S+"common/merkle.rs"; SY=S+"common/system.rs"; AL=S+"core/alloc.rs"; EV=S+"core/env.rs"; CE=S+"core/ecall.rs"
GC=S+"mozakvm/calltape.rs"; GE=S+"mozakvm/eventtape.rs"; GI=S+"mozakvm/inputtape.rs"; GP=S+"mozakvm/poseidon.rs"
NC=S+"native/calltape.rs"; NE=S+"native/eventtape.rs"; NI=S+"native/inputtape.rs"; NP=S+"native/poseidon.rs"; ID=S+"native/identity.rs"
PH=S+"common/types/poseidon2hash.rs"; TE=S+"common/types/event.rs"
R = {}
R["me_shr_helper"] = [
 (ME, "        left.0 = left.0.checked_shr(height_incr).unwrap_or_default();\n\n        while", "        left.0 = drop_low_bits(left.0, height_incr);\n\n        while"),
 (ME, "        while let Some(mut right) = e.remove() {\n            right.0 = right.0.checked_shr(height_incr).unwrap_or_default();", "        while let Some(mut right) = e.remove() {\n            right.0 = drop_low_bits(right.0, height_incr);"),
 (ME, "                right = next;\n                right.0 = right.0.checked_shr(height_incr).unwrap_or_default();", "                right = (drop_low_bits(next.0, height_incr), next.1);"),
 (ME, "#[cfg(test)]", "fn drop_low_bits(addr: u64, n: u32) -> u64 {\n    if n >= u64::BITS {\n        0\n    } else {\n        addr >> n\n    }\n}\n\n#[cfg(test)]"),
]
R["me_root_match"] = [
 (ME, "    hashes_with_addr.first().map(|x| x.1).unwrap_or_default()\n", "    match hashes_with_addr.into_iter().next() {\n        Some((_, root)) => root,\n        None => Poseidon2Hash::default(),\n    }\n"),
 (ME, "    while hashes_with_addr.len() > 1 {\n        height_incr = merkleize_step(&mut hashes_with_addr, height_incr);\n    }\n", "    loop {\n        if hashes_with_addr.len() <= 1 {\n            break;\n        }\n        height_incr = merkleize_step(&mut hashes_with_addr, height_incr);\n    }\n"),
 (ME, "            let height_diff = u64::BITS - (left.0 ^ right.0).leading_zeros();\n            next_height_incr = next_height_incr.min(height_diff);\n", "            let differing = left.0 ^ right.0;\n            let height_diff = 64 - differing.leading_zeros();\n            if height_diff < next_height_incr {\n                next_height_incr = height_diff;\n            }\n"),
]
R["me_rewrite"] = [
 (ME, """            if left.0 == right.0 {
                let hash = Poseidon2Hash::two_to_one(left.1, right.1);
                let Ok(_) = e.try_insert_outside((left.0, hash)) else {
                    unreachable!()
                };
""", """            let (prefix, left_hash) = left;
            if prefix == right.0 {
                let parent = (prefix, Poseidon2Hash::two_to_one(left_hash, right.1));
                assert!(e.try_insert_outside(parent).is_ok());
"""),
]
R["sy_len_helper"] = [
 (SY, "    let mut len_bytes = [0; 4];\n    call_tape_read(&mut len_bytes);\n    let len: usize = u32::from_le_bytes(len_bytes).try_into().unwrap();\n", "    let len = read_len(call_tape_read);\n"),
 (SY, "    let mut len_bytes = [0; 4];\n    event_tape_read(&mut len_bytes);\n    let len: usize = u32::from_le_bytes(len_bytes).try_into().unwrap();\n", "    let len = read_len(event_tape_read);\n"),
 (SY, "#[cfg(target_os = \"mozakvm\")]\n/// Populates a `MozakVM` [`CallTapeType`] via ECALLs.", "#[cfg(target_os = \"mozakvm\")]\nfn read_len(read: fn(&mut [u8])) -> usize {\n    let mut len_bytes = [0u8; 4];\n    read(&mut len_bytes);\n    u32::from_le_bytes(len_bytes) as usize\n}\n\n#[cfg(target_os = \"mozakvm\")]\n/// Populates a `MozakVM` [`CallTapeType`] via ECALLs."),
 (SY, "        ioread_public(&mut size_hint_bytes);\n        let size_hint: usize = u32::from_le_bytes(size_hint_bytes).try_into().unwrap();\n        let public_input_tape = PublicInputTapeType::with_size_hint(size_hint);\n", "        ioread_public(&mut size_hint_bytes);\n        let public_input_tape =\n            PublicInputTapeType::with_size_hint(u32::from_le_bytes(size_hint_bytes) as usize);\n"),
]
R["sy_castlist_loop"] = [
 (SY, """    let cast_list: Vec<ProgramIdentifier> = archived_cpc_messages
        .iter()
        .map(|m| {
            m.callee
                .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
                .unwrap()
        })
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
""", """    let mut callees: BTreeSet<ProgramIdentifier> = BTreeSet::new();
    for m in archived_cpc_messages.iter() {
        let callee: ProgramIdentifier = m
            .callee
            .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
            .unwrap();
        callees.insert(callee);
    }
    let cast_list: Vec<ProgramIdentifier> = callees.into_iter().collect();
"""),
]
R["sy_shutdown"] = [
 (SY, """        assert!(
            SYSTEM_TAPE.call_tape.index == SYSTEM_TAPE.call_tape.reader.as_ref().unwrap().len()
        );
""", """        let n_calls = SYSTEM_TAPE.call_tape.reader.as_ref().unwrap().len();
        assert_eq!(SYSTEM_TAPE.call_tape.index, n_calls);
"""),
 (SY, """            cast_list
                .iter()
                .enumerate()
                .map(|(idx, x)| (idx as u64, x.0))
                .collect(),
""", """            (0u64..).zip(cast_list.iter()).map(|(idx, x)| (idx, x.0)).collect(),
"""),
 (SY, "        assert!(claimed_commitment_ev == calculated_commitment_ev);\n", "        if claimed_commitment_ev != calculated_commitment_ev {\n            panic!(\"event commitment mismatch\");\n        }\n"),
]
R["sy_shutdown2"] = [
 (SY, """        let calculated_commitment_ev = merkleize(
            canonical_event_temporal_hints
                .iter()
                .map(|x| {
                    (
                        // May not be the best idea if
                        // `addr` > goldilock's prime, cc
                        // @Kapil
                        u64::from_le_bytes(x.0.address.inner()),
                        x.0.canonical_hash(),
                    )
                })
                .collect::<Vec<(u64, Poseidon2Hash)>>(),
        )
        .0;
""", """        let mut leaves: Vec<(u64, Poseidon2Hash)> = Vec::with_capacity(canonical_event_temporal_hints.len());
        for CanonicalOrderedTemporalHints(event, _) in &canonical_event_temporal_hints {
            leaves.push((u64::from_le_bytes(event.address.inner()), event.canonical_hash()));
        }
        let calculated_commitment_ev = merkleize(leaves).0;
"""),
]
R["al_align"] = [
 (AL, "    let offset = heap_pos & (align - 1);\n    if offset != 0 {\n        heap_pos += align - offset;\n    }\n", "    heap_pos = (heap_pos + align - 1) & !(align - 1);\n"),
]
R["al_helper"] = [
 (AL, "    let ptr = heap_pos as *mut u8;\n    heap_pos += bytes;\n\n    unsafe { HEAP_POS = heap_pos };\n    ptr\n", "    unsafe { HEAP_POS = heap_pos + bytes };\n    heap_pos as *mut u8\n"),
 (AL, "    let offset = heap_pos & (align - 1);\n    if offset != 0 {\n        heap_pos += align - offset;\n    }\n", "    let misaligned = heap_pos % align;\n    heap_pos += if misaligned == 0 { 0 } else { align - misaligned };\n"),
]
R["gc_send"] = [
 (GC, """        assert!(self.index < self.reader.as_ref().unwrap().len());

        let zcd_cpcmsg = &self.reader.unwrap()[self.index];
        let cpcmsg: CrossProgramCall = zcd_cpcmsg
            .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
            .unwrap();

        // Ensure fields are correctly populated for caller and callee
        assert!(cpcmsg.caller == self.get_self_identity());
        assert!(cpcmsg.callee == recipient_program);
        assert!(self.is_casted_actor(&recipient_program));
""", """        let tape = self.reader.unwrap();
        let position = self.index;
        assert!(position < tape.len());

        let cpcmsg: CrossProgramCall = tape[position]
            .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
            .unwrap();

        // Ensure fields are correctly populated for caller and callee
        assert!(self.is_casted_actor(&recipient_program));
        assert_eq!(cpcmsg.callee == recipient_program, true);
        assert!(
            cpcmsg.caller == self.get_self_identity(),
            "caller does not match"
        );
"""),
 (GC, "        &ProgramIdentifier::default() == actor || self.cast_list.contains(actor)\n", "        actor.is_null_program() || self.cast_list.iter().any(|known| known == actor)\n"),
]
R["gc_receive"] = [
 (GC, """        while self.index < self.reader.as_ref().unwrap().len() {
            // Get the "archived" version of the message, where we will
            // pick and choose what we will deserialize
            let zcd_cpcmsg = &self.reader.as_ref().unwrap()[self.index];
""", """        let tape = self.reader.unwrap();
        while self.index < tape.len() {
            // Get the "archived" version of the message, where we will
            // pick and choose what we will deserialize
            let zcd_cpcmsg = &tape[self.index];
"""),
 (GC, "            if self.self_prog_id == callee {\n", "            if self.self_prog_id != callee {\n                continue;\n            }\n            {\n"),
]
R["ge_emit"] = [
 (GE, """        assert!(self.index < self.reader.as_ref().unwrap().len());
        let generated_canonical_event = CanonicalEvent::from_event(&event);
        let elem_idx: usize = self.reader.unwrap()[self.index]
            .1
            .to_native()
            .try_into()
            .unwrap();
        assert!(!self.seen[elem_idx]);
        self.seen[elem_idx] = true;

        let zcd_canonical_event = &self.reader.as_ref().unwrap()[elem_idx].0;
        let canonical_event: CanonicalEvent = zcd_canonical_event
            .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
            .unwrap();

        assert!(canonical_event == generated_canonical_event);
        self.index += 1;
""", """        let tape = self.reader.unwrap();
        assert!(self.index < tape.len());
        let hint = tape[self.index].1.to_native() as usize;

        let expected: CanonicalEvent = tape[hint]
            .0
            .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
            .unwrap();
        assert!(expected == CanonicalEvent::from_event(&event));

        let was_seen = std::mem::replace(&mut self.seen[hint], true);
        assert!(!was_seen);
        self.index = self.index + 1;
"""),
]
R["gi_read"] = [
 (GI, """        let required_bytes = buf.len();
        let mut serviced_bytes = required_bytes;
        if (self.read_offset + required_bytes) > self.size_hint {
            serviced_bytes = self.size_hint - self.read_offset;
        }
""", """        let required_bytes = buf.len();
        let available = self.size_hint - self.read_offset;
        let serviced_bytes = required_bytes.min(available);
"""),
 (GI, """        let mut populatable_from_internal_buf = self.internal_buf.len() - self.read_offset;
        if serviced_bytes < populatable_from_internal_buf {
            populatable_from_internal_buf = serviced_bytes;
        }
""", """        let populatable_from_internal_buf =
            std::cmp::min(self.internal_buf.len() - self.read_offset, serviced_bytes);
"""),
]
R["gp_pad"] = [
 (GP, """    let mut padded_input = input.to_vec();
    padded_input.push(1);

    padded_input.resize(padded_input.len().next_multiple_of(RATE), 0);

    let mut output = [0; DIGEST_BYTES];
    crate::core::ecall::poseidon2(
        padded_input.as_ptr(),
        padded_input.len(),
        output.as_mut_ptr(),
    );
    Poseidon2Hash(output)
""", """    let mut padded_input = Vec::from(input);
    padded_input.push(1);
    while padded_input.len() % RATE != 0 {
        padded_input.push(0);
    }
    poseidon2_hash_no_pad(&padded_input)
"""),
]
R["np_pad"] = [
 (NP, """    let mut padded_input = input.to_vec();
    padded_input.push(1);

    padded_input.resize(padded_input.len().next_multiple_of(RATE), 0);
    let data_fields: Vec<GoldilocksField> = padded_input
        .iter()
        .map(|x| GoldilocksField::from_canonical_u8(*x))
        .collect();

    Poseidon2Hash(
        Plonky2Poseidon2Hash::hash_no_pad(&data_fields)
            .to_bytes()
            .try_into()
            .expect("Output length does not match to DIGEST_BYTES"),
    )
}

/// Hashes the input slice to `Poseidon2Hash`, assuming""", """    let padded_len = (input.len() + 1).next_multiple_of(RATE);
    let mut padded_input = Vec::with_capacity(padded_len);
    padded_input.extend_from_slice(input);
    padded_input.push(1);
    padded_input.resize(padded_len, 0);
    poseidon2_hash_no_pad(&padded_input)
}

/// Hashes the input slice to `Poseidon2Hash`, assuming"""),
]
R["np_loop"] = [
 (NP, """    assert!(input.len() % RATE == 0);
    let data_fields: Vec<GoldilocksField> = input
        .iter()
        .map(|x| GoldilocksField::from_canonical_u8(*x))
        .collect();
""", """    assert_eq!(input.len() % RATE, 0, "input must be a multiple of the rate");
    let mut data_fields: Vec<GoldilocksField> = Vec::with_capacity(input.len());
    for &byte in input {
        data_fields.push(GoldilocksField::from_canonical_u8(byte));
    }
"""),
]
R["nc_send"] = [
 (NC, """        let msg = CrossProgramCall {
            caller: self.get_self_identity(),
            callee: recipient_program,
            argument: rkyv::to_bytes::<_, 256, _>(&argument).unwrap().into(),
            return_: RawMessage::default(), // Unfilled: we have to still resolve it
        };

        // Remember where in the "writer" are we pushing this.
        // This is needed since during the time we spend resolving this
        // `CrossProgramCall`, other elements would be added onto "writer"
        let inserted_idx = self.writer.len();

        // and... insert
        self.writer.push(msg);
""", """        let caller = self.identity_stack.borrow().top_identity();
        let serialized_argument = rkyv::to_bytes::<_, 256, _>(&argument).unwrap();
        self.writer.push(CrossProgramCall {
            caller,
            callee: recipient_program,
            argument: RawMessage::from(serialized_argument),
            return_: RawMessage::default(), // Unfilled: we have to still resolve it
        });
        let inserted_idx = self.writer.len() - 1;
"""),
 (NC, """        self.writer[inserted_idx].return_ =
            rkyv::to_bytes::<_, 256, _>(&resolved_value).unwrap().into();
        self.identity_stack.borrow_mut().rm_identity();
""", """        self.identity_stack.borrow_mut().rm_identity();
        let entry = &mut self.writer[inserted_idx];
        entry.return_ = rkyv::to_bytes::<_, 256, _>(&resolved_value).unwrap().into();
"""),
]
R["id_stack"] = [
 (ID, "    pub fn rm_identity(&mut self) { self.0.truncate(self.0.len().saturating_sub(1)); }", "    pub fn rm_identity(&mut self) { let _ = self.0.pop(); }"),
 (ID, "    pub fn top_identity(&self) -> ProgramIdentifier { self.0.last().copied().unwrap_or_default() }", "    pub fn top_identity(&self) -> ProgramIdentifier {\n        match self.0.last() {\n            Some(id) => *id,\n            None => ProgramIdentifier::default(),\n        }\n    }"),
]
R["ne_canonical"] = [
 (NE, """        let mut canonically_sorted = self
            .temporal_ordering
            .iter()
            .zip(0usize..)
            .map(|((_, canonical_event), idx)| (*canonical_event, idx))
            .collect::<Vec<(CanonicalEvent, usize)>>();
        canonically_sorted.sort();
        canonically_sorted
""", """        let mut canonically_sorted: Vec<(CanonicalEvent, usize)> = Vec::new();
        for (idx, (_, canonical_event)) in self.temporal_ordering.iter().enumerate() {
            canonically_sorted.push((*canonical_event, idx));
        }
        canonically_sorted.sort_unstable();
        canonically_sorted
"""),
 (NE, """            for (index, &position) in original_ordering.iter().enumerate() {
                reversed_ordering[position as usize] = u32::try_from(index).unwrap();
            }
""", """            for index in 0..original_ordering.len() {
                let position = original_ordering[index] as usize;
                reversed_ordering[position] = index as u32;
            }
"""),
]
R["ne_emit"] = [
 (NE, """        self.writer.entry(self_id).or_default().push_temporal(event);
""", """        let events = self.writer.entry(self_id).or_insert_with(OrderedEvents::default);
        events.push_temporal(event);
"""),
 (NE, """        let canonical_repr = CanonicalEvent::from_event(&event);
        self.temporal_ordering.push((event, canonical_repr));
""", """        let pair = (event.clone(), CanonicalEvent::from_event(&event));
        self.temporal_ordering.push(pair);
"""),
 (NE, """        canonical_ordering
            .into_iter()
            .zip(reversed_indices)
            .map(|((canonical_event, _), idx)| CanonicalOrderedTemporalHints(canonical_event, idx))
            .collect::<Vec<CanonicalOrderedTemporalHints>>()
""", """        let mut out = Vec::with_capacity(canonical_ordering.len());
        for (i, (canonical_event, _)) in canonical_ordering.into_iter().enumerate() {
            out.push(CanonicalOrderedTemporalHints(canonical_event, reversed_indices[i]));
        }
        out
"""),
]
R["ne_hash"] = [
 (NE, """        let canonical_ordered_events = self.get_canonical_ordering();
        let hashes_with_addr = canonical_ordered_events
            .iter()
            .map(|(event, _)| {
                (
                    u64::from_le_bytes(event.address.inner()),
                    event.canonical_hash(),
                )
            })
            .collect::<Vec<_>>();
        crate::common::merkle::merkleize(hashes_with_addr)
""", """        let leaf = |event: &CanonicalEvent| {
            let addr = u64::from_le_bytes(event.address.inner());
            (addr, event.canonical_hash())
        };
        crate::common::merkle::merkleize(
            self.get_canonical_ordering()
                .into_iter()
                .map(|(event, _)| leaf(&event))
                .collect(),
        )
"""),
]
R["ni_write"] = [
 (NI, """        self.writer.entry(self_id).or_default().0.extend(buf);

        Ok(buf.len())
""", """        let tape = self.writer.entry(self_id).or_default();
        tape.0.extend_from_slice(buf);

        let written = buf.len();
        Ok(written)
"""),
]
R["ph_twoone"] = [
 (PH, "        poseidon2_hash_no_pad(array_util::flatten(&[l.0, r.0]))\n", "        let mut both = [0u8; 2 * DIGEST_BYTES];\n        both[..DIGEST_BYTES].copy_from_slice(&l.0);\n        both[DIGEST_BYTES..].copy_from_slice(&r.0);\n        poseidon2_hash_no_pad(&both)\n"),
 (PH, """        assert_eq!(value.len(), DIGEST_BYTES);
        <&[u8] as TryInto<[u8; DIGEST_BYTES]>>::try_into(&value[0..DIGEST_BYTES])
            .expect("Vec<u8> must have exactly {DIGEST_BYTES} elements")
            .into()
""", """        assert_eq!(value.len(), DIGEST_BYTES);
        let mut bytes = [0u8; DIGEST_BYTES];
        bytes.copy_from_slice(&value);
        Poseidon2Hash(bytes)
"""),
]
R["ph_u64s"] = [
 (PH, """        let flat_vec: Vec<u8> = value.into_iter().flat_map(u64::to_le_bytes).collect();
        flat_vec.into()
""", """        let mut flat_vec = Vec::with_capacity(DIGEST_BYTES);
        for word in value {
            flat_vec.extend_from_slice(&word.to_le_bytes());
        }
        Self::from(flat_vec)
"""),
 (PH, """        let mut i = 0;
        while i < v.len() {
            r.0[i] = v[i];
            i += 1;
        }
        r
""", """        let mut i = v.len();
        while i > 0 {
            i -= 1;
            r.0[i] = v[i];
        }
        r
"""),
]
R["te_hash"] = [
 (TE, """        let data_to_hash: [u8; LEN] = array_concat::concat_arrays!(
            u64::from(self.type_ as u8).to_le_bytes(),
            self.address.inner(),
            self.value.inner()
        );
        poseidon2_hash_no_pad(&data_to_hash)
""", """        let mut data_to_hash = [0u8; LEN];
        data_to_hash[0] = self.type_ as u8;
        data_to_hash[U64_LEN..U64_LEN + STATE_TREE_DEPTH].copy_from_slice(&self.address.inner());
        data_to_hash[U64_LEN + STATE_TREE_DEPTH..].copy_from_slice(&self.value.inner());
        poseidon2_hash_no_pad(&data_to_hash)
"""),
]
R["te_hash2"] = [
 (TE, """        let data_to_hash: [u8; LEN] = array_concat::concat_arrays!(
            u64::from(self.type_ as u8).to_le_bytes(),
            self.address.inner(),
            self.value.inner()
        );
        poseidon2_hash_no_pad(&data_to_hash)
""", """        let mut data_to_hash: Vec<u8> = Vec::with_capacity(LEN);
        let type_word = u64::from(self.type_ as u8);
        data_to_hash.extend_from_slice(&type_word.to_le_bytes());
        data_to_hash.extend(self.address.inner());
        data_to_hash.extend(self.value.inner());
        poseidon2_hash_no_pad(&data_to_hash)
"""),
]
R["ce_wrap"] = [
 (CE, """pub fn ioread_private(buf: &mut [u8]) {
    unsafe {
        core::arch::asm!(
            "ecall",
            in ("a0") PRIVATE_TAPE,
            in ("a1") buf.as_mut_ptr(),
            in ("a2") buf.len(),
        );
    }
}
""", """pub fn ioread_private(buf: &mut [u8]) {
    let dest = buf.as_mut_ptr();
    let len = buf.len();
    unsafe {
        core::arch::asm!(
            "ecall",
            in ("a2") len,
            in ("a1") dest,
            in ("a0") PRIVATE_TAPE,
        );
    }
}
"""),
 (CE, """pub fn ioread_public(buf: &mut [u8]) {
    unsafe {
        core::arch::asm!(
        "ecall",
        in ("a0") PUBLIC_TAPE,
        in ("a1") buf.as_mut_ptr(),
        in ("a2") buf.len(),
        );
    }
}

#[cfg(target_os = "mozakvm")]
pub fn call_tape_read(buf: &mut [u8]) {
    unsafe {
        core::arch::asm!(
        "ecall",
        in ("a0") CALL_TAPE,
        in ("a1") buf.as_mut_ptr(),
        in ("a2") buf.len(),
        );
    }
}
""", """pub fn ioread_public(buf: &mut [u8]) { tape_read(PUBLIC_TAPE, buf) }

#[cfg(target_os = "mozakvm")]
#[inline(always)]
fn tape_read(id: u32, buf: &mut [u8]) {
    unsafe {
        core::arch::asm!(
        "ecall",
        in ("a0") id,
        in ("a1") buf.as_mut_ptr(),
        in ("a2") buf.len(),
        );
    }
}

#[cfg(target_os = "mozakvm")]
pub fn call_tape_read(buf: &mut [u8]) { tape_read(CALL_TAPE, buf) }
"""),
]
