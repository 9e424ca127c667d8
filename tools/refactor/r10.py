# Behaviour-preserving edits of the node (block proposer)
BP="node/src/block_proposer.rs"; TX="node/src/block_proposer/transactions.rs"; MA="node/src/block_proposer/matches.rs"; BL="node/src/block_proposer/block.rs"; ST="node/src/block_proposer/state.rs"
R={}
R["n1_tree"]=[(BP,"""        while let Some((pv, pc)) = stack.pop() {
            if pc != c {
                stack.push((pv, pc));
                break;
            }
            v = merge(make_t(pv), make_t(v));
            c += pc;
        }
        stack.push((v, c));
""","""        while stack.last().is_some_and(|(_, pc)| *pc == c) {
            let (pv, pc) = stack.pop().unwrap();
            v = merge(make_t(pv), make_t(v));
            c += pc;
        }
        stack.push((v, c));
""")]
R["n2_tree"]=[(BP,"""    let cap = if i.size_hint().0 == 0 {
        0
    } else {
        i.size_hint().0.ilog2() as usize + 1
    };

    let mut stack: Vec<(R, usize)> = Vec::with_capacity(cap);
""","""    let mut stack: Vec<(R, usize)> = Vec::new();
"""),(BP,"""    let mut v = match (stack.pop(), final_v) {
        (None, None) => return None,
        (Some((pv, _)), None) => pv,
        (None, Some(v)) => return Some(make_ret(v)),
        (Some((pv, _)), Some(v)) => merge(make_t(pv), v),
    };
    while let Some((pv, _)) = stack.pop() {
        v = merge(make_t(pv), make_t(v));
    }
    Some(v)
""","""    let last = stack.pop().map(|(pv, _)| pv);
    let mut v = match final_v {
        Some(v) => match last {
            Some(pv) => merge(make_t(pv), v),
            None => return Some(make_ret(v)),
        },
        None => last?,
    };
    for (pv, _) in stack.into_iter().rev() {
        v = merge(make_t(pv), make_t(v));
    }
    Some(v)
""")]
R["n3_addr"]=[(BP,"""        let (parent, child) = match self.height.cmp(&rhs.height) {
            // LHS and RHS are at the same level
            Ordering::Equal => {
""","""        let lhs_is_parent = self.height > rhs.height;
        let (parent, child) = match self.height.cmp(&rhs.height) {
            // LHS and RHS are at the same level
            Ordering::Equal => {
"""),(BP,"""        let lhs_is_parent = parent == self;

""",""),(BP,"""                return match lhs_lsb.cmp(&rhs_lsb) {
                    Ordering::Less => BranchAddressComparison::RightSibling,
                    Ordering::Equal => BranchAddressComparison::Equal,
                    Ordering::Greater => BranchAddressComparison::LeftSibling,
                };
""","""                if lhs_lsb == rhs_lsb {
                    return BranchAddressComparison::Equal;
                }
                return if lhs_lsb < rhs_lsb {
                    BranchAddressComparison::RightSibling
                } else {
                    BranchAddressComparison::LeftSibling
                };
""")]
R["n4_path"]=[(BP,"""        let dir = if self.addr & msb_mask == zero {
            Dir::Left
        } else {
            Dir::Right
        };

        // Pop the MSB
        self.addr &= msb_mask - one;

        if self.height == 0 {
            debug_assert_eq!(self.addr, zero);
            (None, dir)
        } else {
            self.height -= 1;
            (Some(self), dir)
        }
""","""        let goes_right = (self.addr & msb_mask) != zero;
        let dir = if goes_right { Dir::Right } else { Dir::Left };

        // Pop the MSB
        self.addr &= msb_mask - one;

        let rest = self.height.checked_sub(1).map(|height| Self {
            height,
            addr: self.addr,
        });
        (rest, dir)
"""),(BP,"""        (bits != 0).then(|| Self {
            height: bits - 1,
            addr,
        })
""","""        if bits == 0 {
            return None;
        }
        Some(Self {
            height: bits - 1,
            addr,
        })
""")]
R["n5_parent"]=[(BP,"""        self.addr.0 = u32::try_from(n)
            .ok()
            .and_then(|n| self.addr.0.checked_shr(n))
            .unwrap_or_default();
        self.height += n;
        self
""","""        self.addr.0 = if n >= 64 { 0 } else { self.addr.0 >> n };
        self.height += n;
        self
"""),(BP,"""        let d1 = self.height.saturating_sub(rhs.height);
        let d2 = rhs.height.saturating_sub(self.height);
        self = self.parent(d2);
        rhs = rhs.parent(d1);
""","""        if self.height < rhs.height {
            self = self.parent(rhs.height - self.height);
        } else {
            rhs = rhs.parent(self.height - rhs.height);
        }
""")]
R["n6_event"]=[(BP,"""    Event {
        owner: id.0.to_u64s().map(F::from_noncanonical_u64),
        ty: convert_event_type(e.type_),
        address: u64::from_le_bytes(e.address.0),
        value: e.value.to_u64s().map(F::from_noncanonical_u64),
    }
""","""    let felts = |hash: &mozak_sdk::common::types::Poseidon2Hash| {
        hash.to_u64s().map(|v| F::from_noncanonical_u64(v))
    };
    let value = felts(&e.value);
    let Address(address) = Address::from_state(e.address);
    Event {
        address,
        owner: felts(&id.0),
        ty: convert_event_type(e.type_),
        value,
    }
""")]
R["n7_step"]=[(BP,"""    let chunks = iter.into_iter().chunk_by(|e| e.0.clone());

    std::iter::from_fn(move || {
        chunks
            .into_iter()
            .map(|(address, ts)| {
                let ts = ts.map(|x| x.1);
                let t = reduce_tree(ts, |x| x, |x| x, |l, r| merge(&address, l, r)).unwrap();
                (addr_inc(address), t)
            })
            .next()
    })
""","""    let mut groups: Vec<(A, Vec<T>)> = vec![];
    for (address, t) in iter {
        match groups.last_mut() {
            Some((last, ts)) if *last == address => ts.push(t),
            _ => groups.push((address, vec![t])),
        }
    }
    groups.into_iter().map(move |(address, ts)| {
        let t = reduce_tree(ts, |x| x, |x| x, |l, r| merge(&address, l, r)).unwrap();
        (addr_inc(address), t)
    })
""")]
R["n8_tx"]=[(TX,"""        if let Some(n) = self.insert_program_helper(node, call_address, events, proof)? {
            *node = n;
        }
        Ok(())
""","""        let replacement = self.insert_program_helper(node, call_address, events, proof)?;
        match replacement {
            Some(n) => *node = n,
            None => {}
        }
        Ok(())
"""),(TX,"""                let (call_address, next_node) = match call_address.next() {
                    (call_address, Dir::Left) => (call_address, left.as_mut()),
                    (call_address, Dir::Right) => (call_address, right.as_mut()),
                };
""","""                let (call_address, dir) = call_address.next();
                let next_node = if dir == Dir::Left {
                    left.as_mut()
                } else {
                    right.as_mut()
                };
""")]
R["n9_tx"]=[(TX,"""            // Single case
            (left, right) => {
                let l_hash = left.as_ref().map(EventNode::hash);
                let r_hash = right.as_ref().map(EventNode::hash);
                let proof = leaf_circuit.prove(branch_circuit, l_hash, r_hash).unwrap();
                left.or(right).map(|e| (Either::Left(Cow::Owned(proof)), e))
            }
""","""            // Single cases
            (Some(e), None) => {
                let proof = leaf_circuit
                    .prove(branch_circuit, Some(e.hash()), None)
                    .unwrap();
                Some((Either::Left(Cow::Owned(proof)), e))
            }
            (None, Some(e)) => {
                let hash = e.hash();
                let proof = leaf_circuit.prove(branch_circuit, None, Some(hash)).unwrap();
                Some((Either::Left(Cow::Owned(proof)), e))
            }
""")]
R["n10_tx"]=[(TX,"""    while count > 1 {
        // The left subtree is as large as a full tree can be
        let mid = count.next_power_of_two() / 2;
        addr <<= 1;
        bits += 1;
        if index < mid {
            count = mid;
        } else {
            addr |= 1;
            index -= mid;
            count -= mid;
        }
    }
""","""    while count > 1 {
        // The left subtree is as large as a full tree can be
        let mid = 1 << (usize::BITS - 1 - (count - 1).leading_zeros());
        let right = index >= mid;
        addr = addr * 2 + usize::from(right);
        bits += 1;
        if right {
            index -= mid;
            count -= mid;
        } else {
            count = mid;
        }
    }
"""),(TX,"""    fn proof(&self) -> Either<&ProgramLeafProof, &ProgramBranchProof> {
        match self {
            Self::Branch { proof, .. } => Either::Right(proof),
            Self::Leaf { proof, .. } => Either::Left(proof),
        }
    }
""","""    fn proof(&self) -> Either<&ProgramLeafProof, &ProgramBranchProof> {
        if let Self::Leaf { proof, .. } = self {
            return Either::Left(proof);
        }
        let Self::Branch { proof, .. } = self else {
            unreachable!()
        };
        Either::Right(proof)
    }
""")]
R["n11_ma"]=[(MA,"""            match accum.events.entry(addr) {
                Entry::Vacant(v) => {
                    v.insert(proof);
                }
                Entry::Occupied(mut o) => {
                    let proof = acc_branch.prove(o.get(), &proof).unwrap();
                    *o.get_mut() = Either::Right(proof);
                }
            }
        }
    }
""","""            let proof = match accum.events.remove(&addr) {
                None => proof,
                Some(earlier) => Either::Right(acc_branch.prove(&earlier, &proof).unwrap()),
            };
            accum.events.insert(addr, proof);
        }
    }
"""),(MA,"""            use std::collections::hash_map::Entry;

            // The same""","""            // The same""")]
R["n12_ma"]=[(MA,"""                let acc_proof = match acc_proof {
                    Either::Left(proof) => acc_branch.prove_one(&proof).unwrap(),
                    Either::Right(proof) => proof,
                };

                let (old, new) = objs(addr);
""","""                let (old, new) = objs(addr);
                let acc_proof = acc_proof.either(
                    |proof| acc_branch.prove_one(&proof).unwrap(),
                    |proof| proof,
                );
"""),(MA,"""        match finalized {
            Either::Left(proof) => branch.prove_one(&proof).unwrap(),
            Either::Right(proof) => proof,
        }
""","""        finalized.right_or_else(|proof| branch.prove_one(&proof).unwrap())
"""),(MA,"""        let Some(accum) = self.ongoing_accum.remove(&key) else {
            bail!("Tx {key:?} was not found")
        };
""","""        let accum = match self.ongoing_accum.remove(&key) {
            Some(accum) => accum,
            None => bail!("Tx {key:?} was not found"),
        };
""")]
R["n13_bl"]=[(BL,"""        let Ok(proof) = self
            .aux
            .circuit
            .prove(tx_proof, match_proof, state_proof, &self.proof)
        else {
            bail!("Proofs mismatched")
        };
        self.proof = Either::Right(proof);
        Ok(())
""","""        let circuit = &self.aux.circuit;
        match circuit.prove(tx_proof, match_proof, state_proof, &self.proof) {
            Ok(proof) => {
                self.proof = Either::Right(proof);
                Ok(())
            }
            Err(_) => bail!("Proofs mismatched"),
        }
"""),(BL,"""        match &self.proof {
            Either::Left(p) => p.block_height(),
            Either::Right(p) => p.block_height(),
        }
""","""        self.proof
            .as_ref()
            .either(|p| p.block_height(), |p| p.block_height())
""")]
R["n14_st"]=[(ST,"""        match new {
            Operation::Delete => self.delete_empty_leaf(addr),
            Operation::Read => self.read_empty_leaf(addr),
            Operation::Upsert(object) => self.being_created(addr, object),
        }
""","""        if let Operation::Upsert(object) = new {
            self.being_created(addr, object)
        } else if matches!(new, Operation::Read) {
            self.read_empty_leaf(addr)
        } else {
            self.delete_empty_leaf(addr)
        }
"""),(ST,"""        *child = Some(if let Some(mut child) = child.take() {
            recalc = match""","""        *child = Some(if let Some(mut child) = mem::take(child) {
            recalc = match""")]
R["n15_st"]=[(ST,"""                let leaf = self.create_leaf_helper(addr, new);
                let (left_proof, right_proof) = if dir == Dir::Left {
                    (&leaf.proof, &self.empty_leaf_proof)
                } else {
                    (&self.empty_leaf_proof, &leaf.proof)
                };

                let proof = self.branch_circuits[0]
                    .prove(left_proof, right_proof)
                    .unwrap();
                let leaf = Some(Box::new(SparseMerkleNode::Leaf(leaf)));

                let (left, right) = if dir == Dir::Left {
                    (leaf, None)
                } else {
                    (None, leaf)
                };

                SparseMerkleBranch {
                    height: 0,
                    proof,
                    left,
                    right,
                }
""","""                let leaf = self.create_leaf_helper(addr, new);
                let circuit = &self.branch_circuits[0];
                match dir {
                    Dir::Left => SparseMerkleBranch {
                        height: 0,
                        proof: circuit.prove(&leaf.proof, &self.empty_leaf_proof).unwrap(),
                        left: Some(Box::new(SparseMerkleNode::Leaf(leaf))),
                        right: None,
                    },
                    Dir::Right => SparseMerkleBranch {
                        height: 0,
                        proof: circuit.prove(&self.empty_leaf_proof, &leaf.proof).unwrap(),
                        left: None,
                        right: Some(Box::new(SparseMerkleNode::Leaf(leaf))),
                    },
                }
""")]
