C="circuits/src/"
EX="expr/src/lib.rs"; OPS="expr/src/ops.rs"; CE=C+"expr.rs"; CT=C+"cross_table_lookup.rs"; LC=C+"linear_combination.rs"; LT=C+"linear_combination_typed.rs"
PS=C+"public_sub_table.rs"; CC=C+"cpu/columns.rs"; CS=C+"cpu/stark.rs"; BR=C+"cpu/branches.rs"; JA=C+"cpu/jalr.rs"; MU=C+"cpu/mul.rs"; MS=C+"memory/stark.rs"; SD=C+"storage_device/stark.rs"
XS=C+"xor/stark.rs"; RC=C+"rangecheck/columns.rs"; BS=C+"bitshift/stark.rs"
R = {}
R["ex_binop_nested"] = [(EX, """        match (lhs, rhs) {
            (Expr::Basic { value: left }, Expr::Basic { value: right }) =>
                Expr::from(PureEvaluator::default().bin_op(op, left, right)),
            (left @ Expr::Compound { builder, .. }, right)
            | (left, right @ Expr::Compound { builder, .. }) => builder.wrap(builder.bin_op(
                op,
                builder.ensure_interned(left),
                builder.ensure_interned(right),
            )),
        }
""", """        let builder = match (lhs, rhs) {
            (Expr::Basic { value: left }, Expr::Basic { value: right }) => {
                let folded: i64 = PureEvaluator::default().bin_op(op, left, right);
                return Expr::Basic { value: folded };
            }
            (Expr::Compound { builder, .. }, _) => builder,
            (Expr::Basic { .. }, Expr::Compound { builder, .. }) => builder,
        };
        let left = builder.ensure_interned(lhs);
        let right = builder.ensure_interned(rhs);
        Expr::Compound {
            expr: builder.bin_op(op, left, right),
            builder,
        }
""")]
R["ex_reduce_loop"] = [(EX, """        terms
            .into_iter()
            .rev()
            .fold(Expr::from(0), |acc, term| acc * base + term)
""", """        let mut acc = Expr::from(0);
        for term in terms.into_iter().rev() {
            acc = term + acc * base;
        }
        acc
""")]
R["ex_isbinary"] = [(EX, "        self * (1 - self)\n", "        let complement = Expr::from(1) - self;\n        complement * self\n")]
R["ex_cached_iflet"] = [(EX, """        if !self.value_cache.contains_key(&k) {
            let v = self.expr_tree(expr_tree);
            self.value_cache.insert(k, v);
        }

        *self.value_cache.get(&k).unwrap()
""", """        if let Some(&hit) = self.value_cache.get(&k) {
            return hit;
        }
        let v = self.expr_tree(expr_tree);
        self.value_cache.insert(k, v);
        v
""")]
R["ex_const_match"] = [(EX, """        *self
            .constant_cache
            .entry(k)
            .or_insert_with(|| self.evaluator.constant(k))
""", """        match self.constant_cache.get(&k) {
            Some(v) => *v,
            None => {
                let v = self.evaluator.constant(k);
                self.constant_cache.insert(k, v);
                v
            }
        }
""")]
R["ex_tree_inline"] = [(EX, """            ExprTree::BinOp { op, left, right } => {
                let left = self.compound_expr(*left);
                let right = self.compound_expr(*right);
                self.bin_op(*op, left, right)
            }
            ExprTree::UnaOp { op, expr } => {
                let expr = self.compound_expr(*expr);
                self.una_op(*op, expr)
            }
            ExprTree::Literal { value } => *value,
            ExprTree::Constant { value } => self.constant(*value),
""", """            &ExprTree::Literal { value } => value,
            &ExprTree::Constant { value } => self.constant(value),
            &ExprTree::UnaOp { op, expr: inner } => {
                let inner = self.compound_expr(inner);
                self.una_op(op, inner)
            }
            &ExprTree::BinOp {
                op,
                left: l,
                right: r,
            } => {
                let (l, r) = (self.compound_expr(l), self.compound_expr(r));
                self.bin_op(op, l, r)
            }
""")]
R["ex_frame_fn"] = [(EX, """            local_values: vars
                .get_local_values()
                .iter()
                .map(|&v| self.lit(v))
                .collect(),
            next_values: vars
                .get_next_values()
                .iter()
                .map(|&v| self.lit(v))
                .collect(),
""", """            local_values: self.lits(vars.get_local_values()).into_iter().collect(),
            next_values: self.lits(vars.get_next_values()).into_iter().collect(),
"""), (EX, "    /// Create a `Literal` expression\n", """    fn lits<V: Copy>(&self, values: &[V]) -> Vec<Expr<'_, V>> {
        let mut lits = Vec::with_capacity(values.len());
        for v in values {
            lits.push(self.lit(*v));
        }
        lits
    }

    /// Create a `Literal` expression
""")]
R["ce_packed_loop"] = [(CE, """    let evaluated = cb
        .constraints
        .into_iter()
        .map(|c| c.map(|constraint| evaluator.eval(constraint)))
        .collect::<Vec<_>>();

    for c in evaluated {
        (match c.constraint_type {
            ConstraintType::FirstRow => ConstraintConsumer::constraint_first_row,
            ConstraintType::Always => ConstraintConsumer::constraint,
            ConstraintType::Transition => ConstraintConsumer::constraint_transition,
            ConstraintType::LastRow => ConstraintConsumer::constraint_last_row,
        })(yield_constr, c.term);
    }
""", """    for c in cb.constraints {
        let value = evaluator.eval(c.term);
        match c.constraint_type {
            ConstraintType::Always => yield_constr.constraint(value),
            ConstraintType::Transition => yield_constr.constraint_transition(value),
            ConstraintType::FirstRow => yield_constr.constraint_first_row(value),
            ConstraintType::LastRow => yield_constr.constraint_last_row(value),
        }
    }
""")]
R["ce_ext_methods"] = [(CE, """        let constraint = constraint.map(|constraint| evaluator.eval(constraint));
        (match constraint.constraint_type {
            ConstraintType::FirstRow => RecursiveConstraintConsumer::constraint_first_row,
            ConstraintType::Always => RecursiveConstraintConsumer::constraint,
            ConstraintType::Transition => RecursiveConstraintConsumer::constraint_transition,
            ConstraintType::LastRow => RecursiveConstraintConsumer::constraint_last_row,
        })(yield_constr, circuit_builder, constraint.term);
""", """        let Constraint {
            constraint_type,
            term,
            ..
        } = constraint;
        let value = evaluator.eval(term);
        match constraint_type {
            ConstraintType::FirstRow => yield_constr.constraint_first_row(circuit_builder, value),
            ConstraintType::Always => yield_constr.constraint(circuit_builder, value),
            ConstraintType::Transition =>
                yield_constr.constraint_transition(circuit_builder, value),
            ConstraintType::LastRow => yield_constr.constraint_last_row(circuit_builder, value),
        }
""")]
R["ce_neg_zero_minus"] = [(CE, """                let neg_one = self.builder.neg_one();
                self.builder.scalar_mul_ext(neg_one, expr)
""", """                let zero = self.builder.zero_extension();
                self.builder.sub_extension(zero, expr)
""")]
R["ct_verify_loop"] = [(CT, """            let looking_zs_sum = looking_tables
                .iter()
                .map(|table| ctl_zs_openings[table.kind].next().unwrap())
                .sum::<F>();

            ensure!(
                looking_zs_sum == F::ZERO,
""", """            let mut looking_zs_sum = F::ZERO;
            for table in looking_tables {
                looking_zs_sum += ctl_zs_openings[table.kind].next().unwrap();
            }

            ensure!(
                looking_zs_sum.is_zero(),
""")]
R["ct_verify_circuit_vec"] = [(CT, """            let looking_zs_sum = builder.add_many(
                looking_tables
                    .iter()
                    .map(|table| *ctl_zs_openings[table.kind].next().unwrap()),
            );

            let zero = builder.zero();

            builder.connect(zero, looking_zs_sum);
""", """            let mut summands: Vec<Target> = vec![];
            for table in looking_tables {
                let opening = ctl_zs_openings[table.kind].next().unwrap();
                summands.push(*opening);
            }
            let total = builder.add_many(summands);
            builder.assert_zero(total);
""")]
R["ct_compose_loop"] = [(CT, """    columns
        .iter()
        .rev()
        .fold(ColumnSparse::default(), |acc, term| {
            acc * challenge.beta + term
        })
        + challenge.gamma
""", """    let GrandProductChallenge { beta, gamma } = challenge;
    let mut acc: ColumnSparse<F> = ColumnSparse::default();
    for term in columns.iter().rev() {
        acc = &acc * beta + term;
    }
    acc + gamma
""")]
R["ct_partial_loop"] = [(CT, """    izip!(multiplicities, inv_data)
        .scan(F::ZERO, |partial_sum: &mut F, (multiplicity, inv)| {
            *partial_sum += multiplicity * inv;
            Some(*partial_sum)
        })
        .collect::<Vec<_>>()
        .into()
""", """    let mut partial_sum = F::ZERO;
    let mut sums = Vec::with_capacity(degree);
    for (multiplicity, inv) in multiplicities.into_iter().zip(inv_data) {
        partial_sum += inv * multiplicity;
        sums.push(partial_sum);
    }
    PolynomialValues::new(sums)
"""), (CT, """    let mut degrees = (0..degree).collect::<Vec<_>>();
    degrees.rotate_right(1);
""", """    let degrees: Vec<usize> = (0..degree).map(|i| (i + degree - 1) % degree).collect();
""")]
R["ct_checks_helper"] = [(CT, """        let combine = |lv: &[P], nv: &[P]| -> P {
            let evals = columns.iter().map(|c| c.eval(lv, nv)).collect::<Vec<_>>();
            challenges.combine(evals.iter())
        };
        let combination = combine(local_values, next_values);
        let multiplicity = |lv: &[P], nv: &[P]| -> P { filter_column.eval(lv, nv) };
        let multiplicity = multiplicity(local_values, next_values);

        // Check value of `Z(1) = filter(w^(n-1))/combined(w^(n-1))`
        consumer.constraint_last_row(*next_z * combination - multiplicity);

        // Check `Z(gw) - Z(w) = filter(w)/combined(w)`
        consumer.constraint_transition((*next_z - *local_z) * combination - multiplicity);
""", """        let evals: Vec<P> = columns
            .iter()
            .map(|c| c.eval(local_values, next_values))
            .collect();
        let combination = challenges.combine(&evals);
        let multiplicity: P = filter_column.eval(local_values, next_values);

        // Check value of `Z(1) = filter(w^(n-1))/combined(w^(n-1))`
        consumer.constraint_last_row(combination * *next_z - multiplicity);

        // Check `Z(gw) - Z(w) = filter(w)/combined(w)`
        let step = *next_z - *local_z;
        consumer.constraint_transition(combination * step - multiplicity);
""")]
R["ct_new_loop"] = [(CT, """        looking_tables.extend(looked_tables.into_iter().map(Neg::neg));
        Self { looking_tables }
""", """        for looked in looked_tables {
            looking_tables.push(-looked);
        }
        CrossTableLookupWithTypedOutput { looking_tables }
""")]
R["lc_eval_loop"] = [(LC, """        self.lv_linear_combination
            .iter()
            .map(|&(c, f)| table[c].values[row] * f)
            .sum::<F>()
            + self
                .nv_linear_combination
                .iter()
                .map(|&(c, f)| table[c].values[(row + 1) % table[c].values.len()] * f)
                .sum::<F>()
            + self.constant
""", """        let mut acc = self.constant;
        for (c, f) in &self.lv_linear_combination {
            acc += *f * table[*c].values[row];
        }
        for &(c, f) in &self.nv_linear_combination {
            let column = &table[c].values;
            let next = if row + 1 == column.len() { 0 } else { row + 1 };
            acc += f * column[next];
        }
        acc
""")]
R["lc_sparse_loop"] = [(LC, """            v.into_iter()
                .enumerate()
                .filter(|(_i, coefficient)| coefficient != &0)
                .collect()
""", """            let mut sparse = vec![];
            for (i, coefficient) in v.into_iter().enumerate() {
                if coefficient == 0 {
                    continue;
                }
                sparse.push((i, coefficient));
            }
            sparse
""")]
R["lc_circuit_helper"] = [(LC, """        let pairs = chain!(
            self.lv_linear_combination
                .iter()
                .map(|&(c, f)| { (v[c], f) }),
            self.nv_linear_combination
                .iter()
                .map(|&(c, f)| { (next_v[c], f) })
        )
        .map(|(v, f)| {
            (
                v,
                builder.constant_extension(F::Extension::from_noncanonical_i64(f)),
            )
        })
        .collect_vec();
""", """        let mut pairs = Vec::new();
        for (row, combination) in [
            (v, &self.lv_linear_combination),
            (next_v, &self.nv_linear_combination),
        ] {
            for &(column, coefficient) in combination {
                let coefficient = F::Extension::from_noncanonical_i64(coefficient);
                pairs.push((row[column], builder.constant_extension(coefficient)));
            }
        }
""")]
R["lc_sub_zip"] = [(LC, "    fn sub(self, other: Self) -> Self::Output { self + other.neg() }", "    fn sub(self, other: Self) -> Self::Output {\n        let negated = other.map(|c| -c);\n        negated + self\n    }")]
R["lt_diff"] = [(LT, "    pub fn diff(self) -> Self { self.flip() - self }", "    pub fn diff(self) -> Self {\n        let next = self.flip();\n        next - self\n    }"),
 (LT, """        ColumnWithTypedInput {
            lv_linear_combination: self.nv_linear_combination,
            nv_linear_combination: self.lv_linear_combination,
            constant: self.constant,
        }
""", """        let ColumnWithTypedInput {
            lv_linear_combination,
            nv_linear_combination,
            constant,
        } = self;
        ColumnWithTypedInput {
            lv_linear_combination: nv_linear_combination,
            nv_linear_combination: lv_linear_combination,
            constant,
        }
""")]
R["ps_getvalues_loop"] = [(PS, """        let columns_if_filter_at_i = |i| -> Option<Vec<F>> {
            filter.eval_table(trace_table, i).is_one().then_some(
                columns
                    .iter()
                    .map(|column| column.eval_table(trace_table, i))
                    .collect_vec(),
            )
        };
        (0..trace_table[0].len())
            .filter_map(columns_if_filter_at_i)
            .collect_vec()
""", """        let mut rows = Vec::new();
        for i in 0..trace_table[0].len() {
            if filter.eval_table(trace_table, i) == F::ONE {
                let mut row = Vec::with_capacity(columns.len());
                for column in &columns {
                    row.push(column.eval_table(trace_table, i));
                }
                rows.push(row);
            }
        }
        rows
""")]
R["cc_signed_helper"] = [(CC, """            is_op1_signed: matches!(
                inst.op,
                Op::SLT | Op::DIV | Op::REM | Op::MULH | Op::MULHSU | Op::BLT | Op::BGE | Op::SRA
            )
            .into(),
            is_op2_signed: matches!(
                inst.op,
                Op::SLT | Op::DIV | Op::REM | Op::MULH | Op::BLT | Op::BGE
            )
            .into(),
            is_dst_signed: matches!(inst.op, Op::LB | Op::LH).into(),
""", """            is_op1_signed: u32::from(
                both_signed(inst.op) || matches!(inst.op, Op::MULHSU | Op::SRA),
            ),
            is_op2_signed: u32::from(both_signed(inst.op)),
            is_dst_signed: u32::from(inst.op == Op::LB || inst.op == Op::LH),
"""), (CC, "impl From<(u32, mozak_runner::instruction::Instruction)> for Instruction<u32> {", """fn both_signed(op: Op) -> bool {
    match op {
        Op::SLT | Op::DIV | Op::REM | Op::MULH | Op::BLT | Op::BGE => true,
        _ => false,
    }
}

impl From<(u32, mozak_runner::instruction::Instruction)> for Instruction<u32> {"""),
]
R["cc_rc_vec"] = [(CC, """    .into_iter()
    .map(|(columns, filter)| CpuTable::new(RangeCheckCtl(columns), filter))
    .collect()
}

/// Lookup for Xor stark.""", """    .map(|(columns, filter)| CpuTable::new(RangeCheckCtl(columns), filter))
    .to_vec()
}

/// Lookup for Xor stark."""),
 (CC, "        (CPU.quotient_value, divs),\n        (CPU.remainder_value, divs),\n        (CPU.remainder_slack, divs),\n        (CPU.dst_value, ops.add + ops.sub + ops.jalr),\n        (CPU.inst.pc, ops.jalr),\n", "        (CPU.inst.pc, ops.jalr),\n        (CPU.dst_value, ops.jalr + ops.add + ops.sub),\n        (CPU.remainder_slack, divs),\n        (CPU.remainder_value, divs),\n        (CPU.quotient_value, divs),\n"),
]
R["cc_reg_map"] = [(CC, """    vec![
        CpuTable::new(
            RegisterCtl {
                clk: CPU.clk,
                op: is_read,
                addr: CPU.inst.rs1_selected,
                value: CPU.op1_value,
            },
            CPU.is_running(),
        ),
        CpuTable::new(
            RegisterCtl {
                clk: CPU.clk,
                op: is_read,
                addr: CPU.inst.rs2_selected,
                value: CPU.op2_value_raw,
            },
            CPU.is_running(),
        ),
        CpuTable::new(
            RegisterCtl {
                clk: CPU.clk,
                op: is_write,
                addr: CPU.inst.rd_selected,
                value: CPU.dst_value,
            },
            CPU.is_running(),
        ),
    ]
""", """    let inst = &CPU.inst;
    [
        (is_read, inst.rs1_selected, CPU.op1_value),
        (is_read, inst.rs2_selected, CPU.op2_value_raw),
        (is_write, inst.rd_selected, CPU.dst_value),
    ]
    .into_iter()
    .map(|(op, addr, value)| {
        CpuTable::new(
            RegisterCtl {
                clk: CPU.clk,
                op,
                addr,
                value,
            },
            CPU.is_running(),
        )
    })
    .collect()
""")]
R["cc_storage_sum"] = [(CC, """            op: ColumnWithTypedInput::ascending_sum(storage),
            clk: CPU.clk,
            addr: CPU.io_addr,
            size: CPU.io_size,
        },
        storage.iter().sum(),
""", """            size: CPU.io_size,
            addr: CPU.io_addr,
            clk: CPU.clk,
            op: storage
                .into_iter()
                .zip(0i64..)
                .map(|(selector, i)| selector * i)
                .sum(),
        },
        storage.into_iter().sum(),
""")]
R["cs_order"] = [(CS, """    sub::constraints(lv, &mut constraints);
    bitwise::constraints(lv, &mut constraints);
    branches::comparison_constraints(lv, &mut constraints);
    branches::constraints(lv, &mut constraints);
""", """    branches::constraints(lv, &mut constraints);
    branches::comparison_constraints(lv, &mut constraints);
    bitwise::constraints(lv, &mut constraints);
    sub::constraints(lv, &mut constraints);
"""), (CS, "    ops.into_iter().for_each(|s| cb.always(s.is_binary()));\n", "    for selector in ops.into_iter() {\n        cb.always(selector * (selector - 1));\n    }\n"),
 (CS, "    cb.transition(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));", "    let bumped = lv.inst.pc + 4;\n    let straight = lv.inst.ops.is_running() - lv.inst.ops.is_jumping();\n    cb.transition((bumped - lv.new_pc) * straight);")]
R["br_helper"] = [(BR, """    cb.always(is_blt * lt * (next_pc - branched_pc));
    cb.always(is_blt * (1 - lt) * (next_pc - bumped_pc));
""", """    let to_target = next_pc - branched_pc;
    let to_next = next_pc - bumped_pc;
    let mut select = |selector: Expr<'a, P>, taken: Expr<'a, P>| {
        cb.always(selector * taken * to_target);
        cb.always(selector * (1 - taken) * to_next);
    };
    select(is_blt, lt);
"""), (BR, """    cb.always(is_bge * lt * (next_pc - bumped_pc));
    cb.always(is_bge * (1 - lt) * (next_pc - branched_pc));
""", "    select(is_bge, 1 - lt);\n"), (BR, """    cb.always(ops.beq * (1 - lv.normalised_diff) * (next_pc - branched_pc));
    cb.always(ops.beq * lv.normalised_diff * (next_pc - bumped_pc));
""", "    select(ops.beq, 1 - lv.normalised_diff);\n"), (BR, """    cb.always(ops.bne * lv.normalised_diff * (next_pc - branched_pc));
    cb.always(ops.bne * (1 - lv.normalised_diff) * (next_pc - bumped_pc));
""", "    select(ops.bne, lv.normalised_diff);\n")]
R["ja_closure"] = [(JA, """    cb.always(
        lv.inst.ops.jalr * (destination - return_address) * (destination - wrapped_return_address),
    );
""", """    cb.always(
        (return_address - destination)
            * (lv.inst.ops.jalr * (wrapped_return_address - destination)),
    );
""")]
R["mu_sign"] = [(MU, "pub fn bit_to_sign<P: Copy>(sign_bit: Expr<'_, P>) -> Expr<'_, P> { 1 - 2 * sign_bit }", "pub fn bit_to_sign<P: Copy>(sign_bit: Expr<'_, P>) -> Expr<'_, P> {\n    let not_set = 1 - sign_bit;\n    not_set - sign_bit\n}"),
 (MU, "    cb.always(product_sign * ((1 << 32) * ((1 << 32) - high_limb) - low_limb - op1_abs * op2_abs));", "    let two_pow_32 = 1i64 << 32;\n    let negated = (two_pow_32 - high_limb) * two_pow_32 - low_limb;\n    cb.always((negated - op1_abs * op2_abs) * product_sign);")]
R["ms_rows"] = [(MS, """    constraints.always(lv.is_writable.is_binary());
    constraints.always(lv.is_store.is_binary());
    constraints.always(lv.is_load.is_binary());
    constraints.always(lv.is_init.is_binary());
    constraints.always(lv.is_executed().is_binary());
""", """    let is_executed = lv.is_executed();
    for flag in [
        is_executed,
        lv.is_writable,
        lv.is_store,
        lv.is_load,
        lv.is_init,
    ] {
        constraints.always(flag.is_binary());
    }
"""), (MS, "    constraints.always((1 - nv.is_init) * (nv.addr - lv.addr));\n", "    let carried_over = 1 - nv.is_init;\n    constraints.always(carried_over * (nv.addr - lv.addr));\n"),
 (MS, "    constraints.always((1 - nv.is_init) * (nv.is_writable - lv.is_writable));", "    constraints.always(carried_over * (lv.is_writable - nv.is_writable));"),
 (MS, "lv.addr - i64::from(u32::MAX)", "lv.addr - 0xffff_ffff")]
R["sd_dest"] = [(SD, """    let lv = vars.local_values;
    let nv = vars.next_values;
    let mut constraints = ConstraintBuilder::default();
""", """    let StarkFrameTyped {
        local_values: lv,
        next_values: nv,
        ..
    } = vars;
    let mut constraints = ConstraintBuilder::default();
"""), (SD, "    constraints.transition(lv.ops.is_storage_device * lv.size * (nv.addr - lv.addr));\n    constraints.transition(lv.ops.is_storage_device * lv.size * (nv.size - (lv.size - 1)));\n", "    let nonempty = lv.ops.is_storage_device * lv.size;\n    constraints.transition(nonempty * (nv.addr - lv.addr));\n    constraints.transition(nonempty * (nv.size - lv.size + 1));\n")]
R["xs_zip"] = [(XS, """    for bit_value in chain!(lv.limbs.a, lv.limbs.b, lv.limbs.out) {
        constraints.always(bit_value.is_binary());
    }
""", """    for limbs in [lv.limbs.a, lv.limbs.b, lv.limbs.out] {
        limbs
            .into_iter()
            .for_each(|bit| constraints.always(bit.is_binary()));
    }
"""), (XS, """    for (opx, opx_limbs) in izip![lv.execution, lv.limbs] {
        constraints.always(Expr::reduce_with_powers(opx_limbs, 2) - opx);
    }
""", """    let word = |bits: [Expr<'a, T>; 32]| Expr::reduce_with_powers(bits, 2);
    constraints.always(word(lv.limbs.a) - lv.execution.a);
    constraints.always(word(lv.limbs.b) - lv.execution.b);
    constraints.always(word(lv.limbs.out) - lv.execution.out);
"""), (XS, """    for (a, b, out) in izip!(lv.limbs.a, lv.limbs.b, lv.limbs.out) {
        // Xor behaves like addition in binary field, i.e. addition with wrap-around:
        constraints.always((a + b - out) * (a + b - 2 - out));
    }
""", """    for i in 0..32 {
        let no_carry = lv.limbs.a[i] + lv.limbs.b[i] - lv.limbs.out[i];
        constraints.always(no_carry * (no_carry - 2));
    }
""")]
R["rc_array"] = [(RC, """    let data = RangeCheckCtl(
        (0..4)
            .map(|limb| COL_MAP.limbs[limb] * (1 << (8 * limb)))
            .sum(),
    );
""", "    let data = RangeCheckCtl(ColumnWithTypedInput::reduce_with_powers(\n        COL_MAP.limbs,\n        1 << 8,\n    ));\n"),
 (RC, """    (0..4)
        .map(|limb| RangeCheckTable::new(RangeCheckCtl(COL_MAP.limbs[limb]), COL_MAP.multiplicity))
        .collect()
""", """    COL_MAP
        .limbs
        .into_iter()
        .map(|limb| RangeCheckTable::new(RangeCheckCtl(limb), COL_MAP.multiplicity))
        .collect()
""")]
R["bs_factor"] = [(BS, "    constraints.transition(diff * (diff - 1));", "    constraints.transition(diff.is_binary());"), (BS, "    constraints.transition(nv.multiplier - (1 + diff) * lv.multiplier);", "    let growth = diff * lv.multiplier;\n    constraints.transition(nv.multiplier - lv.multiplier - growth);")]
