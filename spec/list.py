prop("P01", "Instruction decoding is exact for every 32-bit word",
     "Every 32-bit word decodes to exactly the RV32IM operation, registers and sign-extended immediate that the encoding defines, in the "
     "normalised operand form the machine executes. Every word that is not a supported encoding is rejected with an error that names the "
     "location and the word, and nothing ever panics.",
     ["inputs"], "every 32-bit instruction word at every address",
     "The tests decode a few hundred words; the guarantee is over 2^32 words and every operand, including the reserved encodings in between.",
     ["runner/src/decode.rs", "runner/src/instruction.rs"], [("bit-field extraction and opcode table", "runner/src/decode.rs decode_instruction")],
     AI + "; per-word case split by BDD over the 32 instruction bits, compared with an RV32IM encoding table",
     note="all 2^32 words covered symbolically; the encoding table in /verif is trusted")
prop("P02", "Arithmetic and logic instructions compute the architected result",
     "For every pair of operand values, every arithmetic, logic, shift, comparison, multiply, divide and remainder instruction leaves exactly "
     "the result the instruction-set manual defines in its destination, including division by zero, overflow and shift amounts of 32 and more.",
     ["inputs", "programs"], "all operand values, registers and immediates of every ALU operation",
     "Operand space is 2^64 per instruction; property tests of the machine sample it and are not even built here.",
     ["runner/src/vm.rs"], [("instruction execution", "runner/src/vm.rs execute_instruction and its helpers")],
     AI + "; result terms compared with canonical reference terms", note="terms are canonical bit-vector normal forms; equality is by normal form, never sampled")
prop("P03", "Control flow, zero register and machine-state frame of every step",
     "Every instruction sets the program counter to exactly the architected successor, changes only its destination register (never register "
     "zero), advances the clock once and leaves every other part of the machine state untouched. Machine start-up loads the entry point, "
     "memory image and tapes given to it.",
     ALL, "every instruction, every operand value and every machine state",
     "A stray write shows only in the state component nobody compares; tests check the destination register of sampled programs.",
     ["runner/src/vm.rs", "runner/src/state.rs"], [("instruction execution", "runner/src/vm.rs"), ("state updates", "runner/src/state.rs")],
     AI + "; whole-state frame comparison per instruction", note="unbounded in operands and state; one step at a time, which composes over histories")
prop("P04", "Memory is little-endian, wraps at 2^32 and never changes where read-only",
     "A store changes exactly the addressed bytes in little-endian order, a load returns exactly the last bytes stored there (zero where "
     "nothing was ever stored) with the architected sign or zero extension, and addresses wrap modulo 2^32. A store that touches read-only "
     "memory never takes effect.",
     ALL, "all addresses, values, memory contents and read-only sets",
     "Aliasing, wrap-around and read-only overlap are corner cases of a 2^32 address space.",
     ["runner/src/state.rs", "runner/src/vm.rs"], [("byte-addressed memory", "runner/src/state.rs StateMemory, load/store"), ("load and store instructions", "runner/src/vm.rs")],
     AI + "; symbolic array domain with store forwarding", note="unbounded in addresses and contents")
prop("P05", "The execution record tells the prover exactly what each step did",
     "For every executed step the record holds the state before the step, the instruction, the operand values as read, the destination value, "
     "the memory access and the next program counter actually used. Execution stops only at a halt, keeps every step in order and reports the final state.",
     ["programs", "histories"], "every instruction, state and run length",
     "The proof system consumes the record; a wrong record field leaves execution results, which tests look at, intact.",
     ["runner/src/vm.rs", "runner/src/state.rs"], [("step record", "runner/src/vm.rs execute_instruction, step"), ("auxiliary record", "runner/src/state.rs Aux, MemEntry")],
     AI + "; the run loop is summarised as a fixpoint equation and compared with the reference loop", note="loop summarised for every length")
prop("P06", "Environment calls are dispatched identically by guest and host",
     "Every environment-call number the guest library issues selects the matching host service with its arguments in the registers the host "
     "reads; halting stops the machine in place, panicking never returns (its message, like a logged one, is the bytes the guest points to), and unknown numbers only advance the program counter. Register names are those of the "
     "RISC-V calling convention, and no wrapper lets the machine write past its buffer.",
     ALL, "all call numbers and argument values, on both sides of the guest/host boundary",
     "The guest half only exists for the VM target and no test runs guest and host together here.",
     ["sdk/src/core/ecall.rs", "sdk/src/core/reg_abi.rs", "runner/src/ecall.rs"],
     [("guest wrappers", "sdk/src/core/ecall.rs"), ("host dispatcher", "runner/src/ecall.rs ecall")],
     AI + " of the dispatcher for every call number; operands extracted from the guest's inline assembly",
     note="call numbers exhaustive (named ones and one symbolic class for all others)")
prop("P07", "Tape reads deliver the next unread bytes of the right tape, exactly once",
     "A tape read copies the next unread bytes of the selected tape, at most as many as requested and as remain, to the guest buffer, moves only that "
     "tape's cursor by the number delivered and reports that number and those bytes to the prover. Commitment and identity tapes always "
     "deliver their bytes from the start, and reading past the end delivers nothing more.",
     ["inputs", "histories"], "every tape, cursor position, request length and buffer address",
     "The interesting cases are short reads, empty tapes and repeated reads across several tapes, which tests hit only in fixed combinations.",
     ["runner/src/ecall.rs", "runner/src/state.rs"], [("tape read service", "runner/src/ecall.rs ecall_read"), ("cursor arithmetic", "runner/src/state.rs read_bytes")],
     AI + "; every cursor/request/length combination up to a bound with symbolic contents and addresses",
     note="tape contents, buffer address and memory symbolic; tape length and request enumerated up to the bound given in the evidence")
prop("P08", "The hash call hashes exactly the guest's bytes and records what it did",
     "The hash call absorbs exactly the requested input bytes in order, stores the 32 digest bytes at the output address and nowhere else, and hands the prover "
     "the addresses, length and every permutation input and output in order with only the last one marked as producing the digest.",
     ["inputs", "programs"], "all pointers, memory contents and input lengths",
     "Absorption order, overlapping buffers, address wrap and the per-block trace are invisible in a digest comparison on one fixed string.",
     ["runner/src/poseidon2.rs"], [("hash call and sponge", "runner/src/poseidon2.rs")],
     AI + " with the permutation uninterpreted", note="pointers and memory symbolic; block counts enumerated to a bound, the block loop being uniform")
prop("P09", "Program images are validated, classified and loaded exactly",
     "A program file is accepted exactly when it is a 32-bit little-endian RISC-V executable with an aligned entry point and a sensible segment table. "
     "Every loadable segment appears at its address, file bytes first and zeros up to its memory size; segments go to read-only data, read-write data and code by "
     "their access flags alone, and code holds the decoding of every word of every executable segment. Images given as words are laid out little-endian and refused "
     "when words overlap.",
     ["inputs"], "every program file: all segment types, flags, sizes, addresses and contents",
     "Only one fixed program file is loaded by the tests; classification and zero filling depend on flag and size combinations it does not have.",
     ["runner/src/elf.rs", "runner/src/code.rs"], [("validation, classification and loading", "runner/src/elf.rs"), ("code map", "runner/src/code.rs From<&HashMap<u32, u8>> for Code")],
     AI + "; acceptance condition compared as a BDD, segment kinds enumerated exhaustively with symbolic contents and addresses, code map as a comprehension",
     note="the ELF byte parser itself is the external elf crate; segment sizes enumerated for three file/memory size relations")
prop("P10", "Guest calls abide by the committed call tape",
     "In the guest a program sends or receives a cross-program message only if the next unconsumed tape message says exactly that: right caller, right callee in the cast list, "
     "same argument, and for a send the recorded return value. Each message is consumed once and in order, messages of other programs are skipped, and any deviation panics.",
     ALL, "every call tape, cursor position and sequence of sends and receives",
     "The guest half is compiled only for the VM target, so no test here runs it; a missing check only shows with a dishonest tape.",
     ["sdk/src/mozakvm/calltape.rs"], [("tape-checked send and receive", "sdk/src/mozakvm/calltape.rs CallTape::send, receive")],
     AI + "; acceptance condition and cursor compared as BDDs over symbolic messages", note="tape contents symbolic; tape lengths and cursor positions enumerated to a bound")
prop("P11", "Events are emitted in the order the tape commits to, each exactly once",
     "The guest accepts an emitted event only if it is the event the temporal hint points at, not yet used, of this program; otherwise it panics. On the host, the hints for a recorded sequence of "
     "events list the canonical order (by address as the little-endian number of the event tree, then kind) and map every canonical position to its emission time, so that replaying the emission passes the guest's check.",
     ["inputs", "histories"], "all event sequences and tapes, up to the enumerated length",
     "Permutation bugs vanish on short or already sorted sequences, and the guest half is never compiled by the tests.",
     ["sdk/src/mozakvm/eventtape.rs", "sdk/src/native/eventtape.rs"], [("guest emit", "sdk/src/mozakvm/eventtape.rs"), ("canonical order and temporal hints", "sdk/src/native/eventtape.rs")],
     AI + "; orders enumerated, contents symbolic", note="lengths enumerated to a bound")
prop("P12", "The commitment root is the address-prefix Merkle root of its leaves",
     "The Merkle root over (address, hash) leaves in address order joins leaves by decreasing common address prefix, leaves with equal addresses first pairwise in order; a single leaf is its own root, no leaf gives the zero hash, "
     "and computing it never panics for any addresses.",
     ["inputs"], "all leaf counts up to the bound, all address-prefix patterns (symbolic hashes)",
     "Tree shape depends on address bit patterns, including ones that differ in the top bit; tests use a few small addresses.",
     ["sdk/src/common/merkle.rs"], [("merkleize", "sdk/src/common/merkle.rs merkleize, merkleize_step")],
     AI + "; compared with an independent prefix-tree definition", note="hashes symbolic, addresses enumerated over prefix patterns")
prop("P13", "Guest start-up and clean shutdown agree with the host's tape preparation",
     "Start-up reads identity, call, event, public and private tapes each with its own call and its 4-byte length prefix, and builds the cast list as the sorted distinct callees. A program shuts down "
     "cleanly only if every call and event was consumed and both commitments equal the roots over its events and cast list; the host writes exactly those tapes and roots. Execution "
     "starts with an aligned stack, and the exit code is the first byte of the program's output.",
     ALL, "every tape content, event list and cast list",
     "Host and guest are different build targets that no test here runs together.",
     ["sdk/src/common/system.rs", "sdk/src/core/mod.rs", "cli/src/runner.rs"],
     [("guest start-up and shutdown", "sdk/src/common/system.rs"), ("entry sequence", "sdk/src/core/mod.rs entry!, __start"), ("host tapes", "cli/src/runner.rs raw_tapes_from_system_tape")],
     AI + "; environment calls taken from the inline assembly", note="contents symbolic, list lengths enumerated; serialisation (rkyv) uninterpreted")
prop("P14", "The host records calls and inputs under the program that is running",
     "While a native call resolves, its recipient is the running program, and the caller is again afterwards. The call tape gains caller, recipient, argument and return value at the "
     "position where the call started, ahead of the calls it makes in turn; the resolver runs once. Input bytes are appended to the running program's tape only, never to nobody's, and all tapes share one identity stack.",
     ALL, "every call nesting, identity stack and recorded tape",
     "Nested and repeated calls decide positions and identities; the one existing test makes a single call.",
     ["sdk/src/native/calltape.rs", "sdk/src/native/identity.rs", "sdk/src/native/inputtape.rs", "sdk/src/common/system.rs"],
     [("recording of calls", "sdk/src/native/calltape.rs send"), ("identity stack", "sdk/src/native/identity.rs"), ("input recording", "sdk/src/native/inputtape.rs"), ("shared stack", "sdk/src/common/system.rs SYSTEM_TAPE")],
     AI + "; the resolver is modelled by its effect on the shared tape", note="identities and messages symbolic; stack depth, tape length and nesting enumerated to a bound")
prop("P15", "Guest and host hash the same bytes: padding and canonical encodings",
     "Guest and host builds hand the same bytes to the permutation: padded hashing appends a one byte and zeros to the next multiple of eight, unpadded hashing refuses partial blocks, a parent hash covers left then right, "
     "and an event hashes as kind (8 bytes little-endian, Write 0 to TakeOwner 4), address and digest of its padded data. Digest conversions keep every byte, and an identity parses only from MZK-<hex>.",
     ["inputs"], "every input byte string up to the bound, every event and identity",
     "The two implementations live in different build targets; agreement on a few test strings says nothing about block boundaries.",
     ["sdk/src/mozakvm/poseidon.rs", "sdk/src/native/poseidon.rs", "sdk/src/common/types/event.rs", "sdk/src/common/types/poseidon2hash.rs", "sdk/src/common/types/program_identifier.rs"],
     [("hash wrappers", "sdk/src/{mozakvm,native}/poseidon.rs"), ("event encoding", "sdk/src/common/types/event.rs"), ("digest conversions", "sdk/src/common/types/poseidon2hash.rs")],
     AI + " of both build configurations with the permutation uninterpreted", note="bytes symbolic, lengths enumerated over several blocks")
prop("P16", "Guest memory blocks are aligned, disjoint and above the program image",
     "Every block the guest allocator hands out has the requested power-of-two alignment, starts at the first such address not yet given out (at first, the end of the program image) and the next one starts right behind it; allocation never fails.",
     ["inputs", "histories"], "every heap position, size and alignment, hence every allocation history",
     "The allocator only exists in the VM build; an off-by-one shows only for particular sizes and alignments.",
     ["sdk/src/core/alloc.rs"], [("bump allocator", "sdk/src/core/alloc.rs alloc_aligned, BumpPointerAlloc")],
     AI + "; addresses reduced to canonical bit-level form and compared with rounding up", note="one step from an arbitrary position, which composes over histories; address wrap-around at the top of memory excluded")
prop("P17", "Guest input reads deliver the tape's bytes in order from any position sought",
     "A guest read of the public or private input fills the start of the buffer with the next bytes of that tape, as many as asked for and left, leaves the rest of the buffer alone and reports the count. Seeking, back or ahead, "
     "follows std::io::Seek (at most to the end; before the start is an error) and reading then delivers the bytes at that position; each byte is fetched from the machine once.",
     ALL, "every tape content and size, amount fetched, read position and buffer size up to a bound",
     "The reader exists only in the VM build, and its cache paths depend on the sequence of reads and rewinds.",
     ["sdk/src/mozakvm/inputtape.rs"], [("reader and cache", "sdk/src/mozakvm/inputtape.rs RandomAccessEcallTape")],
     AI + "; environment calls taken from the inline assembly", note="contents symbolic, sizes, positions and seek targets enumerated to a bound")
prop("P18", "Constraint expressions evaluate to the polynomial they are written as",
     "Every expression built with the constraint language means the same polynomial for every evaluator: plain, cached, counting and circuit. Operators and helpers (powers, binary check, Horner reduction) are exact, "
     "frames expose local, next and public values in order, and each constraint reaches the consumer once, in order, as the kind (always, first, last, transition) it was declared.",
     ["inputs"], "all operator instances, all expression shapes up to the enumerated size, all field values",
     "The prover and the recursive circuit use different evaluators; no test in the stable set builds the proving crates at all.",
     ["expr/src/lib.rs", "expr/src/ops.rs", "circuits/src/expr.rs"],
     [("operators and evaluators", "expr/src/lib.rs, ops.rs"), ("stark frame, constraint builder, circuit evaluator", "circuits/src/expr.rs")],
     AI + " in the ring of polynomials over the Goldilocks field", note="expression shapes enumerated to a bound; leaf values are indeterminates, so equality is equality of polynomials")
prop("P19", "Column combinations denote the linear operation that is written",
     "Every named column view is layout-compatible with the flat row it stands for and converts to and from it without moving a column; column maps select exactly the named column; and every operation on linear "
     "combinations of columns (arithmetic, flip, diff, reductions, typed to sparse, evaluation on rows, tables and in the circuit, with next-row wrap-around) computes the linear operation it names.",
     ["inputs"], "all column views, all column positions, all coefficients and column values",
     "Look-ups between tables are built from these; a wrong index or coefficient only shows when a proof of a particular program fails, and the tests that prove are not in the stable set.",
     ["circuits/src/columns_view.rs", "circuits/src/linear_combination.rs", "circuits/src/linear_combination_typed.rs"],
     [("column views and maps", "circuits/src/columns_view.rs and every columns_view_impl!/make_col_map!"), ("typed and sparse combinations", "circuits/src/linear_combination{,_typed}.rs")],
     AI + " in the ring of polynomials; struct representation checked on the syntax tree", note="coefficients are indeterminates; sparsity patterns and table heights enumerated; panics on i64 coefficient overflow are outside the property")
prop("P20", "Look-ups between tables are a sound multiset argument on every side",
     "Running sums, their first-row and step constraints (packed and circuit), the order in which prover, verifier and recursive verifier pair openings with look-ups, and the acceptance conditions all describe one argument: "
     "for each challenge, filter/(gamma + sum x_i beta^i) summed over rows is zero per look-up and equals the public values per public sub table. Looked tables count negatively.",
     ["inputs"], "all traces, challenges and openings (as indeterminates), all tables",
     "Prover and verifiers walk the look-ups independently; an argument that is merely weaker still accepts every honest proof, so no test can see it.",
     ["circuits/src/cross_table_lookup.rs", "circuits/src/public_sub_table.rs", "circuits/src/stark/permutation.rs"],
     [("look-ups", "circuits/src/cross_table_lookup.rs"), ("public sub tables", "circuits/src/public_sub_table.rs"), ("challenges", "circuits/src/stark/permutation.rs")],
     AI + " in the field of rational functions; acceptance as a Boolean function of symbolic equalities", note="numbers of look-ups, columns, rows and challenges enumerated to a bound")
prop("P21", "Processor constraint tables admit exactly correct execution steps",
     "The constraints of the main processor table, the step skeleton and the addition table, in the prover's and the recursive verifier's evaluation alike, are exactly the specified ones: one operation per row, "
     "selected registers and operands, the result of every operation tied to operands and helper columns, program counter and clock advance, start and halt. No condition is missing and none rejects valid rows.",
     ["inputs"], "all rows (column values are indeterminates), both evaluators",
     "A missing or weakened constraint leaves every honest proof valid; only a forged trace would show it, and no test builds one.",
     ["circuits/src/cpu", "circuits/src/cpu_skeleton", "circuits/src/ops/add"],
     [("processor constraints", "circuits/src/cpu/*.rs"), ("skeleton", "circuits/src/cpu_skeleton/stark.rs"), ("addition", "circuits/src/ops/add/stark.rs")],
     AI + " in the ring of polynomials; per row kind, the linear span of the extracted constraints is compared with that of a specification", note="exact polynomials; that the specified constraints imply correct execution is a pen-and-paper argument (DESIGN)")
prop("P22", "Memory, register and tape tables admit exactly consistent histories",
     "The constraints of the memory, half-word, full-word, initial-memory, zero-initialisation, register, tape and tape-commitment tables, in both evaluations, are exactly the specified ones: sorted addresses and clocks, "
     "reads return the last value written, initialisation precedes use, multi-byte accesses decompose little-endian, read-only memory is not written, tape positions advance by one.",
     ["inputs", "programs"], "all rows (column values are indeterminates), both evaluators",
     "Dropping one ordering constraint lets a forged trace read values that were never written while every honest proof still verifies.",
     ["circuits/src/memory", "circuits/src/memory_halfword", "circuits/src/memory_fullword", "circuits/src/memoryinit", "circuits/src/memory_zeroinit", "circuits/src/register", "circuits/src/storage_device", "circuits/src/tape_commitments"],
     [("memory", "circuits/src/memory*/stark.rs"), ("registers", "circuits/src/register/general/stark.rs"), ("tapes", "circuits/src/storage_device/stark.rs, tape_commitments/stark.rs")],
     AI + " in the ring of polynomials; per row kind, the linear span of the extracted constraints is compared with that of a specification", note="exact polynomials")
prop("P23", "Coprocessor tables admit exactly correct results",
     "The constraints of the xor, shift-amount, byte-range, hash-permutation, sponge and output-byte tables, in both evaluations, are exactly the specified ones: bit and byte decompositions, powers of two, every S-box and "
     "linear layer of the permutation, sponge absorption, addresses and lengths. No intermediate value is left for the prover to choose.",
     ["inputs"], "all rows (column values are indeterminates), both evaluators",
     "Helper columns that no constraint ties down accept every honest proof and every forged one; the missing cubes of the S-boxes repaired here are an instance.",
     ["circuits/src/xor", "circuits/src/bitshift", "circuits/src/rangecheck_u8", "circuits/src/poseidon2", "circuits/src/poseidon2_sponge", "circuits/src/poseidon2_output_bytes"],
     [("xor, shift and ranges", "circuits/src/xor/stark.rs, bitshift/stark.rs, rangecheck_u8/stark.rs"), ("hash", "circuits/src/poseidon2*/stark.rs")],
     AI + " in the ring of polynomials; per row kind, the linear span of the extracted constraints is compared with that of a specification", note="round constants and the internal diagonal are the external library's, taken as distinct unknown constants")
prop("P24", "Tables are wired to each other by exactly the specified look-ups",
     "Every step, memory and register access, range, gadget operand, program row, tape call, hash and commitment of every table is accounted for by a look-up with the specified columns and filter, and nothing else is; the two commitments are public. "
     "Instructions map to selectors, signedness and operands faithfully, and distinct ones to distinct program rows.",
     ["inputs", "programs"], "all look-ups, tables and public columns; all operations; all operand values",
     "A look-up that is missing or has too narrow a filter accepts every honest proof; five such holes were found and repaired here.",
     ["circuits/src/stark/mozak_stark.rs", "circuits/src/cpu/columns.rs", "circuits/src/program/columns.rs", "circuits/src/storage_device/columns.rs", "circuits/src/memory/columns.rs"],
     [("look-ups", "circuits/src/stark/mozak_stark.rs Lookups impls and MozakStark::default"), ("columns and filters", "circuits/src/*/columns.rs, circuits/src/ops"), ("program rows", "circuits/src/program/columns.rs")],
     AI + " over affine forms of columns; compared with a specification up to order of look-ups, tables, columns and overall sign", note="two known findings: LB/LBU and LH/LHU share a program row")
prop("P25", "Provers commit, challenge, combine and open in the order of the argument",
     "Both provers commit to every table's columns, running sums and quotient pieces, open each at the sampled point, one row later and on the last row, and put those commitments and values in the proof. "
     "Every challenge depends on all it has to bind: look-up challenges on all traces, combination challenges on running sums, the sampled point on quotients, opening challenges on opened values; verifiers derive the same.",
     ["inputs", "programs"], "all traces (columns are indeterminates); table sizes and numbers of challenges from enumerated patterns",
     "A challenge drawn before what it has to bind, or a value never opened, leaves every honest proof valid; only a prover that exploits it would show it.",
     ["circuits/src/stark/prover.rs", "circuits/src/stark/batch_prover.rs", "circuits/src/stark/proof.rs", "circuits/src/stark/permutation.rs", "circuits/src/stark/utils.rs"],
     [("single proofs", "circuits/src/stark/prover.rs prove_with_traces, prove_single_table"), ("batched proofs", "circuits/src/stark/batch_prover.rs batch_prove"), ("transcript", "circuits/src/stark/proof.rs get_challenges")],
     AI + "; commitments, sponge and opening arguments are symbols that remember what went into them", note="four known findings: public inputs and public column values are not in the transcript")
prop("P26", "Verifiers accept exactly the proofs that meet the conditions of the argument",
     "The native verifiers, single and batched, accept a proof iff every quotient identity, every opening argument, the look-up balance and the program identity hold, and reject openings of any other shape. "
     "The verifying circuits enforce the same conditions on inputs their provers assign completely, and expose entry point, program identity and public values. Quotients are the combined constraints on the coset.",
     ["inputs"], "all proofs (openings, commitments and identities are indeterminates); table sizes and numbers of challenges from enumerated patterns",
     "A dropped condition or an unchecked shape accepts every honest proof; a forged one is needed to notice, and the tests build none.",
     ["circuits/src/stark/verifier.rs", "circuits/src/stark/batch_verifier.rs", "circuits/src/stark/recursive_verifier.rs", "circuits/src/stark/poly.rs", "circuits/src/stark/proof.rs"],
     [("native", "circuits/src/stark/verifier.rs verify_proof, batch_verifier.rs batch_verify_proof"), ("circuits", "circuits/src/stark/recursive_verifier.rs"), ("quotients", "circuits/src/stark/poly.rs")],
     AI + "; the acceptance condition is a BDD over symbolic identities and opening checks, compared with that of the specification", note="the opening argument itself is the external library's")
prop("P27", "The prover's tables hold exactly what was executed",
     "From any execution record and program, every table the prover fills lists exactly the steps, accesses, gadget uses, hashes and tape calls that took place, once each and in order, with every column (operands, results, carries, inverses, "
     "quotients, multiplicities, flags) at its specified value, padded by rows that claim nothing; each table is fed from the tables it depends on.",
     ["inputs", "programs", "histories"], "all operand, register, memory and tape values (symbolic); lengths, addresses, clocks and mixtures of instructions from enumerated scenarios",
     "A helper column that is wrong for one combination of operands makes an honest run unprovable; `-31 / -1` was such a case, and no fixed set of programs meets them all.",
     ["circuits/src/generation.rs", "circuits/src/cpu/generation.rs", "circuits/src/memory/generation.rs", "circuits/src/register/generation.rs", "circuits/src/rangecheck/generation.rs", "circuits/src/poseidon2/generation.rs"],
     [("processor", "circuits/src/cpu/generation.rs, cpu_skeleton/generation.rs, ops"), ("program and gadgets", "circuits/src/program/generation.rs, xor/generation.rs, bitshift/generation.rs"),
      ("memory", "circuits/src/memory*/generation.rs, memory/columns.rs"), ("registers and ranges", "circuits/src/register/generation.rs, rangecheck*/generation.rs"),
      ("tapes and hashes", "circuits/src/storage_device/generation.rs, tape_commitments/generation.rs, poseidon2*/generation.rs"), ("wiring", "circuits/src/generation.rs, stark/utils.rs")],
     AI + " over embedded machine integers; every generated row is compared with a specification", note="scenarios fix addresses, clocks and numbers of rows where the code sorts by them")
RECNOTE = "the gadgets of the external circuit builder and its proof system are trusted; circuit sizes are not modelled"
RECTECH = AI + " running the circuit constructors on a symbolic builder; the span of the constraints over all targets is compared with that of a specification"
prop("P28", "State-update circuits prove exactly a sparse change of the state tree",
     "A leaf proves that one object's hash changes from old to new and summarises it, or that it does not change; a branch combines two of the next lower height. "
     "Roots, summary and address are those of the children, present addresses fit their positions, and nothing else is constrained. Provers assign every input the value asked for; accessors read what they are named for.",
     ["inputs"], "all values of all targets (indeterminates); leaves and branches of either kind of child",
     "A missing connection accepts every honest proof; only a forged proof shows it, and each circuit admits infinitely many.",
     ["recproofs/src/circuits/state_update.rs", "recproofs/src/subcircuits", "recproofs/src/indices.rs", "recproofs/src/lib.rs"],
     [("circuit", "recproofs/src/circuits/state_update.rs"), ("parts", "recproofs/src/subcircuits/{bounded,summarized,unpruned,verify_address}.rs"), ("layout", "recproofs/src/indices.rs")], RECTECH, note=RECNOTE)
prop("P29", "Event-root and merge circuits hash and merge exactly the listed events",
     "An event leaf's root is the hash of the event and its second root the byte-wise hash the guest computes; a branch hashes its children's, keeps the owner, and admits a single child only in both roots alike. "
     "A merge proof's third root is that of both, one, or no list, level by level. Natively computed hashes agree, and provers assign every input the value asked for.",
     ["inputs"], "all values of all targets (indeterminates); every kind of event; all mixes of leaves and branches",
     "A root that leaves out one field, or a flag nobody constrains, accepts every honest proof; a forged one is needed to notice.",
     ["recproofs/src/circuits/build_event_root.rs", "recproofs/src/circuits/merge.rs", "recproofs/src/circuits/merge/core.rs", "recproofs/src/subcircuits", "recproofs/src/lib.rs"],
     [("events", "recproofs/src/circuits/build_event_root.rs"), ("merging", "recproofs/src/circuits/merge.rs, merge/core.rs"), ("hashes", "recproofs/src/lib.rs hash_event, byte_wise_hash_event, Event")], RECTECH, note=RECNOTE)
prop("P30", "Events of an object accumulate to one change, matched with its update",
     "An event proof sets exactly the flag and fields of its type. Accumulation adds exclusive flags and credits, joins the others, and makes every field claimed by a child the parent's. "
     "Matching forces ownership to move as a whole, data to change only by writes of the owner, credits by the total, the update stamp by the rule, and hashes exactly the old and new object for the state tree.",
     ["inputs", "histories"], "all values of all targets (indeterminates); all types of event; flags of children enumerated (all pairs in the thorough tier)",
     "Two fields that matching did not tie to the events (repaired here) let anyone rewrite data they do not own while every honest proof still verified.",
     ["recproofs/src/circuits/accumulate_delta.rs", "recproofs/src/circuits/accumulate_delta/core.rs", "recproofs/src/circuits/match_delta.rs", "recproofs/src/circuits/match_delta/core.rs", "recproofs/src/lib.rs"],
     [("events", "recproofs/src/circuits/accumulate_delta.rs, accumulate_delta/core.rs"), ("matching", "recproofs/src/circuits/match_delta.rs, match_delta/core.rs"), ("objects", "recproofs/src/lib.rs Object, hash_object")], RECTECH, note=RECNOTE)
prop("P31", "Programs verify into transactions, and transactions into chained blocks",
     "A program proof is tied to its identity, event roots, call list and cast; a transaction's programs are exactly its cast; a block's events are those of its transactions, matched at its height with the state update it applies, "
     "on the block before it or a base at height zero. Every embedded proof is checked against, and bound to, the intended circuit. Provers assign every input the value asked for.",
     ["inputs", "histories"], "all values of all targets (indeterminates); all mixes of leaves and branches; with and without events; first and later blocks",
     "Every circuit but one accepted proofs whose recursion had been started from a foreign circuit (repaired here); honest proofs never show it.",
     ["recproofs/src/circuits/verify_program.rs", "recproofs/src/circuits/verify_tx.rs", "recproofs/src/circuits/verify_block.rs", "recproofs/src/circuits/merge/embed.rs", "recproofs/src/lib.rs"],
     [("programs", "recproofs/src/circuits/verify_program.rs, verify_program/core.rs"), ("transactions", "recproofs/src/circuits/verify_tx.rs, verify_tx/core.rs, merge/embed.rs"), ("blocks", "recproofs/src/circuits/verify_block.rs, verify_block/core.rs")], RECTECH, note=RECNOTE)
prop("P32", "The state tree answers and proves exactly the block's changes",
     "After any sequence of creations, updates, reads, deletions and block ends, each address reads as it was before the block and as it is now, and the root proof states the root before, the root now and every address touched since. "
     "A block's end leaves only live objects and nothing touched. Exactly contradictory writes of one block (another object after a write, a write after a delete, a delete after a write) are refused.",
     ["histories", "inputs"], "all histories over trees of one to four levels with one to four addresses and one or two objects (reachable states explored to a fixpoint)",
     "A proof left stale beside a pruned branch (repaired here) appears only after a particular history; the tests play a few, and the proposer is not even compiled by them.",
     ["node/src/block_proposer/state.rs", "node/src/block_proposer.rs"],
     [("operations and block ends", "node/src/block_proposer/state.rs State::{new, get_state, apply_operation, finalize}"), ("paths", "node/src/block_proposer.rs AddressPath, Address")],
     "typestate exploration by abstract interpretation: the tree's operations are interpreted from every reachable abstract state to a fixpoint and compared with a map of addresses",
     note="circuits and proofs are terms that remember their inputs; what circuits prove is P28")
prop("P33", "Proposer addresses and event trees follow address prefixes",
     "Parents, children, paths, common ancestors and comparisons of addresses are those of the binary tree of their bits, for all 64-bit addresses. "
     "Trees are reduced in order with the left subtree as large as a full tree can be, items of one address first, then by longest common prefix. Events of the SDK become proof events of the same kind, owner, value and little-endian address.",
     ["inputs"], "heights up to 3 exhaustively (5 in the thorough tier) and the corners of 64-bit addresses; numbers of items and address patterns enumerated",
     "Addresses that differ in their top bit overflowed a shift (repaired here); a tree of another shape shows only with particular counts and addresses.",
     ["node/src/block_proposer.rs"],
     [("addresses", "node/src/block_proposer.rs Address, AddressPath, BranchAddress"), ("trees", "node/src/block_proposer.rs reduce_tree, reduce_tree_by_address"), ("events", "node/src/block_proposer.rs convert_event")],
     AI + "; compared with the definition by prefixes over enumerated places and patterns")
prop("P34", "The proposer proves any casts, in any order, as one chain of blocks",
     "A cast whose members arrive in any order, interleaved with others, completes with its last member; the proof of all complete transactions states exactly their events. "
     "Matches account, per address, for the ready transactions' events, and the object before and after. Foreign, repeated or inconsistent programs, and proofs that do not fit the chain, are refused and leave no trace.",
     ["inputs", "histories"], "casts of 1 to 9 members, all orders up to 3 and five of larger ones, ten event patterns, interleavings of up to five transactions (more in the thorough tier)",
     "Casts of five, six or seven members, and several events of one address, panicked or could not be proven (repaired here); each needs one particular shape of transaction, and the node is never compiled by the tests.",
     ["node/src/block_proposer/transactions.rs", "node/src/block_proposer/matches.rs", "node/src/block_proposer/block.rs"],
     [("transactions", "node/src/block_proposer/transactions.rs TransactionAccumulator"), ("objects", "node/src/block_proposer/matches.rs Matches"), ("blocks", "node/src/block_proposer/block.rs Blocks")],
     AI + " over circuits as checked term operations; the statements of the resulting proofs are compared with a specification",
     note="circuits refuse exactly what P29 to P31 say they refuse; two known findings: events of one address in several programs")
prop("P35", "A signature proves knowledge of the key behind exactly this key and message",
     "The signature circuits (Poseidon, SHA-256, Keccak-256) accept a public key exactly if it is the hash of a private key of 32 bytes known to the signer, with the public key's and the message's bytes, in order, as the only public inputs. "
     "Every owner of a private key can sign under the public key hash_private_key gives. A signature verifies exactly when its proof does.",
     ["inputs"], "all private keys, public keys and messages, in all three signers",
     "Digests with a word above the field's order, one in 2^30, gave a public key nobody could sign for (repaired here); tests sign with random keys.",
     ["signatures/src/zk_friendly/sig.rs", "signatures/src/zk_friendly/utils.rs", "signatures/src/zk_friendly/sha256.rs", "signatures/src/zk_friendly/keccak256.rs", "signatures/src/zk_friendly/poseidon.rs"],
     [("sign, verify", "signatures/src/zk_friendly/sig.rs Signature"), ("bytes to words", "signatures/src/zk_friendly/utils.rs"), ("hash circuits", "signatures/src/zk_friendly/*.rs hash_circuit")],
     AI + " of the circuit builders to polynomial constraints over targets, compared by linear algebra; the honest witness is substituted into them",
     note="the padding of the hash block is the signer's choice; the hash gadgets of plonky2_crypto are taken at their word")

prop("P36", "Wrapping and shrinking a recursive proof keeps its statement and its size",
     "A wrapping circuit accepts exactly the proofs of the circuit it wraps, under that circuit's constant verifier key, and exposes their public inputs unchanged and in order, nothing else. "
     "Shrinking ends in a proof of a circuit of exactly the size asked for, reached through wraps of the proof given, each wrapping the one before it, and never returns a proof of another size. "
     "The circuit a program proof is verified with inside another circuit has the size and public inputs asked for and leaves only the key and the proof free.",
     ["inputs"], "all proofs and keys; public input counts and sequences of circuit sizes enumerated",
     "Tests shrink one proof by one step; with a second step the loop wrapped the first circuit again (repaired here), and a recursive proof of a longer trace could not be made.",
     ["circuits/src/stark/recursive_verifier.rs"],
     [("wrapping", "circuits/src/stark/recursive_verifier.rs PlonkWrapperCircuit"), ("shrinking", "circuits/src/stark/recursive_verifier.rs shrink_to_target_degree_bits_circuit"), ("verification inside a circuit", "circuits/src/stark/recursive_verifier.rs circuit_data_for_recursion, verify_recursive_vm_proof")],
     AI + " of the circuit builders, the size of every circuit an input; the circuits are followed from the returned proof back to the one given",
     note="the sizes circuits really have are the external builder's")

prop("P37", "The command-line tool reports success only for what it ran, proved or verified",
     "verify succeeds only if the proof in the file verifies against the tables and parameters prove uses; verify-recursive-proof only if the proof verifies under the key in the file, as of the circuit size recursive proofs are shrunk to, and states the program identifier given. "
     "prove writes, in every form asked for, the proof of the run of the program given on its own tapes, and the key of its recursive proof; bundle-transaction attests every program of the calls the programs map knows, the entry first, with its own tape and events. "
     "Whatever step fails, success is not reported; printed identifiers and hashes are those proofs carry.",
     ["inputs", "fault_sequences"], "every command, with and without its optional files; each fallible step made to fail in turn",
     "No test runs the tool's main function; a dropped error or a wrong file, key or parameter shows only to a user with a bad proof.",
     ["cli/src/main.rs", "cli/src/runner.rs", "cli/src/trace_utils.rs", "cli/src/bin/run-example.rs", "cli/src/bin/dump-self-prog-id.rs", "circuits/src/test_utils.rs"],
     [("commands", "cli/src/main.rs main"), ("program identifiers", "cli/src/runner.rs get_self_prog_id"), ("prove and verify", "circuits/src/test_utils.rs prove_and_verify_mozak_stark, prove_and_verify_batch_mozak_stark")],
     AI + " of main, every part it calls replaced by a term recording its inputs; every file written and every verdict compared",
     note="files, argument parsing and serialisation are external; programs the map does not know are left out of a bundle, and not claimed")

prop("P38", "Stored programs, tapes and proofs read back as exactly what was written",
     "Every type the tree stores or sends (programs, tapes, proofs, transactions, messages) is written with all of its state, under names and in forms that read back as an equal value; only cells shared at run time are left out. "
     "Everything it holds can be written at all: keys of stored maps are strings or numbers, absent values are distinct from present ones. "
     "Guest and host give every archived type the same fields in the same order, with the same kinds of element and the same discriminants.",
     ["inputs", "configurations"], "all values of every type with both halves of a serialisation; host and guest configurations",
     "The one round-trip test stores an empty program; a field left out or an ambiguous form shows only for values that differ from the default.",
     ["sdk/src/common/types", "sdk/src/native", "runner/src/elf.rs", "runner/src/code.rs", "runner/src/instruction.rs", "runner/src/state.rs", "circuits/src/stark/proof.rs", "circuits/src/stark/mozak_stark.rs", "node/src/types.rs"],
     [("stored tapes", "sdk/src/common/types/system_tape.rs SystemTape"), ("stored programs", "runner/src/elf.rs Program"), ("stored proofs", "circuits/src/stark/proof.rs AllProof, BatchProof"), ("archived messages", "sdk/src/common/types")],
     "type-level analysis of declarations: derives and attributes resolved under both configurations, forms of all fields computed recursively",
     note="what serde, serde_json, serde-hex and rkyv do with a declaration, and types of other crates, are taken at their word; a hand-written half is reported as undecided")
