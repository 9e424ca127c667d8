"""Look-up wiring: the look-ups and public columns of the machine are exactly the specified ones."""
import bdd
import starkmodel as sm
from builtins_rs import items
from field import FPoly, LinV, fof, lof
from interp import Env
from P20 import Model
from program import AnalysisError
from values import *

C = "mozak_circuits"
W = "circuits/src/stark/mozak_stark.rs"


def run(ctx):
    ctx.rule = ("abstract interpretation of the construction of the machine's look-ups yields, for every look-up, the table, the affine forms of its columns and its filter; they are compared, up to order of "
                "look-ups, tables and columns, with an independent specification of which accesses each table must account for")
    M = Model(sm.load())
    prepare(M)
    with ctx.group("lookups"):
        lookups(ctx, M)
    with ctx.group("public"):
        publics(ctx, M)
    with ctx.group("rom"):
        rom(ctx, M)
    with ctx.group("signed"):
        signed_loads(ctx, M)
    ctx.saw(M.I)


def viewof(M, name):
    """the columns of a view, by any path it is known under"""
    if name in M.views:
        return M.views[name]
    d = M.P.lookup_abs((C,) + tuple(name.split("::")))
    return M.views["::".join(d["path"][1:])]


def prepare(M):
    """column maps denote their own columns (P19), and typed combinations the affine forms they are written as (P19)"""
    I = M.I
    M.maps = 0
    M.views = {}
    for path, m in sorted(M.P.mods.items()):
        if path[0] != C:
            continue
        for name, ds in sorted(m.items.items()):
            for c in ds if isinstance(ds, list) else []:
                if c.get("k") == "ItemConst" and c.get("from_macro") == "make_col_map":
                    t = I.ty(c["ty"], Env(None, c["mod"]))
                    d = t[1]
                    cols = [sm.colname(p) for p in I.layout(d)]
                    M.views["::".join(d["path"][1:])] = cols
                    I.statics[id(c)] = I.unflatten(d, [LinV({("l", x): 1}) for x in cols])
                    M.maps += 1
    if M.maps < 20:
        raise AnalysisError(f"only {M.maps} column maps found")
    num = lambda v: v.v if isinstance(v, Int) else None

    def const(I_, vs, h, e, n):
        k = I_.deref(vs[0])
        if isinstance(k, LinV) and not k.c:
            return k
        if isinstance(k, FPoly) and set(k.p) <= {()}:
            k = k.p.get((), 0)
            return LinV({}, k if k < sm.PR // 2 else k - sm.PR)
        k = num(k)
        if k is None:
            raise AnalysisError(f"constant column of an unknown value {vs[0]!r}"[:200])
        return LinV({}, k)
    I.intrinsics["ColumnWithTypedInput::constant"] = const
    I.intrinsics["ColumnWithTypedInput::default"] = lambda I_, vs, h, e, n: LinV({}, 0)
    for t in ("Column", "ColumnSparse", "ColumnI64"):
        I.intrinsics[t + "::from"] = lambda I_, vs, h, e, n: I_.deref(vs[0])

    def horner(I_, vs, h, e, n):
        r = LinV({}, 0)
        k = num(I_.deref(vs[1]))
        for x in reversed(list(flat(I_, vs[0]))):
            r = r.scale(k) + lin(I_, x)
        return r

    def ascending(I_, vs, h, e, n):
        r = LinV({}, 0)
        for i, x in enumerate(flat(I_, vs[0])):
            r = r + lin(I_, x).scale(i)
        return r
    I.intrinsics["ColumnWithTypedInput::reduce_with_powers"] = horner
    I.intrinsics["ColumnWithTypedInput::ascending_sum"] = ascending


def flat(I, v):
    v = I.deref(v)
    if isinstance(v, StructV):
        d = I.P.lookup_abs(v.path)
        return items(I, I.flatten(d, v))
    return items(I, v)


def lin(I, v):
    v = I.deref(v)
    r = lof(v)
    if r is None:
        if isinstance(v, Int):
            return LinV({}, v.v)
        raise AnalysisError(f"not an affine column form: {v!r}"[:160])
    return r


def table_of(M, t):
    I = M.I
    t = I.deref(t)
    kind = variant(I.deref(t.f["kind"]))
    return kind, tuple(lin(I, x) for x in items(I, I.deref(t.f["columns"]))), lin(I, t.f["filter_column"])


def variant(v):
    if not isinstance(v, EnumV):
        raise AnalysisError(f"table kind is not fixed: {v!r}"[:120])
    return v.var


def default_machine(M):
    I = M.I
    head = (C, "stark", "mozak_stark", "MozakStark")
    im = next((im for im in M.P.impls.get(head, []) if im.trait and im.trait[-1]["id"] == "Default" and "default" in im.fns), None)
    if im is None:
        raise AnalysisError("MozakStark has no default")
    st = ("adt", M.P.lookup_abs(head), [])
    # the tables themselves carry no data
    for t in M.adt("stark", "mozak_stark", "MozakStark")["fields"]["f"]:
        pass
    return I.deref(I.call_fn(im.fns["default"], [], Env(None, im.mod, {}, st, impl=im), self_ty=st, impl=im))


def extracted(M):
    if not hasattr(M, "machine"):
        M.machine = default_machine(M)
    I = M.I
    out = []
    for c in items(I, I.deref(M.machine.f["cross_table_lookups"])):
        out.append([table_of(M, t) for t in items(I, I.deref(I.deref(c).f["looking_tables"]))])
    return out


# ---------------------------------------------------------------- comparison
def canon(rows):
    """look-up up to order of tables, order of columns and overall sign of the filters"""
    return min(signed_canon(rows, 1), signed_canon(rows, -1))


def signed_canon(rows, sgn):
    rs = [(k, cs, f.scale(sgn)) for k, cs, f in rows]
    width = len(rs[0][1]) if rs else 0
    if any(len(cs) != width for _, cs, _ in rs):
        raise AnalysisError("tables of one look-up have different numbers of columns")
    cols = sorted(range(width), key=lambda j: sorted((k, repr(f), repr(cs[j])) for k, cs, f in rs))
    return tuple(sorted((k, tuple(repr(cs[j]) for j in cols), repr(f)) for k, cs, f in rs))


def lookups(ctx, M):
    got = extracted(M)
    want = reference(M)
    left = [(canon(g), g) for g in got]
    pending = []
    for name, rows in want.items():
        c = canon(rows)
        hit = next((x for x in left if x[0] == c), None)
        if hit:
            left.remove(hit)
            for i, r in enumerate(rows):
                ctx.ob(f"{name}:{i}:{r[0]}", True, "", W)
        else:
            pending.append((name, rows, c))
    # the closest remaining look-up explains what differs
    for name, rows, c in pending:
        want_set = list(signed_canon(rows, 1))

        def dist(x):
            g = [r for sgn in (1, -1) for r in signed_canon(x[1], sgn)]
            return -sum(1 for r in want_set if r in g), abs(len(x[1]) - len(want_set))
        near = min(left, key=dist) if left else None
        if near is None:
            ctx.ob(f"{name}:missing", False, f"the look-up that ties {name} is missing", W)
            continue
        left.remove(near)
        g = list(max((signed_canon(near[1], sgn) for sgn in (1, -1)), key=lambda v: sum(1 for r in want_set if r in v)))
        for r in want_set:
            if r in g:
                g.remove(r)
            else:
                ctx.ob(f"{name}:needs:{r[0]}:{r[2]}", False, f"{name}: the access of table {r[0]} is not accounted for as specified", W,
                       f"expected columns {', '.join(r[1])[:300]} filtered by {r[2]}; instead: {'; '.join(f'{k} {cs} by {f}' for k, cs, f in g if k == r[0])[:400] or 'no such table'}")
        for r in g:
            ctx.ob(f"{name}:extra:{r[0]}:{r[2]}", False, f"{name}: table {r[0]} takes part in an unspecified way", W, f"columns {', '.join(r[1])[:300]} filtered by {r[2]}")
    for c, g in left:
        ctx.ob(f"extra:{g[0][0] if g else '-'}:{len(g)}", False, "a look-up that is not specified", W, f"between {', '.join(sorted({k for k, _, _ in g}))}")
    ctx.floor("look-ups", len(want), 18)
    ctx.floor("tables in look-ups", sum(len(r) for r in want.values()), 100)


# ----------------------------------------------------------------- reference
def L(c, k=1):
    return LinV({("l", c): k})


def N(c, k=1):
    return LinV({("n", c): k})


def K(k):
    return LinV({}, k)


TAPES = ("StorageDevicePrivate", "StorageDevicePublic", "CallTape", "EventTape", "EventsCommitmentTape", "CastListCommitmentTape", "SelfProgIdTape")
ECALLS = ("is_private_tape", "is_public_tape", "is_call_tape", "is_event_tape", "is_events_commitment_tape", "is_cast_list_commitment_tape", "is_self_prog_id_tape")
OPS = ("add", "sub", "xor", "or", "and", "div", "rem", "mul", "mulh", "sll", "slt", "srl", "sra", "jalr", "beq", "bne", "sb", "sh", "sw", "lb", "lh", "lw", "blt", "bge", "ecall")


def ops(*names):
    r = K(0)
    for n in names:
        r = r + L("inst.ops." + n)
    return r


def packed(op, s1, s2, rs1, rs2, rd, imm):
    r = K(0)
    for i, x in enumerate((op, s1, s2, rs1, rs2, rd, imm)):
        r = r + x.scale(32 ** i)
    return r


def reference(M):
    running = ops(*OPS)
    # the operation is coded by the position of its selector: any injective code will do as long as all tables agree, so take the order of the code
    opcols = [c[len("inst.ops."):] for c in viewof(M, "cpu::columns::CpuState") if c.startswith("inst.ops.")]
    if sorted(opcols) != sorted(OPS):
        raise AnalysisError("the processor table has different operation selectors")
    code = {o: i for i, o in enumerate(opcols)}
    opcode = K(0)
    for o in OPS:
        opcode = opcode + L("inst.ops." + o, code[o])
    R = {}
    neg = lambda rows: [(k, c, f.scale(-1)) for k, c, f in rows]

    def lk(name, looking, looked):
        R[name] = looking + neg(looked)

    # ---- every step is a row of one of the step tables
    sk = lambda k, clk, pc, npc, halt, f: (k, (clk, pc, npc, halt), f)
    lk("steps", [sk("Cpu", L("clk"), L("inst.pc"), L("new_pc"), L("ecall_selectors.is_halt"), running),
                 sk("Add", L("clk"), L("inst.pc"), L("inst.pc") + 4, K(0), L("is_running")),
                 sk("BltTaken", L("clk"), L("inst.pc"), L("inst.imm_value"), K(0), L("is_running"))],
       [sk("CpuSkeleton", L("clk"), L("pc"), N("pc"), skeleton_halt(M), L("is_running"))])
    # ---- 32-bit ranges
    divs, muls = ops("div", "rem", "srl", "sra"), ops("mul", "mulh", "sll")
    rc = lambda k, x, f: (k, (x,), f)
    s = 1 << 31
    lk("32-bit ranges", [
        rc("Memory", N("addr") - L("addr") - N("is_init"), L("is_store") + L("is_load") + L("is_init")),
        rc("Memory", (N("clk", 4) - N("is_store") - N("is_load", 2) - N("is_init", 3)) - (L("clk", 4) - L("is_store") - L("is_load", 2) - L("is_init", 3)), K(1) - N("is_init")),
        rc("Cpu", L("quotient_value"), divs), rc("Cpu", L("remainder_value"), divs), rc("Cpu", L("remainder_slack"), divs),
        rc("Cpu", L("dst_value"), ops("add", "sub", "jalr")), rc("Cpu", L("inst.pc"), ops("jalr")), rc("Cpu", L("abs_diff"), ops("bge", "blt")),
        rc("Cpu", L("product_high_limb"), muls), rc("Cpu", L("product_low_limb"), muls),
        rc("Cpu", L("op1_value") - L("op1_sign_bit", 2 * s) + L("inst.is_op1_signed", s), L("inst.is_op1_signed")),
        rc("Cpu", L("op2_value") - L("op2_sign_bit", 2 * s) + L("inst.is_op2_signed", s), L("inst.is_op2_signed")),
        rc("Cpu", L("mem_value_raw", 1 << 24) - L("dst_sign_bit", 2 * s) + L("inst.is_dst_signed", s), ops("lb")),
        rc("Cpu", L("mem_value_raw", 1 << 16) - L("dst_sign_bit", 2 * s) + L("inst.is_dst_signed", s), ops("lh")),
        rc("Add", L("dst_value"), L("is_running")),
        rc("BltTaken", L("op2_value") - L("op1_value") - 1, L("is_running")),
        rc("Register", (N("clk", 2) + N("ops.is_write")) - (L("clk", 2) + L("ops.is_write")), N("ops.is_read") + N("ops.is_write")),
    ], [rc("RangeCheck", L("limbs[0]") + L("limbs[1]", 1 << 8) + L("limbs[2]", 1 << 16) + L("limbs[3]", 1 << 24), L("multiplicity"))])
    lk("byte ranges", [rc("RangeCheck", L(f"limbs[{i}]"), L("multiplicity")) for i in range(4)] + [rc("Memory", L("value"), L("is_store") + L("is_load") + L("is_init"))],
       [rc("RangeCheckU8", L("value"), L("multiplicity"))])
    # ---- gadgets
    lk("xor", [("Cpu", (L("xor.a"), L("xor.b"), L("xor.out")), ops("xor", "or", "and", "srl", "sll", "sra", "sb", "sh"))],
       [("Xor", (L("execution.a"), L("execution.b"), L("execution.out")), L("is_execution_row"))])
    lk("shift amounts", [("Cpu", (L("bitshift.amount"), L("bitshift.multiplier")), ops("sll", "srl", "sra"))],
       [("Bitshift", (L("executed.amount"), L("executed.multiplier")), L("multiplicity"))])
    # ---- program
    z = K(0)
    lk("instructions", [
        ("Add", (L("inst.pc"), packed(K(code["add"]), z, z, L("inst.rs1_selected"), L("inst.rs2_selected"), L("inst.rd_selected"), L("inst.imm_value"))), L("is_running")),
        ("BltTaken", (L("inst.pc"), packed(K(code["blt"]), z, z, L("inst.rs1_selected"), L("inst.rs2_selected"), z, L("inst.imm_value"))), L("is_running")),
        ("Cpu", (L("inst.pc"), packed(opcode, L("inst.is_op1_signed"), L("inst.is_op2_signed"), L("inst.rs1_selected"), L("inst.rs2_selected"), L("inst.rd_selected"), L("inst.imm_value"))), running)],
       [("ProgramMult", (L("rom_row.pc"), L("rom_row.inst_data")), L("mult_in_cpu"))])
    lk("program rows", [("ProgramMult", (L("rom_row.pc"), L("rom_row.inst_data")), K(1))], [("Program", (L("pc"), L("inst_data")), K(1))])
    # ---- memory
    mem = lambda k, clk, st, ld, a, v, f: (k, (clk, st, ld, a, v), f)
    two = lambda k, n: [mem(k, L("clk"), L("ops.is_store"), L("ops.is_load"), L(f"addrs[{i}]"), L(f"limbs[{i}]"), L("ops.is_store") + L("ops.is_load")) for i in range(n)]
    sponge = L("ops.is_init_permute") + L("ops.is_permute")
    lk("memory accesses", [mem("Cpu", L("clk"), L("inst.ops.sb"), L("inst.ops.lb"), L("mem_addr"), L("mem_value_raw"), ops("sb", "lb"))]
       + [mem(t, L("clk"), L("ops.is_memory_store"), z, L("addr"), L("value"), L("ops.is_memory_store")) for t in TAPES]
       + two("FullWordMemory", 4) + two("HalfWordMemory", 2)
       + [mem("Poseidon2Sponge", L("clk"), z, K(1), L("input_addr") + i, L(f"preimage[{i}]"), sponge) for i in range(8)]
       + [mem("Poseidon2OutputBytes", L("clk"), K(1), z, L("output_addr") + i, L(f"output_bytes[{i}]"), L("is_executed")) for i in range(32)],
       [mem("Memory", L("clk"), L("is_store"), L("is_load"), L("addr"), L("value"), L("is_store") + L("is_load"))])
    le = lambda n: sum((L(f"limbs[{i}]", 1 << 8 * i) for i in range(1, n)), L("limbs[0]"))
    for nm, k, st, ld, n in (("half-word accesses", "HalfWordMemory", "sh", "lh", 2), ("word accesses", "FullWordMemory", "sw", "lw", 4)):
        lk(nm, [mem("Cpu", L("clk"), ops(st), ops(ld), L("mem_addr"), L("mem_value_raw"), ops(st, ld))],
           [mem(k, L("clk"), L("ops.is_store"), L("ops.is_load"), L("addrs[0]"), le(n), L("ops.is_store") + L("ops.is_load"))])
    ini = lambda k, w, a, clk, v, f: (k, (w, a, clk, v), f)
    lk("initial memory", [ini("ElfMemoryInit", L("is_writable"), L("address"), K(1), L("value"), L("filter")), ini("MemoryZeroInit", K(1), L("addr"), z, z, L("filter"))],
       [ini("Memory", L("is_writable"), L("addr"), L("clk"), L("value"), L("is_init"))])
    # ---- registers: 0 initialises, 1 reads, 2 writes
    reg = lambda k, clk, op, a, v, f: (k, (clk, op, a, v), f)
    clk = L("clk")
    three = lambda k, run, b, op2: [reg(k, clk, K(1), L("inst.rs1_selected"), L("op1_value"), run), reg(k, clk, K(1), L("inst.rs2_selected"), L(op2), run)] \
        + ([reg(k, clk, K(2), L("inst.rd_selected"), L("dst_value"), run)] if b else [])
    regs = [c[len("ops."):] for c in viewof(M, "register::general::columns::Register") if c.startswith("ops.")]
    if sorted(regs) != ["is_init", "is_read", "is_write"]:
        raise AnalysisError("the register table has different operation selectors")
    lk("register accesses", three("Cpu", running, True, "op2_value_raw") + three("Add", L("is_running"), True, "op2_value") + three("BltTaken", L("is_running"), False, "op2_value")
       + [reg(t, clk, K(1), K(11), L("addr"), L("ops.is_storage_device")) for t in TAPES]
       + [reg("Poseidon2Sponge", clk, K(1), K(10 + i), L(c), L("ops.is_init_permute")) for i, c in ((1, "input_addr"), (2, "input_len"), (3, "output_addr"))]
       + [reg("RegisterInit", z, z, L("reg_addr"), L("value"), K(1))],
       [reg("Register", clk, L("ops.is_read") + L("ops.is_write", 2), L("addr"), L("value"), L("ops.is_init") + L("ops.is_read") + L("ops.is_write")),
        reg("RegisterZeroRead", clk, K(1), z, z, L("is_used")), reg("RegisterZeroWrite", clk, K(2), z, L("value"), L("is_used"))])
    # ---- environment calls
    sel = [L("ecall_selectors." + e) for e in ECALLS]
    lk("tape calls", [(t, (K(i), clk, L("addr"), L("size")), L("ops.is_storage_device")) for i, t in enumerate(TAPES)],
       [("Cpu", (sum((x.scale(i) for i, x in enumerate(sel)), K(0)), clk, L("io_addr"), L("io_size")), sum(sel, K(0)))])
    lk("hash calls", [("Poseidon2Sponge", (clk,), L("ops.is_init_permute"))], [("Cpu", (clk,), L("ecall_selectors.is_poseidon2"))])
    n = 4 * 12
    lk("permutations", [("Poseidon2", tuple(L(f"input[{i}]") for i in range(12)) + tuple(L(f"state_after_second_full_rounds[{n - 12 + i}]") for i in range(12)), L("is_exe"))],
       [("Poseidon2Sponge", tuple(L(f"preimage[{i}]") for i in range(12)) + tuple(L(f"output[{i}]") for i in range(12)), sponge)])
    lk("hash results", [("Poseidon2OutputBytes", (clk, L("output_addr")) + tuple(L(f"output_fields[{i}]") for i in range(4)), L("is_executed"))],
       [("Poseidon2Sponge", (clk, L("output_addr")) + tuple(L(f"output[{i}]") for i in range(4)), L("gen_output"))])
    for nm, t, m in (("event commitment", "EventsCommitmentTape", "event_commitment_tape_multiplicity"), ("cast-list commitment", "CastListCommitmentTape", "castlist_commitment_tape_multiplicity")):
        lk(nm, [(t, (L("value"), K(31) - L("size")), L("ops.is_memory_store"))], [("TapeCommitments", (L("commitment_byte_row.byte"), L("commitment_byte_row.index")), L(m))])
    return R


def skeleton_halt(M):
    # a step halts exactly when the machine runs no longer in the next row
    return K(1) - N("is_running")


def publics(ctx, M):
    """two public sub tables: the bytes of the two commitments, 32 rows each"""
    extracted(M)
    I = M.I
    got = {}
    for p in items(I, I.deref(M.machine.f["public_sub_tables"])):
        p = I.deref(p)
        k, cs, f = table_of(M, p.f["table"])
        n = I.deref(p.f["num_rows"])
        got.setdefault((k, tuple(map(repr, cs)), repr(f)), []).append(n.v if isinstance(n, Int) else None)
    byte = repr(L("commitment_byte_row.byte"))
    for nm, sel in (("event", "is_event_commitment_tape_row"), ("cast list", "is_castlist_commitment_tape_row")):
        key = ("TapeCommitments", (byte,), repr(L(sel)))
        ctx.ob(f"public:{nm}", got.pop(key, None) == [32], f"the {nm} commitment is made public as its 32 bytes", "circuits/src/tape_commitments/columns.rs", lambda: f"public tables: {got}")
    ctx.ob("public:extra", not got, "nothing else is public", "circuits/src/tape_commitments/columns.rs", lambda: f"{got}")


SELECT = {"ADD": "add", "SUB": "sub", "XOR": "xor", "OR": "or", "AND": "and", "DIV": "div", "DIVU": "div", "REM": "rem", "REMU": "rem", "MUL": "mul", "MULH": "mulh", "MULHU": "mulh", "MULHSU": "mulh",
          "SLL": "sll", "SLT": "slt", "SLTU": "slt", "SRL": "srl", "SRA": "sra", "JALR": "jalr", "BEQ": "beq", "BNE": "bne", "SB": "sb", "SH": "sh", "SW": "sw", "LB": "lb", "LBU": "lb",
          "LH": "lh", "LHU": "lh", "LW": "lw", "BLT": "blt", "BLTU": "blt", "BGE": "bge", "BGEU": "bge", "ECALL": "ecall"}
SIGNED1 = {"SLT", "DIV", "REM", "MULH", "MULHSU", "BLT", "BGE", "SRA"}
SIGNED2 = {"SLT", "DIV", "REM", "MULH", "BLT", "BGE"}
SIGNEDD = {"LB", "LH"}


def rom(ctx, M):
    I = M.I
    w = "circuits/src/cpu/columns.rs"
    head = (C, "cpu", "columns", "Instruction")
    d = M.P.lookup_abs(head)
    cols = [sm.colname(p) for p in I.layout(d)]
    im = next(im for im in M.P.impls[head] if im.trait and im.trait[-1]["id"] == "From" and "from" in im.fns)
    opd = M.P.lookup_abs(("mozak_runner", "instruction", "Op"))
    ind = M.P.lookup_abs(("mozak_runner", "instruction", "Instruction"))
    arg = M.P.lookup_abs(("mozak_runner", "instruction", "Args"))
    if {v["n"] for v in opd["variants"]} != set(SELECT):
        raise AnalysisError(f"operations changed: {sorted({v['n'] for v in opd['variants']} ^ set(SELECT))}")
    st = ("adt", d, [("p", "u32")])
    enc = {}
    for op in SELECT:
        a = {f["n"]: I.symbolic(I.ty(f["ty"], Env(None, arg["mod"])), "arg." + f["n"]) for f in arg["fields"]["f"]}
        inst = StructV(ind["path"], {"op": EnumV(opd["path"], op), "args": StructV(arg["path"], a)})
        pc = I.symbolic(("p", "u32"), "pc")
        r = I.deref(I.call_fn(im.fns["from"], [("v", (pc, inst))], Env(None, im.mod, {}, st, impl=im), self_ty=st, impl=im))
        row = dict(zip(cols, [I.deref(x) for x in items(I, I.flatten(d, r))]))
        want = {c: Int(int(c == "ops." + SELECT[op]), "u32") for c in cols if c.startswith("ops.")}
        want |= {"is_op1_signed": Int(int(op in SIGNED1), "u32"), "is_op2_signed": Int(int(op in SIGNED2), "u32"), "is_dst_signed": Int(int(op in SIGNEDD), "u32")}
        want |= {"pc": pc, "imm_value": a["imm"], "rs1_selected": I.cast(a["rs1"], ("p", "u32")), "rs2_selected": I.cast(a["rs2"], ("p", "u32")), "rd_selected": I.cast(a["rd"], ("p", "u32"))}
        bad = [c for c in cols if not same(I, row[c], want[c])]
        ctx.ob(f"columns:{op}", not bad, f"{op} is represented by its selector, signedness and operands", w, lambda: f"columns {', '.join(bad)}: {row[bad[0]]!r} instead of {want[bad[0]]!r}")
        enc[op] = tuple(want[c].v for c in cols if c.startswith("ops.") or c.startswith("is_"))
    ctx.floor("operations", len(enc), 33)
    # the program table packs what the processor's look-up packs
    rd = M.P.lookup_abs((C, "program", "columns", "ProgramRom"))
    rim = next(im for im in M.P.impls[rd["path"]] if im.trait and im.trait[-1]["id"] == "From" and "from" in im.fns)
    rst = ("adt", rd, [])
    var = {c: FPoly.var(("l", c)) for c in cols}
    row = I.deref(I.call_fn(rim.fns["from"], [("v", I.unflatten(d, [var[c] for c in cols]))], Env(None, rim.mod, {}, rst, impl=rim), self_ty=rst, impl=rim))
    packing = {k: fof(I.deref(v)) for k, v in row.f.items()}
    cpu = [(k, cs) for c in extracted(M) for k, cs, f in c if k == "Cpu" and any(k2 == "ProgramMult" for k2, _, _ in c)]
    ok = False
    for _, cs in cpu:
        ps = [to_poly(x) for x in cs]
        ok = len(ps) == len(packing) and all(any(p == q for q in ps) for p in packing.values())
    ctx.ob("rom:packing", ok, "a program row packs an instruction exactly as the processor's look-up does", "circuits/src/program/columns.rs", lambda: f"{packing} against {cpu}"[:600])
    # distinct instructions have distinct program rows
    coef = {}
    data = packing.get("inst_data")
    if data is None:
        raise AnalysisError("program rows have no instruction data")
    flags = [c for c in cols if c.startswith("ops.") or c.startswith("is_")]
    for m, k in data.p.items():
        if len(m) != 1:
            raise AnalysisError("program rows pack products of columns")
        coef[sm.varname(m[0])[1]] = k
    # operand fields: 5-bit registers and the 32-bit immediate at disjoint positions above the code
    parts = sorted((coef.get(c, 0), c) for c in ("rs1_selected", "rs2_selected", "rd_selected", "imm_value"))
    code_max = max(sum(coef.get(c, 0) * v for c, v in zip(flags, e)) for e in enc.values())
    pos, fine = code_max, True
    for k, c in parts:
        fine = fine and k > pos and k > 0
        pos += k * (2 ** 32 - 1 if c == "imm_value" else 31)
    ctx.ob("rom:fields", fine and pos < sm.PR, "registers, immediate and operation code occupy disjoint parts of a program row, below the field's modulus", "circuits/src/program/columns.rs", lambda: f"coefficients {coef}")
    names = sorted(enc)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            ca, cb = (sum(coef.get(c, 0) * v for c, v in zip(flags, enc[x])) for x in (a, b))
            if ca == cb or a in ("LB", "LH") and b == a + "U":
                ctx.ob(f"rom:distinct:{a}:{b}", ca != cb, f"{a} and {b} are different program rows", "circuits/src/program/columns.rs", "the same instruction data, so a prover may execute one where the program has the other")
    ctx.ob("rom:distinct", True, "", "circuits/src/program/columns.rs")


def same(I, a, b):
    if a == b:
        return True
    try:
        return I.equal(a, b) is True or freeze(a) == freeze(b)
    except Exception:
        return freeze(a) == freeze(b)


def to_poly(l):
    r = FPoly.const(l.k)
    for (t, c), k in l.c.items():
        r = r + FPoly.var((t, c[len("inst."):] if c.startswith("inst.") else c)) * k
    return r


def signed_loads(ctx, M):
    """the sign bit of a signed load is the top bit of the loaded value: the ranges looked up exclude the other choice"""
    for op, bits in (("lb", 8), ("lh", 16)):
        forms = []
        for c in extracted(M):
            bound = 32 if any(k == "RangeCheck" and not f.c.get(("l", "multiplicity"), 0) > 0 for k, cs, f in c) else None
            looked = [k for k, cs, f in c if any(v < 0 for v in f.c.values()) or f.k < 0]
            bound = 1 << 32 if "RangeCheck" in looked else 256 if "RangeCheckU8" in looked else None
            if bound:
                forms += [(cs[0], bound) for k, cs, f in c if k == "Cpu" and f.c.get(("l", "inst.ops." + op), 0) == 1]
        wrong = None
        ext = (1 << 32) - (1 << bits)
        for v in (0, 1, (1 << bits - 1) - 1, 1 << bits - 1, (1 << bits) - 2, (1 << bits) - 1):
            for signed in (0, 1):
                for sign in (0, 1) if signed else (0,):
                    row = {"mem_value_raw": v, "dst_sign_bit": sign, "dst_value": v + sign * ext, "inst.is_dst_signed": signed, "inst.ops." + op: 1}
                    ok = all(set(c for _, c in x.c) > set(row) or in_range(x, row, b) for x, b in forms)
                    right = sign == (v >> bits - 1 if signed else 0)
                    if ok != right and wrong is None:
                        wrong = f"value {v:#x} with sign bit {sign} is {'accepted' if ok else 'rejected'} by the ranges of the {op} rows ({'signed' if signed else 'unsigned'} load)"
        ctx.ob(f"sign:{op}", wrong is None, f"the sign bit of {op} is the top bit of the value", "circuits/src/cpu/columns.rs", wrong or "")


def in_range(x, row, bound):
    r = x.k
    for (t, c), k in x.c.items():
        if t != "l" or c not in row:
            return True
        r += k * row[c]
    return r % sm.PR < bound
