"""The prover's tables hold what their columns stand for, for every execution record."""
import itertools

import bdd
import P24
import execref as R
import starkmodel as sm
import terms
import tracemodel as tm
import vmmodel as vm
from builtins_rs import items
from field import FPoly, LinV, fof
from interp import Env
from P24 import SELECT, SIGNED1, SIGNED2, SIGNEDD
from program import AnalysisError
from symdom import regfile
from terms import add, const, ite, lshr, mul, neg, sext, sub, trunc, zext
from tracemodel import K, call, felt, gmap, gmap2, inv0, is_zero, mk, pow2, struct, view
from values import *

C = "mozak_circuits"
TAPES = [("private", "StorePrivate"), ("public", "StorePublic"), ("call", "StoreCallTape"), ("event", "StoreEventTape"),
         ("events_commitment", "StoreEventsCommitmentTape"), ("cast_list_commitment", "StoreCastListCommitmentTape"), ("self_prog_id", "StoreSelfProgIdTape")]
u32 = lambda t: BV(t, "u32") if not isinstance(t, int) else Int(t, "u32")
var = terms.var


class M:
    """one table's rows against the specification"""

    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P

    def interp(self):
        self.I = tm.interp(self.P)
        return self.I

    def call(self, name, *args):
        I = self.I
        I.pc = True
        r = call(I, self.P, f"{C}::{name}", *[RefV(I.temp(a)) for a in args])
        self.ctx.saw(I)
        return r

    def rows(self, key, desc, where, d, got, want, skip=()):
        """want: function of the condition -> list of {column: value}, or a list"""
        I = self.I
        for n, (c, xs) in enumerate(tm.cases(got)):
            ws = want(c) if callable(want) else want
            k = key if n == 0 else f"{key}#{n}"
            if not self.ctx.ob(f"{k}:length", len(xs) == len(ws), f"{desc}: number of rows", where, lambda: f"{len(xs)} rows instead of {len(ws)}"):
                continue
            bad = []
            seen = {}
            for i, (x, w) in enumerate(zip(xs, ws)):
                if id(x) in seen and seen[id(x)] is w:
                    continue
                seen[id(x)] = w
                f = tm.flat(I, d, x)
                if set(w) - set(f):
                    raise AnalysisError(f"columns of {d['n']} changed: {sorted(set(w) - set(f))}")
                bad += [(i, col, f[col], w.get(col, 0)) for col in f if col not in skip and not tm.feq_under(c, f[col], felt(w.get(col, 0)))]
            self.ctx.ob(k, not bad, desc, where, lambda: "; ".join(f"row {i}, column {col}: {g!r} instead of {felt(w)!r}"[:300] for i, col, g, w in bad[:4]))


def run(ctx):
    ctx.rule = ("abstract interpretation of the trace generators on records with symbolic contents: every column of every generated row equals its "
                "specification (a polynomial over embedded machine integers, gated by conditions); sorting, padding, multiplicities and the wiring between generators as specified")
    P = sm.load()
    m = M(ctx, P)
    for g in (cpu, system_calls, skeleton, single_op, program, gadgets, memory_init, wide_memory, tapes, poseidon, memory, registers, ranges, wiring):
        with ctx.group(g.__name__):
            g(m)
    ctx.floor("kinds of instructions", sum(1 for o in R.ALL if o != "ECALL"), 33)
    ctx.floor("tables", len(TABLES), 30)


# ------------------------------------------------------------------ executed instructions
def st_row(m, op, tag="", clk=None, aux=None):
    """a state, an instruction and the record of executing it (as P05 has it)"""
    P = m.P
    st = vm.state(P, m.I, name="s")
    if clk is not None:
        st = StructV(st.path, {**st.f, "clk": Int(clk, "u64")})
    if op == "ECALL":
        a = aux or tm.opaque_aux(P)
    else:
        op2 = R.X2 if op in R.BRANCH else terms.vshift("shl", R.ONE, R.SH) if op in ("SLL", "SRL", "SRA") else R.OP2
        mem = NONE
        used = VecV([])
        if op in R.LOADS or op in R.STORES:
            n = R.LOADS[op][0] if op in R.LOADS else R.STORES[op]
            raw = trunc(var("loaded", 8 * n), 8 * n) if op in R.LOADS else None
            mem = Some(struct(P, (tm.R, "state", "MemEntry"), addr=u32(R.OP2), raw_value=u32(zext(raw, 32) if raw is not None else R.dst(op))))
            used = VecV([u32(x) for x in R.addrs(n)])
        d = R.dst(op) if op not in R.LOADS else (sext if R.LOADS[op][1] else zext)(var("loaded", 8 * R.LOADS[op][0]), 32)
        a = tm.opaque_aux(P, dst_val=u32(d if op not in R.BRANCH else 0), new_pc=u32(R.next_pc(op)), op1=u32(R.X1), op2=u32(op2), op2_raw=u32(R.X2), mem=mem, mem_addresses_used=used)
    return st, tm.row(P, st, vm.instruction(P, op), a)


def I32(s, t):
    """a 32-bit operand read as signed or unsigned, as a 64-bit term"""
    return sext(t, 64) if s else zext(t, 64)


def sdiv(a, b):
    return terms.divop("sdiv", a, b)


def u64f(t):
    return tm.embed(t)


def low(t):
    return tm.embed(trunc(t, 32))


def cpu_row(m, op, st, r):
    a = r.f["aux"].f
    T = lambda v: term_of(v, "u32")
    op1, op2 = T(a["op1"]), T(a["op2"])
    x1, x2, imm = R.X1, R.X2, R.IMM
    s1, s2 = op in SIGNED1, op in SIGNED2
    w = {"clk": st.f["clk"], "new_pc": a["new_pc"], "inst.pc": st.f["pc"], "inst.ops." + SELECT[op]: 1, "inst.is_op1_signed": int(s1), "inst.is_op2_signed": int(s2),
         "inst.is_dst_signed": int(op in SIGNEDD), "inst.rs1_selected": vm.arg("rs1"), "inst.rs2_selected": vm.arg("rs2"), "inst.rd_selected": vm.arg("rd"), "inst.imm_value": imm,
         "op1_value": op1, "op2_value_raw": a["op2_raw"], "op2_value": op2, "dst_value": a["dst_val"]}
    w["op2_value_overflowing"] = felt(u32(x2)) + felt(u32(imm))
    if a["mem"] is not NONE:
        w["mem_addr"], w["mem_value_raw"] = a["mem"].p[0].f["addr"], a["mem"].p[0].f["raw_value"]
    # comparison
    f1, f2 = I32(s1, op1), I32(s2, op2)
    z64 = const(0, 64)
    n1, n2 = terms.slt(f1, z64), terms.slt(f2, z64)
    lt = terms.slt(f1, f2)
    w["op1_sign_bit"], w["op2_sign_bit"], w["less_than"] = n1, n2, lt
    w["abs_diff"] = merge(lt, u64f(sub(f2, f1)), u64f(sub(f1, f2)))
    two32 = K(1 << 32)
    sd = gmap2(lambda p, q: p - q, gmap2(lambda p, q: p - two32 * q, felt(u32(op1)), felt(n1)), gmap2(lambda p, q: p - two32 * q, felt(u32(op2)), felt(n2)))
    w["cmp_diff_inv"] = gmap(inv0, sd)
    w["normalised_diff"] = gmap(lambda p: merge(is_zero(p), K(0), K(1)), sd)
    # powers of two
    if op in ("SLL", "SRL", "SRA"):
        w["bitshift.amount"], w["bitshift.multiplier"] = R.SH, op2
    # exclusive or
    if op in ("AND", "OR", "XOR"):
        xa, xb = x1, R.OP2
    elif op in ("SLL", "SRL", "SRA"):
        xa, xb = const(31, 32), R.OP2
    elif op in ("SB", "SH"):
        xa, xb = x1, const(0xFF if op == "SB" else 0xFFFF, 32)
    else:
        xa = xb = const(0, 32)
    w["xor.a"], w["xor.b"], w["xor.out"] = xa, xb, terms.bxor(xa, xb)
    # division of the operands as read, rounding towards zero (down for arithmetic shifts)
    zero = terms.eq(op2, const(0, 32))
    w["op2_value_inv"] = inv0(tm.embed(op2)) if isinstance(tm.embed(op2), FPoly) else gmap(inv0, tm.embed(op2))
    q = sdiv(f1, f2)
    if op == "SRA":
        rem0 = terms.divop("srem", f1, f2)
        q = ite(terms.slt(rem0, z64), sub(q, const(1, 64)), q)
    rem = sub(f1, mul(q, f2))
    ab = lambda t: ite(terms.slt(t, z64), neg(t), t)
    over = bdd.and_(terms.eq(f1, const(-(1 << 31), 64)), terms.eq(f2, const(-1, 64)))
    qz = terms.eq(q, z64)
    w["quotient_value"] = merge(zero, K(0xFFFFFFFF), low(q))
    w["quotient_sign"] = merge(zero, s2, merge(over, True, terms.slt(q, z64)))
    w["skip_check_quotient_sign"] = merge(zero, True, merge(over, True, qz))
    w["remainder_value"] = merge(zero, felt(u32(op1)), low(rem))
    w["remainder_sign"] = merge(zero, n1, terms.slt(rem, z64))
    w["remainder_slack"] = merge(zero, K(0), u64f(sub(sub(ab(f2), const(1, 64)), ab(rem))))
    # product of magnitudes, negated where the signs differ
    a1, a2 = trunc(ab(f1), 32), trunc(ab(f2), 32)
    p = mul(zext(a1, 64), zext(a2, 64))
    pz = terms.eq(p, z64)
    sg = bdd.and_(bdd.xor(n1, n2), bdd.not_(pz))
    p = ite(sg, neg(p), p)
    hi = trunc(lshr(p, 32), 32)
    w["op1_abs"], w["op2_abs"], w["product_sign"], w["skip_check_product_sign"] = a1, a2, sg, pz
    w["product_low_limb"], w["product_high_limb"] = trunc(p, 32), hi
    w["product_high_limb_inv_helper"] = gmap(inv0, tm.embed(ite(sg, hi, sub(const(0xFFFFFFFF, 32), hi))))
    # sign of what a load extends
    if op in SIGNEDD:
        w["dst_sign_bit"] = terms.bits(var("loaded", 8 * R.LOADS[op][0]))[-1]
    return w


CPU_PAD = {"product_high_limb_inv_helper": K(pow(0xFFFFFFFF, sm.PR - 2, sm.PR)), "quotient_value": K(0xFFFFFFFF)}
SHIFTS = ("SLL", "SRL", "SRA")
XORS = ("AND", "OR", "XOR", "SB", "SH") + SHIFTS


def cpu(m):
    w = "circuits/src/cpu/generation.rs"
    d = view(m.P, "cpu", "columns", "CpuState")
    for op in R.ALL:
        if op == "ECALL":
            continue
        with m.ctx.group(f"cpu {op}"):
            m.interp()
            st, r = st_row(m, op)
            got = m.call("cpu::generation::generate_cpu_trace", tm.record(m.P, [r], st))
            skip = (() if op in SHIFTS else ("bitshift.amount", "bitshift.multiplier")) + (() if op in XORS else ("xor.a", "xor.b", "xor.out"))
            pad = CPU_PAD
            taken = terms.ult(R.X1, R.X2)

            full = cpu_row(m, op, st, r)
            if op == "BLTU":
                full = {c: merge(taken, felt(pad.get(c, 0)), felt(full.get(c, 0))) for c in sorted(set(full) | set(pad))}
            want = [pad] * 8 if op == "ADD" else [full] + [pad] * 7
            m.rows(f"cpu:{op}", f"the processor's row of {op} holds its operands, result and gadget values", w, d, got, want, skip=skip)


SELECTORS = {"StorePrivate": "is_private_tape", "StorePublic": "is_public_tape", "StoreCallTape": "is_call_tape", "StoreEventTape": "is_event_tape", "StoreEventsCommitmentTape": "is_events_commitment_tape",
             "StoreCastListCommitmentTape": "is_cast_list_commitment_tape", "StoreSelfProgIdTape": "is_self_prog_id_tape"}


def system_calls(m):
    w = "circuits/src/cpu/generation.rs"
    P = m.P
    d = view(P, "cpu", "columns", "CpuState")
    skip = ("bitshift.amount", "bitshift.multiplier", "xor.a", "xor.b", "xor.out")
    for oc in list(SELECTORS) + ["None", "", "hash"]:
        with m.ctx.group(f"system call {oc}"):
            m.interp()
            over = {}
            if oc in SELECTORS or oc == "None":
                over["storage_device_entry"] = Some(struct(P, (tm.R, "state", "StorageDeviceEntry"), addr=u32v("io.addr"), op=EnumV((tm.R, "state", "StorageDeviceOpcode"), oc),
                                                           data=VecV(u8v(f"io{i}") for i in range(5))))
            if oc == "hash":
                over["poseidon2"] = Some(sponge_entry(m, "h", 1))
            st, r = st_row(m, "ECALL", aux=tm.opaque_aux(P, **over))
            got = m.call("cpu::generation::generate_cpu_trace", tm.record(P, [r], st))
            full = cpu_row(m, "ECALL", st, r)
            a0 = terms.mkT("reg", (st.f["registers"].base, const(10, 64)), 32)
            full["ecall_selectors.is_halt"] = terms.eq(a0, const(0, 32))
            if oc in SELECTORS or oc == "None":
                full["io_addr"], full["io_size"] = u32v("io.addr"), 5
            if oc in SELECTORS:
                full["ecall_selectors." + SELECTORS[oc]] = 1
            if oc == "hash":
                full["ecall_selectors.is_poseidon2"] = 1
            m.rows(f"system call:{oc or 'other'}", "the processor's row of a system call selects exactly the call made, with its buffer and length", w, d, got, [full] + [CPU_PAD] * 7, skip=skip)


# ------------------------------------------------------------------ records
def regs(tag):
    return regfile(tag)


def u8v(n):
    return BV(var(n, 8), "u8")


def u32v(n):
    return BV(var(n, 32), "u32")


def state_at(m, tag, clk=None):
    """an arbitrary state, with its own registers; the clock fits a 32-bit word"""
    st = vm.state(m.P, m.I, name=tag)
    c = Int(clk, "u64") if clk is not None else BV(zext(var(tag + ".clk", 32), 64), "u64")
    return StructV(st.path, {**st.f, "clk": c, "registers": regs(tag + ".x")})


def inst_at(m, op, tag):
    return tm.inst(m.P, op, u8v(tag + ".rd"), u8v(tag + ".rs1"), u8v(tag + ".rs2"), u32v(tag + ".imm"))


def aux_at(m, tag, **over):
    u = lambda n: u32v(f"{tag}.aux.{n}")
    f = dict(dst_val=u("dst_val"), new_pc=u("new_pc"), mem=NONE, mem_addresses_used=VecV([]), will_halt=False, op1=u("op1"), op2=u("op2"), op2_raw=u("op2_raw"), poseidon2=NONE,
             storage_device_entry=NONE)
    return struct(m.P, (tm.R, "state", "Aux"), **{**f, **over})


def mem_entry(m, tag):
    return Some(struct(m.P, (tm.R, "state", "MemEntry"), addr=u32v(tag + ".addr"), raw_value=u32v(tag + ".raw")))


def row_at(m, op, tag, clk=None, **aux):
    return tm.row(m.P, state_at(m, tag, clk), inst_at(m, op, tag), aux_at(m, tag, **aux))


def reg_of(m, r, which):
    """register value an operand of a recorded instruction names"""
    st = r.f["state"].f["registers"]
    k = term_of(r.f["instruction"].f["args"].f[which], "u8")
    return BV(terms.mkT("reg", (st.base, zext(k, 64)), 32), "u32")


def mixed(m, tag="", ops=R.ALL):
    """one executed instruction of every kind"""
    out = []
    for op in ops:
        t = f"{tag}{op}"
        kw = {"mem": mem_entry(m, t)} if op in R.LOADS or op in R.STORES else {}
        out.append(row_at(m, op, t, **kw))
    return out


def padded(rows, pad):
    return rows + [pad] * (pow2(len(rows)) - len(rows))


def args_of(r):
    return r.f["instruction"].f["args"].f


# ------------------------------------------------------------------ small tables
def skeleton(m):
    w = "circuits/src/cpu_skeleton/generation.rs"
    d = view(m.P, "cpu_skeleton", "columns", "CpuSkeleton")
    for n in (1, 7, 8):
        m.interp()
        rs = [row_at(m, "SUB", f"s{i}") for i in range(n)]
        last = state_at(m, "end")
        got = m.call("cpu_skeleton::generation::generate_cpu_skeleton_trace", tm.record(m.P, rs, last))
        row = lambda st: {"clk": st.f["clk"], "pc": st.f["pc"], "is_running": bdd.not_(st.f["halted"])}
        ws = [row(r.f["state"]) for r in rs] + [row(last)]
        m.rows(f"skeleton:{n}", f"the skeleton lists every executed state and the final one, then repeats the final one ({n} steps)", w, d, got, padded(ws, ws[-1]))


def single_op(m):
    for op, mod, name in (("ADD", "add", "Add"), ("BLTU", "blt_taken", "BltTaken")):
        w = f"circuits/src/ops/{mod}/mod.rs"
        d = view(m.P, "ops", mod, "columns", name)
        for n in (1, 8):
            with m.ctx.group(f"{mod} {n}"):
                m.interp()
                others = mixed(m, ops=[o for o in R.ALL if o != op])
                # the second table takes rows by their operands: one row is enough for its padding
                mine = [row_at(m, op, f"m{i}") for i in range(n if op == "ADD" else 1)]
                rs = others[:7] + mine + others[7:]
                got = m.call(f"ops::{mod}::generate", tm.record(m.P, rs, state_at(m, "end")))

                def row(r):
                    a = args_of(r)
                    c = {"inst.pc": r.f["state"].f["pc"], "inst.rs1_selected": a["rs1"], "inst.rs2_selected": a["rs2"], "inst.imm_value": a["imm"], "clk": r.f["state"].f["clk"],
                         "op1_value": reg_of(m, r, "rs1"), "op2_value": reg_of(m, r, "rs2"), "is_running": 1}
                    if op == "ADD":
                        c.update({"inst.rd_selected": a["rd"], "dst_value": r.f["aux"].f["dst_val"]})
                    return c
                ws = padded([row(r) for r in mine], {})
                if op == "BLTU":
                    t = terms.ult(reg_of(m, mine[0], "rs1").t, reg_of(m, mine[0], "rs2").t)
                    ws[0] = {k: merge(t, felt(v), K(0)) for k, v in ws[0].items()}
                m.rows(f"{mod}:{n}", f"the {mod} table lists exactly the executed {op if op == 'ADD' else 'taken BLTU'} instructions ({len(mine)})", w, d, got, ws)


def inst_data(op, rs1, rs2, rd, imm):
    n = [x["n"] for x in OPS_ORDER].index(SELECT[op])
    parts = [K(n), K(int(op in SIGNED1)), K(int(op in SIGNED2)), felt(rs1), felt(rs2), felt(rd), felt(imm)]
    r = K(0)
    for i, p in enumerate(parts):
        r = gmap2(lambda x, y: x + y, r, gmap(lambda x: x.scale(1 << 5 * i), p))
    return r


def program_value(m, code=(), ro=(), rw=()):
    P = m.P
    mp = lambda kv: MapV({freeze(Int(k, "u32")): (Int(k, "u32"), v) for k, v in kv}, "map")
    data = lambda kv: StructV((tm.R, "elf", "Data"), {"0": mp(kv)})
    return struct(P, (tm.R, "elf", "Program"), entry_point=u32v("entry"), ro_memory=data(ro), rw_memory=data(rw), ro_code=StructV((tm.R, "code", "Code"), {"0": mp(code)}))


def program(m):
    global OPS_ORDER
    OPS_ORDER = view(m.P, "cpu", "columns", "OpSelectors")["fields"]["f"]
    w = "circuits/src/program/generation.rs"
    d = view(m.P, "program", "columns", "ProgramRom")
    ops = R.ALL
    m.interp()
    pcs = [4 * ((7 * i + 3) % 53) for i in range(len(ops))]
    code = [(pc, Ok(inst_at(m, op, op))) for pc, op in zip(pcs, ops)]
    code[5:5] = [(1000, Err(terms.mkT("bad", ())))]
    got = m.call("program::generation::generate_program_rom_trace", program_value(m, code))
    ws = []
    for pc, op in sorted(zip(pcs, ops)):
        v = lambda n: (u32v if n == "imm" else u8v)(f"{op}.{n}")
        ws.append({"pc": pc, "inst_data": inst_data(op, v("rs1"), v("rs2"), v("rd"), v("imm"))})
    m.rows("program:rom", "the program table lists every decoded instruction once, by address, with its packed encoding; undecodable words are left out", w, d, got, padded(ws, ws[-1]))
    # multiplicities
    w = "circuits/src/cpu/generation.rs"
    dm = view(m.P, "program_multiplicities", "columns", "ProgramMult")
    sk = view(m.P, "cpu_skeleton", "columns", "CpuSkeleton")
    m.interp()
    run = [(8, 1), (12, 1), (8, 1), (16, 1), (8, 1), (4, 0), (16, 1), (16, 0)]
    srows = [mk(m.I, sk, {"clk": FPoly.var(("c", i)), "pc": pc, "is_running": r}) for i, (pc, r) in enumerate(run)]
    rom = [(4, "a"), (8, "b"), (12, "c"), (16, "d"), (20, "e"), (20, "e"), (16, "d"), (8, "b")]
    rrows = [mk(m.I, d, {"pc": pc, "inst_data": FPoly.var(("data", x))}) for pc, x in rom]
    got = m.call("cpu::generation::generate_program_mult_trace", VecV(srows), VecV(rrows))
    seen, ws = set(), []
    for pc, x in rom:
        ws.append({"rom_row.pc": pc, "rom_row.inst_data": FPoly.var(("data", x)), "mult_in_cpu": 0 if pc in seen else sum(1 for q, r in run if r and q == pc)})
        seen.add(pc)
    m.rows("program:multiplicities", "each instruction is counted as often as a running state stands on it, and only in the first of its rows", w, dm, got, ws)


def cpu_rows(m, spec):
    """cpu rows with the given op (None: padding) and columns"""
    d = view(m.P, "cpu", "columns", "CpuState")
    return d, [mk(m.I, d, {**({"inst.ops." + SELECT[op]: 1} if op else {}), **v}) for op, v in spec]


def gadgets(m):
    # exclusive or: one row per use, its operands in bits
    w = "circuits/src/xor/generation.rs"
    d = view(m.P, "xor", "columns", "XorColumnsView")
    m.interp()
    word = lambda op, n: zext(var(f"{op}.{n}", 32), 32)
    _, rows = cpu_rows(m, [(op, {f"xor.{n}": FPoly.var(("u", word(op, n))) for n in ("a", "b", "out")}) for op in R.ALL] + [(None, {})])
    got = m.call("xor::generation::generate_xor_trace", VecV(rows))
    ws = []
    for op in R.ALL:
        if op in XORS:
            c = {"is_execution_row": 1}
            for n in ("a", "b", "out"):
                c[f"execution.{n}"] = FPoly.var(("u", word(op, n)))
                c.update({f"limbs.{n}[{j}]": b for j, b in enumerate(terms.bits(word(op, n)))})
            ws.append(c)
    m.rows("xor", "the xor table has a row for exactly the instructions that use the gadget, with the bits of its operands and result", w, d, got, padded(ws, {}))
    # shift amounts
    w = "circuits/src/bitshift/generation.rs"
    d = view(m.P, "bitshift", "columns", "BitshiftView")
    m.interp()
    use = [("SLL", 3), ("SRL", 31), ("SRA", 3), ("ADD", 4), ("SLL", 0), ("XOR", 3), (None, 0), ("SRA", 3), ("SRL", 17), ("SUB", 31)]
    _, rows = cpu_rows(m, [(op, {"bitshift.amount": n, "bitshift.multiplier": 1 << n}) for op, n in use])
    got = m.call("bitshift::generation::generate_shift_amount_trace", VecV(rows))
    ws = [{"executed.amount": i, "executed.multiplier": 1 << i, "multiplicity": sum(1 for op, n in use if op in SHIFTS and n == i)} for i in range(32)]
    m.rows("bitshift", "the shift table lists the 32 amounts with their powers of two, counted as often as a shift uses them", w, d, got, ws)


# ------------------------------------------------------------------ memory
def memory_init(m):
    w = "circuits/src/memoryinit/generation.rs"
    d = view(m.P, "memoryinit", "columns", "MemoryInit")
    for n in (2, 5):
        ro = [((37 * i + 11) % 101, u8v(f"ro{i}")) for i in range(n)]
        rw = [((37 * i + 11) % 101 + 1, u8v(f"rw{i}")) for i in range(n - 1)] + [(0xFFFFFFFF, u8v("top"))]
        ws = sorted([(a, {"filter": 1, "is_writable": x, "address": a, "value": v}) for x, kv in ((0, ro), (1, rw)) for a, v in kv], key=lambda p: p[0])
        for fn in ("generate_memory_init_trace", "generate_elf_memory_init_trace"):
            m.interp()
            got = m.call("memoryinit::generation::" + fn, program_value(m, ro=ro, rw=rw))
            m.rows(f"{fn}:{n}", f"{fn} lists the program's initial bytes by address, marked read-only or writable ({2 * n})", w, d, got, padded([x for _, x in ws], {}))
    w = "circuits/src/memory_zeroinit/generation.rs"
    d = view(m.P, "memory_zeroinit", "columns", "MemoryZeroInit")
    for tag, ro, rw, used in (("plain", [5, 100], [7], [[9, 10], [], [5, 9, 3], [7, 6]]), ("ends", [0], [0xFFFFFFFF], [[0, 1, 2, 3], [4, 5, 6, 7, 8, 0xFFFFFFFF]]), ("none", [], [], [])):
        m.interp()
        rs = [row_at(m, "LW", f"z{i}", mem_addresses_used=VecV(Int(a, "u32") for a in us)) for i, us in enumerate(used)]
        got = m.call("memory_zeroinit::generation::generate_memory_zero_init_trace", VecV(rs), program_value(m, ro=[(a, u8v(f"r{a}")) for a in ro], rw=[(a, u8v(f"w{a}")) for a in rw]))
        want = sorted(({a for us in used for a in us} | {0, 0xFFFFFFFF}) - set(ro) - set(rw))
        m.rows(f"zeroinit:{tag}", "memory starts as zero at the addresses used, and at both ends, that the program does not initialise", w, d, got, padded([{"addr": a, "filter": 1} for a in want], {}))


def wide_memory(m):
    for k, mod, name, loads, store in ((2, "memory_halfword", "HalfWordMemory", ("LH", "LHU"), "SH"), (4, "memory_fullword", "FullWordMemory", ("LW",), "SW")):
        w = f"circuits/src/{mod}/generation.rs"
        fn = {2: "generate_halfword_memory_trace", 4: "generate_fullword_memory_trace"}[k]
        d = view(m.P, mod, "columns", name)
        for rep in (1, 4):
            m.interp()
            rs = [r for i in range(rep) for r in mixed(m, f"{i}")]
            got = m.call(f"{mod}::generation::{fn}", VecV(rs))
            ws = []
            for r in rs:
                op = r.f["instruction"].f["op"].var
                if op in loads + (store,):
                    a = r.f["aux"].f["mem"].p[0].f["addr"].t
                    v = r.f["aux"].f["dst_val"].t
                    ws.append({"clk": r.f["state"].f["clk"], "ops.is_store": int(op == store), "ops.is_load": int(op != store), **{f"addrs[{i}]": u32(add(a, const(i, 32))) for i in range(k)},
                               **{f"limbs[{i}]": BV(trunc(lshr(v, 8 * i), 8), "u8") for i in range(k)}})
            m.rows(f"{mod}:{rep}", f"the {mod} table has one row per access of {k} bytes with its addresses (wrapping) and bytes, padded with a row that accesses nothing", w, d, got,
                   padded(ws, {**ws[-1], "ops.is_store": 0, "ops.is_load": 0}))
        m.interp()
        got = m.call(f"{mod}::generation::{fn}", VecV(mixed(m, ops=["ADD"])))
        m.rows(f"{mod}:none", f"without such accesses the {mod} table is empty", w, d, got, [{}] * 8)


def ground_entry(m, a, v):
    return Some(struct(m.P, (tm.R, "state", "MemEntry"), addr=Int(a, "u32"), raw_value=u32v(v)))


def memory(m):
    w = "circuits/src/memory/generation.rs"
    P = m.P
    d = view(P, "memory", "columns", "Memory")
    vi, vz = view(P, "memoryinit", "columns", "MemoryInit"), view(P, "memory_zeroinit", "columns", "MemoryZeroInit")
    vh, vf = view(P, "memory_halfword", "columns", "HalfWordMemory"), view(P, "memory_fullword", "columns", "FullWordMemory")
    vt, vs, vo = view(P, "storage_device", "columns", "StorageDevice"), view(P, "poseidon2_sponge", "columns", "Poseidon2Sponge"), view(P, "poseidon2_output_bytes", "columns", "Poseidon2OutputBytes")
    x = lambda n: FPoly.var(("mv", n))

    def table(parts, n):
        m.interp()
        I = m.I
        rows = {k: [] for k in ("step", "init", "zero", "half", "full", "sponge", "out")}
        tapes_ = [[] for _ in TAPES]
        out = []   # (addr, clk, order within a clock: load before store, columns)
        ro = set()

        def access(a, clk, kind, v, writable=None):
            out.append((a, clk, {"is_init": 0, "is_load": 1, "is_store": 2}[kind], {"addr": a, "clk": clk, kind: 1, "value": v}))
        # the program's bytes: after the zeros, before anything executes
        for i, (a, wr, flt) in enumerate(parts.get("init", ())):
            rows["init"].append(mk(I, vi, {"address": a, "is_writable": wr, "filter": flt, "value": x(f"i{i}")}))
            if flt:
                access(a, 1, "is_init", x(f"i{i}"))
                if not wr:
                    ro.add(a)
        for a, flt in parts.get("zero", ()):
            rows["zero"].append(mk(I, vz, {"addr": a, "filter": flt}))
            if flt:
                access(a, 0, "is_init", 0)
        for i, (op, clk, a) in enumerate(parts.get("step", ())):
            rows["step"].append(row_at(m, op, f"st{i}", clk=clk, **({} if a is None else {"mem": ground_entry(m, a, f"s{i}")})))
            if a is not None and op in ("LB", "LBU", "SB"):
                access(a, clk, "is_store" if op == "SB" else "is_load", u32v(f"s{i}"))
        for k, key, dd in ((2, "half", vh), (4, "full", vf)):
            for i, (kind, clk, addrs) in enumerate(parts.get(key, ())):
                rows[key].append(mk(I, dd, {"clk": clk, **({"ops." + kind: 1} if kind else {}), **{f"addrs[{j}]": a for j, a in enumerate(addrs)}, **{f"limbs[{j}]": x(f"{key}{i}.{j}") for j in range(k)}}))
                if kind:
                    for j, a in enumerate(addrs):
                        access(a, clk, kind, x(f"{key}{i}.{j}"))
        for i, (t, kind, clk, a) in enumerate(parts.get("tape", ())):
            tapes_[t].append(mk(I, vt, {"clk": clk, "addr": a, "value": x(f"t{i}"), "size": 3, **({"ops." + kind: 1} if kind else {})}))
            if kind == "is_memory_store":
                access(a, clk, "is_store", x(f"t{i}"))
        for i, (kind, clk, a) in enumerate(parts.get("sponge", ())):
            rows["sponge"].append(mk(I, vs, {"clk": clk, "input_addr": a, **({"ops." + kind: 1} if kind else {}), **{f"preimage[{j}]": x(f"p{i}.{j}") for j in range(12)}}))
            if kind:
                for j in range(8):
                    access(a + j, clk, "is_load", x(f"p{i}.{j}"))
        for i, (ex, clk, a) in enumerate(parts.get("out", ())):
            rows["out"].append(mk(I, vo, {"clk": clk, "output_addr": a, "is_executed": ex, **{f"output_bytes[{j}]": x(f"o{i}.{j}") for j in range(32)}}))
            if ex:
                for j in range(32):
                    access(a + j, clk, "is_store", x(f"o{i}.{j}"))
        got = m.call("memory::generation::generate_memory_trace", *[VecV(v) for v in (rows["step"], rows["init"], rows["zero"], rows["half"], rows["full"], *tapes_, rows["sponge"], rows["out"])])
        ws = []
        for a, clk, k, c in sorted(out, key=lambda t: t[:3]):
            ws.append({**c, "is_writable": int(a not in ro)})
        last = {**ws[-1], "is_load": 0, "is_store": 0, "is_init": 0}
        size = pow2(len(ws) + 1)
        m.ctx.ob(f"memory:{n}:distinct", len({t[:3] for t in out}) == len(out), "the accesses of the scenario are totally ordered", w, lambda: "")
        return got, ws + [last] * (size - len(ws))
    S, L = "is_store", "is_load"
    full = {
        "init": [(100, 1, 1), (7, 0, 1), (300, 0, 1), (0, 0, 0), (12, 0, 0), (301, 1, 1)],
        "zero": [(0, 1), (0xFFFFFFFF, 1), (50, 1), (100, 1), (13, 0), (400, 1)],
        "step": [("LB", 9, 100), ("SB", 5, 100), ("LBU", 7, 7), ("LW", 11, 100), ("SW", 12, 100), ("LH", 13, 50), ("LHU", 13, 51), ("SH", 14, 50), ("SB", 15, None), ("LB", 15, None), ("LBU", 15, None), ("ADD", 16, 100),
                 ("SB", 2, 0xFFFFFFFF), ("ECALL", 17, None)],
        "half": [(S, 20, (100, 101)), (L, 21, (0xFFFFFFFF, 0)), ("", 22, (50, 51))],
        "full": [(L, 23, (0xFFFFFFFE, 0xFFFFFFFF, 0, 1)), (S, 3, (50, 51, 52, 53)), ("", 24, (50, 51, 52, 53))],
        "tape": [(t, k, 30 + t, 600 + t) for t in range(7) for k in ("is_memory_store", "is_storage_device", "")],
        "sponge": [("is_init_permute", 41, 500), ("is_permute", 41, 508), ("", 42, 700)],
        "out": [(1, 41, 502), (0, 43, 800)],
    }
    for n, parts in (("all", full), ("small", {"init": [(3, 1, 1)], "step": [("SB", 4, 3), ("LB", 6, 3)]}), ("seven", {"zero": [(a, 1) for a in (5, 0, 3, 9, 4, 1, 2)]}), ("eight", {"zero": [(a, 1) for a in (5, 0, 3, 9, 4, 1, 2, 8)]})):
        got, ws = table(parts, n)
        m.rows(f"memory:{n}", "the memory table lists every initial byte and every access of every source exactly once, by address and time with loads before stores, marks read-only addresses, and ends in a row that accesses nothing",
               w, d, got, ws)


# ------------------------------------------------------------------ registers
def registers(m):
    w = "circuits/src/register/generation.rs"
    P = m.P
    di = view(P, "register", "init", "columns", "RegisterInit")
    for n in (0, 1, 3):
        m.interp()
        rs = [row_at(m, "SUB", f"s{i}") for i in range(n)]
        end = state_at(m, "end")
        got = m.call("register::generation::generate_register_init_trace", tm.record(P, rs, end))
        first = (rs[0].f["state"] if rs else end).f["registers"]
        ws = [{"reg_addr": i, "value": BV(terms.mkT("reg", (first.base, const(i, 64)), 32), "u32")} for i in range(1, 32)]
        m.rows(f"register init:{n}", "the initial registers are those the execution starts from", w, di, got, ws + [ws[-1]])
    # accesses
    dr, dz, dw = view(P, "register", "general", "columns", "Register"), view(P, "register", "zero_read", "columns", "RegisterZeroRead"), view(P, "register", "zero_write", "columns", "RegisterZeroWrite")
    va, vb = view(P, "ops", "add", "columns", "Add"), view(P, "ops", "blt_taken", "columns", "BltTaken")
    vt, vs = view(P, "storage_device", "columns", "StorageDevice"), view(P, "poseidon2_sponge", "columns", "Poseidon2Sponge")
    x = lambda *n: FPoly.var(("rv",) + n)

    affine(m)

    def table(n, cpu, add_, blt, tape, sponge, init):
        I = m.I
        acc = []

        def access(clk, kind, a, v):
            acc.append((a, 2 * clk + int(kind == "is_write"), {"addr": a, "value": v, "clk": clk, "ops." + kind: 1}))
        _, crows = cpu_rows(m, [(op, {"clk": clk, "inst.rs1_selected": a, "inst.rs2_selected": b, "inst.rd_selected": c, "op1_value": x("c1", i), "op2_value_raw": x("c2", i), "op2_value": x("no", i), "dst_value": x("cd", i)})
                                for i, (op, clk, a, b, c) in enumerate(cpu)])
        for i, (op, clk, a, b, c) in enumerate(cpu):
            if op:
                access(clk, "is_read", a, x("c1", i))
                access(clk, "is_read", b, x("c2", i))
                access(clk, "is_write", c, x("cd", i))
        two = {}
        for key, dd, spec in (("add", va, add_), ("blt", vb, blt)):
            two[key] = []
            for i, (run, clk, a, b, c) in enumerate(spec):
                cols = {"is_running": run, "clk": clk, "inst.rs1_selected": a, "inst.rs2_selected": b, "op1_value": x(key, 1, i), "op2_value": x(key, 2, i)}
                if key == "add":
                    cols.update({"inst.rd_selected": c, "dst_value": x(key, 3, i)})
                two[key].append(mk(I, dd, cols))
                if run:
                    access(clk, "is_read", a, x(key, 1, i))
                    access(clk, "is_read", b, x(key, 2, i))
                    if key == "add":
                        access(clk, "is_write", c, x(key, 3, i))
        tps = [[] for _ in TAPES]
        for i, (t, kind, clk) in enumerate(tape):
            tps[t].append(mk(I, vt, {"clk": clk, "addr": x("t", i), "value": x("tv", i), "size": 2, **({"ops." + kind: 1} if kind else {})}))
            if kind == "is_storage_device":
                access(clk, "is_read", 11, x("t", i))
        sp = []
        for i, (kind, clk) in enumerate(sponge):
            sp.append(mk(I, vs, {"clk": clk, "input_addr": x("sa", i), "output_addr": x("so", i), "input_len": x("sl", i), **({"ops." + kind: 1} if kind else {})}))
            if kind == "is_init_permute":
                access(clk, "is_read", 11, x("sa", i))
                access(clk, "is_read", 12, x("sl", i))
                access(clk, "is_read", 13, x("so", i))
        ini = [mk(I, di, {"reg_addr": a, "value": x("i", a, i)}) for i, a in enumerate(init)]
        for i, a in enumerate(init):
            access(0, "is_init", a, x("i", a, i))
        got = m.call("register::generation::generate_register_trace", *[VecV(v) for v in (crows, two["add"], two["blt"], sp, *tps, ini)])
        if not isinstance(got, tuple) or len(got) != 3:
            raise AnalysisError("generate_register_trace no longer returns three tables")
        acc.sort(key=lambda t: t[:2])
        zr = [{"clk": c["clk"], "is_used": 1} for a, _, c in acc if a == 0 and "ops.is_write" not in c]
        zw = [{"clk": c["clk"], "value": c["value"], "is_used": 1} for a, _, c in acc if a == 0 and "ops.is_write" in c]
        gen = [c for a, _, c in acc if a]
        last = {k: v for k, v in gen[-1].items() if not k.startswith("ops.")}
        for key, dd, i, ws in (("zero reads", dz, 0, padded(zr, {})), ("zero writes", dw, 1, padded(zw, {})), ("general", dr, 2, padded(gen, last))):
            m.rows(f"registers {key}:{n}", f"every read, write and initial value of a register is listed once, by register and time with reads before writes ({key})", w, dd, got[i], ws)
    table("all", [("XOR", 5, 1, 2, 3), ("SUB", 4, 3, 1, 0), (None, 4, 9, 9, 9), ("ECALL", 6, 0, 4, 4), ("LW", 9, 7, 0, 0), ("BLT", 10, 31, 30, 0)], [(1, 7, 6, 8, 6), (0, 8, 5, 5, 5), (1, 3, 0, 6, 0)],
          [(1, 11, 9, 10, 0), (0, 12, 9, 10, 0), (1, 13, 0, 9, 0)], [(t, k, 20 + t) for t in range(7) for k in ("is_storage_device", "is_memory_store", "")],
          [("is_init_permute", 30), ("is_permute", 30), ("", 31)], list(range(1, 32)))
    table("few", [("XOR", 5, 1, 2, 3)], [], [], [], [], [1, 2, 3])
    table("eight", [("SUB", 4, 0, 1, 2), ("SUB", 5, 0, 3, 0)], [], [], [], [], [1, 2, 3, 5, 4])


# ------------------------------------------------------------------ look-ups
def affine(m):
    """typed combinations of columns denote the affine forms they are written as (P19)"""
    I = m.interp()
    o = type("M", (), {})()
    o.I, o.P = I, m.P
    P24.prepare(o)
    cols = {}

    def evaluate(I_, v, place, args, hint, node, env):
        if not isinstance(v, LinV):
            return NotImplemented
        r = K(v.k)
        rows = {}
        for (w, c), k in v.c.items():
            if w not in rows:
                x = I_.deref(args[0 if w == "l" else 1])
                d = I_.P.lookup_abs(x.path)
                if x.path not in cols:
                    cols[x.path] = sm.columns(I_, d)
                rows[w] = dict(zip(cols[x.path], items(I_, I_.flatten(d, x))))
            r = r + felt(I_.deref(rows[w][c])).scale(k)
        return r
    I.methods["eval"] = evaluate
    return I


# ------------------------------------------------------------------ ranges
class _Views:
    """column names as P24's specification of the look-ups wants them"""

    def __init__(self, m, *paths):
        self.views = {"::".join(p): sm.columns(m.I, view(m.P, *p)) for p in paths}


def looked_up(spec, rows, kinds):
    """{value: multiplicity} the given look-ups of the given rows ask for"""
    count = {}
    val = lambda f, a, b: (f.k + sum(c * (a if w == "l" else b).get(x, 0) for (w, x), c in f.c.items())) % sm.PR
    for kind, cols, f in spec:
        for i, a in enumerate(rows.get(kind, ())):
            b = rows[kind][(i + 1) % len(rows[kind])]
            n = val(f, a, b)
            if n:
                v = val(cols[0], a, b)
                count[v] = (count.get(v, 0) + n) % sm.PR
    return count


class Junk:
    """a fixed sequence of different numbers"""

    def __init__(self):
        self.x = 12345

    def __call__(self, n=1 << 24):
        self.x = (self.x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (self.x >> 33) % n


def ranges(m):
    P = m.P
    w = "circuits/src/rangecheck/generation.rs"
    I = affine(m)
    V = {"Cpu": view(P, "cpu", "columns", "CpuState"), "Add": view(P, "ops", "add", "columns", "Add"), "BltTaken": view(P, "ops", "blt_taken", "columns", "BltTaken"),
         "Memory": view(P, "memory", "columns", "Memory"), "Register": view(P, "register", "general", "columns", "Register"), "RangeCheck": view(P, "rangecheck", "columns", "RangeCheckColumnsView")}
    ref = P24.reference(_Views(m, ("cpu", "columns", "CpuState"), ("register", "general", "columns", "Register")))
    r32 = [x for x in ref["32-bit ranges"] if x[0] != "RangeCheck"]
    r8 = [x for x in ref["byte ranges"] if x[0] != "RangeCheckU8"]
    cols = {k: sm.columns(I, d) for k, d in V.items()}

    def scenario(rep):
        j = Junk()
        rows = {k: [] for k in V}
        for _ in range(rep):
            for op in list(R.ALL) + [None]:
                r = {c: j() for c in cols["Cpu"] if not c.startswith("inst.ops.")}
                s1, s2, sd = op in SIGNED1, op in SIGNED2, op in SIGNEDD
                b1, b2, bd = j(2), j(2), j(2) * sd
                mw = {"lb": 7, "lh": 15}.get(SELECT.get(op), 0)
                r.update({"inst.is_op1_signed": int(s1), "inst.is_op2_signed": int(s2), "inst.is_dst_signed": int(sd), "op1_sign_bit": b1, "op2_sign_bit": b2, "dst_sign_bit": bd,
                          "op1_value": j(1 << 31) + (b1 << 31), "op2_value": j(1 << 31) + (b2 << 31), "mem_value_raw": (j(1 << mw) + (bd << mw)) if mw else j()})
                if op:
                    r["inst.ops." + SELECT[op]] = 1
                rows["Cpu"].append(r)
            for run in (1, 0, 1):
                rows["Add"].append({**{c: j() for c in cols["Add"]}, "is_running": run})
                rows["BltTaken"].append({**{c: j() for c in cols["BltTaken"]}, "is_running": run, "op1_value": j(1000), "op2_value": 1000 + j(1000)})
        a, clk = 0, 0
        for i in range(8 * rep):
            new = i % 4 == 0
            a, clk = (a + 1 + j(99), j(2)) if new else (a, clk + 1 + j(9))
            kind = "is_init" if new else ("is_load", "is_store")[j(2)]
            rows["Memory"].append({"addr": a, "clk": clk, "value": j(256), "is_writable": j(2), kind: 1})
        rows["Memory"] += [{**{c: v for c, v in rows["Memory"][-1].items() if c in ("addr", "clk", "value", "is_writable")}}] * 3
        for i in range(12 * rep):
            new = i % 4 == 0
            a, clk = (i // 4 + 1, 0) if new else (a, clk + 1 + j(9))
            rows["Register"].append({"addr": a, "clk": clk, "value": j(), "ops." + ("is_init" if new else ("is_read", "is_write")[j(2)]): 1})
        rows["Register"] += [{c: v for c, v in rows["Register"][-1].items() if c in ("addr", "clk", "value")}] * 2
        return rows
    for n, rep, drop in (("all", 2, ()), ("registers", 1, ("Cpu", "Add", "BltTaken", "Memory")), ("nothing", 1, ("Cpu", "Add", "BltTaken", "Memory", "Register"))):
        rows = {k: ([] if k in drop else v) for k, v in scenario(rep).items()}
        got = m.call("rangecheck::generation::generate_rangecheck_trace", *[VecV(mk(m.I, V[k], r) for r in rows[k]) for k in ("Cpu", "Add", "BltTaken", "Memory", "Register")])
        want = looked_up(r32, rows, V)
        assert all(v < 1 << 32 for v in want), "scenario out of range"
        ws = [{**{f"limbs[{i}]": v >> 8 * i & 255 for i in range(4)}, "multiplicity": c} for v, c in sorted(want.items())]
        m.rows(f"ranges:{n}", "the range table lists every value the other tables want checked, once, with its bytes and the number of times it is wanted", w, V["RangeCheck"], got, padded(ws, {}))
        # bytes
        d8 = view(P, "rangecheck_u8", "columns", "RangeCheckU8")
        rows["RangeCheck"] = padded(ws, {})
        got = m.call("rangecheck_u8::generation::generate_rangecheck_u8_trace", *[VecV(mk(m.I, V[k], r) for r in rows[k]) for k in ("RangeCheck", "Memory")])
        want = looked_up(r8, rows, V)
        m.rows(f"bytes:{n}", "the byte table lists the 256 bytes with the number of times the range and memory tables want them", "circuits/src/rangecheck_u8/generation.rs", d8, got,
               [{"value": v, "multiplicity": want.get(v, 0)} for v in range(256)])


def tape_rows(m, opcode, tag, n, clk=None):
    e = struct(m.P, (tm.R, "state", "StorageDeviceEntry"), addr=u32v(tag + ".addr"), op=EnumV((tm.R, "state", "StorageDeviceOpcode"), opcode), data=VecV(u8v(f"{tag}.d{i}") for i in range(n)))
    return row_at(m, "ECALL", tag, clk, storage_device_entry=Some(e))


def tapes(m):
    w = "circuits/src/storage_device/generation.rs"
    d = view(m.P, "storage_device", "columns", "StorageDevice")
    for tape, opcode in TAPES:
        m.interp()
        rs, ws = [], []
        for i, n in enumerate((3, 0, 1, 4)):
            for _, oc in TAPES:
                r = tape_rows(m, oc, f"{oc}{i}", n)
                rs.append(r)
                if oc != opcode:
                    continue
                e = r.f["aux"].f["storage_device_entry"].p[0].f
                c = r.f["state"].f["clk"]
                ws.append({"clk": c, "addr": e["addr"], "size": n, "ops.is_storage_device": 1})
                ws += [{"clk": c, "addr": u32(add(e["addr"].t, const(j, 32))), "size": n - 1 - j, "value": e["data"].xs[j], "ops.is_memory_store": 1,
                        "is_lv_and_nv_are_memory_rows": int(j + 1 < n)} for j in range(n)]
        rs += mixed(m)
        rs.append(tape_rows(m, "None", "none", 2))
        got = m.call(f"storage_device::generation::generate_{tape}_tape_trace", VecV(rs))
        m.rows(f"tape:{tape}", f"the {tape} tape table has, for each of its system calls and no others, the call and then every byte stored, with the count still to come", w, d, got, padded(ws, {}))
    w = "circuits/src/tape_commitments/generation.rs"
    d = view(m.P, "tape_commitments", "columns", "TapeCommitments")
    for ne, nc in ((0, 1), (2, 3)):
        m.interp()
        end = state_at(m, "end")
        rs = [tape_rows(m, oc, f"{oc}{i}", 32) for i, oc in enumerate(["StoreEventsCommitmentTape"] * ne + ["StorePublic"] + ["StoreCastListCommitmentTape"] * nc + ["StoreSelfProgIdTape"])]
        got = m.call("tape_commitments::generation::generate_tape_commitments_trace", tm.record(m.P, rs, end))
        b = lambda t, i: BV(var(f"{t}[{i}]", 8), "u8")
        ws = [{"commitment_byte_row.byte": b("cast_list_commitment_tape", i), "commitment_byte_row.index": i, "castlist_commitment_tape_multiplicity": nc, "is_castlist_commitment_tape_row": 1}
              for i in range(32)] + \
             [{"commitment_byte_row.byte": b("events_commitment_tape", i), "commitment_byte_row.index": i, "event_commitment_tape_multiplicity": ne, "is_event_commitment_tape_row": 1} for i in range(32)]
        m.rows(f"commitments:{ne},{nc}", "both commitments are listed byte by byte, counted as often as the program reads them", w, d, got, ws)


# ------------------------------------------------------------------ all tables
TABLES = {
    "Cpu": "cpu", "RangeCheck": "rangecheck", "Xor": "xor", "Bitshift": "bitshift", "Program": "program", "ProgramMult": "program_mult", "Memory": "memory", "ElfMemoryInit": "elf_memory_init",
    "MemoryZeroInit": "zeroinit", "RangeCheckU8": "rangecheck_u8", "HalfWordMemory": "halfword", "FullWordMemory": "fullword", "StorageDevicePrivate": "private", "StorageDevicePublic": "public",
    "CallTape": "call", "EventTape": "event", "EventsCommitmentTape": "events_commitment", "CastListCommitmentTape": "cast_list_commitment", "SelfProgIdTape": "self_prog_id", "RegisterInit": "register_init",
    "Register": "register.2", "RegisterZeroRead": "register.0", "RegisterZeroWrite": "register.1", "Poseidon2": "poseidon2", "Poseidon2Sponge": "sponge", "Poseidon2OutputBytes": "output_bytes",
    "CpuSkeleton": "skeleton", "Add": "add", "BltTaken": "blt_taken", "TapeCommitments": "tape_commitments"}
TAPE_NAMES = [t for t, _ in TAPES]
# generator: (function, what it is made from)
MADE = {
    "cpu": ("cpu::generation::generate_cpu_trace", ["record"]), "skeleton": ("cpu_skeleton::generation::generate_cpu_skeleton_trace", ["record"]), "add": ("ops::add::generate", ["record"]),
    "blt_taken": ("ops::blt_taken::generate", ["record"]), "xor": ("xor::generation::generate_xor_trace", ["cpu"]), "bitshift": ("bitshift::generation::generate_shift_amount_trace", ["cpu"]),
    "program": ("program::generation::generate_program_rom_trace", ["elf"]), "program_mult": ("cpu::generation::generate_program_mult_trace", ["skeleton", "program"]),
    "memory_init": ("memoryinit::generation::generate_memory_init_trace", ["elf"]), "elf_memory_init": ("memoryinit::generation::generate_elf_memory_init_trace", ["elf"]),
    "zeroinit": ("memory_zeroinit::generation::generate_memory_zero_init_trace", ["executed", "elf"]), "halfword": ("memory_halfword::generation::generate_halfword_memory_trace", ["executed"]),
    "fullword": ("memory_fullword::generation::generate_fullword_memory_trace", ["executed"]), **{t: (f"storage_device::generation::generate_{t}_tape_trace", ["executed"]) for t in TAPE_NAMES if t != "self_prog_id"},
    "self_prog_id": ("storage_device::generation::generate_self_prog_id_tape_trace", ["executed"]), "sponge": ("poseidon2_sponge::generation::generate_poseidon2_sponge_trace", ["executed"]),
    "output_bytes": ("poseidon2_output_bytes::generation::generate_poseidon2_output_bytes_trace", ["sponge"]), "poseidon2": ("poseidon2::generation::generate_poseidon2_trace", ["executed"]),
    "memory": ("memory::generation::generate_memory_trace", ["executed", "memory_init", "zeroinit", "halfword", "fullword", *TAPE_NAMES, "sponge", "output_bytes"]),
    "register_init": ("register::generation::generate_register_init_trace", ["record"]),
    "register": ("register::generation::generate_register_trace", ["cpu", "add", "blt_taken", "sponge", *TAPE_NAMES, "register_init"]),
    "rangecheck": ("rangecheck::generation::generate_rangecheck_trace", ["cpu", "add", "blt_taken", "memory", "register.2"]), "rangecheck_u8": ("rangecheck_u8::generation::generate_rangecheck_u8_trace", ["rangecheck", "memory"]),
    "tape_commitments": ("tape_commitments::generation::generate_tape_commitments_trace", ["record"])}


def wiring(m):
    w = "circuits/src/generation.rs"
    P = m.P
    I = m.interp()
    tok = lambda *a: terms.mkT("made", a)
    rec = struct(P, (tm.R, "vm", "ExecutionRecord"), executed=tok("executed"), last_state=tok("last"))
    elf = tok("elf")

    def stub(path, f):
        d = P.fn(f"{C}::{path}")
        if d is None:
            raise AnalysisError(f"{path} not found")
        I.intrinsics["::".join(d["path"][-2:]) if "path" in d else "::".join(path.split("::")[-2:])] = f
    for key, (path, _) in MADE.items():
        n = 3 if key == "register" else 1

        def f(I_, vs, h, e, node, key=key, n=n):
            a = tuple(freeze(I_.deref(v)) for v in vs)
            return tok(key, a) if n == 1 else tuple(tok(f"{key}.{i}", a) for i in range(n))
        stub(path, f)
    stub("stark::utils::trace_rows_to_poly_values", lambda I_, vs, h, e, n: tok("columns", (freeze(I_.deref(vs[0])),)))
    memo = {"record": freeze(rec), "executed": freeze(tok("executed")), "elf": freeze(elf)}

    def made(key):
        if key not in memo:
            memo[key] = freeze(tok(key, tuple(made(k) for k in MADE[key.split(".")[0]][1])))
        return memo[key]
    got = m.call("generation::generate_traces", elf, rec, tok("timing"))
    if not (isinstance(got, StructV) and got.path[-1] == "TableKindArray"):
        raise AnalysisError(f"generate_traces no longer returns an array by table kind: {got!r}"[:200])
    kinds = [v["n"] for v in P.lookup_abs((C, "stark", "mozak_stark", "TableKind"))["variants"]]
    xs = items(I, I.deref(got.f["0"]))
    m.ctx.ob("wiring:tables", sorted(kinds) == sorted(TABLES) and len(xs) == len(kinds), "one trace for each of the specified tables", w, lambda: str(sorted(set(kinds) ^ set(TABLES))))
    for k, x in zip(kinds, xs):
        if k in TABLES:
            want = freeze(tok("columns", (made(TABLES[k]),)))
            m.ctx.ob(f"wiring:{k}", freeze(I.deref(x)) == want, f"the {k} table is generated by its own generator from the tables it depends on", w, lambda: f"{x!r}"[:300])
    # columns of a list of rows
    w = "circuits/src/stark/utils.rs"
    I = m.interp()
    I.intrinsics["ext:transpose"] = lambda I_, vs, h, e, n: VecV([VecV(list(c)) for c in zip(*[items(I_, I_.deref(x)) for x in items(I_, I_.deref(vs[0]))])])
    d = view(P, "memory", "columns", "Memory")
    cols = sm.columns(I, d)
    I.pc = True
    rows = [tm.symrow(I, d, ("row", i)) for i in range(5)]
    f = P.fn(f"{C}::stark::utils::trace_rows_to_poly_values")
    r = items(I, I.deref(I.call_fn(f, [("v", VecV(rows))], Env(None, f["mod"]))))
    bad = []
    for j, c in enumerate(cols):
        p = I.deref(r[j]) if j < len(r) else None
        vals = items(I, I.deref(p.f["values"])) if isinstance(p, StructV) and "values" in p.f else None
        if vals is None or [felt(I.deref(v)).p for v in vals] != [FPoly.var((("row", i), c)).p for i in range(5)]:
            bad.append((c, p))
    m.ctx.ob("columns", not bad and len(r) == len(cols), "a trace's columns hold its rows' values, row by row", w, lambda: f"{bad[:2]!r}"[:300])
    m.ctx.saw(I)



# ------------------------------------------------------------------ Poseidon2
def fvars(tag, n):
    return VecV(FPoly.var((tag, i)) for i in range(n))


def opaque_permutation(m):
    """the external permutation's layers as unknown functions of the state"""
    I = m.I

    def layer(name, nargs=0):
        def f(I_, vs, h, e, n):
            xs = [felt(I_.deref(x)) for x in items(I_, I_.deref(vs[0]))]
            extra = tuple(I_.deref(v).v if isinstance(I_.deref(v), Int) else freeze(I_.deref(v)) for v in vs[1:])
            if name == "constant_layer" and isinstance(extra[0], int) and extra[0] >= 8:
                raise AnalysisError("there are constants for eight full rounds only")
            key = (name, tuple(frozenset(x.p.items()) for x in xs), extra)
            vs[0].place.set(VecV(FPoly.var((key, i)) for i in range(len(xs))))
            return UNIT
        return f
    for n in ("matmul_external", "matmul_internal", "constant_layer", "sbox_layer"):
        I.intrinsics["*::" + n] = layer(n)
    I.intrinsics["*::sbox_monomial"] = lambda I_, vs, h, e, n: FPoly.var(("sbox", frozenset(felt(I_.deref(vs[-1])).p.items())))


def permutation_row(inp, exe):
    """columns of the Poseidon2 table, by the permutation's definition"""
    rc = lambda i: sm.generic("RC12_MID", i)
    diag = freeze(VecV([K(sm.generic("MAT_DIAG12_M_1", i)) for i in range(12)]))
    fz = lambda xs: tuple(frozenset(x.p.items()) for x in xs)
    layer = lambda name, xs, *extra: [FPoly.var(((name, fz(xs), extra), i)) for i in range(12)]
    c = {"is_exe": exe, **{f"input[{i}]": x for i, x in enumerate(inp)}}
    s = layer("matmul_external", inp)

    def full(s, r, tag, j):
        s = layer("constant_layer", s, r)
        c.update({f"s_box_input_qube_{tag}_full_rounds[{12 * j + i}]": x * x * x for i, x in enumerate(s)})
        s = layer("matmul_external", layer("sbox_layer", s))
        c.update({f"state_after_{tag}_full_rounds[{12 * j + i}]": x for i, x in enumerate(s)})
        return s
    for r in range(4):
        s = full(s, r, "first", r)
    for r in range(22):
        x = s[0] + rc(r)
        c[f"s_box_input_qube_partial_rounds[{r}]"] = x * x * x
        s = layer("matmul_internal", [FPoly.var(("sbox", frozenset(x.p.items())))] + s[1:], diag)
        c[f"state0_after_partial_rounds[{r}]"] = s[0]
    c.update({f"state_after_partial_rounds[{i}]": x for i, x in enumerate(s)})
    for r in range(4):
        s = full(s, 4 + r, "second", r)
    return c


def sponge_entry(m, tag, n):
    sd = m.P.lookup_abs((tm.R, "poseidon2", "SpongeData"))["path"]
    data = VecV(StructV(sd, {"preimage": fvars(f"{tag}.in{i}", 12), "output": fvars(f"{tag}.out{i}", 12), "gen_output": K(int(i == n - 1))}) for i in range(n))
    return struct(m.P, (tm.R, "poseidon2", "Entry"), addr=u32v(tag + ".addr"), output_addr=u32v(tag + ".out"), len=Int(8 * n, "u32"), sponge_data=data)


def poseidon(m):
    counts = (1, 3, 2)
    w = "circuits/src/poseidon2/generation.rs"
    d = view(m.P, "poseidon2", "columns", "Poseidon2State")
    m.interp()
    opaque_permutation(m)
    mix = mixed(m)
    rs = mix[:4] + [row_at(m, "ECALL", f"h{i}", poseidon2=Some(sponge_entry(m, f"h{i}", n))) for i, n in enumerate(counts)] + mix[4:]
    got = m.call("poseidon2::generation::generate_poseidon2_trace", VecV(rs))
    ws = [permutation_row([FPoly.var((f"h{i}.in{j}", k)) for k in range(12)], 1) for i, n in enumerate(counts) for j in range(n)]
    m.rows("poseidon2", "the permutation table has a row per permutation with every intermediate state and cube; padding permutes zero and counts for nothing", w, d, got,
           padded(ws, permutation_row([K(0)] * 12, 0)))
    # sponge
    w = "circuits/src/poseidon2_sponge/generation.rs"
    d = view(m.P, "poseidon2_sponge", "columns", "Poseidon2Sponge")
    m.interp()
    got = m.call("poseidon2_sponge::generation::generate_poseidon2_sponge_trace", VecV(rs))
    ws = []
    for i, n in enumerate(counts):
        for j in range(n):
            t = f"h{i}"
            ws.append({"clk": BV(zext(var(t + ".clk", 32), 64), "u64"), "ops.is_init_permute": int(j == 0), "ops.is_permute": int(j > 0), "input_addr": u32(add(var(t + ".addr", 32), const(8 * j, 32))),
                       "output_addr": u32v(t + ".out"), "input_len": 8 * (n - j), "gen_output": int(j == n - 1),
                       **{f"preimage[{k}]": FPoly.var((f"{t}.in{j}", k)) for k in range(12)}, **{f"output[{k}]": FPoly.var((f"{t}.out{j}", k)) for k in range(12)}})
    m.rows("sponge", "the sponge table has a row per block: the first starts afresh, each moves on by eight bytes, the last one yields the output", w, d, got, padded(ws, {}))
    # bytes of the output
    w = "circuits/src/poseidon2_output_bytes/generation.rs"
    d2 = view(m.P, "poseidon2_output_bytes", "columns", "Poseidon2OutputBytes")
    m.interp()
    hash_bytes(m.I)
    srows = [mk(m.I, d, w_) for w_ in ws] + [mk(m.I, d, {})]
    got = m.call("poseidon2_output_bytes::generation::generate_poseidon2_output_bytes_trace", VecV(srows))
    out = []
    for w_ in ws:
        if w_["gen_output"]:
            fs = [w_[f"output[{k}]"] for k in range(4)]
            out.append({"is_executed": 1, "clk": w_["clk"], "output_addr": w_["output_addr"], **{f"output_fields[{k}]": f for k, f in enumerate(fs)},
                        **{f"output_bytes[{k}]": hash_byte(fs, k) for k in range(32)}})
    m.rows("output bytes", "the output table lists the four words of every digest and their 32 bytes", w, d2, got, padded(out, {}))


def hash_byte(fs, k):
    return FPoly.var(("u", terms.mkT("hash_byte", (tuple(frozenset(f.p.items()) for f in fs), k), 8)))


def hash_bytes(I):
    I.intrinsics["HashOut::from"] = lambda I_, vs, h, e, n: StructV(("HashOut",), {"elements": VecV(felt(I_.deref(x)) for x in items(I_, I_.deref(vs[0])))})

    def to_bytes(I_, v, place, args, hint, node, env):
        if not (isinstance(v, StructV) and v.path[-1] == "HashOut"):
            return NotImplemented
        fs = v.f["elements"].xs
        return VecV(BV(terms.mkT("hash_byte", (tuple(frozenset(f.p.items()) for f in fs), k), 8), "u8") for k in range(32))
    I.methods["to_bytes"] = to_bytes
