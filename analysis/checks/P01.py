"""Instruction decoding is total and exact: every (pc, word) pair decodes to
exactly the operation and operands of the reference RV32IM table."""
import bdd
import terms
from framework import at
from interp import Env, Interp
from program import AnalysisError, Program
from values import *

W = terms.var("word", 32)
PC = terms.var("pc", 32)


def bit(i):
    return terms.bits(W)[i]


def field(hi, lo):
    return [bit(i) for i in range(lo, hi + 1)]


def fieldt(hi, lo, w):
    return terms.from_bits(field(hi, lo) + [False] * (w - (hi - lo + 1)))


def feq(hi, lo, v):
    return bdd.and_(*[bit(lo + k) if v >> k & 1 else bdd.not_(bit(lo + k)) for k in range(hi - lo + 1)])


def simm(parts, pad):
    """sign-extended immediate from (hi, lo) segments, most significant first"""
    bs = [False] * pad
    for hi, lo in reversed(parts):
        bs += field(hi, lo)
    bs += [bit(31)] * (32 - len(bs))
    return terms.from_bits(bs)


RD, RS1, RS2 = (fieldt(h, l, 8) for h, l in ((11, 7), (19, 15), (24, 20)))
Z8 = terms.const(0, 8)
Z32 = terms.const(0, 32)
I_IMM = simm([(31, 20)], 0)
S_IMM = simm([(31, 25), (11, 7)], 0)
B_ADDR = terms.add(simm([(31, 31), (7, 7), (30, 25), (11, 8)], 1), PC)
J_ADDR = terms.add(simm([(31, 31), (19, 12), (20, 20), (30, 21)], 1), PC)
U_IMM = simm([(31, 12)], 12)
U_ADDR = terms.add(U_IMM, PC)
SHAMT = fieldt(24, 20, 32)
POW = terms.vshift("shl", terms.const(1, 32), SHAMT)


def args(rd=Z8, rs1=Z8, rs2=Z8, imm=Z32):
    return dict(rd=rd, rs1=rs1, rs2=rs2, imm=imm)


def table():
    """(mnemonic, condition on the word, internal op, operands)"""
    out = []

    def op(v):
        return feq(6, 0, v)

    def f3(v):
        return feq(14, 12, v)

    def f7(v):
        return feq(31, 25, v)
    for name, a, b in [("ADD", 0, 0), ("SUB", 0, 32), ("SLL", 1, 0), ("SLT", 2, 0), ("SLTU", 3, 0), ("XOR", 4, 0), ("SRL", 5, 0), ("SRA", 5, 32),
                       ("OR", 6, 0), ("AND", 7, 0), ("MUL", 0, 1), ("MULH", 1, 1), ("MULHSU", 2, 1), ("MULHU", 3, 1), ("DIV", 4, 1), ("DIVU", 5, 1),
                       ("REM", 6, 1), ("REMU", 7, 1)]:
        out.append((name, bdd.and_(op(0x33), f3(a), f7(b)), name, args(RD, RS1, RS2)))
    for name, a in [("LB", 0), ("LH", 1), ("LW", 2), ("LBU", 4), ("LHU", 5)]:
        out.append((name, bdd.and_(op(0x03), f3(a)), name, args(RD, Z8, RS1, I_IMM)))
    for name, a in [("SB", 0), ("SH", 1), ("SW", 2)]:
        out.append((name, bdd.and_(op(0x23), f3(a)), name, args(Z8, RS2, RS1, S_IMM)))
    for name, a, o in [("ADDI", 0, "ADD"), ("SLTI", 2, "SLT"), ("SLTIU", 3, "SLTU"), ("XORI", 4, "XOR"), ("ORI", 6, "OR"), ("ANDI", 7, "AND")]:
        out.append((name, bdd.and_(op(0x13), f3(a)), o, args(RD, RS1, Z8, I_IMM)))
    out.append(("SLLI", bdd.and_(op(0x13), f3(1), f7(0)), "MUL", args(RD, RS1, Z8, POW)))
    out.append(("SRLI", bdd.and_(op(0x13), f3(5), f7(0)), "DIVU", args(RD, RS1, Z8, POW)))
    out.append(("SRAI", bdd.and_(op(0x13), f3(5), f7(32)), "SRA", args(RD, RS1, Z8, SHAMT)))
    nop = args()
    sysop = op(0x73)
    out.append(("ECALL", bdd.and_(sysop, f3(0), feq(31, 20, 0)), "ECALL", args(Z8, terms.const(10, 8), terms.const(11, 8), Z32)))
    out.append(("EBREAK", bdd.and_(sysop, f3(0), feq(31, 20, 1)), "ADD", nop))
    out.append(("MRET", bdd.and_(sysop, f3(0), feq(31, 20, 0x302)), "ADD", nop))
    for name, a in [("CSRRW", 1), ("CSRRS", 2), ("CSRRWI", 5)]:
        out.append((name, bdd.and_(sysop, f3(a)), "ADD", nop))
    out.append(("JAL", op(0x6F), "JALR", args(RD, Z8, Z8, J_ADDR)))
    out.append(("JALR", bdd.and_(op(0x67), f3(0)), "JALR", args(RD, RS1, Z8, I_IMM)))
    for name, a in [("BEQ", 0), ("BNE", 1), ("BLT", 4), ("BGE", 5), ("BLTU", 6), ("BGEU", 7)]:
        out.append((name, bdd.and_(op(0x63), f3(a)), name, args(Z8, RS1, RS2, B_ADDR)))
    out.append(("LUI", op(0x37), "ADD", args(RD, Z8, Z8, U_IMM)))
    out.append(("AUIPC", op(0x17), "ADD", args(RD, Z8, Z8, U_ADDR)))
    out.append(("FENCE", op(0x0F), "ADD", nop))
    return out


def ok_payload(v):
    """the value with Result::Ok peeled, and the condition of being Ok"""
    if isinstance(v, RefV):
        return ok_payload(v.place.get())
    if isinstance(v, GateV):
        a, b = ok_payload(v.a), ok_payload(v.b)
        c = bdd.ite(v.c, a[0], b[0])
        val = a[1] if b[1] is None else b[1] if a[1] is None else merge(v.c, a[1], b[1])
        err = a[2] if b[2] is None else b[2] if a[2] is None else merge(v.c, a[2], b[2])
        return c, val, err
    if isinstance(v, EnumV) and v.path[-1] == "Result":
        return (True, v.p[0], None) if v.var == "Ok" else (False, None, v.p[0])
    raise AnalysisError(f"decoder result is {v!r}"[:200])


def example(care):
    """a concrete word in the (non-empty) set, to make the report diagnosable"""
    c = bdd.one_cube(care)
    w = 0
    for i, val in c.items() if isinstance(c, dict) else c:
        a = bdd.atom_of(i) if isinstance(i, int) else i
        if a[0] == "bit" and a[1] is W and val:
            w |= 1 << a[2]
    return f"0x{w:08x}"


def run(ctx):
    ctx.rule = ("value-numbering abstract interpretation of the decoder over the whole (pc, word) space; the bit-level denotation of each output "
                "field is compared with the reference RV32IM encoding table, region by region")
    ctx.explanation = ctx.rule
    P = Program(["mozak_runner", "mozak_sdk"])
    I = Interp(P)
    I.track_overflow = True
    d = P.fn("mozak_runner::decode::decode_instruction")
    if d is None:
        ctx.fail("anchor:decode", "the decoder function exists", "runner/src/decode.rs")
        return
    where = at({"mod": d["mod"], "node": d})
    r = I.call_fn(d, [("v", BV(PC, "u32")), ("v", BV(W, "u32"))], Env(None, d["mod"]))
    ctx.saw(I)
    ctx.ob("total", not any(p[0] is not False for p in I.panics), "decoding never panics, for any pc and word", where,
           lambda: "; ".join(f"{p[2]} at line {p[3].get('ln') if p[3] else '?'} e.g. word {example(p[0])}" for p in I.panics[:3]))
    okc, ins, err = ok_payload(r)
    known = False
    T_ = table()
    for name, cond, op, a in T_:
        known = bdd.or_(known, cond)
        bad = bdd.and_(cond, bdd.not_(okc))
        ctx.ob(f"{name}:accepted", bad is False, f"every {name} encoding decodes", where, lambda: f"rejected, e.g. word {example(bad)}")
        care = bdd.and_(cond, okc)
        if care is False:
            continue
        I.pc = True
        opv = I.get_field(ins, "op")
        isop = I.is_variant(opv, ("mozak_runner", "instruction", "Op"), op)
        bad = bdd.and_(care, bdd.not_(isop))
        ctx.ob(f"{name}:op", bad is False, f"{name} decodes to operation {op}", where, lambda: f"another operation, e.g. word {example(bad)}")
        av = I.get_field(ins, "args")
        for f, t in a.items():
            x = I.get_field(av, f)
            tx = term_of(x, "u32" if f == "imm" else "u8")
            ctx.ob(f"{name}:{f}", terms.eq_under(care, tx, t), f"{name} operand {f} matches the encoding", where,
                   lambda: f"differs on words such as {example(care)}")
    rest = bdd.not_(known)
    bad = bdd.and_(rest, okc)
    ctx.ob("others:rejected", bad is False, "every word outside the table is rejected", where, lambda: f"accepted, e.g. word {example(bad)}")
    care = bdd.and_(rest, bdd.not_(okc))
    for f, t in (("pc", PC), ("instruction", W)):
        x = I.get_field(err, f)
        ctx.ob(f"error:{f}", terms.eq_under(care, term_of(x, "u32"), t), f"the decoding error carries the {f} it was raised for", where)
    ctx.floor("encodings", len(T_), 52)
