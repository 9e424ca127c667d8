"""Reference semantics of one instruction of the internal ISA, written over
the same value domain, and the per-operation comparison helpers."""
import bdd
import terms
from framework import at
from symdom import bytemap, keyset, regfile
from terms import add, const, ite, mkT, mul, sext, sub, trunc, zext
from values import *
import vmmodel as vm

ALU = ["ADD", "SUB", "XOR", "OR", "AND", "SLL", "SRL", "SRA", "SLT", "SLTU", "MUL", "MULH", "MULHU", "MULHSU", "DIV", "DIVU", "REM", "REMU"]
LOADS = {"LB": (1, True), "LH": (2, True), "LW": (4, False), "LBU": (1, False), "LHU": (2, False)}
STORES = {"SB": 1, "SH": 2, "SW": 4}
BRANCH = ["BEQ", "BNE", "BLT", "BGE", "BLTU", "BGEU"]
ALL = ALU + list(LOADS) + list(STORES) + BRANCH + ["JALR", "ECALL"]

X1, X2, IMM = vm.reg("rs1"), vm.reg("rs2"), vm.arg("imm")
PC = terms.var("s.pc", 32)
CLK = terms.var("s.clk", 64)
OP2 = add(X2, IMM)
SH = terms.band(OP2, const(31, 32))
ONE = const(1, 32)
Z = const(0, 32)
M1 = const(0xFFFFFFFF, 32)
MIN = const(1 << 31, 32)


def b2(c):
    return terms.from_bool(c, 32)


def alu(op, a, b):
    ovf = bdd.and_(terms.eq(a, MIN), terms.eq(b, M1))
    z = terms.eq(b, Z)

    def hi(x, y):
        return trunc(terms.lshr(mul(x, y), 32), 32)
    sh = terms.band(b, const(31, 32))
    return {
        "ADD": lambda: add(a, b), "SUB": lambda: sub(a, b), "XOR": lambda: terms.bxor(a, b), "OR": lambda: terms.bor(a, b),
        "AND": lambda: terms.band(a, b), "SLL": lambda: terms.vshift("shl", a, sh), "SRL": lambda: terms.vshift("lshr", a, sh),
        "SRA": lambda: terms.vshift("ashr", a, sh), "SLT": lambda: b2(terms.slt(a, b)), "SLTU": lambda: b2(terms.ult(a, b)),
        "MUL": lambda: mul(a, b), "MULH": lambda: hi(sext(a, 64), sext(b, 64)), "MULHU": lambda: hi(zext(a, 64), zext(b, 64)),
        "MULHSU": lambda: hi(sext(a, 64), zext(b, 64)),
        "DIV": lambda: ite(z, M1, ite(ovf, MIN, terms.divop("sdiv", a, b))),
        "DIVU": lambda: ite(z, M1, terms.divop("udiv", a, b)),
        "REM": lambda: ite(z, a, ite(ovf, Z, terms.divop("srem", a, b))),
        "REMU": lambda: ite(z, a, terms.divop("urem", a, b)),
    }[op]()


def branch_cond(op, a=X1, b=X2):
    return {"BEQ": lambda: terms.eq(a, b), "BNE": lambda: bdd.not_(terms.eq(a, b)), "BLT": lambda: terms.slt(a, b),
            "BGE": lambda: bdd.not_(terms.slt(a, b)), "BLTU": lambda: terms.ult(a, b), "BGEU": lambda: bdd.not_(terms.ult(a, b))}[op]()


def byte_at(k):
    h = bdd.var(("in", "mem", k))
    return ite(h, mkT("byte", ("mem", k), 8), const(0, 8))


def addrs(n):
    return [add(OP2, const(i, 32)) for i in range(n)]


def load_raw(op):
    n, _ = LOADS[op]
    bs = []
    for k in addrs(n):
        bs += terms.bits(byte_at(k))
    return terms.from_bits(list(bs) + [False] * (32 - 8 * n))


def load_val(op):
    n, sg = LOADS[op]
    raw = load_raw(op)
    if not sg:
        return raw
    return sext(trunc(raw, 8 * n), 32)


def dst(op):
    if op in ALU:
        return alu(op, X1, OP2)
    if op in LOADS:
        return load_val(op)
    if op == "JALR":
        return add(PC, const(4, 32))
    if op in STORES:
        n = STORES[op]
        return terms.band(X1, const((1 << 8 * n) - 1, 32))
    return Z


def next_pc(op):
    nxt = add(PC, const(4, 32))
    if op in BRANCH:
        return ite(branch_cond(op), IMM, nxt)
    if op == "JALR":
        return terms.band(add(X1, IMM), const(0xFFFFFFFE, 32))
    return nxt


def regs_after(op):
    r = regfile()
    if op in ALU or op in LOADS or op == "JALR":
        k = zext(vm.arg("rd"), 64)
        c = bdd.not_(terms.eq(vm.arg("rd"), const(0, 8)))
        return merge(c, r.store(k, BV(dst(op), "u32")), r)
    return r


def mem_after(op):
    m = bytemap()
    if op in STORES:
        for i, k in enumerate(addrs(STORES[op])):
            m = m.store(k, BV(terms.from_bits(terms.bits(X1)[8 * i:8 * i + 8]), "u8"))
    return m


def ro_hit(op):
    if op not in STORES:
        return False
    return bdd.or_(*[bdd.var(("in", "ro", k)) for k in addrs(STORES[op])])


def clk_overflow():
    return terms.eq(CLK, const((1 << 64) - 1, 64))


class Step:
    """one analysed (operation, execute_instruction) pair"""

    def __init__(self, P, op, overflow=True):
        self.op = op
        self.I, self.st, self.inst, self.res = vm.exec_op(P, op, overflow)
        I = self.I
        self.present = bdd.var(("in", "code", PC))
        self.pc = I.pc
        self.panics = I.panics
        v = self.res
        self.okc, self.ok, self.err = split_result(v)
        self.care = bdd.and_(I.pc, self.okc)
        I.pc = True
        self.aux = I.get_field(self.ok, "0")
        self.rinst = I.get_field(self.ok, "1")
        self.s2 = I.get_field(self.ok, "2")

    def f(self, v, *names):
        for n in names:
            v = self.I.get_field(v, n)
        return v

    def panic_cond(self, skip_clk=True):
        """condition of any panic, and its descriptions"""
        out, why = False, []
        for p in self.panics:
            c = bdd.and_(p[0], self.present)
            if skip_clk:
                c2 = bdd.restrict(c, self.present)
                sup = [bdd.atom_of(i) for i in bdd.support(c)]
                if any(a[0] in ("ult", "eq0", "bit") and "s.clk" in repr(a) for a in sup):
                    continue
            out = bdd.or_(out, c)
            why.append(f"{p[2]} ({'::'.join(p[5][-1]) if p[5] else ''}:{p[3].get('ln') if p[3] else '?'})")
        return out, why


def split_result(v):
    if isinstance(v, RefV):
        return split_result(v.place.get())
    if isinstance(v, GateV):
        a, b = split_result(v.a), split_result(v.b)
        return (bdd.ite(v.c, a[0], b[0]), a[1] if b[1] is None else b[1] if a[1] is None else merge(v.c, a[1], b[1]),
                a[2] if b[2] is None else b[2] if a[2] is None else merge(v.c, a[2], b[2]))
    if isinstance(v, EnumV) and v.path[-1] == "Result":
        return (True, v.p[0], None) if v.var == "Ok" else (False, None, v.p[0])
    raise vm.AnalysisError(f"result is {v!r}"[:200])


_steps = {}


def step_of(ctx, P, op):
    if op not in _steps:
        _steps[op] = Step(P, op)
    s = _steps[op]
    ctx.saw(s.I)
    return s


def variants(P):
    d = P.lookup_abs(("mozak_runner", "instruction", "Op"))
    return [v["n"] for v in d["variants"]]


def where(P):
    d, im = vm.find_method(P, "State", "execute_instruction")
    return at({"mod": d["mod"], "node": d})
