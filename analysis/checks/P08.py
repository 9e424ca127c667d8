"""Hash environment call: bytes absorbed, sponge trace, digest written, recorded entry."""
import bdd
import ecallref as E
import terms
import vmmodel as vm
from builtins_rs import seq
from symdom import SymMap
from terms import add, const, mkT
from values import *

W = "runner/src/poseidon2.rs"
RATE, WIDTH, OUT = 8, 12, 4
ZERO = mkT("felt", (0,))
ONE = mkT("felt", (1,))


def felt(v):
    return mkT("felt", (v.v,)) if isinstance(v, Int) else mkT("felt_of", (freeze(v),))


class Perm(DomainV):
    """PlonkyPermutation with an uninterpreted permutation over 12 lanes."""

    def __init__(self, st, n=0):
        self.st, self.n = tuple(st), n

    def key(self):
        return ("perm", tuple(freeze(x) for x in self.st))

    def method(self, I, name, args, hint, place):
        if name == "as_ref":
            return VecV(self.st)
        if name == "permute":
            whole = mkT("permute", tuple(freeze(x) for x in self.st))
            place.set(Perm([mkT("lane", (whole, i)) for i in range(WIDTH)]))
            return UNIT
        if name == "set_from_slice":
            xs, at_ = I.deref(args[0]).xs, I.deref(args[1])
            st = list(self.st)
            for i, x in enumerate(xs):
                st[at_.v + i] = I.deref(x)
            place.set(Perm(st))
            return UNIT
        if name == "set_elt":
            st = list(self.st)
            st[I.deref(args[1]).v] = I.deref(args[0])
            place.set(Perm(st))
            return UNIT
        if name == "squeeze":
            return VecV(self.st[:RATE])
        return NotImplemented


def intr(I):
    def hook(I_, t, name, env, ids):
        return {"RATE": Int(RATE, "usize"), "WIDTH": Int(WIDTH, "usize"), "NUM_HASH_OUT_ELTS": Int(OUT, "usize"), "ZERO": ZERO, "ONE": ONE, "TWO": mkT("felt", (2,))}.get(name)
    I.statics["assoc_const_hook"] = hook
    f8 = lambda I_, vs, h, e, n: felt(I_.deref(vs[0]))
    for nm in ("from_canonical_u8", "from_canonical_u32", "from_canonical_u64", "from_noncanonical_u64"):
        I.intrinsics["*::" + nm] = f8
    I.intrinsics["*::from_bool"] = lambda I_, vs, h, e, n: mkT("felt", (int(I_.truth(I_.deref(vs[0])) is True),))
    I.intrinsics["P::new"] = I.intrinsics["Poseidon2Permutation::new"] = lambda I_, vs, h, e, n: Perm(start(I_, vs[0]))
    I.intrinsics["HashOut::from"] = lambda I_, vs, h, e, n: mkT("hashout", tuple(freeze(x) for x in I_.deref(vs[0]).xs))

    def to_bytes(I_, v, place, args, hint, node, env):
        v = I_.deref(v)
        if isinstance(v, T) and v.op == "hashout":
            return VecV(BV(mkT("hbyte", (v, i), 8), "u8") for i in range(32))
        return NotImplemented
    I.methods["to_bytes"] = to_bytes


def start(I, v):
    """the first lanes of the iterator the permutation is made from; the library fills missing ones with zero"""
    v = I.deref(v)
    if isinstance(v, InfIter):
        return [I.deref(v.fn(i)) for i in range(WIDTH)]
    xs = [I.deref(x) for x in seq(I, v)][:WIDTH]
    return xs + [ZERO] * (WIDTH - len(xs))


def sponge(data):
    st = [ZERO] * WIDTH
    trace = []
    for i in range(0, len(data), RATE):
        st = list(map(felt, data[i:i + RATE])) + st[RATE:]
        pre = list(st)
        whole = mkT("permute", tuple(freeze(x) for x in st))
        st = [mkT("lane", (whole, j)) for j in range(WIDTH)]
        trace.append((pre, list(st)))
    h = mkT("hashout", tuple(freeze(x) for x in st[:OUT]))
    return [BV(mkT("hbyte", (h, i), 8), "u8") for i in range(32)], trace


def run(ctx):
    ctx.rule = ("value-numbering abstract interpretation of the hash call with an uninterpreted 12-lane permutation: bytes absorbed, order, the per-block "
                "trace, the 32 digest bytes stored, the recorded entry and every touched address, against an overwrite-mode sponge specification, "
                "for symbolic pointers and memory at each block count")
    ctx.assumptions.append("block counts 1..3 (quick) or 1..6 (thorough); the loop body is uniform in the block index")
    P = vm.load()
    lens = (8, 16, 24) if ctx.tier == "quick" else (8, 16, 24, 32, 40, 48)
    for n in lens:
        with ctx.group(f"len {n}"):
            one(ctx, P, n)
    with ctx.group("wrap"):
        one(ctx, P, 8, 0xFFFFFFFC, 0xFFFFFFF0)
    ctx.floor("input lengths", len(lens), 3)


def one(ctx, P, n, inp=None, out=None):
    A1 = E.A1 if inp is None else const(inp, 32)
    A3 = E.A3 if out is None else const(out, 32)
    regs = {10: 3, 12: n}
    if inp is not None:
        regs.update({11: inp, 13: out})
    k = f"{n}" if inp is None else f"{n}:wrap"
    c = E.Call(P, regs, intr=intr)
    ctx.saw(c.I)
    if c.dead:
        ctx.fail(f"{k}:returns", f"hashing {n} bytes returns", W, c.why())
        return
    m0 = c.st.f["memory"].f["data"]
    rd = lambda i: c.I.deref(c.I.payload_or(m0, i)) if False else load(c, m0, add(A1, const(i, 32)))
    data = [rd(i) for i in range(n)]
    dig, trace = sponge(data)
    hit = E.ro_any(A3, 32)
    ctx.ob(f"{k}:total", bdd.and_(c.pan(), bdd.not_(hit)) is False, f"hashing {n} bytes never panics unless the output is write-protected", W, c.why)
    ctx.ob(f"{k}:protected", bdd.and_(c.care, hit) is False, "a digest is never written into write-protected memory", W)
    E.check_frame(ctx, k, c, {"pc": E.pc4(), "memory": E.memv(c.st, E.mem_with(m0, A3, dig))}, W, f"hash of {n} bytes")
    used = [BV(add(A1, const(i, 32)), "u32") for i in range(n)] + [BV(add(A3, const(i, 32)), "u32") for i in range(32)]
    sd = VecV(StructV(("mozak_runner", "poseidon2", "SpongeData"),
                      {"preimage": VecV(p), "output": VecV(o), "gen_output": mkT("felt", (int(i == len(trace) - 1),))}) for i, (p, o) in enumerate(trace))
    ent = StructV(("mozak_runner", "poseidon2", "Entry"), {"addr": BV(A1, "u32"), "output_addr": BV(A3, "u32"), "len": Int(n, "u32"), "sponge_data": sd})
    E.check_aux(ctx, k, c, {"mem_addresses_used": VecV(used), "poseidon2": Some(ent)}, W, f"hash of {n} bytes")


def load(c, m, a):
    """byte of the initial memory, 0 where unset"""
    import symdom
    I = c.I
    I.pc = True
    st = StructV(c.st.path, dict(c.st.f))
    r = vm.call_method(I, c.P, "load_u8", st, [BV(a, "u32")])
    I.pc = True
    return r
