"""Loads and stores: byte order, extension, wrap-around and write protection."""
import bdd
import execref as R
import terms
import vmmodel as vm
from interp import Interp
from values import *


def run(ctx):
    ctx.rule = ("value-numbering abstract interpretation of loads, stores and byte accessors over an abstract byte map with symbolic keys: "
                "destination value, written bytes, effective addresses (mod 2^32) and the exact condition under which a store is refused")
    P = vm.load()
    w = R.where(P)
    n = 0
    for op in list(R.LOADS) + list(R.STORES):
        with ctx.group(op):
            s = R.step_of(ctx, P, op)
            n += 1
            regs = s.f(s.s2, "registers")
            ctx.ob(f"{op}:regs", eqv(s.care, regs, R.regs_after(op)), f"register effect of {op}", w, lambda: f"got {regs!r}"[:400])
            mem = s.f(s.s2, "memory", "data")
            ctx.ob(f"{op}:memory", eqv(s.care, mem, R.mem_after(op)), f"memory effect of {op}", w, lambda: f"got {mem!r}"[:400])
            ro = s.f(s.s2, "memory", "is_read_only")
            ctx.ob(f"{op}:ro-set", eqv(s.care, ro, s.f(s.st, "memory", "is_read_only")), f"{op} does not change the write-protected set", w)
            # stores are refused exactly when they touch a protected byte
            pan, why = s.panic_cond()
            okc = bdd.and_(s.pc, s.okc)
            hit = R.ro_hit(op)
            done = bdd.and_(okc, s.present, hit)
            ctx.ob(f"{op}:protected", done is False, f"{op} to a write-protected byte never completes", w, lambda: f"completes when {bdd.show(done)[:300]}")
            spurious = bdd.and_(pan, bdd.not_(hit))
            ctx.ob(f"{op}:spurious", spurious is False, f"{op} to unprotected memory is never refused", w, lambda: "; ".join(why))
            rej = bdd.and_(s.present, bdd.not_(s.okc), bdd.not_(hit))
            ctx.ob(f"{op}:accepted", rej is False, f"{op} is not rejected", w)
    K = terms.var("addr", 32)
    V = terms.var("val", 8)
    with ctx.group("store_u8"):
        I = Interp(P)
        st = vm.state(P, I)
        r = vm.call_method(I, P, "store_u8", st, [BV(K, "u32"), BV(V, "u8")])
        ctx.saw(I)
        okc, v, _ = R.split_result(r)
        ro = bdd.var(("in", "ro", K))
        ctx.ob("store_u8:ro", bdd.and_(I.pc, okc, ro) is False, "a byte store to a protected address is an error", "runner/src/state.rs")
        ctx.ob("store_u8:rw", bdd.and_(bdd.not_(ro), bdd.not_(bdd.and_(okc, I.pc))) is False, "a byte store elsewhere succeeds", "runner/src/state.rs")
        I.pc = True
        m = I.get_field(I.get_field(v, "memory"), "data")
        ctx.ob("store_u8:value", eqv(bdd.not_(ro), m, vm.bytemap().store(K, BV(V, "u8"))), "a byte store writes that byte only", "runner/src/state.rs")
    for name, k in (("load_u8", 1), ("load_u32", 4)):
        with ctx.group(name):
            I = Interp(P)
            I.track_overflow = True
            st = vm.state(P, I)
            r = vm.call_method(I, P, name, st, [BV(K, "u32")])
            ctx.saw(I)
            bs = []
            for i in range(k):
                bs += terms.bits(R.byte_at(terms.add(K, terms.const(i, 32))))
            exp = terms.from_bits(bs)
            ctx.ob(f"{name}:value", eqv(I.pc, r, BV(exp, "u32" if k == 4 else "u8")), f"{name} reads little-endian bytes, zero where unmapped",
                   "runner/src/state.rs")
            pan = bdd.or_(*[p[0] for p in I.panics]) if I.panics else False
            ctx.ob(f"{name}:total", pan is False, f"{name} is total: every 32-bit address is readable, wrapping at the top of memory",
                   "runner/src/state.rs", lambda: "; ".join(f"{p[2]} line {p[3].get('ln') if p[3] else '?'}" for p in I.panics))
    ctx.floor("memory operations", n, 8)
