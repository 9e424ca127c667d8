"""Arithmetic and logic instructions compute the RV32IM result."""
import bdd
import execref as R
import vmmodel as vm
from values import *


def run(ctx):
    ctx.rule = ("value-numbering abstract interpretation of the instruction executor with one obligation set per operation: the value "
                "written to the destination register, for all register contents, immediates and register numbers, has the same normal form as the "
                "RV32IM reference; no arithmetic panic is reachable")
    P = vm.load()
    w = R.where(P)
    vs = R.variants(P)
    for op in R.ALU:
        with ctx.group(op):
            s = R.step_of(ctx, P, op)
            ctx.ob(f"{op}:accepted", bdd.implies(s.present, s.okc) is True or bdd.and_(s.present, bdd.not_(s.okc)) is False,
                   f"a decoded {op} always executes", w)
            pc, why = s.panic_cond()
            ctx.ob(f"{op}:nopanic", pc is False, f"{op} cannot panic for any operand values", w, lambda: "; ".join(why))
            r = s.f(s.s2, "registers")
            ctx.ob(f"{op}:result", eqv(s.care, r, R.regs_after(op)), f"{op} writes the RV32IM result to rd and nothing else", w,
                   lambda: f"got {r!r}"[:500])
    ctx.ob("ops:complete", set(R.ALU) <= set(vs), "every RV32IM arithmetic operation exists", w)
    ctx.floor("operations", len(R.ALU), 18)
