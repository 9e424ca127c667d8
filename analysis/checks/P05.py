"""The execution record describes the step that happened."""
import bdd
import execref as R
import terms
import vmmodel as vm
from interp import Interp
from values import *


def vec_or(v):
    return v


def run(ctx):
    ctx.rule = ("value-numbering abstract interpretation of the executor: every field of the per-step record (operands, result, next pc, memory "
                "access and addresses used) equals the value the step computed; the run loop records the pre-state, instruction and record of each step")
    P = vm.load()
    w = R.where(P)
    for op in R.ALL:
        if op == "ECALL":
            continue
        with ctx.group(op):
            s = R.step_of(ctx, P, op)
            a = s.aux

            def chk(field, exp, desc):
                got = s.f(a, field)
                ctx.ob(f"{op}:{field}", eqv(s.care, got, exp), desc, w, lambda: f"got {got!r}"[:400])
            chk("op1", BV(R.X1, "u32"), "recorded first operand is the first source register")
            chk("op2_raw", BV(R.X2, "u32"), "recorded raw second operand is the second source register")
            if op in R.BRANCH:
                e = R.X2
            elif op in ("SLL", "SRL", "SRA"):
                e = terms.vshift("shl", R.ONE, R.SH)
            else:
                e = R.OP2
            chk("op2", BV(e, "u32"), "recorded second operand")
            chk("new_pc", s.f(s.s2, "pc"), "recorded next pc is the pc of the resulting state")
            if op in R.BRANCH:
                chk("dst_val", Int(0, "u32"), "branches record no destination value")
            else:
                chk("dst_val", BV(R.dst(op), "u32"), "recorded destination value is the value written")
            if op in R.LOADS or op in R.STORES:
                n = R.LOADS[op][0] if op in R.LOADS else R.STORES[op]
                raw = R.load_raw(op) if op in R.LOADS else R.dst(op)
                me = StructV(("mozak_runner", "state", "MemEntry"), {"addr": BV(R.OP2, "u32"), "raw_value": BV(raw, "u32")})
                chk("mem", Some(me), "recorded memory access has the effective address and the raw (unextended) value")
                chk("mem_addresses_used", VecV(BV(k, "u32") for k in R.addrs(n)), "recorded byte addresses are exactly those accessed")
            else:
                chk("mem", NONE, "no memory access is recorded")
                chk("mem_addresses_used", VecV(()), "no byte address is recorded")
            chk("will_halt", False, "only the halt call is recorded as halting")
            chk("poseidon2", NONE, "no hash call is recorded")
            chk("storage_device_entry", NONE, "no tape access is recorded")
    with ctx.group("run loop"):
        step_loop(ctx, P)
    ctx.floor("operations", sum(1 for o in R.ALL if o != "ECALL"), 33)


def step_loop(ctx, P):
    """Unroll the run loop against an abstract executor: state i --exec--> (aux i, inst i, state i+1); the machine halts after N steps."""
    d = vm.find_fn(P, "mozak_runner::vm::step")
    ctx.ob("anchor:step", d is not None, "the run loop exists", "runner/src/vm.rs")
    if d is None:
        return
    for n in (0, 1, 3):
        I = Interp(P)
        I.effects = set(I.effects)
        sts = [StructV(("S",), {"i": Int(i, "u64"), "halted": i == n, "clk": BV(terms.var(f"clk{i}", 64), "u64")}) for i in range(n + 2)]

        def ex(I_, vs, hint, env, node):
            v = I_.deref(vs[0])
            i = v.f["i"].v
            if i >= n:
                I_.err("the run loop executes a halted state", node, env)
            return EnumV(("Result",), "Ok", ((vm.mkT("var", (f"aux{i}",)), vm.mkT("var", (f"inst{i}",)), sts[i + 1]),))
        I.intrinsics["State::execute_instruction"] = ex
        I.intrinsics["State::has_halted"] = lambda I_, vs, h, e, nd: I_.deref(vs[0]).f["halted"]
        I.methods["execute_instruction"] = lambda I_, v, place, args, h, nd, e: ex(I_, [v] + args, h, e, nd)
        I.methods["has_halted"] = lambda I_, v, place, args, h, nd, e: I_.deref(v).f["halted"]
        prog = vm.mkT("var", ("program",))
        from interp import Env
        r = I.call_fn(d, [("v", RefV(I.temp(prog))), ("v", sts[0])], Env(None, d["mod"]))
        ctx.saw(I)
        okc, v, _ = R.split_result(r)
        ex_ = I.get_field(v, "executed")
        last = I.get_field(v, "last_state")
        ctx.ob(f"loop:{n}:last", val_is(last, sts[n]), "the record ends in the halted state", "runner/src/vm.rs")
        rows = ex_.xs if isinstance(ex_, VecV) else None
        good = rows is not None and len(rows) == n and all(
            val_is(I.get_field(x, "state"), sts[i]) and val_is(I.get_field(x, "aux"), vm.mkT("var", (f"aux{i}",)))
            and val_is(I.get_field(x, "instruction"), vm.mkT("var", (f"inst{i}",))) for i, x in enumerate(rows))
        ctx.ob(f"loop:{n}:rows", good, "row i holds state i together with the record and instruction of the step taken from it", "runner/src/vm.rs",
               lambda: repr(ex_)[:300])
