"""Environment-call dispatch: numbers, behaviour and guest/host agreement."""
import bdd
import ecallref as E
import terms
import vmmodel as vm
from execref import PC
from framework import at
from interp import Interp
from values import *

W = "runner/src/ecall.rs"


def run(ctx):
    ctx.rule = ("value-numbering abstract interpretation of the call dispatcher for every call number, named and unnamed: which tape or service "
                "answers, what changes, and that unnamed numbers only advance the pc; call numbers and argument registers of the guest wrappers are "
                "extracted from their inline assembly and compared with the numbers the host dispatches on")
    P = vm.load()
    # ids agree with the shared table
    I = Interp(P)
    for n, v in E.IDS.items():
        d = P.fn("mozak_sdk::core::ecall::" + n)
        with ctx.group("id " + n):
            val = I.const_item(d) if d is not None else None
            ctx.ob(f"id:{n}", val is not None and eq_values(True, I.deref(val), Int(v, "u32")), f"call number of {n}", "sdk/src/core/ecall.rs",
                   lambda: f"value {val!r}")
    for n, v in (("REG_A0", 10), ("REG_A1", 11), ("REG_A2", 12), ("REG_A3", 13), ("REG_ZERO", 0)):
        d = P.fn("mozak_sdk::core::reg_abi::" + n)
        with ctx.group("reg " + n):
            val = I.const_item(d)
            ctx.ob(f"reg:{n}", eq_values(True, I.deref(val), Int(v, "u8")), f"ABI number of {n}", "sdk/src/core/reg_abi.rs")
    # unnamed numbers: symbolic a0, on the set of numbers that are not named
    with ctx.group("unnamed"):
        others = True
        a0 = vm.regk(10)
        for v in E.IDS.values():
            others = bdd.and_(others, bdd.not_(terms.eq(a0, terms.const(v, 32))))

        def pre(I):
            I.intrinsics["State::ecall_poseidon2"] = lambda I_, vs, h, e, nd: (vm.mkT("var", ("p2",)), vs[0])

        class Un(E.Call):
            pass
        I = Interp(P)
        I.track_overflow = True
        st = vm.state(P, I)
        I.pc = others
        r = vm.call_method(I, P, "ecall", st, [])
        ctx.saw(I)
        c = E.Call.__new__(E.Call)
        c.I, c.st, c.care, c.panics, c.dead = I, st, bdd.and_(I.pc, others), list(I.panics), False
        I.pc = True
        c.aux, c.s2 = I.get_field(r, "0"), I.get_field(r, "1")
        ctx.ob("unnamed:total", c.pan() is False, "unnamed calls never panic", W, c.why)
        E.check_frame(ctx, "unnamed", c, {"pc": E.pc4()}, W, "unnamed call")
        E.check_aux(ctx, "unnamed", c, {}, W, "unnamed call")
    with ctx.group("HALT"):
        c = E.Call(P, {10: 0})
        ctx.saw(c.I)
        ctx.ob("HALT:total", c.pan() is False, "halting never panics", W, c.why)
        E.check_frame(ctx, "HALT", c, {"halted": True}, W, "halt")
        E.check_aux(ctx, "HALT", c, {"will_halt": True}, W, "halt")
    with ctx.group("PANIC"):
        for n in (0, 3):
            said = []
            c = E.Call(P, {10: 1, 11: 64, 12: n}, intr=lambda I: message(I, said))
            check_message(ctx, P, f"PANIC:{n}", c, said, n)
            ctx.saw(c.I)
            ctx.ob(f"PANIC:{n}", c.dead or c.care is False, "the panic call never returns", W)
    with ctx.group("VM_TRACE_LOG"):
        for n in (0, 3):
            said = []
            c = E.Call(P, {10: 10, 11: 64, 12: n}, intr=lambda I: message(I, said))
            check_message(ctx, P, f"LOG:{n}", c, said, n)
            ctx.saw(c.I)
            if c.dead:
                ctx.fail(f"LOG:{n}:returns", "the trace call returns", W, c.why())
                continue
            E.check_frame(ctx, f"LOG:{n}", c, {"pc": E.pc4()}, W, "trace log")
            E.check_aux(ctx, f"LOG:{n}", c, {}, W, "trace log")
        # message wrapping the top of the address space
        for cid, nm in ((10, "LOG"), (1, "PANIC")):
            c = E.Call(P, {10: cid, 11: 0xFFFFFFFE, 12: 4})
            bad = [p for p in c.panics if p[1] == "overflow"]
            ctx.ob(f"{nm}:wrap", not bad, "message addresses wrap at the top of memory like every other access", W, c.why)
    # dispatch through the instruction executor
    with ctx.group("ECALL instruction"):
        st = [None]
        I, s, inst, res = vm.exec_op(P, "ECALL", setup=lambda s_: StructV(s_.path, {**s_.f, "registers": s_.f["registers"].store(terms.const(10, 64), Int(0, "u32"))}))
        import execref as R
        okc, ok, _ = R.split_result(res)
        care = bdd.and_(I.pc, okc)
        I.pc = True
        s2, aux = I.get_field(ok, "2"), I.get_field(ok, "0")
        ctx.saw(I)
        ctx.ob("exec:halted", eqv(care, I.get_field(s2, "halted"), True), "an environment call with number 0 halts the machine", "runner/src/vm.rs")
        ctx.ob("exec:pc", eqv(care, I.get_field(s2, "pc"), BV(PC, "u32")), "the halting pc stays in place", "runner/src/vm.rs")
        ctx.ob("exec:newpc", eqv(care, I.get_field(aux, "new_pc"), BV(PC, "u32")), "the record carries the resulting pc", "runner/src/vm.rs")
        ctx.ob("exec:willhalt", eqv(care, I.get_field(aux, "will_halt"), True), "the record of a halting call says so", "runner/src/vm.rs")
        ctx.ob("exec:clk", eqv(care, I.get_field(s2, "clk"), BV(terms.add(R.CLK, terms.const(1, 64)), "u64")), "calls advance the clock", "runner/src/vm.rs")
    # each tape call reaches its own tape
    for call in E.STREAMS:
        with ctx.group(call):
            E.check_read(ctx, P, call, 3, 5, 1)
    for call in E.FIXED:
        with ctx.group(call):
            E.check_read(ctx, P, call, 32)
    with ctx.group("storage op order"):
        d = P.lookup_abs(("mozak_runner", "state", "StorageDeviceOpcode"))
        names = [v["n"] for v in d["variants"]]
        ctx.ob("storage:kinds", set(names) == {"None"} | {op for _, op in list(E.STREAMS.values()) + list(E.FIXED.values())},
               "one recorded storage operation per tape", "runner/src/state.rs", lambda: str(names))
    guest(ctx)


def message(I, said):
    """evaluate what panics and logs print, and note the text they are made from"""
    def utf8(I_, vs, h, e, n):
        said.append(I_.deref(vs[0]))
        return EnumV(("Result",), "Ok", (mk("text"),))
    mk = lambda s: vm.mkT("var", (s,))
    for n in ("ext:from_utf8", "str::from_utf8", "String::from_utf8", "String::from_utf8_lossy", "str::from_utf8_unchecked"):
        I.intrinsics[n] = utf8

    def printing(old):
        def f(I_, m, env, hint, n):
            fm = m["form"]
            for a in (fm["a"] if fm and fm["f"] == "args" else []):
                I_.eval(a, env)
            return old(I_, m, env, hint, n) if old else UNIT
        return f
    for k in ("panic", "debug", "info", "trace", "warn", "error"):
        I.macros[k] = printing(I.macros.get(k))


def check_message(ctx, P, key, c, said, n):
    want = VecV([load(c, P, 64 + i) for i in range(n)])
    if said:
        ctx.ob(f"{key}:message", all(eqv(True, x, want) for x in said), "the text shown is the bytes the guest points to, in order", W, lambda: repr(said)[:300])


def load(c, P, a):
    I = c.I
    pc, I.pc = I.pc, True
    r = vm.call_method(I, P, "load_u8", c.st, [Int(a, "u32")])
    I.pc = pc
    return r


GUEST = {  # wrapper -> (call, argument registers)
    "ioread_private": ("PRIVATE_TAPE", "buf"), "ioread_public": ("PUBLIC_TAPE", "buf"), "call_tape_read": ("CALL_TAPE", "buf"),
    "event_tape_read": ("EVENT_TAPE", "buf"), "events_commitment_tape_read": ("EVENTS_COMMITMENT_TAPE", "buf"),
    "cast_list_commitment_tape_read": ("CAST_LIST_COMMITMENT_TAPE", "buf"), "self_prog_id_tape_read": ("SELF_PROG_ID_TAPE", "buf"),
    "poseidon2": ("POSEIDON2", "p2"), "panic": ("PANIC", "buf"), "halt": ("HALT", "halt"), "trace": ("VM_TRACE_LOG", "buf"),
}


def guest(ctx):
    import guestmodel as G
    P = G.load()
    w = "sdk/src/core/ecall.rs"
    n = 0
    for name, (call, shape) in GUEST.items():
        with ctx.group("guest " + name):
            d = P.fn("mozak_sdk::core::ecall::" + name)
            ctx.ob(f"guest:{name}:exists", d is not None, f"guest wrapper for {call}", w)
            if d is None:
                continue
            n += 1
            I = G.interp(P)
            N = 32 if call in E.FIXED else 5
            if shape == "buf":
                buf = VecV(BV(terms.var(f"b{i}", 8), "u8") for i in range(N))
                pl = I.temp(buf)
                args = [("v", RefV(pl))]
            elif shape == "p2":
                args = [("v", vm.mkT("var", ("inp",), None)), ("v", BV(terms.var("len", 64), "usize")), ("v", vm.mkT("var", ("out",)))]
            else:
                args = [("v", BV(terms.var("output", 8), "u8"))]
            G.call(I, d, args)
            ctx.saw(I)
            ev = G.ecalls(I)
            ok = len(ev) == 1 and ev[0][0] is True
            ctx.ob(f"guest:{name}:once", ok, f"{name} issues exactly one environment call on every path", w, lambda: repr(ev)[:300])
            if not ok:
                continue
            regs = ev[0][1]
            a0 = regs.get("a0")
            ctx.ob(f"guest:{name}:a0", a0 is not None and eq_values(True, a0, Int(E.IDS[call], "u32")), f"{name} passes the number of {call} in a0", w,
                   lambda: repr(a0))
            if call in E.FIXED:
                for k in (0, 5, 31):
                    J = G.interp(P)
                    G.call(J, d, [("v", RefV(J.temp(VecV(BV(terms.var(f"b{i}", 8), "u8") for i in range(k)))))])
                    ctx.ob(f"guest:{name}:short {k}", not G.ecalls(J), f"{name} never lets the machine write past a buffer of {k} bytes", w, lambda: repr(J.ecalls)[:200])
            if shape == "buf":
                ctx.ob(f"guest:{name}:a1", G.is_ptr(regs.get("a1"), pl), f"{name} passes the buffer address in a1", w, lambda: repr(regs))
                ctx.ob(f"guest:{name}:a2", regs.get("a2") is not None and eq_values(True, regs["a2"], Int(N, "usize")), f"{name} passes the buffer length in a2", w,
                       lambda: repr(regs))
            elif shape == "p2":
                for r, (_, x) in zip(("a1", "a2", "a3"), args):
                    ctx.ob(f"guest:{name}:{r}", regs.get(r) is not None and val_is(I.deref(regs[r]), x), f"{name} passes its arguments in order ({r})", w)
            else:
                ctx.ob(f"guest:{name}:a1", regs.get("a1") is not None and val_is(I.deref(regs["a1"]), args[0][1]), "halt passes its status in a1", w)
    ctx.floor("guest wrappers", n, 11)
    abi(ctx, P, G)


ABI = dict(zip("ZERO RA SP GP TP T0 T1 T2 S0 S1".split(), range(10))) | {f"A{i}": 10 + i for i in range(8)} | {f"S{i}": 16 + i for i in range(2, 12)} | {f"T{i}": 25 + i for i in range(3, 7)} | {"FP": 8, "MAX": 32}


def abi(ctx, P, G):
    """register names mean the registers of the RISC-V calling convention"""
    from interp import Env
    I = G.interp(P)
    for k, v in ABI.items():
        d = P.lookup_abs(("mozak_sdk", "core", "reg_abi", "REG_" + k))
        if d is None:
            continue
        env = Env(None, d["mod"])
        got = I.deref(I.eval(d["e"], env, I.ty(d["ty"], env)))
        ctx.ob(f"abi:{k}", isinstance(got, Int) and got.v == v, f"REG_{k} is register {v}", "sdk/src/core/reg_abi.rs", lambda: repr(got))
