"""Control flow and architectural frame of every instruction."""
import bdd
import execref as R
import terms
import vmmodel as vm
from framework import at
from interp import Interp
from symdom import SymMap
from symdom import PMap, pmap_hooks
from values import *

TAPES = ["private_tape", "public_tape", "call_tape", "event_tape", "events_commitment_tape", "cast_list_commitment_tape", "self_prog_id_tape"]


def run(ctx):
    ctx.rule = ("value-numbering abstract interpretation of the instruction executor, one run per operation: next program counter, link "
                "register, clock, halt flag, register x0 and the untouched parts of the state are compared with the reference for all states; "
                "missing or undecodable instructions must surface as errors")
    P = vm.load()
    w = R.where(P)
    vs = R.variants(P)
    ctx.ob("ops:known", set(vs) == set(R.ALL), "every operation of the instruction set is covered by the reference", w,
           lambda: f"difference {sorted(set(vs) ^ set(R.ALL))}")
    for op in R.ALL:
        if op == "ECALL":
            continue
        with ctx.group(op):
            s = R.step_of(ctx, P, op)
            got = s.f(s.s2, "pc")
            ctx.ob(f"{op}:pc", eqv(s.care, got, BV(R.next_pc(op), "u32")), f"next pc of {op}", w, lambda: f"got {got!r}"[:400])
            clk = s.f(s.s2, "clk")
            ctx.ob(f"{op}:clk", eqv(s.care, clk, BV(terms.add(R.CLK, terms.const(1, 64)), "u64")), f"{op} advances the clock by one", w)
            ctx.ob(f"{op}:halted", eqv(s.care, s.f(s.s2, "halted"), s.f(s.st, "halted")), f"{op} does not change the halt flag", w)
            regs = s.f(s.s2, "registers")
            z = s.I.get_index(regs, Int(0, "usize"))
            ctx.ob(f"{op}:x0", eqv(s.care, z, BV(vm.regk(0), "u32")), f"{op} never changes register x0", w)
            if op in R.BRANCH or op in R.STORES or op == "JALR":
                ctx.ob(f"{op}:regs", eqv(s.care, regs, R.regs_after(op)), f"{op} writes exactly its link register (or no register)", w)
            if op not in R.STORES:
                ctx.ob(f"{op}:mem", eqv(s.care, s.f(s.s2, "memory"), s.f(s.st, "memory")), f"{op} does not change memory", w)
            for t in s.st.f:
                if t in ("clk", "halted", "registers", "pc", "memory"):
                    continue
                ctx.ob(f"{op}:{t}", eqv(s.care, s.f(s.s2, t), s.st.f[t]), f"{op} leaves {t} unchanged", w)
            if op not in R.STORES:
                c, why = s.panic_cond()
                ctx.ob(f"{op}:nopanic", c is False, f"{op} cannot panic", w, lambda: "; ".join(why))
            ctx.ob(f"{op}:instruction", eqv(s.care, s.rinst, s.inst), "the executed instruction is the one fetched at pc", w)
            miss = bdd.and_(bdd.not_(s.present), s.okc, s.pc)
            ctx.ob(f"{op}:fetch", miss is False, "a pc with no instruction is an error, not a step", w)
    with ctx.group("decode error"):
        I = Interp(P)
        err = vm.mkT("var", ("decoding_error",))
        prog = vm.program_value(P, EnumV(("Result",), "Err", (err,)))
        st = vm.state(P, I)
        I.pc = True
        res = vm.call_method(I, P, "execute_instruction", st, [RefV(I.temp(prog))])
        okc, _, _ = R.split_result(res)
        ctx.ob("undecodable", bdd.and_(okc, I.pc) is False, "an undecodable word is an error, not a step", w)
    for init in ("default", "new", "from"):
        with ctx.group("initial registers " + init):
            I = Interp(P)
            if init == "default":
                v = vm.call_method(I, P, "default", None, [])
            else:
                pd = P.lookup_abs(("mozak_runner", "elf", "Program"))
                pmap_hooks(I)
                img = {n: PMap(bdd.var(("in", n)), BV(terms.var(n + "@k", 8), "u8")) for n in ("ro_memory", "rw_memory")}
                prog = StructV(pd["path"], {f["n"]: (StructV(("mozak_runner", "elf", "Data"), {"0": img[f["n"]]}) if "memory" in f["n"]
                                                     else StructV(("mozak_runner", "code", "Code"), {"0": vm.mkT("var", ("code",))}) if f["n"] == "ro_code"
                                                     else BV(terms.var("entry", 32), "u32")) for f in pd["fields"]["f"]})
                args = [prog]
                if init == "new":
                    rd = P.lookup_abs(("mozak_runner", "state", "RawTapes"))
                    args.append(I.symbolic(("adt", rd, {}), "raw"))
                    v = vm.call_method(I, P, "new", None, args)
                else:
                    v = vm.call_method(I, P, "from", None, args)
            ctx.saw(I)
            regs = I.get_field(v, "registers")
            ok = True
            for i in range(32):
                x = I.get_index(regs, Int(i, "usize")) if regs is not DEFAULT else Int(0, "u32")
                ok = ok and (x is DEFAULT or eqv(True, x, Int(0, "u32")))
            ctx.ob(f"init:{init}:x0", ok, "registers start at zero", "runner/src/state.rs")
            clk = I.get_field(v, "clk")
            ctx.ob(f"init:{init}:clk", eqv(True, clk, Int(2, "u64")), "the clock starts after the initialisation ticks", "runner/src/state.rs")
            h = I.get_field(v, "halted")
            ctx.ob(f"init:{init}:halted", h is DEFAULT or h is False, "the machine does not start halted", "runner/src/state.rs")
            if init != "default":
                ctx.ob(f"init:{init}:pc", eqv(True, I.get_field(v, "pc"), BV(terms.var("entry", 32), "u32")), "execution starts at the entry point",
                       "runner/src/state.rs")
                mem = I.get_field(v, "memory")
                exp = img["rw_memory"].over(img["ro_memory"])
                ro, data = I.get_field(mem, "is_read_only"), I.get_field(mem, "data")
                ctx.ob(f"init:{init}:image", isinstance(data, PMap) and data.has is exp.has and eqv(exp.has, data.val, exp.val),
                       "every address starts with its image byte, read-only contents taking precedence", "runner/src/state.rs", lambda: f"{data!r} instead of {exp!r}")
                ctx.ob(f"init:{init}:protected", isinstance(ro, PMap) and ro.has is img["ro_memory"].has,
                       "exactly the addresses of the read-only image are write-protected", "runner/src/state.rs", lambda: f"{ro!r}")
            if init == "new":
                for t in ("private_tape", "public_tape", "call_tape", "event_tape"):
                    tv = I.get_field(v, t)
                    ctx.ob(f"init:new:{t}", eqv(True, I.get_field(tv, "data"), I.get_field(args[1], t)) and eqv(True, I.get_field(tv, "read_index"), Int(0, "usize")),
                           f"{t} starts at its first byte with the bytes given", "runner/src/state.rs", lambda: f"{tv!r} vs {I.get_field(args[1], t)!r}")
                for t in ("events_commitment_tape", "cast_list_commitment_tape"):
                    tv = I.get_field(v, t)
                    ctx.ob(f"init:new:{t}", eqv(True, I.get_field(tv, "0"), I.get_field(args[1], t)), f"{t} is the one given", "runner/src/state.rs", lambda: f"{tv!r}")
                ctx.ob("init:new:self_prog_id_tape", eqv(True, I.get_field(v, "self_prog_id_tape"), I.get_field(args[1], "self_prog_id_tape")),
                       "the program identity is the one given", "runner/src/state.rs")
            else:
                for t in ("private_tape", "public_tape", "call_tape", "event_tape"):
                    tv = dflt(I, P, I.get_field(v, t), "StorageDeviceTape")
                    xs = I.deref(I.get_field(tv, "data"))
                    ctx.ob(f"init:{init}:{t}", isinstance(xs, VecV) and not xs.xs and eqv(True, I.get_field(tv, "read_index"), Int(0, "usize")),
                           f"{t} starts empty, at its first byte", "runner/src/state.rs", lambda: f"{tv!r}")
                z = VecV([Int(0, "u8")] * 32)
                for t in ("events_commitment_tape", "cast_list_commitment_tape"):
                    tv = I.get_field(v, t)
                    ctx.ob(f"init:{init}:{t}", eqv(True, I.get_field(tv, "0"), z), f"{t} starts as zeros", "runner/src/state.rs", lambda: f"{tv!r}")
                ctx.ob(f"init:{init}:self_prog_id_tape", eqv(True, I.get_field(v, "self_prog_id_tape"), z), "the program identity starts as zeros", "runner/src/state.rs")
    ctx.floor("operations", sum(1 for o in R.ALL if o != "ECALL"), 33)


def dflt(I, P, v, typ):
    """a value, or what its type's default is"""
    return vm.call_method(I, P, "default", None, [], typ=typ) if v is DEFAULT else v
