"""Abstract VM states and single-instruction execution of runner/src/vm.rs."""
import bdd
import terms
from interp import Dead, Env, Interp
from program import AnalysisError, Program
from symdom import SymMap, bytemap, keyset, regfile
from terms import mkT
from values import *

ST = ("mozak_runner", "state", "State")
R = "mozak_runner"


def load():
    return Program(["mozak_runner", "mozak_sdk"])


def find_fn(P, *cands):
    """function by suffix path; robust to moving between files of the crate"""
    for c in cands:
        d = P.fn(c)
        if d is not None:
            return d
    return None


def find_method(P, typ, name, crate="mozak_runner"):
    """(fn, impl) of a method of the named type anywhere in the crate"""
    out = []
    for head, ims in P.impls.items():
        h = head if isinstance(head, tuple) else (head,)
        if h[-1] != typ or (crate and h[0] != crate):
            continue
        for im in ims:
            if name in im.fns:
                out.append((im.fns[name], im))
    if len(out) != 1:
        raise AnalysisError(f"expected exactly one method {typ}::{name}, found {len(out)}")
    return out[0]


def program_value(P, inst):
    """A Program whose code maps the current pc to `inst` (Some(Ok(inst)))."""
    d = P.lookup_abs((R, "elf", "Program"))
    cd = P.lookup_abs((R, "code", "Code"))
    code = SymMap("code", "map", "u32", lambda k: inst)
    f = {}
    for fl in d["fields"]["f"]:
        f[fl["n"]] = mkT("var", ("program." + fl["n"],))
    cf = StructV(cd["path"], {"0": code})
    f["ro_code"] = cf
    return StructV(d["path"], f)


def state(P, I, name="s", tapes=None):
    d = P.lookup_abs(ST)
    f = {}
    for fl in d["fields"]["f"]:
        n = fl["n"]
        f[n] = mkT("var", (f"{name}.{n}",))
    f["clk"] = BV(terms.var(name + ".clk", 64), "u64")
    f["halted"] = bdd.var(("v", name + ".halted"))
    f["registers"] = regfile()
    f["pc"] = BV(terms.var(name + ".pc", 32), "u32")
    f["memory"] = StructV((R, "state", "StateMemory"), {"data": bytemap(), "is_read_only": keyset("ro")})
    for t in ("private_tape", "public_tape", "call_tape", "event_tape"):
        f[t] = (tapes or {}).get(t) or StructV((R, "state", "StorageDeviceTape"), {"data": mkT("var", (t,)), "read_index": BV(terms.var(t + ".idx", 64), "usize")})
    for t in ("events_commitment_tape", "cast_list_commitment_tape"):
        f[t] = StructV((R, "state", "CommitmentTape"), {"0": VecV(BV(terms.var(f"{t}[{i}]", 8), "u8") for i in range(32))})
    f["self_prog_id_tape"] = VecV(BV(terms.var(f"self_prog_id_tape[{i}]", 8), "u8") for i in range(32))
    return StructV(d["path"], f)


def arg(n):
    return terms.var("inst." + n, 32 if n == "imm" else 8)


def instruction(P, op):
    a = StructV((R, "instruction", "Args"), {k: BV(arg(k), "u32" if k == "imm" else "u8") for k in ("rd", "rs1", "rs2", "imm")})
    o = EnumV((R, "instruction", "Op"), op)
    return StructV((R, "instruction", "Instruction"), {"op": o, "args": a})


def reg(n):
    """value of the register named by instruction field n before the step"""
    return mkT("reg", ("x", terms.zext(arg(n), 64)), 32)


def regk(i):
    return mkT("reg", ("x", terms.const(i, 64)), 32)


def exec_op(P, op, overflow=True, tapes=None, setup=None):
    I = Interp(P)
    I.track_overflow = overflow
    inst = instruction(P, op)
    prog = program_value(P, EnumV(("Result",), "Ok", (inst,)))
    st = state(P, I, tapes=tapes)
    if setup:
        st = setup(st)
    d, im = find_method(P, "State", "execute_instruction")
    env = Env(None, d["mod"], {}, None, d, im)
    I.pc = True
    base = dict(I.store)
    res = I.call_user((d, im), [st, RefV(I.temp(prog))], None, None, env) if False else call_method(I, P, "execute_instruction", st, [RefV(I.temp(prog))])
    return I, st, inst, res


def call_method(I, P, name, selfv, args, typ="State"):
    d, im = find_method(P, typ, name)
    env = Env(None, im.mod, {}, None, None, im)
    st = ("adt", P.lookup_abs(ST), {}) if typ == "State" else None
    gen = {}
    for p in im.node["gen"]["params"]:
        if p["g"] == "type":
            gen[p["n"]] = ("par", p["n"])
    env.gen = gen
    ps = d["params"]
    a = []
    if ps and ps[0]["self"]:
        s = selfv
        if ps[0].get("ref"):
            s = RefV(I.temp(selfv))
        a.append(("v", s))
    a += [("v", x) for x in args]
    t = I.ty(im.node["self_ty"] if "self_ty" in im.node else im.self_node, env)
    return I.call_fn(d, a, env, gen=gen, self_ty=t, impl=im)
