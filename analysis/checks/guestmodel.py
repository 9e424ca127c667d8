"""Interpretation of the guest side of the SDK: inline assembly becomes recorded environment calls."""
import macros
import program
import terms
from interp import Dead, Env, Interp
from program import AnalysisError, Program, eval_cfg
from terms import mkT
from values import *

FEATURES = {"std", "trace", "stdread", "type_based"}


def guest_cfg(s):
    def atom(a):
        a = a.strip()
        if a.replace(" ", "") == 'target_os="mozakvm"':
            return True
        if a.replace(" ", "").startswith('feature='):
            return a.split('"')[1] in FEATURES
        return False
    return eval_cfg(s, atom)


def host_cfg(s):
    def atom(a):
        a = a.strip()
        if a.replace(" ", "") == 'target_os="mozakvm"':
            return False
        if a.replace(" ", "").startswith('feature='):
            return a.split('"')[1] in FEATURES
        return False
    return eval_cfg(s, atom)


def load(crates=("mozak_sdk",)):
    return Program(list(crates), cfg=guest_cfg)


def load_host(crates=("mozak_sdk",)):
    return Program(list(crates), cfg=host_cfg)


def toks_text(ts):
    out = []
    for t in ts:
        if t["t"] == "g":
            c = {"(": ")", "[": "]", "{": "}"}.get(t["d"], "")
            out.append((t["d"] if c else "") + toks_text(t["v"]) + c)
        elif t["t"] == "p":
            out.append(t["v"] + ("" if t.get("j") else " "))
        else:
            out.append(t["v"] + " ")
    return "".join(out)


def split_commas(ts):
    cur, out = [], []
    for t in ts:
        if t["t"] == "p" and t["v"] == ",":
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def m_asm(I, m, env, hint, node):
    cache = getattr(I, "_asm", None)
    if cache is None:
        cache = I._asm = {}
    if id(m) not in cache:
        code, regs = [], []
        for part in split_commas(m["toks"]):
            if part and part[0]["t"] == "lit":
                code.append(part[0]["v"].strip('"'))
            elif part and part[0]["t"] == "id" and part[0]["v"] in ("in", "inout", "inlateout") and len(part) > 2 and part[1]["t"] == "g":
                r = part[1]["v"][0]["v"].strip('"')
                rest = part[2:]
                for i, t in enumerate(rest):
                    if t["t"] == "p" and t["v"] == "=" and t.get("j"):
                        rest = rest[:i]
                        break
                j = program.dump_source("fn __m() { (" + toks_text(rest) + ") }")
                regs.append((r, j["items"][0]["b"]))
            elif part and part[0]["t"] == "id" and part[0]["v"] in ("options", "out", "lateout", "clobber_abi"):
                continue
            else:
                I.err("inline assembly operand " + toks_text(part)[:80], node, env)
        cache[id(m)] = (code, regs)
    code, regs = cache[id(m)]
    if [c.strip() for c in code] != ["ecall"]:
        return mkT("asm", tuple(code))
    vals = {r: I.eval(b, env) for r, b in regs}
    I.ecalls.append((I.pc, vals))
    if I.ecall_hook is not None:
        I.ecall_hook(I, vals)
    return UNIT


def m_ptr(I, v, place, args, hint, node, env):
    if place is None:
        place = I.temp(v)
    t = mkT("ptr", (place.key(),))
    I.ptrs[t] = place
    return t


def interp(P, hook=None):
    I = Interp(P)
    I.ecalls, I.ecall_hook, I.ptrs = [], hook, {}
    I.macros["asm"] = m_asm
    I.methods["as_ptr"] = m_ptr
    I.methods["as_mut_ptr"] = m_ptr
    return I


def call(I, d, args, gen=None):
    I.pc = True
    try:
        return I.call_fn(d, args, Env(None, d["mod"]), gen=gen or {})
    except Dead:
        return None


def ecalls(I):
    return [e for e in I.ecalls if e[0] is not False]


def is_ptr(v, place):
    return isinstance(v, T) and v.op == "ptr" and v.args[0] == place.key()
