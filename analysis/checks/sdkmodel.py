"""Values of the SDK's types with opaque identities and messages, and the serialisation interface as uninterpreted functions."""
import bdd
import guestmodel as gm
import terms
import vmmodel as vm
from interp import Dead, Env, Interp
from terms import mkT
from values import *

S = "mozak_sdk"


def path(P, *suffix):
    """absolute path of an SDK type by name, wherever it lives"""
    n = suffix[-1]
    out = [d["path"] for d in P.items.values() if isinstance(d, dict) and d.get("n") == n and d.get("k") in ("ItemStruct", "ItemEnum")] if hasattr(P, "items") and isinstance(P.items, dict) else []
    if out:
        return out[0]
    return None


def hash_(P, name):
    return StructV(T_HASH, {"0": mkT("var", (name,))})


T_HASH = (S, "common", "types", "poseidon2hash", "Poseidon2Hash")
T_PID = (S, "common", "types", "program_identifier", "ProgramIdentifier")
T_CPC = (S, "common", "types", "cross_program_call", "CrossProgramCall")
T_RAW = (S, "common", "types", "raw_message", "RawMessage")
T_EVENT = (S, "common", "types", "event", "Event")
T_CANON = (S, "common", "types", "event", "CanonicalEvent")
T_HINT = (S, "common", "types", "event", "CanonicalOrderedTemporalHints")
T_ETYPE = (S, "common", "types", "event", "EventType")
T_OBJ = (S, "common", "types", "state_object", "StateObject")
T_ADDR = (S, "common", "types", "state_address", "StateAddress")


def pid(name):
    return StructV(T_PID, {"0": StructV(T_HASH, {"0": mkT("var", (name,))})})


def raw(name):
    return StructV(T_RAW, {"0": mkT("bytes", (name,))})


def cpc(i):
    return StructV(T_CPC, {"caller": pid(f"caller{i}"), "callee": pid(f"callee{i}"), "argument": raw(f"arg{i}"), "return_": raw(f"ret{i}")})


def access(which):
    return mkT("deser", (mkT("bytes", (which,)),))


def bytes_of(v):
    """the message a byte view looks at, whatever chain of views produced it"""
    while True:
        if isinstance(v, StructV) and "0" in v.f:
            v = v.f["0"]
        elif isinstance(v, T) and v.op in ("slice", "m:as_slice", "m:deref", "m:as_ref", "m:to_vec", "m:clone", "m:borrow"):
            v = v.args[0]
        elif isinstance(v, T) and v.op == "index":
            v = v.args[0]
        else:
            return v


def serde(I):
    def access_(I_, vs, h, e, n):
        return mkT("view", (freeze(bytes_of(I_.deref(vs[0]))),))

    def deser(I_, v):
        v = I_.deref(v)
        if isinstance(v, T) and v.op == "view":
            return Ok(mkT("deser", (v.args[0],)))
        if isinstance(v, DomainV):
            r = v.method(I_, "deserialize", [], None, None)
            if r is not NotImplemented:
                return r
        return Ok(v)
    I.intrinsics["*::access_unchecked"] = I.intrinsics["access_unchecked"] = I.intrinsics["rkyv::access_unchecked"] = access_
    I.intrinsics["*::deserialize"] = I.intrinsics["deserialize"] = lambda I_, vs, h, e, n: deser(I_, vs[0])
    I.intrinsics["*::wrap"] = lambda I_, vs, h, e, n: UNIT
    I.methods["deserialize"] = lambda I_, v, place, args, hint, node, env: deser(I_, v)

    def to_native(I_, v, place, args, hint, node, env):
        return v
    I.methods["to_native"] = to_native

    def to_bytes(I_, vs, h, e, n):
        return Ok(StructV(("rkyv", "AlignedVec"), {"0": mkT("ser", (freeze(I_.deref(vs[0])),))}))
    I.intrinsics["*::to_bytes"] = I.intrinsics["to_bytes"] = I.intrinsics["rkyv::to_bytes"] = to_bytes

    def into_vec(I_, v, place, args, hint, node, env):
        if isinstance(v, StructV) and v.path[-1] == "AlignedVec":
            return v.f["0"]
        return NotImplemented
    I.methods["into_vec"] = into_vec


def run_method(I, P, typ, name, place, args, pc=True):
    """call a &mut self method; returns (value or None when it never returns, final self, condition of returning)"""
    d, im = vm.find_method(P, typ, name, S)
    st = self_ty(P, im)
    I.pc = pc
    dead = False
    r = None
    try:
        r = I.call_fn(d, [("v", RefV(place))] + [("v", a) for a in args], Env(None, im.mod, None, st, impl=im), self_ty=st, impl=im)
    except Dead:
        dead = True
    ok = False if dead else I.pc
    I.pc = True
    return r, place.get(), ok


def reads(I, tapes):
    """ecall hook: fill guest buffers from model tapes {number: [bytes] or fn(n)}"""
    raise NotImplementedError


def self_ty(P, im):
    for h, ims in P.impls.items():
        if im in ims and isinstance(h, tuple):
            return ("adt", P.lookup_abs(h), [])
    return None


def static(I, P, typ, name, args):
    d, im = vm.find_method(P, typ, name, S)
    st = self_ty(P, im)
    I.pc = True
    return I.call_fn(d, [("v", a) for a in args], Env(None, im.mod, None, st, impl=im), self_ty=st, impl=im)


def pidc(k):
    """a concrete identity"""
    return StructV(T_PID, {"0": StructV(T_HASH, {"0": VecV(Int(k, "u8") for _ in range(32))})})


T_SYS = (S, "common", "types", "system_tape", "SystemTape")


def wrapper(I, P, fn, field, tape, args, pc=True):
    """call a free function that works on the global system tape; returns (value, final tape in `field`, condition of returning, rest unchanged)"""
    sd = P.lookup_abs((S, "common", "system", "SYSTEM_TAPE"))
    fs = {k: mkT("var", ("other tape " + k,)) for k in ("private_input_tape", "public_input_tape", "call_tape", "event_tape")}
    st = StructV(T_SYS, dict(fs, **{field: tape}))
    I.static_values[id(sd)] = st
    sd.pop("_loc", None)
    d = P.fn(f"{S}::common::system::{fn}")
    I.pc = pc
    r = None
    ok = False
    try:
        r = I.call_fn(d, [("v", a) for a in args], Env(None, d["mod"]))
        ok = I.pc
    except Dead:
        pass
    I.pc = True
    s2 = I.store.get(sd.get("_loc"), st)
    frame = all(eqv(ok, I.get_field(s2, k), v) for k, v in fs.items() if k != field)
    return r, I.get_field(s2, field), ok, frame
