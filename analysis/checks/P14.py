"""Host recording of calls and private/public input: who is running, what is recorded."""
import bdd
import guestmodel as gm
import sdkmodel as sm
from interp import Env
from program import AnalysisError
from terms import mkT
from values import *

C, D, R, Y = "sdk/src/native/calltape.rs", "sdk/src/native/identity.rs", "sdk/src/native/inputtape.rs", "sdk/src/common/system.rs"
STACK = ("mozak_sdk", "native", "identity", "IdentityStack")
CALL = ("mozak_sdk", "native", "calltape", "CallTape")
RAWT = ("mozak_sdk", "native", "inputtape", "RawTape")


def stack(ids):
    return StructV(STACK, {"0": VecV(ids)})


class Shared(DomainV):
    """Rc<RefCell<_>>: clones share the contents"""

    def __init__(self, pl):
        self.pl = pl

    def key(self):
        return ("shared", freeze(self.pl.get()))

    def method(self, I, name, args, hint, place):
        if name in ("borrow", "borrow_mut", "as_ptr", "get_mut"):
            return RefV(self.pl)
        if name in ("try_borrow", "try_borrow_mut"):
            return Ok(RefV(self.pl))
        if name in ("clone", "as_ref", "deref", "to_owned", "borrow_rc"):
            return self
        return NotImplemented


def sh_stack(I, ids):
    I.intrinsics.setdefault("Rc::clone", lambda I_, vs, h, e, nd: I_.deref(vs[0]))
    return Shared(I.temp(stack(ids)))


def held(I, s):
    v = I.deref(I.get_field(s, "identity_stack"))
    return I.deref(v.pl.get()) if isinstance(v, Shared) else v


def run(ctx):
    ctx.rule = ("abstract interpretation of the host call tape, identity stack and input tapes with symbolic messages and identities; the resolver is an arbitrary program that makes further calls, "
                "modelled by its effect on the shared tape; the recorded tape, identity stack and result are compared with the required ones")
    P = gm.load_host()
    for depth in (0, 1, 2):
        for before in (0, 1, 2):
            for nested in (0, 1, 2):
                send(ctx, P, depth, before, nested)
    identity(ctx, P)
    for k in (0, 1, 2):
        write(ctx, P, k)
    shared(ctx, P)
    dump(ctx, P)


def dump(ctx, P):
    with ctx.group("dump"):
        d = P.fn("mozak_sdk::native::systemtape::dump_proving_files")
        ctx.ob("dump:anchor", d is not None, "the tapes can be written out", "sdk/src/native/systemtape.rs")
        if d is None:
            return
        I = gm.interp(P)
        sd = P.lookup_abs(("mozak_sdk", "common", "system", "SYSTEM_TAPE"))
        sd.pop("_loc", None)
        t = mkT("var", ("the recorded tapes",))
        I.static_values[id(sd)] = t
        files, dirs = {}, []
        I.intrinsics["fs::create_dir_all"] = lambda I_, vs, h, e, nd: (dirs.append(I_.deref(vs[0])), Ok(UNIT))[1]
        I.intrinsics["File::create"] = lambda I_, vs, h, e, nd: Ok(mkT("file", (freeze(I_.deref(vs[0])),)))
        I.intrinsics["Path::new"] = lambda I_, vs, h, e, nd: I_.deref(vs[0])
        for k in ("serde_json::to_string_pretty", "serde_json::to_string", "serde_json::to_vec", "serde_json::to_vec_pretty"):
            I.intrinsics[k] = lambda I_, vs, h, e, nd: Ok(mkT("json", (freeze(I_.deref(vs[0])),)))

        def put(f, b):
            while isinstance(b, T) and b.op in ("m:into_bytes", "m:as_bytes", "slice", "m:as_slice"):
                b = b.args[0]
            files.setdefault(repr(f.args[0]), []).append(b)

        def wr(I_, v, place, args, hint, node, env):
            if isinstance(v, T) and v.op == "file":
                put(v, I_.deref(args[0]))
                return Ok(UNIT)
            return NotImplemented
        I.methods["write_all"] = wr

        def fw(I_, vs, h, e, nd):
            put(mkT("file", (freeze(I_.deref(vs[0])),)), I_.deref(vs[1]))
            return Ok(UNIT)
        I.intrinsics["fs::write"] = fw

        def sw(I_, vs, h, e, nd):
            f = I_.deref(vs[0])
            put(f, mkT("json", (freeze(I_.deref(vs[1])),)))
            return Ok(UNIT)
        for k in ("serde_json::to_writer", "serde_json::to_writer_pretty"):
            I.intrinsics[k] = sw
        gm.call(I, d, [])
        ctx.saw(I)
        js = [b for f, bs in files.items() if "tape.json" in f for b in bs]
        ctx.ob("dump:json", I.pc is True and len(js) == 1 and isinstance(js[0], T) and js[0].op == "json" and js[0].args[0] is t, "the recorded tapes, all of them, are what is written for proving", "sdk/src/native/systemtape.rs",
               lambda: f"{files!r}"[:400])


def msg(a, b, arg, ret):
    return StructV(sm.T_CPC, {"caller": a, "callee": b, "argument": StructV(sm.T_RAW, {"0": arg}), "return_": StructV(sm.T_RAW, {"0": ret})})


def send(ctx, P, depth, before, nested):
    key = f"send:{depth}:{before}:{nested}"
    with ctx.group(key):
        I = gm.interp(P)
        I.track_overflow = True
        sm.serde(I)
        ids = [sm.pid(f"id{i}") for i in range(depth)]
        me = ids[-1] if ids else I.default_of(("adt", P.lookup_abs(sm.T_PID), []))
        old = [sm.cpc(f"old{i}") for i in range(before)]
        pl = I.temp(StructV(CALL, {"identity_stack": sh_stack(I, ids), "writer": VecV(old)}))
        to = sm.pid("to")
        arg, res = mkT("var", ("argument",)), mkT("var", ("resolved",))
        ser = lambda v: mkT("ser", (v,))
        seen = []
        extra = [sm.cpc(f"nested{i}") for i in range(nested)]

        def resolver(a):
            s = I.deref(pl.get())
            seen.append((a, I.deref(I.get_field(s, "writer")), held(I, s)))
            w = I.deref(I.get_field(s, "writer"))
            # the callee makes further calls; a nested send leaves the identity stack as it found it
            pl.set(StructV(s.path, {**s.f, "writer": VecV(tuple(w.xs) + tuple(extra))}))
            return res
        r, s2, ok = sm.run_method(I, P, "CallTape", "send", pl, [to, arg, FnV("py", resolver)])
        ctx.saw(I)
        ctx.ob(f"{key}:total", ok is True and len(seen) == 1, "a call runs its resolver exactly once and returns", C, lambda: repr([p[2] for p in I.panics]))
        if not seen or ok is not True:
            return
        a, w, st = seen[0]
        ctx.ob(f"{key}:argument", I.deref(a) is arg, "the resolver receives the argument", C)
        ctx.ob(f"{key}:running", eqv(True, st, stack(ids + [to])), "while it resolves, the recipient is the running program", C, lambda: repr(st)[:200])
        ctx.ob(f"{key}:reserved", len(w.xs) == before + 1 and eqv(True, VecV(w.xs[:before]), VecV(old)), "the call is recorded ahead of the calls it makes", C, lambda: repr(w)[:200])
        want = VecV(old + [msg(me, to, ser(arg), ser(res))] + extra)
        ctx.ob(f"{key}:tape", eqv(True, I.get_field(s2, "writer"), want), "the tape gains caller, recipient, argument and return value at the call's own position", C,
               lambda: f"{I.get_field(s2, 'writer')!r}"[:500])
        ctx.ob(f"{key}:restored", eqv(True, held(I, s2), stack(ids)), "afterwards the caller is the running program again", C)
        ctx.ob(f"{key}:value", I.deref(r) is res, "the caller gets the resolved value", C)


def identity(ctx, P):
    with ctx.group("identity"):
        nul = lambda I: I.default_of(("adt", P.lookup_abs(sm.T_PID), []))
        for n in range(4):
            ids = [sm.pid(f"id{i}") for i in range(n)]
            I = gm.interp(P)
            I.track_overflow = True
            pl = I.temp(stack(ids))
            r, s2, ok = sm.run_method(I, P, "IdentityStack", "top_identity", pl, [])
            ctx.ob(f"identity:top:{n}", ok is True and eqv(True, r, ids[-1] if ids else nul(I)), "the running program is the last one entered, or nobody", D, lambda: repr(r))
            r, s2, ok = sm.run_method(I, P, "IdentityStack", "rm_identity", pl, [])
            ctx.ob(f"identity:rm:{n}", ok is True and eqv(True, s2, stack(ids[:-1])), "leaving removes exactly the last one entered", D, lambda: repr(s2))
            pl = I.temp(stack(ids))
            r, s2, ok = sm.run_method(I, P, "IdentityStack", "add_identity", pl, [sm.pid("new")])
            ctx.ob(f"identity:add:{n}", ok is True and eqv(True, s2, stack(ids + [sm.pid("new")])), "entering puts the program on top", D, lambda: repr(s2))
            ctx.saw(I)
            for typ in (CALL, RAWT):
                I = gm.interp(P)
                pl = I.temp(StructV(typ, {"identity_stack": sh_stack(I, ids), "writer": VecV(())}))
                r, s2, ok = sm.run_method(I, P, typ[-1], "set_self_identity", pl, [sm.pid("new")])
                ctx.ob(f"identity:set:{typ[-1]}:{n}", ok is True and eqv(True, held(I, s2), stack(ids + [sm.pid("new")])), "declaring an identity makes it the running program", C if typ is CALL else R,
                       lambda: repr(s2)[:300])
                pl = I.temp(StructV(typ, {"identity_stack": sh_stack(I, ids), "writer": VecV(())}))
                r, s2, ok = sm.run_method(I, P, typ[-1], "get_self_identity", pl, [])
                ctx.ob(f"identity:{typ[-1]}:{n}", ok is True and eqv(True, r, ids[-1] if ids else nul(I)), "tapes attribute to the running program", C if typ is CALL else R)


def write(ctx, P, k):
    """writes of k bytes, first and repeated"""
    for have in (None, 0, 2):
        key = f"write:{k}:{have}"
        with ctx.group(key):
            I = gm.interp(P)
            I.track_overflow = True
            me, other = sm.pidc(1), sm.pidc(2)
            bs = lambda nm, n: [BV(__import__("terms").var(f"{nm}[{i}]", 8), "u8") for i in range(n)]
            m = lambda nm, n: StructV(sm.T_RAW, {"0": VecV(bs(nm, n))})
            w = {freeze(other): (other, m("other", 3))}
            if have is not None:
                w[freeze(me)] = (me, m("mine", have))
            pl = I.temp(StructV(RAWT, {"identity_stack": sh_stack(I, [other, me]), "writer": MapV(w, "map")}))
            buf = VecV(bs("buf", k))
            r, s2, ok = sm.run_method(I, P, "RawTape", "write", pl, [RefV(I.temp(buf))])
            ctx.saw(I)
            got = I.deref(I.get_field(s2, "writer"))
            want = StructV(sm.T_RAW, {"0": VecV(bs("mine", have or 0) + bs("buf", k))})
            mk = freeze(me)
            ctx.ob(f"{key}:mine", ok is True and isinstance(got, MapV) and mk in got.d and eqv(True, got.d[mk][1], want),
                   "the bytes are appended to the running program's tape", R, lambda: repr(got)[:400])
            ctx.ob(f"{key}:others", isinstance(got, MapV) and len(got.d) == 2 and eqv(True, got.d[freeze(other)][1], m("other", 3)), "other programs' tapes are unchanged", R)
            ctx.ob(f"{key}:count", eqv(True, r, Ok(Int(k, "usize"))), "all bytes are reported written", R, lambda: repr(r))
    with ctx.group(f"write:null:{k}"):
        I = gm.interp(P)
        pl = I.temp(StructV(RAWT, {"identity_stack": sh_stack(I, [sm.pid("me")]), "writer": MapV({}, "map")}))
        r, s2, ok = sm.run_method(I, P, "RawTape", "write", pl, [RefV(I.temp(VecV([Int(7, "u8")] * k)))])
        nn = I.equal(sm.pid("me"), I.default_of(("adt", P.lookup_abs(sm.T_PID), [])))
        ctx.ob(f"write:null:{k}", bdd.and_(ok, nn) is False and bdd.and_(bdd.not_(ok), bdd.not_(nn)) is False, "input is never attributed to nobody, and always accepted for somebody", R)


def shared(ctx, P):
    with ctx.group("shared"):
        I = gm.interp(P)
        made = []

        def rc(I_, vs, h, e, nd):
            made.append(I_.deref(vs[0]))
            return mkT("rc", (len(made),))
        for k in ("Rc::from", "Rc::new"):
            I.intrinsics[k] = rc
        I.intrinsics["Rc::clone"] = lambda I_, vs, h, e, nd: I_.deref(vs[0])
        I.intrinsics["Lazy::new"] = lambda I_, vs, h, e, nd: I_.call(vs[0], [])
        d = P.lookup_abs(("mozak_sdk", "common", "system", "SYSTEM_TAPE"))
        I.pc = True
        env = Env(None, d["mod"])
        st = I.deref(I.eval(d["e"], env, I.ty(d["ty"], env)))
        ctx.saw(I)
        got = {}
        for t in ("private_input_tape", "public_input_tape", "call_tape", "event_tape"):
            v = I.deref(I.get_field(I.get_field(st, t), "identity_stack"))
            while isinstance(v, T) and v.op == "m:clone":
                v = v.args[0]
            got[t] = v
            w = I.deref(I.get_field(I.get_field(st, t), "writer"))
            ctx.ob(f"shared:empty:{t}", w is DEFAULT or (isinstance(w, VecV) and not w.xs) or (isinstance(w, MapV) and not w.d), "recording starts empty", Y, lambda: repr(w))
        ctx.ob("shared:one", len(set(map(repr, got.values()))) == 1 and isinstance(got["call_tape"], T) and got["call_tape"].op == "rc",
               "all four tapes agree on the running program: they share one identity stack", Y, lambda: repr(got))
        for fn, want in (("add_identity", [sm.pid("a"), sm.pid("new")]), ("rm_identity", [])):
            I = gm.interp(P)
            sd = P.lookup_abs(("mozak_sdk", "common", "system", "SYSTEM_TAPE"))
            I.const_item(sd)
            common = sh_stack(I, [sm.pid("a")])
            ct = StructV(CALL, {"identity_stack": common, "writer": VecV(())})
            raw = StructV(RAWT, {"identity_stack": common, "writer": MapV({}, "map")})
            evt = StructV(("mozak_sdk", "native", "eventtape", "EventTape"), {"identity_stack": common, "writer": MapV({}, "map")})
            st = StructV(("mozak_sdk", "common", "types", "system_tape", "SystemTape"), {"private_input_tape": raw, "public_input_tape": raw, "call_tape": ct, "event_tape": evt})
            I.store[sd["_loc"]] = st
            f = P.fn("mozak_sdk::native::identity::" + fn)
            gm.call(I, f, [("v", sm.pid("new"))] if fn == "add_identity" else [])
            got = held(I, I.get_field(I.store[sd["_loc"]], "call_tape"))
            ctx.ob(f"shared:{fn}", eqv(True, got, stack(want)), "the public identity functions act on the shared stack", D, lambda: repr(got))
        for kind, field in (("PublicTape", "public_input_tape"), ("PrivateTape", "private_input_tape")):
            I = gm.interp(P)
            I.const_item(sd)
            raw = StructV(RAWT, {"identity_stack": sh_stack(I, [sm.pidc(1)]), "writer": MapV({}, "map")})
            st = StructV(("mozak_sdk", "common", "types", "system_tape", "SystemTape"), {"private_input_tape": raw, "public_input_tape": raw, "call_tape": UNIT, "event_tape": UNIT})
            I.store[sd["_loc"]] = st
            f = P.fn("mozak_sdk::native::inputtape::write")
            ed = next(p for p in [("mozak_sdk", "InputTapeType")] if P.lookup_abs(p))
            buf = VecV([Int(9, "u8"), Int(8, "u8")])
            r = gm.call(I, f, [("v", RefV(I.temp(EnumV(ed, kind, ())))), ("v", RefV(I.temp(buf)))])
            s2 = I.store[sd["_loc"]]
            want = StructV(RAWT, {**raw.f, "writer": MapV({freeze(sm.pidc(1)): (sm.pidc(1), StructV(sm.T_RAW, {"0": buf}))}, "map")})
            for t in ("public_input_tape", "private_input_tape"):
                ctx.ob(f"shared:write:{kind}:{t}", eqv(True, I.get_field(s2, t), want if t == field else raw), "writing to a tape kind changes exactly that tape", R, lambda: repr(I.get_field(s2, t))[:300])
