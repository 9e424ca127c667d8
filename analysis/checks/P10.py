"""Guest side of cross-program calls: what send and receive accept."""
import bdd
import guestmodel as gm
import sdkmodel as sm
import vmmodel as vm
from interp import Interp
from terms import mkT
from values import *

W = "sdk/src/mozakvm/calltape.rs"


def tape(P, n, index, cast):
    d = [x for x in P.impls if isinstance(x, tuple) and x[-1] == "CallTape"][0]
    return StructV(d, {"cast_list": VecV(sm.pid(c) for c in cast), "self_prog_id": sm.pid("me"),
                       "reader": Some(VecV(sm.cpc(i) for i in range(n))), "index": Int(index, "usize")})


def null(I, p):
    return I.equal(p, I.default_of(("adt", I.P.lookup_abs(sm.T_PID), [])))


def casted(I, p, cast):
    return bdd.or_(null(I, p), *[I.equal(p, sm.pid(c)) for c in cast])


def run(ctx):
    ctx.rule = ("abstract interpretation of the guest call tape with opaque identities and messages: the exact condition (as a BDD) under which send/receive return "
                "is compared with the required validations, together with the value returned and the final cursor, for every tape length and cursor up to a bound")
    P = gm.load()
    n = 0
    for cast in ((), ("c0",), ("c0", "c1")):
        for ln in range(4):
            for idx in range(ln + 1):
                n += 2
                send(ctx, P, cast, ln, idx)
                receive(ctx, P, cast, ln, idx)
    wrappers(ctx, P)
    ctx.floor("tape positions", n, 60)


def wrappers(ctx, P):
    """the functions programs call act on the call tape of the global system tape exactly as its own methods"""
    S_ = "sdk/src/common/system.rs"
    for fn, m in (("call_send", "send"), ("call_receive", "receive")):
        with ctx.group(f"wrapper:{fn}"):
            out = []
            for wrap in (False, True):
                I = gm.interp(P)
                sm.serde(I)
                args = [sm.pid("to"), mkT("var", ("argument",)), FnV("py", lambda *a: mkT("resolved", ()))] if m == "send" else []
                if wrap:
                    out.append(sm.wrapper(I, P, fn, "call_tape", tape(P, 2, 0, ("c0",)), args))
                else:
                    out.append(sm.run_method(I, P, "CallTape", m, I.temp(tape(P, 2, 0, ("c0",))), args))
            (r, s2, ok), (wr, ws, wok, frame) = out
            ctx.ob(f"wrapper:{fn}", bdd.xor(ok, wok) is False and eqv(ok, wr, r) and eqv(ok, ws, s2), f"{fn} is {m} on the program's own call tape", S_, lambda: f"{wr!r} {ws!r}"[:400])
            ctx.ob(f"wrapper:{fn}:frame", frame, "and leaves the other tapes alone", S_)


def send(ctx, P, cast, ln, idx):
    key = f"send:{len(cast)}:{ln}:{idx}"
    with ctx.group(key):
        I = gm.interp(P)
        sm.serde(I)
        pl = I.temp(tape(P, ln, idx, cast))
        calls = []
        res = FnV("py", lambda *a: (calls.append(I.pc), mkT("resolved", ()))[1])
        arg = mkT("var", ("argument",))
        r, s2, ok = sm.run_method(I, P, "CallTape", "send", pl, [sm.pid("to"), arg, res])
        ctx.saw(I)
        if idx >= ln:
            ctx.ob(f"{key}:end", ok is False, "a send past the end of the tape is refused", W)
            return
        m = sm.cpc(idx)
        conds = {"caller": I.equal(m.f["caller"], sm.pid("me")), "callee": I.equal(m.f["callee"], sm.pid("to")),
                 "cast": casted(I, sm.pid("to"), cast), "argument": I.equal(sm.access(f"arg{idx}"), arg)}
        for c, v in conds.items():
            ctx.ob(f"{key}:{c}", bdd.and_(ok, bdd.not_(v)) is False, f"a send is only accepted when the tape entry agrees: {c}", W)
        ctx.ob(f"{key}:accepts", bdd.and_(*conds.values(), bdd.not_(ok)) is False, "a send that agrees with the tape is accepted", W, lambda: repr([p[2] for p in I.panics]))
        ctx.ob(f"{key}:value", eqv(ok, I.deref(r), sm.access(f"ret{idx}")), "send returns the value recorded for this call", W, lambda: repr(r))
        want = dict(tape(P, ln, idx, cast).f, index=Int(idx + 1, "usize"))
        for f, w in want.items():
            ctx.ob(f"{key}:after:{f}", eqv(ok, I.get_field(s2, f), w), f"send consumes exactly one entry and changes nothing else ({f})", W, lambda: repr(I.get_field(s2, f)))


def receive(ctx, P, cast, ln, idx):
    key = f"receive:{len(cast)}:{ln}:{idx}"
    with ctx.group(key):
        I = gm.interp(P)
        sm.serde(I)
        pl = I.temp(tape(P, ln, idx, cast))
        r, s2, ok = sm.run_method(I, P, "CallTape", "receive", pl, [])
        ctx.saw(I)
        me = sm.pid("me")
        rest = True
        good = False
        for j in range(idx, ln):
            m = sm.cpc(j)
            mine = bdd.and_(rest, I.equal(m.f["callee"], me))
            fine = bdd.and_(bdd.not_(I.equal(m.f["caller"], me)), casted(I, m.f["caller"], cast))
            ctx.ob(f"{key}:{j}:refuses", bdd.and_(mine, bdd.not_(fine), ok) is False, "a call from itself or from a program outside the cast list is refused", W)
            here = bdd.and_(mine, fine)
            ctx.ob(f"{key}:{j}:accepts", bdd.and_(here, bdd.not_(ok)) is False, "a well-formed call addressed to this program is accepted", W)
            if here is not False and ok is not False:
                want = Some((m.f["caller"], sm.access(f"arg{j}"), sm.access(f"ret{j}")))
                ctx.ob(f"{key}:{j}:value", eqv(bdd.and_(here, ok), r, want), "receive yields the next call addressed to this program, with its own caller, argument and result", W, lambda: repr(r))
                ctx.ob(f"{key}:{j}:index", eqv(bdd.and_(here, ok), I.get_field(s2, "index"), Int(j + 1, "usize")), "the call and everything before it is consumed", W)
            rest = bdd.and_(rest, bdd.not_(I.equal(m.f["callee"], me)))
        ctx.ob(f"{key}:none:accepts", bdd.and_(rest, bdd.not_(ok)) is False, "a tape without calls to this program ends normally", W)
        ctx.ob(f"{key}:none:value", eqv(rest, r, NONE), "with no call left, receive reports none", W, lambda: repr(r))
        ctx.ob(f"{key}:none:index", eqv(rest, I.get_field(s2, "index"), Int(ln, "usize")), "and the whole tape is consumed", W)
        for f in ("cast_list", "self_prog_id", "reader"):
            ctx.ob(f"{key}:frame:{f}", eqv(ok, I.get_field(s2, f), I.get_field(tape(P, ln, idx, cast), f)), f"receive does not change {f}", W)
