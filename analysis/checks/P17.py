"""Guest reading of the private and public input tapes."""
import guestmodel as gm
import sdkmodel as sm
import terms
from interp import Dead, Env
from program import AnalysisError
from terms import mkT
from values import *

W = "sdk/src/mozakvm/inputtape.rs"
TAPE = ("mozak_sdk", "mozakvm", "inputtape", "RandomAccessEcallTape")


def sym(name, a, b):
    return [BV(terms.var(f"{name}[{i}]", 8), "u8") for i in range(a, b)]


def run(ctx):
    ctx.rule = ("abstract interpretation of the guest tape reader with symbolic tape contents for every tape size, amount already fetched, read position and buffer size up to a bound; "
                "environment calls are taken from the inline assembly and served with the next unread bytes")
    P = gm.load()
    top = 6 if ctx.tier == "thorough" else 4
    n = 0
    for s in range(top + 1):
        for m in range(s + 1):
            for r in range(s + 1):
                for b in range(top + 2):
                    read(ctx, P, s, m, r, b, 2 + 2 * (n % 2))
                    n += 1
                if r == s or r <= m:
                    seek(ctx, P, s, m, r)
    ctx.floor("read states", n, 100)
    kinds(ctx, P)


def tape(eid, s, m, r):
    return StructV(TAPE, {"ecall_id": Int(eid, "u32"), "read_offset": Int(r, "usize"), "size_hint": Int(s, "usize"), "internal_buf": VecV(sym("tape", 0, m))})


def ptr_off(I, v, extra=0):
    v = I.deref(v)
    if isinstance(v, T) and v.op == "ptradd":
        return ptr_off(I, v.args[0], extra + v.args[1])
    return v, extra


def hooked(P, fetched, log):
    I = gm.interp(P)
    I.track_overflow = True

    def add(I_, v, place, args, hint, node, env):
        if isinstance(v, T) and v.op in ("ptr", "ptradd") and args and isinstance(I_.deref(args[0]), Int):
            return mkT("ptradd", (v, I_.deref(args[0]).v))
        return NotImplemented
    for k in ("add", "offset", "wrapping_add"):
        I.methods[k] = add
    state = {"n": fetched}

    def hook(I_, vals):
        a0, a2 = I_.deref(vals["a0"]), I_.deref(vals["a2"])
        base, off = ptr_off(I_, vals["a1"])
        pl = I_.ptrs.get(base)
        if pl is None or not isinstance(a2, Int) or not isinstance(a0, Int):
            raise AnalysisError("tape read with unknown operands")
        while isinstance(pl.get(), RefV):
            pl = pl.get().place
        xs = list(pl.get().xs)
        if off + a2.v > len(xs):
            raise AnalysisError("tape read past the end of its buffer")
        xs[off:off + a2.v] = sym("tape", state["n"], state["n"] + a2.v)
        state["n"] += a2.v
        log.append((a0.v, a2.v))
        pl.set(VecV(xs))
    I.ecall_hook = hook
    return I


def read(ctx, P, s, m, r, b, eid):
    key = f"read:{s}:{m}:{r}:{b}"
    with ctx.group(key):
        log = []
        I = hooked(P, m, log)
        pl = I.temp(tape(eid, s, m, r))
        old = VecV(sym("buf", 0, b))
        bp = I.temp(old)
        ret, s2, ok = sm.run_method(I, P, "RandomAccessEcallTape", "read", pl, [RefV(bp)])
        ctx.saw(I)
        k = min(b, s - r)
        ctx.ob(f"{key}:total", ok is True, "reading never fails", W, lambda: repr([p[2] for p in I.panics]))
        if ok is not True:
            return
        ctx.ob(f"{key}:count", eqv(True, ret, Ok(Int(k, "usize"))), "the count is what was asked for, limited by what is left", W, lambda: repr(ret))
        ctx.ob(f"{key}:bytes", eqv(True, bp.get(), VecV(sym("tape", r, r + k) + sym("buf", k, b))), "the buffer starts with the next bytes of the tape and is otherwise untouched", W, lambda: repr(bp.get())[:300])
        want = tape(eid, s, max(m, r + k), r + k)
        ctx.ob(f"{key}:state", eqv(True, s2, want), "the position moves by the count, and fetched bytes are kept for re-reading", W, lambda: f"{s2!r}"[:300])
        ctx.ob(f"{key}:fetch", all(c[0] == eid for c in log) and sum(c[1] for c in log) == max(m, r + k) - m, "exactly the missing bytes are fetched, from this tape", W, lambda: repr(log))


def seek(ctx, P, s, m, r):
    cases = [("Start", x, x) for x in range(s + 2)] + [("Current", x, r + x) for x in range(-1, s - r + 2)] + [("End", x, s + x) for x in range(-s - 1, 2)]
    for kind, x, to in cases:
        key = f"seek:{s}:{m}:{r}:{kind}:{x}"
        with ctx.group(key):
            I = hooked(P, m, [])
            I.track_overflow = True
            pl = I.temp(tape(2, s, m, r))
            ret, s2, ok = sm.run_method(I, P, "RandomAccessEcallTape", "seek", pl, [EnumV(("SeekFrom",), kind, (Int(x, "u64" if kind == "Start" else "i64"),))])
            ctx.saw(I)
            if to < 0:
                good = ok is True and eqv(True, s2, tape(2, s, m, r)) and isinstance(I.deref(ret), EnumV) and I.deref(ret).var == "Err"
                ctx.ob(key, good, "seeking to before the start is an error and leaves the position alone", W, lambda: f"{ret!r} {s2!r} {ok!r}"[:300])
                continue
            to = min(to, s)
            good = ok is True and eqv(True, s2, tape(2, s, m, to)) and eqv(True, ret, Ok(Int(to, "u64")))
            ctx.ob(key, good, "seeking goes to the requested position, at most the end, and fetches nothing", W, lambda: f"{ret!r} {s2!r} {ok!r}"[:300])


def kinds(ctx, P):
    sd = P.lookup_abs(("mozak_sdk", "common", "system", "SYSTEM_TAPE"))
    for typ, eid, kind, field in (("PublicInputTape", 4, "PublicTape", "public_input_tape"), ("PrivateInputTape", 2, "PrivateTape", "private_input_tape")):
        with ctx.group(f"kind:{kind}"):
            I = gm.interp(P)
            v = sm.static(I, P, typ, "with_size_hint", [Int(7, "usize")])
            ctx.ob(f"kind:{kind}:new", eqv(True, v, StructV(v.path, {"0": tape(eid, 7, 0, 0)})), "a fresh tape reads its own tape from the start", W, lambda: repr(v))
            v = sm.static(I, P, typ, "default", [])
            ctx.ob(f"kind:{kind}:default", eqv(True, v, StructV(v.path, {"0": tape(eid, 0, 0, 0)})), "without a size there is nothing to read", W, lambda: repr(v))
            ctx.saw(I)
            mk = lambda eid_, s_: StructV(TAPE[:-1] + (("PublicInputTape" if eid_ == 4 else "PrivateInputTape"),), {"0": tape(eid_, s_, 0, 0)})
            st = StructV(("mozak_sdk", "common", "types", "system_tape", "SystemTape"),
                         {"private_input_tape": mk(2, 3), "public_input_tape": mk(4, 2), "call_tape": UNIT, "event_tape": UNIT})
            en = lambda: RefV(I.temp(EnumV(("mozak_sdk", "InputTapeType"), kind, ())))
            I = gm.interp(P)
            I.static_values[id(sd)] = st
            r = gm.call(I, P.fn("mozak_sdk::mozakvm::inputtape::input_tape_len"), [("v", en())])
            ctx.ob(f"kind:{kind}:len", I.pc is True and eqv(True, r, Int(2 if eid == 4 else 3, "usize")), "the length reported is this tape's", W, lambda: repr(r))
            log = []
            I = hooked(P, 0, log)
            I.static_values[id(sd)] = st
            bp = I.temp(VecV(sym("buf", 0, 5)))
            r = gm.call(I, P.fn("mozak_sdk::mozakvm::inputtape::read"), [("v", en()), ("v", RefV(bp))])
            ctx.saw(I)
            k = 2 if eid == 4 else 3
            s2 = I.store.get(sd.get("_loc"))
            ok = r is not None and I.pc is True
            ctx.ob(f"kind:{kind}:read", ok and eqv(True, r, Ok(Int(k, "usize"))) and {c[0] for c in log} == {eid} and eqv(True, bp.get(), VecV(sym("tape", 0, k) + sym("buf", k, 5))),
                   "reading a kind reads that tape", W, lambda: f"{r!r} {log!r} {bp.get()!r}"[:300])
            other = "private_input_tape" if eid == 4 else "public_input_tape"
            ctx.ob(f"kind:{kind}:frame", s2 is not None and eqv(True, I.get_field(s2, other), st.f[other]), "the other tape is untouched", W)
