"""Reference behaviour of the environment calls, per call number."""
import bdd
import execref as R
import terms
import vmmodel as vm
from interp import Interp
from program import AnalysisError
from symdom import SymMap, regfile
from terms import add, const, mkT
from values import *

IDS = {"HALT": 0, "PANIC": 1, "PRIVATE_TAPE": 2, "POSEIDON2": 3, "PUBLIC_TAPE": 4, "CALL_TAPE": 5, "EVENT_TAPE": 6,
       "EVENTS_COMMITMENT_TAPE": 7, "CAST_LIST_COMMITMENT_TAPE": 8, "SELF_PROG_ID_TAPE": 9, "VM_TRACE_LOG": 10}
# call -> (state field, recorded storage operation)
STREAMS = {"PRIVATE_TAPE": ("private_tape", "StorePrivate"), "PUBLIC_TAPE": ("public_tape", "StorePublic"),
           "CALL_TAPE": ("call_tape", "StoreCallTape"), "EVENT_TAPE": ("event_tape", "StoreEventTape")}
FIXED = {"EVENTS_COMMITMENT_TAPE": ("events_commitment_tape", "StoreEventsCommitmentTape"),
         "CAST_LIST_COMMITMENT_TAPE": ("cast_list_commitment_tape", "StoreCastListCommitmentTape"),
         "SELF_PROG_ID_TAPE": ("self_prog_id_tape", "StoreSelfProgIdTape")}
A1, A2, A3 = vm.regk(11), vm.regk(12), vm.regk(13)


def tape(name, n, idx):
    return StructV(("mozak_runner", "state", "StorageDeviceTape"),
                   {"data": VecV(BV(terms.var(f"{name}[{i}]", 8), "u8") for i in range(n)), "read_index": Int(idx, "usize")})


class Call:
    def __init__(self, P, regs, tapes=None, field=None, overflow=True, intr=None):
        """regs: {reg number: Int/None}"""
        self.P = P
        self.I = I = Interp(P)
        I.track_overflow = overflow
        if intr:
            intr(I)
        st = vm.state(P, I, tapes=tapes)
        r = regfile()
        for k, v in regs.items():
            r = r.store(const(k, 64), v if not isinstance(v, int) else Int(v, "u32"))
        self.st = StructV(st.path, {**st.f, "registers": r, **(field or {})})
        I.pc = True
        self.dead = False
        from interp import Dead
        try:
            self.res = vm.call_method(I, P, "ecall", self.st, [])
        except Dead:
            self.dead = True
            self.res = None
        self.care = I.pc
        self.panics = list(I.panics)
        I.pc = True
        if not self.dead:
            self.aux = I.get_field(self.res, "0")
            self.s2 = I.get_field(self.res, "1")

    def pan(self):
        return bdd.or_(*[p[0] for p in self.panics]) if self.panics else False

    def why(self):
        return "; ".join(f"{p[2]} ({'::'.join(p[5][-1]) if p[5] else ''}:{p[3].get('ln') if p[3] else '?'})" for p in self.panics)


def check_frame(ctx, key, c, changed, w, desc=""):
    """all state fields except `changed` (name -> expected value) are untouched"""
    I = c.I
    for n, old in c.st.f.items():
        exp = changed.get(n, old)
        if n == "clk":
            exp = old
        got = I.get_field(c.s2, n)
        ctx.ob(f"{key}:{n}", eqv(c.care, got, exp), f"{desc}: {n} after the call" if n in changed else f"{desc}: {n} is unchanged", w,
               lambda: f"got {got!r}"[:300])


def check_aux(ctx, key, c, exp, w, desc=""):
    base = {"dst_val": Int(0, "u32"), "mem": NONE, "mem_addresses_used": VecV(()), "will_halt": False, "poseidon2": NONE,
            "storage_device_entry": NONE}
    base.update(exp)
    for f, e in base.items():
        got = c.I.get_field(c.aux, f)
        if got is DEFAULT:
            got = c.I.deref(e) if f == "x" else got
        ctx.ob(f"{key}:aux:{f}", eqv(c.care, got, e), f"{desc}: recorded {f}", w, lambda: f"got {got!r}"[:300])


def pc4():
    return BV(add(R.PC, const(4, 32)), "u32")


def mem_with(base, addr, data):
    m = base
    for i, b in enumerate(data):
        m = m.store(add(addr, const(i, 32)), b)
    return m


def memv(st, data):
    m = st.f["memory"]
    return StructV(m.path, {**m.f, "data": data})


def ro_any(addr, n):
    return bdd.or_(*[bdd.var(("in", "ro", add(addr, const(i, 32)))) for i in range(n)]) if n else False


def check_read(ctx, P, call, n_req, N=None, idx=0, w="runner/src/ecall.rs", ro=True):
    """one tape-read call with a tape of N symbolic bytes, cursor idx and a request of n_req bytes"""
    cid = IDS[call]
    if call in STREAMS:
        field, op = STREAMS[call]
        tapes = {t: tape(t, N if t == field else 2, idx if t == field else 1) for t, _ in STREAMS.values()}
        key = f"{call}:{N}:{idx}:{n_req}"
    else:
        field, op = FIXED[call]
        tapes = {t: tape(t, 2, 1) for t, _ in STREAMS.values()}
        key = f"{call}:{n_req}"
    field_over = None
    if not ro:
        m = vm.state(P, Interp(P)).f["memory"]
        field_over = {"memory": StructV(m.path, {**m.f, "is_read_only": SymMap("ro", "set", "u32", has=lambda k: False)})}
    c = Call(P, {10: cid, 12: n_req}, tapes, field=field_over)
    ctx.saw(c.I)
    if call in STREAMS:
        src = tapes[field].f["data"].xs[idx:]
    else:
        v = c.st.f[field]
        src = (v.f["0"] if isinstance(v, StructV) else v).xs
    data = src[:min(n_req, len(src))]
    k = len(data)
    desc = f"{call} reading {n_req} of {len(src)} remaining bytes"
    if c.dead:
        ctx.fail(f"{key}:returns", f"{desc} returns", w, c.why())
        return
    hit = ro_any(A1, k) if ro else False
    ctx.ob(f"{key}:total", bdd.and_(c.pan(), bdd.not_(hit)) is False, f"{desc} never panics unless the buffer is write-protected", w, c.why)
    ctx.ob(f"{key}:protected", bdd.and_(c.care, hit) is False, f"{desc} into write-protected memory never completes", w)
    changed = {"pc": pc4(), "memory": memv(c.st, mem_with(c.st.f["memory"].f["data"], A1, data))}
    if call in STREAMS:
        t = c.st.f[field]
        changed[field] = StructV(t.path, {**t.f, "read_index": Int(idx + k, "usize")})
    check_frame(ctx, key, c, changed, w, desc)
    ent = StructV(("mozak_runner", "state", "StorageDeviceEntry"),
                  {"addr": BV(A1, "u32"), "op": EnumV(("mozak_runner", "state", "StorageDeviceOpcode"), op), "data": VecV(data)})
    check_aux(ctx, key, c, {"dst_val": Int(k, "u32"), "storage_device_entry": Some(ent),
                            "mem_addresses_used": VecV(BV(add(A1, const(i, 32)), "u32") for i in range(k))}, w, desc)
