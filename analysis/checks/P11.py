"""Event tape: guest validation of emitted events and the host's ordering hints."""
import itertools

import bdd
import guestmodel as gm
import sdkmodel as sm
import terms
import vmmodel as vm
from interp import Dead, Env, Interp
from terms import mkT
from builtins_rs import items
from program import AnalysisError
from values import *

G, N = "sdk/src/mozakvm/eventtape.rs", "sdk/src/native/eventtape.rs"


def H(I):
    f = lambda I_, vs, h, e, n: StructV(sm.T_HASH, {"0": mkT("hash_pad", (freeze(sm.bytes_of(I_.deref(vs[0]))),))})
    I.intrinsics["poseidon::poseidon2_hash_with_pad"] = f


def event(P, i):
    return StructV(sm.T_EVENT, {"object": StructV(sm.T_OBJ, {"address": StructV(sm.T_ADDR, {"0": mkT("var", (f"addr{i}",))}),
                                                          "constraint_owner": sm.pid(f"owner{i}"), "data": mkT("bytes", (f"data{i}",))}),
                                "type_": mkT("var", (f"etype{i}",))})


def canon(i, pre=""):
    return StructV(sm.T_CANON, {"address": StructV(sm.T_ADDR, {"0": mkT("var", (f"{pre}addr{i}",))}), "type_": mkT("var", (f"{pre}etype{i}",)),
                                "value": StructV(sm.T_HASH, {"0": mkT("hash_pad", (mkT("bytes", (f"{pre}data{i}",)),))})})


def run(ctx):
    ctx.rule = ("abstract interpretation of event emission on the guest (exact acceptance condition, one-time use of every tape entry) and, for every permutation that "
                "canonical sorting can produce up to a bound, of the host's hint construction: the hint of time t must lead to the canonical position of the t-th event")
    P = gm.load()
    hit = 0
    for n in range(4):
        for idx in range(n + 1):
            hit += 1
            emit(ctx, P, n, idx)
    Pn = gm.load_host()
    for n in range(5):
        for perm in itertools.permutations(range(n)):
            hit += 1
            native(ctx, Pn, n, perm)
    native_emit(ctx, Pn)
    wrapper(ctx, P)
    address_order(ctx, Pn)
    ctx.floor("cases", hit, 40)


def ordering(I, P, a, b):
    """(a < b, a = b) under the `Ord` of their type: its own, or the derived one, field by field"""
    a, b = I.deref(a), I.deref(b)
    if isinstance(a, (StructV, EnumV)):
        f = I.find_impl_method(a, "cmp")
        if f:
            r = I.deref(I.call_user(f, [RefV(I.temp(a)), RefV(I.temp(b))], None, None, None))
            return I.is_variant(r, ("Ordering",), "Less"), I.is_variant(r, ("Ordering",), "Equal")
        d = P.lookup_abs(a.path)
        if not any("derive(" in x and "Ord" in x[x.index("(") + 1:].rstrip(")").replace("(", ",").split(",") for x in d["attrs"]):
            raise AnalysisError(f"{a.path[-1]} has no order")
        if isinstance(a, EnumV):
            ns = [v["n"] for v in d["variants"]]
            return ns.index(a.var) < ns.index(b.var), a.var == b.var
        fs = [x.get("n", str(i)) for i, x in enumerate(d["fields"]["f"])]
        return lexico(I, P, [a.f[k] for k in fs], [b.f[k] for k in fs])
    if isinstance(a, (VecV, tuple)):
        return lexico(I, P, *(list(x.xs if isinstance(x, VecV) else x) for x in (a, b)))
    r = I.method(a, "cmp", [b], None, None, None, None)
    return I.is_variant(r, ("Ordering",), "Less"), I.is_variant(r, ("Ordering",), "Equal")


def lexico(I, P, xs, ys):
    lt, eq = False, True
    for x, y in zip(xs, ys, strict=True):
        l, e = ordering(I, P, x, y)
        lt, eq = bdd.or_(lt, bdd.and_(eq, l)), bdd.and_(eq, e)
        if eq is False:
            break
    return lt, eq


def address_order(ctx, P):
    """events are sorted by the number the tree takes their address for"""
    with ctx.group("address order"):
        I = gm.interp(P)
        addr = lambda bs: StructV(sm.T_ADDR, {"0": VecV(bs)})
        pat = sorted({1 << 8 * i for i in range(8)} | {255 << 8 * i for i in range(8)} | {0, 2**64 - 1, 0x0100000000000002, 0x0200000000000001, 0x0807060504030201, 0x0102030405060708})
        con = lambda v: addr([Int(v >> 8 * i & 255, "u8") for i in range(8)])
        event = lambda v, t, h: StructV(sm.T_CANON, {"address": con(v), "type_": EnumV(sm.T_ETYPE, t, ()), "value": StructV(sm.T_HASH, {"0": VecV([Int(h, "u8")] * 32)})})
        bad = []
        for i, x in enumerate(pat):
            for j, y in enumerate(pat):
                for a, b in ((con(x), con(y)),) + (((event(x, "Write", 1), event(y, "TakeOwner", 2)), (event(x, "TakeOwner", 2), event(y, "Write", 1))) if x != y else ()):
                    I.pc = True
                    lt, eq = ordering(I, P, a, b)
                    if (lt, eq) != (x < y, x == y):
                        bad.append((x, y))
        ctx.saw(I)
        ctx.ob("address order:tree", not bad, "events are listed by the number their address is in the tree, whatever else they say, as its root assumes", "sdk/src/common/types/state_address.rs",
               lambda: "addresses " + ", ".join(f"{x:#x}" for x in bad[0]) + " are in another order")


def wrapper(ctx, P):
    """the function programs call acts on the event tape of the global system tape exactly as its own method"""
    with ctx.group("wrapper:event_emit"):
        out = []
        for wrap in (False, True):
            I = gm.interp(P)
            sm.serde(I)
            H(I)
            head = [x for x in P.impls if isinstance(x, tuple) and x[-1] == "EventTape"][0]
            entries = VecV(StructV(sm.T_HINT, {"0": canon(i, "t"), "1": Int(1 - i, "u32")}) for i in range(2))
            tape = StructV(head, {"self_prog_id": sm.pid("me"), "reader": Some(entries), "seen": VecV([False, bdd.var(("v", "seen1"))]), "index": Int(0, "usize")})
            if wrap:
                out.append(sm.wrapper(I, P, "event_emit", "event_tape", tape, [event(P, 0)]))
            else:
                out.append(sm.run_method(I, P, "EventTape", "emit", I.temp(tape), [event(P, 0)]))
        (r, s2, ok), (wr, ws, wok, frame) = out
        ctx.ob("wrapper:event_emit", bdd.xor(ok, wok) is False and eqv(ok, ws, s2) and ok is not False, "event_emit is emit on the program's own event tape", "sdk/src/common/system.rs", lambda: f"{ws!r}"[:400])
        ctx.ob("wrapper:event_emit:frame", frame, "and leaves the other tapes alone", "sdk/src/common/system.rs")


def emit(ctx, P, n, idx):
    key = f"emit:{n}:{idx}"
    with ctx.group(key):
        I = gm.interp(P)
        I.track_overflow = True
        sm.serde(I)
        H(I)
        head = [x for x in P.impls if isinstance(x, tuple) and x[-1] == "EventTape"][0]
        hints = [BV(terms.var(f"hint{i}", 32), "u32") for i in range(n)]
        seen = [bdd.var(("v", f"seen{i}")) for i in range(n)]
        entries = VecV(StructV(sm.T_HINT, {"0": canon(i, "t"), "1": hints[i]}) for i in range(n))
        tape = StructV(head, {"self_prog_id": sm.pid("me"), "reader": Some(entries), "seen": VecV(seen), "index": Int(idx, "usize")})
        pl = I.temp(tape)
        inb = True
        if idx < n:
            inb = terms.ult(terms.var(f"hint{idx}", 32), terms.const(n, 32))
        I2 = I
        r, s2, ok = sm.run_method(I2, P, "EventTape", "emit", pl, [event(P, 0)], inb)
        ctx.saw(I)
        if idx >= n:
            ctx.ob(f"{key}:end", ok is False, "an event past the end of the tape is refused", G)
            return
        h = terms.var(f"hint{idx}", 32)
        e = canon(0)
        acc = False
        for j in range(n):
            at = terms.eq(h, terms.const(j, 32))
            t = canon(j, "t")
            same = I.equal(e, t)
            good = bdd.and_(at, bdd.not_(seen[j]), same)
            acc = bdd.or_(acc, good)
            ctx.ob(f"{key}:{j}:twice", bdd.and_(at, seen[j], ok) is False, "a tape entry is never used for two events", G)
            for f in ("address", "type_", "value"):
                ctx.ob(f"{key}:{j}:{f}", bdd.and_(at, ok, bdd.not_(I.equal(e.f[f], t.f[f]))) is False, f"an emitted event must agree with the tape entry in {f}", G)
            ctx.ob(f"{key}:{j}:accepts", bdd.and_(good, bdd.not_(ok)) is False, "an event that agrees with an unused entry is accepted", G,
                   lambda: repr([p[2] for p in I.panics]))
            if bdd.and_(good, ok) is not False:
                want = VecV(True if k == j else seen[k] for k in range(n))
                ctx.ob(f"{key}:{j}:seen", eqv(good, I.get_field(s2, "seen"), want), "accepting an event marks exactly its entry as used", G, lambda: repr(I.get_field(s2, "seen")))
        ctx.ob(f"{key}:index", eqv(ok, I.get_field(s2, "index"), Int(idx + 1, "usize")), "time advances by one event", G)
        ctx.ob(f"{key}:frame", eqv(ok, I.get_field(s2, "reader"), Some(entries)), "the tape itself is unchanged", G)


def sorts(I, perm):
    """canonical sorting puts temporal element perm[k] at position k"""
    def ap(xs):
        if len(xs) != len(perm):
            return None
        # the sorted values must carry the canonical event (ordering by anything else is not canonical)
        return [xs[i] for i in perm]

    def inplace(I_, v, place, args, hint, node, env):
        if not isinstance(v, VecV):
            return NotImplemented
        I.sorted.append((len(args), list(v.xs)))
        place.set(VecV(ap(list(v.xs))))
        return UNIT

    def val(I_, v, place, args, hint, node, env):
        if not isinstance(v, (VecV, IterV)):
            return NotImplemented
        I.sorted.append((len(args), list(v.xs)))
        return IterV(ap(list(v.xs)))
    I.sorted = []
    for n in ("sort", "sort_unstable"):
        I.methods[n] = inplace
    for n in ("sorted", "sorted_unstable"):
        I.methods[n] = val


def native(ctx, P, n, perm):
    key = "native:" + "".join(map(str, perm))
    with ctx.group(key):
        head = [x for x in P.impls if isinstance(x, tuple) and x[-1] == "OrderedEvents"][0]

        def fresh():
            I = gm.interp(P)
            I.track_overflow = True
            H(I)
            sorts(I, perm)
            I.intrinsics["CanonicalEvent::canonical_hash"] = lambda I_, vs, h, e, nd: StructV(sm.T_HASH, {"0": mkT("ehash", (freeze(I_.deref(vs[0])),))})
            I.intrinsics["merkle::merkleize"] = lambda I_, vs, h, e, nd: mkT("root", (freeze(I_.deref(vs[0])),))
            I.intrinsics["u64::from_le_bytes"] = lambda I_, vs, h, e, nd: mkT("u64le", (freeze(I_.deref(vs[0])),))
            return I
        I = fresh()
        oe = sm.static(I, P, "OrderedEvents", "new", [VecV(event(P, i) for i in range(n))])
        # the same list built event by event
        pl = I.temp(sm.static(I, P, "OrderedEvents", "new", [VecV(())]))
        for i in range(n):
            sm.run_method(I, P, "OrderedEvents", "push_temporal", pl, [event(P, i)])
        ctx.ob(f"{key}:push", eqv(True, pl.get(), oe), "events are kept in the order they were emitted", N)
        r, _, ok = sm.run_method(I, P, "OrderedEvents", "get_canonical_order_temporal_hints", I.temp(oe), [])
        ctx.saw(I)
        ctx.ob(f"{key}:total", ok is True, "hints exist for every list of events", N, lambda: repr([p[2] for p in I.panics]))
        out = [I.deref(x) for x in items(I, r)]
        good = len(out) == n
        for k in range(n):
            good = good and eqv(True, I.get_field(out[k], "0"), canon(perm[k]))
        ctx.ob(f"{key}:canonical", good, "the tape lists the canonical events in canonical order", N, lambda: repr(r)[:300])
        for t in range(n):
            h = I.deref(I.get_field(out[t], "1"))
            ctx.ob(f"{key}:hint:{t}", isinstance(h, Int) and 0 <= h.v < n and eqv(True, I.get_field(out[h.v], "0"), canon(t)),
                   "the hint of time t leads to the canonical position of the t-th event", N, lambda: repr(h))
        ctx.ob(f"{key}:order", all(a == 0 and all(eqv(True, I.deref(x)[0], canon(i)) for i, x in enumerate(xs)) for a, xs in I.sorted if xs and isinstance(I.deref(xs[0]), tuple)) and (I.sorted != []),
               "canonical order sorts on the canonical event itself", N)
        I = fresh()
        r, _, ok = sm.run_method(I, P, "OrderedEvents", "get_temporal_order_canonical_hints", I.temp(oe), [])
        want = VecV((event(P, k), Int(perm[k], "u32")) for k in range(n))
        ctx.ob(f"{key}:temporal", eqv(ok, r, want) and ok is True, "temporal order with canonical hints", N, lambda: repr(r)[:300])
        I = fresh()
        r, _, ok = sm.run_method(I, P, "OrderedEvents", "canonical_hash", I.temp(oe), [])
        leaf = lambda c: (mkT("u64le", (freeze(c.f["address"].f["0"]),)), StructV(sm.T_HASH, {"0": mkT("ehash", (freeze(c),))}))
        want = mkT("root", (freeze(VecV(leaf(canon(k)) for k in perm)),))
        ctx.ob(f"{key}:root", I.deref(r) is want, "the event commitment is the tree over (address, event hash) in canonical order", N, lambda: f"{I.deref(r)!r} / {want!r}"[:600])


def native_emit(ctx, P):
    with ctx.group("native emit"):
        head = [x for x in P.impls if isinstance(x, tuple) and x[-1] == "EventTape"][0]
        oh = [x for x in P.impls if isinstance(x, tuple) and x[-1] == "OrderedEvents"][0]
        stack = lambda *ids: StructV(("mozak_sdk", "native", "identity", "IdentityStack"), {"0": VecV(ids)})
        I = gm.interp(P)
        H(I)
        pl = I.temp(StructV(head, {"identity_stack": stack(sm.pid("me")), "writer": MapV({}, "map")}))
        r, s2, ok = sm.run_method(I, P, "EventTape", "emit", pl, [event(P, 0)])
        nn = I.equal(sm.pid("me"), I.default_of(("adt", P.lookup_abs(sm.T_PID), [])))
        ctx.ob("native:emit:null", bdd.and_(ok, nn) is False, "events are never attributed to the null program", N)
        ctx.ob("native:emit:accepts", bdd.and_(bdd.not_(ok), bdd.not_(nn)) is False, "a running program may emit events", N)
        me, out = sm.pidc(1), sm.pidc(2)
        other = StructV(oh, {"temporal_ordering": VecV(((event(P, 7), canon(7)),))})
        for case in ("first", "again"):
            I = gm.interp(P)
            H(I)
            w = {freeze(out): (out, other)}
            mine = []
            if case == "again":
                mine = [(event(P, 1), canon(1))]
                w[freeze(me)] = (me, StructV(oh, {"temporal_ordering": VecV(mine)}))
            pl = I.temp(StructV(head, {"identity_stack": stack(out, me), "writer": MapV(w, "map")}))
            r, s2, ok = sm.run_method(I, P, "EventTape", "emit", pl, [event(P, 0)])
            ctx.saw(I)
            m = I.deref(I.get_field(s2, "writer"))
            want = StructV(oh, {"temporal_ordering": VecV(mine + [(event(P, 0), canon(0))])})
            k = freeze(me)
            ctx.ob(f"native:emit:{case}:mine", ok is True and isinstance(m, MapV) and k in m.d and eqv(ok, m.d[k][1], want),
                   "the event is appended to the running program's own list", N, lambda: repr(m)[:400])
            k2 = freeze(out)
            ctx.ob(f"native:emit:{case}:others", isinstance(m, MapV) and len(m.d) == 2 and eqv(ok, m.d[k2][1], other), "other programs' lists are unchanged", N)
