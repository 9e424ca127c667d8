"""Guest start-up, clean shutdown and the host's tape preparation agree on every tape."""
import itertools

import bdd
import guestmodel as gm
import sdkmodel as sm
import terms
import vmmodel as vm
from builtins_rs import items
from interp import Dead, Env
from program import AnalysisError
from terms import mkT
from values import *

W, C = "sdk/src/common/system.rs", "cli/src/runner.rs"
IDS = {2: "private", 4: "public", 5: "call", 6: "event", 7: "events_commitment", 8: "cast_list_commitment", 9: "self_prog_id"}


def run(ctx):
    ctx.rule = ("abstract interpretation of the guest's tape initialiser and shutdown routine (environment calls recorded from the inline assembly, tapes symbolic), and of the "
                "host function preparing the tapes; what the guest reconstructs from each tape and the commitments it demands are compared with what the host writes")
    P = gm.load()
    for n in (0, 1, 3):
        startup(ctx, P, n)
    for ne, nc in ((0, 0), (1, 2), (2, 1), (3, 3)):
        for ci, ei in ((True, True), (False, True), (True, False)):
            shutdown(ctx, P, ne, nc, ci, ei)
    boot(ctx, P)
    stack(ctx, P)
    Ph = gm.load_host(("mozak_sdk", "mozak_runner", "mozak_cli"))
    host(ctx, Ph)


def straight(b):
    """names of the calls a block performs unconditionally, in order"""
    out = []
    for st in b["stmts"]:
        e = st.get("e")
        while e is not None and e["k"] in ("Unsafe", "Paren"):
            e = e.get("b") or e.get("e")
        if e is None:
            continue
        if e["k"] == "Block":
            out += straight(e["b"] if "b" in e else e)
        elif e["k"] == "Call" and e["f"]["k"] == "Path":
            out.append(e["f"]["segs"][-1]["id"])
    return out


def boot(ctx, P):
    import os
    import tempfile
    import macros
    from program import dump
    m = P.mods.get(("mozak_sdk", "core"))
    d = m and m.macros.get("entry")
    ctx.ob("boot:anchor", d is not None, "the entry macro exists", "sdk/src/core/mod.rs")
    if d is None:
        return
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "m.rs")
        open(p, "w").write("entry!(crate::main);")
        toks = dump([p])[0]["items"][0]["m"]["toks"]
        txt = macros.expand(d, toks)
        open(p, "w").write(txt)
        its = dump([p])[0]["items"]
    fns = []

    def find(its):
        for it in its:
            if it["k"] == "ItemMod" and it["items"]:
                find(it["items"])
            elif it["k"] == "Fn":
                fns.append(it)
    find(its)
    f = next((f for f in fns if f["n"] == "bespoke_entrypoint"), None)
    calls = straight(f["b"]) if f else []
    ok = "MOZAK_ENTRY" in calls and "ensure_clean_shutdown" in calls[calls.index("MOZAK_ENTRY"):]
    ctx.ob("boot:entry", ok, "the program's entry point runs and is always followed by the clean-shutdown check", "sdk/src/core/mod.rs", lambda: repr(calls))
    st = P.fn("mozak_sdk::core::__start")
    calls = straight(st["b"]) if st else []
    ok = "bespoke_entrypoint" in calls and "finalize" in calls[calls.index("bespoke_entrypoint"):]
    ctx.ob("boot:start", ok, "the machine halts only after the entry point returned", "sdk/src/core/mod.rs", lambda: repr(calls))


def stack(ctx, P):
    """the first instructions load the stack pointer, 16-byte aligned, and enter __start; the exit code is the first byte of the output"""
    import os
    import re
    import program
    M = "sdk/src/core/mod.rs"
    with ctx.group("boot:stack"):
        txt = open(os.path.join(program.REPO, M)).read()
        txt = re.sub(r"//[^\n]*", "", txt)
        m = re.search(r'global_asm!\s*\(\s*r?#?"(.*?)"#?\s*,?(.*?)\)\s*;', txt, re.S)
        ins = [" ".join(re.sub(r"[#;].*", "", l).split()) for l in m.group(1).split("\n")] if m else []
        at = ins.index("_start:") if "_start:" in ins else len(ins)
        ins = [i for i in ins[at + 1:] if i and not i.startswith(".")]
        ops = [o.strip() for o in m.group(2).split(",") if o.strip()] if m else []
        ok = len(ins) == 3 and ins[0] in ("la sp, {0}",) and ins[1] == "lw sp, 0(sp)" and ins[2] in ("jal ra, __start", "call __start", "jal __start", "j __start", "tail __start") and len(ops) == 1 and ops[0].startswith("sym ")
        ctx.ob("boot:stack:asm", ok, "execution starts by loading the stack pointer and entering __start", M, lambda: f"{ins} {ops}")
        I = gm.interp(P)
        d = P.lookup_abs(("mozak_sdk", "core", *ops[0].split()[1].split("::"))) if ok else None
        env = Env(None, d["mod"]) if d else None
        v = I.deref(I.eval(d["e"], env, I.ty(d["ty"], env))) if d else None
        ctx.ob("boot:stack:value", isinstance(v, Int) and v.ty == "u32" and v.v % 16 == 0 and v.v >= 1 << 31, "the stack starts 16-byte aligned in the upper half of memory", M, lambda: repr(v))
    E_ = "sdk/src/core/env.rs"
    for n in (0, 1, 3):
        with ctx.group(f"boot:exit:{n}"):
            I = gm.interp(P)
            sd = P.lookup_abs(("mozak_sdk", "core", "env", "OUTPUT_BYTES"))
            ctx.ob("boot:exit:anchor", sd is not None, "the output buffer exists", E_)
            sd.pop("_loc", None)
            out = sym("out", n)
            I.static_values[id(sd)] = VecV(out[:1])
            gm.call(I, P.fn("mozak_sdk::core::env::write"), [("v", VecV(out[1:]))])
            ctx.ob(f"boot:exit:{n}:write", I.pc is True and eqv(True, I.store[sd["_loc"]], VecV(out)), "output is collected in order", E_, lambda: repr(I.store.get(sd["_loc"])))
            gm.call(I, P.fn("mozak_sdk::core::env::finalize"), [])
            es = gm.ecalls(I)
            want = out[0] if n else Int(0, "u8")
            ok = len(es) == 1 and eqv(True, I.deref(es[0][1].get("a0")), Int(0, "u32")) and eqv(True, I.cast(I.deref(es[0][1].get("a1")), "u32"), I.cast(want, "u32"))
            ctx.ob(f"boot:exit:{n}:halt", ok, "finalizing halts with the first byte of the output, zero without output", E_, lambda: repr(es))


def ordered_sets(I):
    """collecting into a BTreeSet sorts and removes duplicates; an unordered set has no usable order"""
    def collect(I_, v, place, args, hint, node, env):
        h = I_.strip(hint) if hint else None
        if h and h[0] == "ext" and h[1] in ("BTreeSet", "HashSet") and isinstance(v, (VecV, IterV)):
            d = {}
            for x in v.xs:
                x = I_.deref(x)
                d[repr(freeze(x))] = x
            xs = [d[k] for k in sorted(d)]
            if h[1] == "HashSet" and len(xs) > 1:
                return VecV([mkT("anyof", (i,) + tuple(freeze(x) for x in xs)) for i in range(len(xs))])
            return VecV(xs)
        return NotImplemented
    I.methods["collect"] = collect


def fill(I, tapes, log):
    """ecall hook: the next bytes of the selected tape go to the guest buffer"""
    pos = {}

    def hook(I_, vals):
        a0 = I_.deref(vals["a0"])
        if not isinstance(a0, Int):
            raise AnalysisError("call number is not constant")
        name = IDS.get(a0.v)
        ln = I_.deref(vals.get("a2"))
        log.append((name or a0.v, ln.v if isinstance(ln, Int) else None))
        pl = I_.ptrs.get(I_.deref(vals["a1"]))
        if pl is None:
            raise AnalysisError("buffer of an environment call is not a known place")
        buf = I_.deref(pl.get())
        src = tapes.get(name)
        if src is None or not isinstance(ln, Int):
            raise AnalysisError(f"read of tape {name}")
        p = pos.get(name, 0)
        xs = list(buf.xs)
        take = src[p:p + ln.v]
        xs[:len(take)] = take
        if name not in ("events_commitment", "cast_list_commitment", "self_prog_id"):
            pos[name] = p + len(take)
        while isinstance(pl.get(), RefV):
            pl = pl.get().place
        pl.set(VecV(xs))
    return hook


def le(n):
    return [Int(n >> 8 * i & 255, "u8") for i in range(4)]


def sym(name, n):
    return [BV(terms.var(f"{name}[{i}]", 8), "u8") for i in range(n)]


def startup(ctx, P, n):
    key = f"startup:{n}"
    with ctx.group(key):
        log = []
        idb = sym("id", 32)
        tapes = {"self_prog_id": idb, "call": le(n + 4) + sym("call", n + 4), "event": le(n + 5) + sym("event", n + 5), "public": le(0x01020304 + n) + sym("pub", 3),
                 "private": le(0x0A0B0C00 + n) + sym("priv", 3)}
        I = gm.interp(P, None)
        I.ecall_hook = fill(I, tapes, log)
        sm.serde(I)
        ordered_sets(I)
        cpcs = VecV(dcpc(i) for i in range(n))
        evs = VecV(StructV(sm.T_HINT, {"0": mkT("var", (f"ev{i}",)), "1": mkT("var", (f"h{i}",))}) for i in range(n))
        seen = []

        def acc(I_, vs, h, e, nd):
            b = I_.deref(vs[0])
            seen.append(b)
            if isinstance(b, VecV) and eqv(True, b, VecV(sym("call", n + 4))):
                return cpcs
            if isinstance(b, VecV) and eqv(True, b, VecV(sym("event", n + 5))):
                return evs
            return mkT("view?", (freeze(b),))
        for k in ("*::access_unchecked", "access_unchecked", "rkyv::access_unchecked"):
            I.intrinsics[k] = acc
        I.intrinsics["Lazy::new"] = lambda I_, vs, h, e, nd: I_.call(vs[0], [])
        I.intrinsics["Box::leak"] = lambda I_, vs, h, e, nd: vs[0] if isinstance(vs[0], RefV) else RefV(I_.temp(vs[0]))
        I.intrinsics["Box::new"] = lambda I_, vs, h, e, nd: vs[0]
        d = P.lookup_abs(("mozak_sdk", "common", "system", "SYSTEM_TAPE"))
        I.pc = True
        env = Env(None, d["mod"])
        st = I.deref(I.eval(d["e"], env, I.ty(d["ty"], env)))
        ctx.saw(I)
        g = lambda *ks: I.deref(walk(I, st, ks))
        me = StructV(sm.T_PID, {"0": StructV(sm.T_HASH, {"0": VecV(idb)})})
        exp = {"call identity": (("call_tape", "self_prog_id"), me), "event identity": (("event_tape", "self_prog_id"), me),
               "call messages": (("call_tape", "reader"), Some(cpcs)), "event list": (("event_tape", "reader"), Some(evs)),
               "call cursor": (("call_tape", "index"), Int(0, "usize")), "event cursor": (("event_tape", "index"), Int(0, "usize")),
               "unused entries": (("event_tape", "seen"), VecV([False] * n)),
               "public size": (("public_input_tape", "0", "size_hint"), Int(0x01020304 + n, "usize")),
               "private size": (("private_input_tape", "0", "size_hint"), Int(0x0A0B0C00 + n, "usize")),
               "public call": (("public_input_tape", "0", "ecall_id"), Int(4, "u32")), "private call": (("private_input_tape", "0", "ecall_id"), Int(2, "u32")),
               "public position": (("public_input_tape", "0", "read_offset"), Int(0, "usize")), "private position": (("private_input_tape", "0", "read_offset"), Int(0, "usize"))}
        for k, (ks, w) in exp.items():
            v = g(*ks)
            ctx.ob(f"{key}:{k}", eqv(True, v, w), f"start-up takes the {k} from its own tape", W, lambda: f"{v!r} / {w!r}"[:400])
        cl = g("call_tape", "cast_list")
        ctx.ob(f"{key}:cast list", eqv(True, cl, VecV(distinct([dcpc(i).f["callee"] for i in range(n)]))),
               "the cast list is the sorted list of distinct callees", W, lambda: repr(cl)[:400])
        for t, total in (("call", n + 8), ("event", n + 9), ("public", 4), ("private", 4), ("self_prog_id", 32)):
            got = sum(l or 0 for m, l in log if m == t)
            ctx.ob(f"{key}:reads {t}", got == total, f"start-up consumes exactly the framing of the {t} tape", W, lambda: repr(log))


def dcpc(i):
    c = sm.cpc(i)
    return StructV(c.path, dict(c.f, callee=sm.pidc((5, 3, 5)[i % 3]), caller=sm.pidc(9)))


def distinct(ids):
    d = {repr(freeze(x)): x for x in ids}
    return [d[k] for k in sorted(d)]


def walk(I, v, ks):
    for k in ks:
        v = I.get_field(v, k)
    return v


class Wrapped(DomainV):
    pass


def commitments(I):
    I.intrinsics["CanonicalEvent::canonical_hash"] = lambda I_, vs, h, e, nd: StructV(sm.T_HASH, {"0": mkT("ehash", (freeze(I_.deref(vs[0])),))})
    I.intrinsics["merkle::merkleize"] = lambda I_, vs, h, e, nd: StructV(sm.T_HASH, {"0": mkT("root", (freeze(VecV(I_.deref(x) for x in items(I_, vs[0]))),))})
    I.intrinsics["u64::from_le_bytes"] = lambda I_, vs, h, e, nd: mkT("u64le", (freeze(I_.deref(vs[0])),))


def cev(i):
    return StructV(sm.T_CANON, {"address": StructV(sm.T_ADDR, {"0": mkT("var", (f"addr{i}",))}), "type_": mkT("var", (f"etype{i}",)),
                                "value": StructV(sm.T_HASH, {"0": mkT("var", (f"value{i}",))})})


def eroot(n):
    return mkT("root", (freeze(VecV((mkT("u64le", (freeze(cev(i).f["address"].f["0"]),)), StructV(sm.T_HASH, {"0": mkT("ehash", (freeze(cev(i)),))})) for i in range(n))),))


def croot(ids):
    return mkT("root", (freeze(VecV((Int(i, "u64"), x.f["0"]) for i, x in enumerate(ids))),))


def shutdown(ctx, P, ne, nc, call_done, ev_done):
    key = f"shutdown:{ne}:{nc}:{'' if call_done else 'calls left'}{'' if ev_done else 'events left'}"
    with ctx.group(key):
        log = []
        tapes = {"events_commitment": sym("ec", 32), "cast_list_commitment": sym("cc", 32)}
        I = gm.interp(P, None)
        I.ecall_hook = fill(I, tapes, log)
        sm.serde(I)
        commitments(I)
        ids = [sm.pid(f"cast{i}") for i in range(nc)]
        ct = StructV(("mozak_sdk", "mozakvm", "calltape", "CallTape"), {"cast_list": VecV(ids), "self_prog_id": sm.pid("me"), "reader": Some(VecV(sm.cpc(i) for i in range(2))),
                                                                     "index": Int(2 if call_done else 1, "usize")})
        hints = VecV(StructV(sm.T_HINT, {"0": cev(i), "1": BV(terms.var(f"h{i}", 32), "u32")}) for i in range(ne))
        if not ev_done and ne == 0:
            return
        et = StructV(("mozak_sdk", "mozakvm", "eventtape", "EventTape"), {"self_prog_id": sm.pid("me"), "reader": Some(hints), "seen": VecV([True] * ne),
                                                                       "index": Int(ne if ev_done else ne - 1, "usize")})
        st = StructV(("mozak_sdk", "common", "types", "system_tape", "SystemTape"), {"private_input_tape": UNIT, "public_input_tape": UNIT, "call_tape": ct, "event_tape": et})
        sd = P.lookup_abs(("mozak_sdk", "common", "system", "SYSTEM_TAPE"))
        I.const_item(sd)
        if sd.get("_loc") is not None:
            I.store[sd["_loc"]] = st
        else:
            I.statics[id(sd)] = st
        d = P.fn("mozak_sdk::common::system::ensure_clean_shutdown")
        gm.call(I, d, [])
        ok = I.pc
        ctx.saw(I)
        if not (call_done and ev_done):
            ctx.ob(f"{key}", ok is False, "a program that leaves calls or events unused does not shut down cleanly", W)
            return
        ec = I.equal(VecV(sym("ec", 32)), eroot(ne))
        cc = I.equal(VecV(sym("cc", 32)), croot(ids))
        ctx.ob(f"{key}:events", bdd.and_(ok, bdd.not_(ec)) is False, "shutdown demands that the event commitment is the root over (address, event hash) of the event tape", W, lambda: bdd.show(ok) if hasattr(bdd, "show") else "")
        ctx.ob(f"{key}:cast", bdd.and_(ok, bdd.not_(cc)) is False, "shutdown demands that the cast-list commitment is the root over the cast list", W)
        ctx.ob(f"{key}:accepts", bdd.and_(ec, cc, bdd.not_(ok)) is False, "a program that used all its calls and events and matches both commitments shuts down cleanly", W,
               lambda: repr([p[2] for p in I.panics]))


def host(ctx, P):
    d = P.fn("mozak_cli::runner::raw_tapes_from_system_tape")
    ctx.ob("host:anchor", d is not None, "the host's tape preparation exists", C)
    if d is None:
        return
    for n in (0, 1, 3):
        for have in (True, False):
            key = f"host:{n}:{'own' if have else 'no own'} entries"
            with ctx.group(key):
                I = gm.interp(P)
                ordered_sets(I)
                commitments(I)
                sm.serde(I)
                me = sm.pidc(1)
                other = sm.pidc(2)
                cpcs = VecV(dcpc(i) for i in range(n))
                oe = mkT("var", ("own events",))
                hints = VecV(StructV(sm.T_HINT, {"0": cev(i), "1": mkT("var", (f"h{i}",))}) for i in range(n))
                OE = ("mozak_sdk", "native", "eventtape", "OrderedEvents")
                own = StructV(OE, {"temporal_ordering": VecV((mkT("var", (f"tev{i}",)),) for i in range(n))})
                oth = StructV(OE, {"temporal_ordering": VecV(((mkT("var", ("x",)),),) * 5)})

                def go(I_, vs, h, e, nd):
                    s = I_.deref(vs[0])
                    if s is DEFAULT:
                        return VecV(())
                    xs = I_.get_field(s, "temporal_ordering")
                    if isinstance(xs, VecV) and not xs.xs:
                        return VecV(())
                    return hints if eqv(True, s, own) else mkT("hints of another program", ())
                I.intrinsics["OrderedEvents::get_canonical_order_temporal_hints"] = go
                I.methods["get_canonical_order_temporal_hints"] = lambda I_, v, place, args, hint, node, env: go(I_, [v], hint, env, node)
                m = lambda mine, others: MapV({**({freeze(me): (me, mine)} if have else {}), freeze(other): (other, others)}, "map")
                msg = lambda nm, k: StructV(sm.T_RAW, {"0": VecV(sym(nm, k))})
                raw = lambda w: StructV(("mozak_sdk", "native", "inputtape", "RawTape"), {"identity_stack": UNIT, "writer": w})
                st = StructV(("mozak_sdk", "common", "types", "system_tape", "SystemTape"), {
                    "private_input_tape": raw(m(msg("priv", n + 300), msg("xpriv", 2))), "public_input_tape": raw(m(msg("pub", n + 2), msg("xpub", 3))),
                    "call_tape": StructV(("mozak_sdk", "native", "calltape", "CallTape"), {"identity_stack": UNIT, "writer": cpcs}),
                    "event_tape": StructV(("mozak_sdk", "native", "eventtape", "EventTape"), {"identity_stack": UNIT, "writer": m(own, oth)})})
                I.intrinsics["runner::deserialize_system_tape"] = lambda I_, vs, h, e, nd: Ok(st)

                def to_bytes(I_, vs, h, e, nd):
                    v = I_.deref(vs[0])
                    which = "call" if eqv(True, v, cpcs) and n else "event" if eqv(True, v, hints) and n else "empty" if isinstance(v, VecV) and not v.xs else "?"
                    return Ok(VecV(sym("ser:" + which, n + 6)))
                for k in ("*::to_bytes", "to_bytes", "rkyv::to_bytes"):
                    I.intrinsics[k] = to_bytes
                r = gm.call(I, d, [("v", Some(mkT("var", ("file",)))), ("v", me)])
                ctx.saw(I)
                ctx.ob(f"{key}:total", I.pc is True, "tapes can always be prepared", C, lambda: repr([p[2] for p in I.panics]))
                fr = lambda xs: VecV(le(len(xs)) + xs)
                ev = n if have else 0
                b32 = lambda p: VecV(p)
                exp = {"private_tape": fr(sym("priv", n + 300) if have else []), "public_tape": fr(sym("pub", n + 2) if have else []),
                       "call_tape": fr(sym("ser:call" if n else "ser:empty", n + 6)), "event_tape": fr(sym("ser:event" if ev else "ser:empty", n + 6)),
                       "self_prog_id_tape": VecV(Int(1, "u8") for _ in range(32))}
                for f, w in exp.items():
                    v = I.deref(I.get_field(r, f))
                    ctx.ob(f"{key}:{f}", eqv(True, v, w), f"{f}: this program's own data behind its 4-byte little-endian length", C, lambda: f"{v!r}"[:300])
                v = I.deref(I.get_field(r, "events_commitment_tape"))
                ctx.ob(f"{key}:events_commitment", v is eroot(ev), "the event commitment is the root the guest recomputes", C, lambda: f"{v!r} / {eroot(ev)!r}"[:500])
                v = I.deref(I.get_field(r, "cast_list_commitment_tape"))
                w = croot(distinct([dcpc(i).f["callee"] for i in range(n)]))
                ctx.ob(f"{key}:cast_commitment", v is w, "the cast-list commitment is the root the guest recomputes", C, lambda: f"{v!r} / {w!r}"[:500])
