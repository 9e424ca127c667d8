"""Hash padding, hash wrappers and canonical byte encodings of the SDK, guest and host builds."""
import bdd
import guestmodel as gm
import sdkmodel as sm
import terms
from builtins_rs import items
from interp import Dead, Env
from program import AnalysisError
from terms import mkT
from values import *

G, N, E, H, I_ = "sdk/src/mozakvm/poseidon.rs", "sdk/src/native/poseidon.rs", "sdk/src/common/types/event.rs", "sdk/src/common/types/poseidon2hash.rs", "sdk/src/common/types/program_identifier.rs"
KINDS = ("Write", "Ensure", "Read", "GiveOwner", "TakeOwner")


def sym(name, n, w=8, ty="u8"):
    return [BV(terms.var(f"{name}[{i}]", w), ty) for i in range(n)]


def digest(bs):
    t = mkT("digest", tuple(freeze(b) for b in bs))
    return [BV(terms.mkT("digest byte", (t, i), 8), "u8") for i in range(32)]


def flat(I, v):
    v = I.deref(v)
    if isinstance(v, (VecV, IterV)):
        out = []
        for x in v.xs:
            out += flat(I, x)
        return out
    return [v]


def setup(I):
    """host permutation library: field elements from bytes, digests as 32 uninterpreted bytes"""
    def elem(I_, vs, h, e, n):
        x = freeze(I_.deref(vs[0]))
        if isinstance(x, T) and x.op == "zext" and isinstance(x.args[0], T) and x.args[0].w == 8:
            x = x.args[0]   # a byte, however wide the integer that carries it
        return mkT("felt", (x,))
    for k in ("from_canonical_u8", "from_noncanonical_u64", "from_canonical_u64"):
        I.intrinsics["GoldilocksField::" + k] = I.intrinsics["*::" + k] = elem

    def hash_no_pad(I_, vs, h, e, n):
        xs = [I_.deref(x) for x in items(I_, vs[0])]
        return mkT("hash_no_pad", tuple(freeze(x) for x in xs))
    I.intrinsics["*::hash_no_pad"] = hash_no_pad

    def to_bytes(I_, v, place, args, hint, node, env):
        if isinstance(v, T) and v.op == "hash_no_pad":
            if not all(isinstance(a, T) and a.op == "felt" for a in v.args):
                return NotImplemented
            t = mkT("digest", tuple(a.args[0] for a in v.args))
            return VecV(BV(terms.mkT("digest byte", (t, i), 8), "u8") for i in range(32))
        return NotImplemented
    I.methods["to_bytes"] = to_bytes
    I.intrinsics["array_util::flatten"] = lambda I_, vs, h, e, n: VecV(flat(I_, vs[0]))

    def chunks(I_, vs, h, e, n):
        xs = flat(I_, vs[0])
        k = 8
        return (VecV(VecV(xs[i:i + k]) for i in range(0, len(xs) // k * k, k)), VecV(xs[len(xs) // k * k:]))
    I.intrinsics["array_util::as_chunks"] = chunks

    def concat(I_, m, env, hint, node):
        import program
        xs = []
        for part in gm.split_commas(m["toks"]):
            j = program.dump_source("fn __m() { (" + gm.toks_text(part) + ") }")
            xs += flat(I_, I_.eval(j["items"][0]["b"], env))
        return VecV(xs)
    I.macros["concat_arrays"] = concat


def guest_hook(I, log):
    def hook(I_, vals):
        a0, a2 = I_.deref(vals["a0"]), I_.deref(vals["a2"])
        src, dst = I_.ptrs.get(I_.deref(vals["a1"])), I_.ptrs.get(I_.deref(vals.get("a3")))
        if not isinstance(a0, Int) or not isinstance(a2, Int) or src is None or dst is None:
            raise AnalysisError("hash call with unknown operands")
        log.append(a0.v)
        b = I_.deref(src.get())
        if a2.v > len(b.xs):
            raise AnalysisError("hash call reads past its buffer")
        while isinstance(dst.get(), RefV):
            dst = dst.get().place
        dst.set(VecV(digest(list(b.xs)[:a2.v])))
    return hook


def run(ctx):
    ctx.rule = ("abstract interpretation of both builds of the hash wrappers and of the canonical encodings with symbolic bytes; the permutation is uninterpreted, "
                "so equal digests mean equal byte sequences handed to it")
    Pg, Ph = gm.load(), gm.load_host()
    top = 66 if ctx.tier == "thorough" else 34
    for side, P, f in (("guest", Pg, G), ("host", Ph, N)):
        mod = "mozakvm" if side == "guest" else "native"
        for n in range(top):
            wrappers(ctx, P, side, mod, f, n)
        encodings(ctx, P, side, mod)
    strings(ctx, Ph)


def interp(P, log):
    I = gm.interp(P)
    I.track_overflow = True
    I.ecall_hook = guest_hook(I, log)
    setup(I)
    return I


def wrappers(ctx, P, side, mod, f, n):
    bs = sym("in", n)
    for name, pad in (("poseidon2_hash_with_pad", True), ("poseidon2_hash_no_pad", False)):
        key = f"{side}:{name}:{n}"
        with ctx.group(key):
            log = []
            I = interp(P, log)
            d = P.fn(f"mozak_sdk::{mod}::poseidon::{name}")
            if d is None:
                ctx.ob(f"{key}:anchor", False, f"{name} exists", f)
                continue
            r = gm.call(I, d, [("v", RefV(I.temp(VecV(bs))))])
            ok = I.pc if r is not None else False
            ctx.saw(I)
            if not pad and n % 8:
                ctx.ob(f"{key}:refuses", ok is False, "unpadded input that does not fill whole blocks is refused", f)
                continue
            m = bs if not pad else bs + [Int(1, "u8")] + [Int(0, "u8")] * (-(n + 1) % 8)
            want = StructV(sm.T_HASH, {"0": VecV(digest(m))})
            ctx.ob(f"{key}", ok is True and eqv(True, r, want), "the digest is that of the input" + (" followed by a one byte and zeros up to the next multiple of eight" if pad else ""), f,
                   lambda: f"{r!r}"[:300])
            if side == "guest":
                ctx.ob(f"{key}:call", log == [3], "exactly one hash call is made", f, lambda: repr(log))


def encodings(ctx, P, side, mod):
    for nm in ("two_to_one",):
        with ctx.group(f"{side}:{nm}"):
            log = []
            I = interp(P, log)
            l, r = (StructV(sm.T_HASH, {"0": VecV(sym(x, 32))}) for x in ("l", "r"))
            v = sm.static(I, P, "Poseidon2Hash", nm, [l, r])
            ctx.saw(I)
            ctx.ob(f"{side}:{nm}", I.pc is True and eqv(True, v, StructV(sm.T_HASH, {"0": VecV(digest(sym("l", 32) + sym("r", 32)))})), "the parent hash is the digest of left followed by right", H, lambda: repr(v)[:300])
    for i, k in enumerate(KINDS):
        with ctx.group(f"{side}:event:{k}"):
            I = interp(P, [])
            a, val = sym("addr", 8), sym("value", 32)
            ce = StructV(sm.T_CANON, {"address": StructV(sm.T_ADDR, {"0": VecV(a)}), "type_": EnumV(sm.T_ETYPE, k, ()), "value": StructV(sm.T_HASH, {"0": VecV(val)})})
            v, _, ok = sm.run_method(I, P, "CanonicalEvent", "canonical_hash", I.temp(ce), [])
            ctx.saw(I)
            m = [Int(i, "u8")] + [Int(0, "u8")] * 7 + a + val
            ctx.ob(f"{side}:event:{k}", ok is True and eqv(True, v, StructV(sm.T_HASH, {"0": VecV(digest(m))})),
                   "an event hashes as its kind (8 bytes, little-endian), address and value digest", E, lambda: repr(v)[:300])
            I = interp(P, [])
            data = sym("data", 5 + i)
            ev = StructV(sm.T_EVENT, {"object": StructV(sm.T_OBJ, {"address": StructV(sm.T_ADDR, {"0": VecV(a)}), "constraint_owner": sm.pid("owner"), "data": VecV(data)}),
                                      "type_": EnumV(sm.T_ETYPE, k, ())})
            v = sm.static(I, P, "CanonicalEvent", "from_event", [RefV(I.temp(ev))])
            m = data + [Int(1, "u8")] + [Int(0, "u8")] * (-(len(data) + 1) % 8)
            want = StructV(sm.T_CANON, {"address": ce.f["address"], "type_": EnumV(sm.T_ETYPE, k, ()), "value": StructV(sm.T_HASH, {"0": VecV(digest(m))})})
            ctx.ob(f"{side}:canon:{k}", I.pc is True and eqv(True, v, want), "an event's canonical form keeps address and kind and hashes the padded data", E, lambda: repr(v)[:300])
    with ctx.group(f"{side}:words"):
        I = interp(P, [])
        ws = [BV(terms.var(f"w{i}", 64), "u64") for i in range(4)]
        by = [BV(terms.trunc(terms.lshr(w.t, 8 * j), 8), "u8") for w in ws for j in range(8)]
        h = StructV(sm.T_HASH, {"0": VecV(by)})
        v = sm.static(I, P, "Poseidon2Hash", "from_u64s", [VecV(ws)])
        ctx.ob(f"{side}:from_u64s", eqv(True, v, h), "a hash made of words is their little-endian bytes in order", H, lambda: repr(v)[:300])
        r, _, ok = sm.run_method(I, P, "Poseidon2Hash", "to_u64s", I.temp(v), [])
        ctx.ob(f"{side}:to_u64s", ok is True and eqv(True, r, VecV(ws)), "reading the words back gives the same words", H, lambda: repr(r)[:300])
        for pty, arg, nm in ((("u64", 4), VecV(ws), "from words"), (("u8", 32), VecV(by), "from bytes"), ("Vec", VecV(by), "from vector")):
            ims = [im for im in P.impls.get(sm.T_HASH, []) if im.trait and im.trait[-1]["id"] == "From" and "from" in im.fns]
            for im in ims:
                t = im.fns["from"]["params"][0]["ty"]
                kind = ("u64", 4) if t["k"] == "TArray" and "u64" in repr(t) else ("u8", 32) if t["k"] == "TArray" else "Vec"
                if kind != pty:
                    continue
                I = interp(P, [])
                I.pc = True
                st = sm.self_ty(P, im)
                v = I.call_fn(im.fns["from"], [("v", arg)], Env(None, im.mod, None, st, impl=im), self_ty=st, impl=im)
                ctx.saw(I)
                ctx.ob(f"{side}:{nm}", I.pc is True and eqv(True, v, h), f"conversion {nm} keeps every byte", H, lambda: repr(v)[:300])
    with ctx.group(f"{side}:owner"):
        for n in range(4):
            I = interp(P, [])
            me = sm.pid("me")
            objs = [StructV(sm.T_OBJ, {"address": UNIT, "constraint_owner": sm.pid(f"owner{i}"), "data": VecV(())}) for i in range(n)]
            _, _, ok = sm.run_method(I, P, "ProgramIdentifier", "ensure_constraint_owner_similarity", I.temp(me), [IterV(tuple(RefV(I.temp(o)) for o in objs))])
            ctx.saw(I)
            want = bdd.and_(True, *[I.equal(o.f["constraint_owner"], me) for o in objs])
            ctx.ob(f"{side}:owner:{n}", bdd.iff(ok, want) is True, "ownership is accepted exactly when every object belongs to the program", I_, lambda: repr(ok))
        I = interp(P, [])
        z = StructV(sm.T_PID, {"0": StructV(sm.T_HASH, {"0": VecV([Int(0, "u8")] * 32)})})
        o = StructV(sm.T_PID, {"0": StructV(sm.T_HASH, {"0": VecV(sym("id", 32))})})
        r, _, ok = sm.run_method(I, P, "ProgramIdentifier", "is_null_program", I.temp(o), [])
        ctx.ob(f"{side}:null", ok is True and bdd.iff(r, I.equal(o, z)) is True, "only the all-zero identity is the null program", I_)
        r, _, ok = sm.run_method(I, P, "ProgramIdentifier", "inner", I.temp(o), [])
        ctx.ob(f"{side}:inner", ok is True and eqv(True, r, VecV(sym("id", 32))), "the identity's bytes are its digest", I_)


def strings(ctx, P):
    """text form: MZK-<hex of the 32 bytes>"""
    with ctx.group("text"):
        ims = [im for im in P.impls.get(sm.T_PID, []) if im.trait and im.trait[-1]["id"] == "From" and "from" in im.fns]
        ctx.ob("text:anchor", len(ims) == 1, "identities are parsed from text", I_)
        for parts, good in ((("MZK", "aa"), True), (("MZK",), False), (("MZK", "aa", "bb"), False), (("KZM", "aa"), False), (("", "MZK"), False)):
            I = gm.interp(P)
            setup(I)

            def split(I_, v, place, args, hint, node, env):
                if v == "text" and args and I_.deref(args[0]) == "-":
                    return IterV(parts)
                return NotImplemented
            I.methods["split"] = split
            by = sym("hex", 32)

            def decode(I_, vs, h, e, n):
                return Ok(VecV(by)) if I_.deref(vs[0]) == parts[-1] and len(parts) == 2 else mkT("hex?", ())
            I.intrinsics["hex::decode"] = decode
            I.pc = True
            st = sm.self_ty(P, ims[0])
            try:
                v = I.call_fn(ims[0].fns["from"], [("v", "text")], Env(None, ims[0].mod, None, st, impl=ims[0]), self_ty=st, impl=ims[0])
                ok = I.pc
            except Dead:
                v, ok = None, False
            ctx.saw(I)
            key = "text:" + "-".join(parts)
            if good:
                ctx.ob(key, ok is True and eqv(True, v, StructV(sm.T_PID, {"0": StructV(sm.T_HASH, {"0": VecV(by)})})), "the text after the prefix is the identity in hexadecimal", I_, lambda: repr(v)[:200])
            else:
                ctx.ob(key, ok is False, "text of any other shape is refused", I_)
