"""The guest allocator: aligned, non-overlapping blocks above the program image."""
import bdd
import guestmodel as gm
import sdkmodel as sm
import terms
from blast import blast, cond
from interp import Dead, Env
from program import AnalysisError
from terms import mkT
from values import *

W = "sdk/src/core/alloc.rs"


def run(ctx):
    ctx.rule = ("abstract interpretation of the bump allocator with a symbolic heap position, size and image end, for every power-of-two alignment; the returned address and the new "
                "position are reduced to BDDs over the bits of the position and compared with rounding up")
    P = gm.load()
    d = P.fn("mozak_sdk::core::alloc::alloc_aligned")
    ctx.ob("anchor", d is not None, "the allocator exists", W)
    if d is None:
        return
    for k in range(0, 32 if ctx.tier == "thorough" else 17):
        for first in (True, False):
            alloc(ctx, P, d, k, first)
    glob(ctx, P)


def statics(I, d):
    out = []

    def find(n):
        if isinstance(n, dict):
            if n.get("k") == "ItemStatic" and n.get("mut"):
                out.append(n)
            for v in n.values():
                if isinstance(v, (dict, list)) and v is not n.get("mod"):
                    find(v)
        elif isinstance(n, list):
            for x in n:
                find(x)
    find(d["b"])
    return out


def alloc(ctx, P, d, k, first):
    key = f"2^{k}:{'first' if first else 'later'}"
    with ctx.group(key):
        I = gm.interp(P)
        end = BV(terms.var("_end", 64), "usize")
        pos = Int(0, "usize") if first else BV(terms.var("pos", 64), "usize")
        size = BV(terms.var("size", 64), "usize")
        for n in ("from_ref", "addr_of"):
            I.intrinsics["*::" + n] = I.intrinsics["ptr::" + n] = lambda I_, vs, h, e, nd: I_.deref(vs[0])
        is_end = lambda v: isinstance(v, FnV) and v.name[-1] == "_end" if isinstance(getattr(v, "name", None), tuple) else "_end" in repr(v)
        for n in ("cast", "as_ptr", "addr"):
            I.methods[n] = lambda I_, v, place, args, hint, node, env: v if isinstance(v, (BV, Int)) else end if is_end(v) else NotImplemented
        ss = statics(I, d) + [x for x in d["mod"].items.values() for x in x if isinstance(x, dict) and x.get("k") == "ItemStatic" and x.get("mut")]
        ctx.ob(f"{key}:state", len(ss) == 1, "the heap position is the allocator's only state", W, lambda: repr([s.get("n") for s in ss]))
        s = ss[0]
        s.setdefault("mod", d["mod"])
        if first:
            # whatever the program image holds at start-up
            pos = I.deref(I.eval(s["e"], Env(None, d["mod"]), I.ty(s["ty"], Env(None, d["mod"]))))
        I.static_values[id(s)] = pos
        args = [("v", size), ("v", Int(1 << k, "usize"))]
        r = gm.call(I, d, args)
        ctx.saw(I)
        ok = I.pc
        new = I.store[s["_loc"]]
        start = end if first else pos
        # position 0 means "not initialised"
        nz = True if first else bdd.not_(terms.eq(start.t, terms.const(0, 64)))
        low = terms.band(start.t, terms.const((1 << k) - 1, 64))
        ref = terms.add(start.t, terms.ite(terms.eq(low, terms.const(0, 64)), terms.const(0, 64), terms.sub(terms.const(1 << k, 64), low))) if k else start.t
        if not first:
            # a zero position starts at the image end, checked by the other case
            ref = terms.ite(nz, ref, terms.const(0, 64))
        memo = {}
        t = I.deref(r)
        ctx.ob(f"{key}:total", ok is True, "allocation never fails", W, lambda: repr([p[2] for p in I.panics]))
        tt = term_of(t, "usize") if is_int(t) else None
        if tt is None:
            ctx.ob(f"{key}:address", False, "the address is a number", W, repr(t)[:200])
            return
        nzb = cond(nz, memo) if not isinstance(nz, bool) else nz
        same = all(bdd.and_(nzb, bdd.xor(a, b)) is False for a, b in zip(blast(tt, memo), blast(ref, memo)))
        ctx.ob(f"{key}:address", same, "a block starts at the heap position rounded up to the alignment", W, lambda: f"{t!r}"[:300])
        diff = I.binop("-", new, t)
        dt = term_of(diff, "usize")
        ctx.ob(f"{key}:advance", dt is size.t or eqv(ok, diff, size), "the next block starts right behind this one", W, lambda: f"{new!r} - {t!r}"[:300])


def glob(ctx, P):
    with ctx.group("global"):
        ims = [im for h, l in P.impls.items() for im in l if im.trait and im.trait[-1]["id"] == "GlobalAlloc"]
        ctx.ob("global:anchor", len(ims) == 1, "there is one global allocator", W)
        im = ims[0]
        for m in ("alloc", "alloc_zeroed"):
            I = gm.interp(P)
            got = []

            def aa(I_, vs, h, e, nd):
                got.append(tuple(I_.deref(v) for v in vs))
                return mkT("block", (len(got),))
            I.intrinsics["alloc::alloc_aligned"] = aa
            I.methods["size"] = lambda I_, v, place, args, hint, node, env: mkT("size", ())
            I.methods["align"] = lambda I_, v, place, args, hint, node, env: mkT("align", ())
            f = im.fns.get(m)
            if f is None:
                ctx.ob(f"global:{m}", True, "not overridden", W)
                continue
            I.pc = True
            st = sm.self_ty(P, im)
            r = I.call_fn(f, [("v", StructV(st[1]["path"], {}) if st else UNIT), ("v", mkT("layout", ()))], Env(None, im.mod, None, st, impl=im), self_ty=st, impl=im)
            ctx.saw(I)
            ctx.ob(f"global:{m}", got == [(mkT("size", ()), mkT("align", ()))] and I.deref(r) is mkT("block", (1,)), "a request is served by one block of its size and alignment", W, lambda: repr(got))
