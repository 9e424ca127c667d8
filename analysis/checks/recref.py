"""What the recursive-proof circuits must enforce: the references their constraints are compared with, written per statement."""
import recmodel as rm
from field import FPoly, PR, lift
from program import AnalysisError
from recmodel import Ref, eqz, hash_n, bits_of, weigh, vk
from values import *

HALF = pow(2, PR - 2, PR)


def sel(c, a, b):
    """c ? a : b, for values of any number of elements"""
    if isinstance(a, list):
        b = b if isinstance(b, list) else [b] * len(a)
        return [sel(c, x, y) for x, y in zip(a, b, strict=True)]
    return lift(c) * (lift(a) - lift(b)) + lift(b)


def zero_hash(h):
    r = FPoly.const(1)
    for x in h:
        r = r * eqz(x)
    return r


def or_(a, b):
    return a + b - a * b


def le_bytes(R, xs):
    """the little-endian bytes of field elements"""
    out = []
    for x in xs:
        bs, exact = bits_of(x, 64)
        if not exact:
            R.range(x, 64)
        out += [weigh(bs[8 * i:8 * i + 8]) for i in range(8)]
    return out


def hash_or_forward(lp, lh, rp, rh):
    """both: their hash; one: that one; none: zero"""
    h = hash_n(lh + rh)
    return [sel(lp * rp, x, a + b) for x, a, b in zip(h, lh, rh)]


class Branch:
    """a circuit verifying two children with the same public inputs"""

    def __init__(self, R, c, child, left="unbounded.targets.left_proof", right="unbounded.targets.right_proof"):
        self.R, self.c, self.child = R, c, child
        self.lp, self.rp = c.get(left), c.get(right)

    def l(self, path):
        return self.c.child(self.lp, self.child, path)

    def r(self, path):
        return self.c.child(self.rp, self.child, path)

    def unbounded(self):
        c, R = self.c, self.R
        me, leaf = c.pi("unbounded.verifier"), vk(self.child)
        for side, p in (("left", self.lp), ("right", self.rp)):
            f = c.at(f"unbounded.targets.{side}_is_leaf")
            R.bool(f)
            R.eq(c.child(p, self.child, "unbounded.verifier"), me)
            R.verify(p, sel(f, leaf, me), self.child)

    def bounded(self):
        for p in (self.lp, self.rp):
            self.R.verify(p, vk(self.child), self.child)

    def propagate(self, path):
        me = aslist(self.c.pi(path))
        self.R.eq(me, aslist(self.l(path)))
        self.R.eq(me, aslist(self.r(path)))

    def unpruned(self, path, vm=False, partial=None):
        R, l, r = self.R, self.l(path), self.r(path)
        h = hash_n(le_bytes(R, l + r) if vm else l + r)
        if partial is not None:
            p = self.c.at(partial)
            R.bool(p)
            h = sel(p, l, h)
        R.eq(self.c.pi(path), h)

    def summarized(self, pre):
        R = self.R
        P, H = pre + "_present", pre
        R.assume(self.l(P), self.r(P))
        R.eq(self.c.pi(P), or_(self.l(P), self.r(P)))
        R.eq(self.c.pi(H), hash_or_forward(self.l(P), self.l(H), self.r(P), self.r(H)))

    def address(self, present, addr):
        R = self.R
        lp, rp, la, ra = self.l(present), self.r(present), self.l(addr), self.r(addr)
        lpar, rpar = la.scale(HALF), (ra - 1).scale(HALF)
        any_ = or_(lp, rp)
        R.assume(lp, rp)
        R.eq(self.c.pi(present), any_)
        R.eq(lp * rp * (1 - eqz(lpar - rpar)))
        R.eq(self.c.pi(addr), sel(any_, sel(lp, lpar, rpar), la))


def aslist(x):
    return x if isinstance(x, list) else [x]


# --------------------------------------------------------------- witnesses
class Prover:
    """the assignments one proving method makes"""

    def __init__(self, ctx, W, name, c, where):
        self.ctx, self.W, self.name, self.c, self.where = ctx, W, name, c, where

    def head(self):
        return (rm.C,) + tuple(self.c.path.split("::"))

    def run(self, fn, *args):
        n = len(self.c.b.proved)
        r = self.W.meth(self.head(), fn, self.W.ref(self.c.v), *args)
        if len(self.c.b.proved) != n + 1:
            raise AnalysisError(f"{self.name}.{fn} does not prove its circuit once")
        self.w = self.c.b.proved[-1]
        self.result = r
        return self.w, r

    def check(self, label, fn, args, must, may=(), proofs=()):
        """must/may: pairs (targets, values); proofs: pairs (proof target, proof value)"""
        w, r = self.run(fn, *args)
        bad = []
        allowed = {}
        req = {}
        for d, pairs in ((req, must), (allowed, may)):
            for t, v in pairs:
                t, v = aslist(t), aslist(v)
                for x, y in zip(t, v, strict=True):
                    d[x.key()] = lift(y)
        for pt, pv in proofs:
            if w.proofs.get(pt.f["proof"].name) != pv.f["proof"].name:
                bad.append(f"proof {pt.f['proof'].name} is {w.proofs.get(pt.f['proof'].name)}, should be {pv.f['proof'].name}")
            for x, y in zip(rm.flat(self.W.I, pt.f["public_inputs"]), rm.flat(self.W.I, pv.f["public_inputs"])):
                req[x.key()] = y
        lab = rm.Labels(self.c)
        show = lambda k: lab(FPoly(dict(k[1])))
        for k, v in req.items():
            if k not in w.m:
                bad.append(f"{show(k)} is not assigned")
            elif w.m[k] != v:
                bad.append(f"{show(k)} is assigned {lab(w.m[k])}, should be {lab(v)}")
        for k, v in w.m.items():
            if k not in req and (k not in allowed or allowed[k] != v):
                bad.append(f"{show(k)} is assigned {lab(v)}, which is not its value")
        extra = set(w.proofs) - {pt.f["proof"].name for pt, _ in proofs}
        if extra:
            bad.append(f"unexpected proofs {extra}")
        if w.twice:
            bad.append(f"assigned twice: {w.twice[:2]}")
        self.ctx.ob(f"{self.name}:{label}", not bad, "the prover assigns every input the value it was asked to prove", self.where, lambda: "; ".join(bad[:4]))
        r = self.unwrap(r)
        self.c.indices = self.W.I.deref(r.f["indices"])
        ok = self.W.I.deref(r.f["proof"]).f["proof"].name == ("proof", self.c.b.uid, len(self.c.b.proved))
        self.ctx.ob(f"{self.name}:{label}:result", ok, "the proof returned is the one made", self.where)
        return r

    def unwrap(self, r):
        r = self.W.I.deref(r)
        if isinstance(r, EnumV) and r.var == "Ok":
            return self.W.I.deref(r.p[0])
        return r


def proof_of(W, c, tag="x", known=None):
    """a finished proof of a circuit, as a circuit's user holds it"""
    n = W.fresh = getattr(W, "fresh", 0) + 1
    pv = rm.proof_value(("given", tag, n), len(c.b.pis), c.b)
    for path, v in (known or {}).items():
        xs = list(pv.f["public_inputs"].xs)
        for i, x in zip(c.idx(path), aslist(v), strict=True):
            xs[i] = x
        pv.f["public_inputs"] = VecV(xs)
    return StructV(W.adt("circuits", "Proof")["path"], {"proof": pv, "tag": UNIT, "indices": c.indices})


def proof_pis(W, p, c, path):
    xs = rm.flat(W.I, p.f["proof"].f["public_inputs"])
    r = [xs[i] for i in c.idx(path)]
    return r[0] if len(r) == 1 else r


def same_indices(ctx, name, a, b, paths, where):
    bad = [p for p in paths if a.idx(p) != b.idx(p)]
    ctx.ob(f"{name}:layout", not bad, "a parent's public inputs lie where its children's do", where, lambda: ", ".join(bad))


def accessor(ctx, W, name, fn, proof, expect, where, module):
    """a proof's accessor returns the public inputs it is named for"""
    head = (rm.C, "circuits", "Proof")
    mod = f"{rm.C}::circuits::{module}"
    ims = [im for im in W.P.impls.get(head, []) if fn in im.fns and im.trait is None and im_mod(im) == mod]
    if not ims:
        raise AnalysisError(f"{module}: Proof::{fn} is gone")
    im = ims[0]
    from interp import Env
    st = ("adt", W.P.lookup_abs(head), [])
    v = W.I.call_fn(im.fns[fn], [("v", W.ref(proof))], Env(None, im.mod, {}, st, impl=im), self_ty=st, impl=im)
    got = value_elems(W.I, v)
    want = aslist(expect)
    ctx.ob(f"{name}:{fn}", got == want, "a proof's accessor reads the public input it is named for", where, lambda: f"reads {got}, should read {want}"[:300])


def im_mod(im):
    m = im.mod
    for a in ("path", "name"):
        x = getattr(m, a, None)
        if x is not None:
            return "::".join(x) if isinstance(x, (tuple, list)) else str(x)
    return str(m)


def value_elems(I, v):
    if isinstance(I.deref(v), rm.Flags):
        v = I.deref(v).v
    v = I.deref(v)
    if is_bool(v):
        return [lift(int(v)) if isinstance(v, bool) else rm.bool_poly(v)]
    return rm.flat(I, v)


def boolarg(name):
    """a symbolic boolean argument: its condition, and its value in the field"""
    p = FPoly.var(("arg", name))
    return rm.isone(p), p


def arg(name, n=None):
    return FPoly.var(("arg", name)) if n is None else [FPoly.var(("arg", name, i)) for i in range(n)]


def leaf_or_branch(W, proof, leaf):
    d = W.P.lookup_abs((rm.C, "circuits", "LeafOrBranchRef"))
    if d is None:
        raise AnalysisError("LeafOrBranchRef is gone")
    return EnumV(d["path"], "Leaf" if leaf else "Branch", (W.ref(proof),))


def verifies(ctx, W, circs, where):
    """`verify` checks the proof it is given, with this circuit"""
    for nm, c in circs:
        p = proof_of(W, c, "v")
        c.b.verified.clear()
        W.meth((rm.C,) + tuple(c.path.split("::")), "verify", W.ref(c.v), p)
        got = c.b.verified
        ok = len(got) == 1 and got[0].f["proof"].name == p.f["proof"].f["proof"].name and rm.flat(W.I, got[0].f["public_inputs"]) == rm.flat(W.I, p.f["proof"].f["public_inputs"])
        ctx.ob(f"{nm}:verify", ok, "verification checks the whole proof with this circuit", where)


def native(ctx, W, key, fn, args, want):
    """a function outside circuits computes the same as inside"""
    d = W.P.lookup_abs((rm.C, fn))
    if d is None:
        raise AnalysisError(f"{fn} is gone")
    from interp import Env
    v = W.I.call_fn(d, [("v", a) for a in args], Env(None, d["mod"] if isinstance(d, dict) and "mod" in d else None, {}, None))
    got = rm.flat(W.I, v)
    ctx.ob(f"native:{key}", got == want, "what is hashed outside the circuits is what the circuits hash", "recproofs/src/lib.rs", lambda: f"{got} instead of {want}"[:300])


EVENTS = ["Write", "Ensure", "Read", "GiveOwner", "TakeOwner", "CreditDelta"]


def ev_type(W, name):
    d = W.adt("EventType")
    return EnumV(d["path"], name, ())


def event(W, ty, owner, address, value):
    d = W.adt("Event")
    return StructV(d["path"], {"owner": VecV(list(owner)), "ty": ev_type(W, ty), "address": address, "value": VecV(list(value))})


def le_byte_polys(xs):
    return le_bytes(Ref(), xs)


UNB = ("unbounded.targets.left_proof", "unbounded.targets.right_proof")


def pairs_of(W, leaf, branch):
    """every mix of leaf and branch children of a branch"""
    for l in (True, False):
        for r in (True, False):
            lc, rc = (leaf if l else branch), (leaf if r else branch)
            yield l, r, proof_of(W, lc, "l"), proof_of(W, rc, "r")


def unbounded_inputs(c, l, r, lp, rp):
    """assignments every unbounded branch makes: which children are leaves, and the children"""
    return ([(c.at("unbounded.targets.left_is_leaf"), FPoly.const(int(l))), (c.at("unbounded.targets.right_is_leaf"), FPoly.const(int(r)))],
            [(c.get(UNB[0]), lp.f["proof"]), (c.get(UNB[1]), rp.f["proof"])])


def const_verifier(c):
    """the verifier data of a circuit as values"""
    return rm.flat(c.I, rm.verifier_value(c.b))


def method(ctx, W, key, adt, fn, v, want):
    """a method of a plain value computes the same as the circuits do"""
    got = rm.flat(W.I, W.meth((rm.C, adt), fn, v))
    ctx.ob(f"native:{key}", got == want, "what is hashed outside the circuits is what the circuits hash", "recproofs/src/lib.rs", lambda: f"{got} instead of {want}"[:300])
