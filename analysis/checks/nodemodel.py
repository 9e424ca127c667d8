"""Model of the node's surroundings: circuits, proofs, hashes and objects as terms that remember what they were made from."""
import time

import interp
import starkmodel as sm
from builtins_rs import items
from interp import Dead, Env
from program import AnalysisError
from values import *

N, R = "mozak_node", "mozak_recproofs"
BP = (N, "block_proposer")


class Tok(DomainV):
    """an opaque thing, equal exactly to itself"""

    def __init__(self, *k):
        self.k = k

    def key(self):
        return ("tok",) + self.k

    def __repr__(self):
        return "<" + " ".join(map(str, self.k)) + ">"

    def method(self, I, name, args, hint, place):
        if name in ("clone", "to_owned", "borrow", "as_ref", "deref", "into", "copied", "cloned"):
            return self
        return NotImplemented

    def binop(self, I, op, o, swapped):
        if op in ("==", "!=") and isinstance(o, Tok):
            return (self.k == o.k) == (op == "==")
        return NotImplemented


class World:
    def __init__(self, crates=(N, R, "mozak_sdk")):
        self.P = self.load(tuple(crates))
        self.I = I = sm.interp(self.P, exprs=False)
        I.pc = True

        def from_(I_, vs, h, e, n):
            v = I_.deref(vs[-1])
            return Int(int(v), h[1] if h and h[0] == "p" and h[1] != "bool" else None) if isinstance(v, bool) else v
        I.intrinsics["*::from"] = from_

        def flat(xs):
            out = []
            for x in xs:
                x = I.deref(x)
                out += flat(x.xs) if isinstance(x, VecV) else [x]
            return out
        I.intrinsics["array_util::flatten"] = lambda I_, vs, h, e, n: VecV(flat(items(I_, vs[0])))
        # the only use here is eight bytes of a word at a time
        I.intrinsics["array_util::as_chunks"] = lambda I_, vs, h, e, n: (lambda xs: (VecV(VecV(xs[i:i + 8]) for i in range(0, len(xs) // 8 * 8, 8)), VecV(xs[len(xs) // 8 * 8:])))(flat(items(I_, vs[0])))

        def strict(v, name, args, hint, node, env, place):
            raise AnalysisError(f"unknown method {name} of {v!r} ({args})"[:300])
        I.opaque_method = strict

    def load(self, crates):
        return sm.load(crates)

    def adt(self, *p):
        d = self.P.lookup_abs(p)
        if d is None:
            raise AnalysisError(f"{'::'.join(p)} is gone")
        return d

    def ref(self, v):
        return RefV(self.I.temp(v))

    def meth(self, head, name, *args, self_ty=None):
        ims = [im for im in self.P.impls.get(head, []) if name in im.fns]
        if not ims:
            raise AnalysisError(f"{'::'.join(head[1:])}::{name} is gone")
        im = ims[0]
        st = ("adt", self.P.lookup_abs(head), [])
        return self.within(lambda: self.I.call_fn(im.fns[name], [("v", a) for a in args], Env(None, im.mod, {}, st, impl=im), self_ty=st, impl=im))

    def within(self, f, most=4_000_000):
        """one call of the proposer: far more than any of them needs, so that one that never ends is reported soon"""
        I = self.I
        had, end = I.fuel, interp.DEADLINE
        I.fuel = cap = min(had, most)
        interp.DEADLINE = min(end, time.monotonic() + 100)
        try:
            return f()
        finally:
            I.fuel, interp.DEADLINE = had - (cap - I.fuel), end

    def fn(self, path, *args):
        d = self.P.lookup_abs(path)
        if d is None:
            raise AnalysisError(f"{'::'.join(path)} is gone")
        return self.within(lambda: self.I.call_fn(d, [("v", a) for a in args], Env(None, d["mod"], {}, None)))

    def attempt(self, f):
        """(answer, panicked?) of a call; whatever it left behind is in the places passed to it"""
        I = self.I
        I.pc, n = True, len(I.panics)
        try:
            r = f()
        except Dead:
            r = None
            if len(I.panics) == n:
                raise AnalysisError("a call ends without a result or a panic")
        live = I.pc
        ps = I.panics[n:]
        I.pc = True
        if live is not True and live is not False:
            raise AnalysisError("the outcome of a call is not determined by its inputs")
        if live is True and ps:
            raise AnalysisError("a call goes on after a panic")
        return r, live is False

    def intercept(self, path, f):
        if self.P.lookup_abs(tuple(path.split("::"))[:-1]) is None:
            raise AnalysisError(f"{path} is gone")
        self.I.intrinsics[path] = f
