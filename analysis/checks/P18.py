"""Constraint expressions denote the polynomial they are written as, and every constraint reaches the consumer of its kind."""
import starkmodel as sm
from builtins_rs import items
from field import PR, FPoly, fof
from interp import Env
from program import AnalysisError
from values import *

W = "expr/src/lib.rs"
OW = "expr/src/ops.rs"
CW = "circuits/src/expr.rs"
OPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b}
ASSIGN = {"AddAssign": "Add", "SubAssign": "Sub", "MulAssign": "Mul"}


def run(ctx):
    ctx.rule = ("abstract interpretation of the expression builder, its operator instances and its evaluators with literals that are exact polynomials over the Goldilocks field; the value "
                "of every expression shape is compared with the polynomial the operators denote, for each evaluator, and the constraint builders are run against a recording consumer")
    P = sm.load(sm.CRATES)
    M = Model(P)
    operators(ctx, M)
    evaluators(ctx, M)
    helpers(ctx, M)
    frame(ctx, M)
    consumers(ctx, M)
    M.saw(ctx)


class Model:
    def __init__(self, P):
        self.P = P
        self.I = sm.interp(P, exprs=False)
        self.I.pc = True
        self.eb = P.lookup_abs(("expr", "ExprBuilder"))
        self.ex = P.lookup_abs(("expr", "Expr"))
        if not self.eb or not self.ex:
            raise AnalysisError("the expression type is gone")
        self.env = Env(None, self.ex["mod"])
        self.builder = StructV(self.eb["path"], {"bump": DEFAULT})
        self.I.methods["alloc"] = lambda I, v, place, args, hint, node, env: args[0]

    def saw(self, ctx):
        ctx.saw(self.I)

    def impl_of(self, head, name, trait=None):
        for im in self.P.impls.get(head, []):
            if name in im.fns and (im.trait[-1]["id"] if im.trait else None) == trait:
                return im
        raise AnalysisError(f"{head[-1]}::{name} is gone")

    def m(self, head, name, args, trait=None):
        im = self.impl_of(head, name, trait)
        return self.run_fn(head, im, im.fns[name], args)

    def run_fn(self, head, im, fn, args):
        st = ("p", head) if isinstance(head, str) else ("adt", self.P.lookup_abs(head), [])
        return self.I.call_fn(fn, [("v", a) for a in args], Env(None, im.mod, {}, st, impl=im), self_ty=st, impl=im)

    def lit(self, x):
        return self.m(self.eb["path"], "lit", [self.builder, x])

    def const(self, k):
        return self.m(self.eb["path"], "constant", [self.builder, Int(k, "i64")])

    def basic(self, k):
        return self.m(self.ex["path"], "from", [Int(k, "i64")], "From")

    # -------------------------------------------------------- evaluators
    def packed(self):
        d = self.P.fn("mozak_circuits::expr::packed_field_evaluator")
        if d is None:
            raise AnalysisError("packed_field_evaluator is gone")
        return self.I.call_fn(d, [], Env(None, d["mod"]))

    def circuit(self):
        # whatever it is called: the evaluator of this module that is made around a circuit builder
        for head, ims in self.P.impls.items():
            if head[:2] == ("mozak_circuits", "expr") and any(im.trait and im.trait[-1]["id"] == "Evaluator" for im in ims):
                v = self.record(head, lambda t: RefV(self.I.temp(sm.Builder())) if t["k"] == "TRef" else None)
                if v is not None:
                    return v
        raise AnalysisError("no evaluator builds circuits")

    def record(self, head, pick):
        """a struct with its fields by their types, not their names"""
        d = self.P.lookup_abs(head)
        if d is None or "fields" not in d:
            return None
        fs = {str(f.get("n") or i): pick(f["ty"]) for i, f in enumerate(d["fields"]["f"])}
        return None if not fs or None in fs.values() else StructV(d["path"], fs)

    def cached(self, e):
        return self.m(("expr", "Cached"), "from", [e], "From")

    def counting(self, e):
        v = self.record(("expr", "Counting"), lambda t: Int(0, "u64") if t["k"] == "TPath" and t["segs"][-1]["id"] in ("u64", "usize", "u32") else e)
        if v is None:
            raise AnalysisError("Counting is gone")
        return v

    def all(self):
        return {"pure": self.packed(), "cached": self.cached(self.packed()), "counting": self.counting(self.packed()),
                "cached counting": self.cached(self.counting(self.packed())), "circuit": self.circuit(), "cached circuit": self.cached(self.circuit())}

    def eval(self, ev, e):
        pl = self.I.temp(ev)
        f = self.I.find_impl_method(ev, "eval")
        if f is None:
            tr = self.P.lookup_abs(("expr", "Evaluator"))
            im = next(im for im in self.P.impls.get(ev.path, []) if im.trait and im.trait[-1]["id"] == "Evaluator")
            d = next(d for d in tr["items"] if d.get("n") == "eval")
            r = self.I.call_fn(d, [("v", RefV(pl)), ("v", e)], Env(None, tr["mod"], {}, ("adt", self.P.lookup_abs(ev.path), []), impl=im), self_ty=("adt", self.P.lookup_abs(ev.path), []), impl=im)
        else:
            r = self.I.call_user(f, [RefV(pl), e], None, None, self.env)
        r = self.I.deref(r)
        p = fof(r)
        if p is None:
            raise AnalysisError(f"the value of an expression is {r!r:.120}")
        return p, pl.get()


A, B_ = FPoly.var(("l", "a")), FPoly.var(("l", "b"))


def operands(M):
    """every kind of operand an expression can be built from"""
    add = M.I.binop("+", M.lit(A), M.lit(B_), None, M.env)
    return [("literal", M.lit(A), A), ("other literal", M.lit(B_), B_), ("constant", M.const(-7), FPoly.const(-7)), ("basic", M.basic(11), FPoly.const(11)), ("basic2", M.basic(-5), FPoly.const(-5)),
            ("compound", add, A + B_)]


def operators(ctx, M):
    n = {}
    for head in (("expr", "Expr"), "i64"):
        for im in M.P.impls.get(head, []):
            tr = im.trait[-1]["id"] if im.trait else None
            if im.mod.path[0] != "expr" or tr not in OPS and tr not in ASSIGN and tr not in ("Neg", "Sum"):
                continue
            n[tr] = n.get(tr, 0) + 1
            key = f"op:{tr}:{n[tr]}"
            with ctx.group(key):
                fn = next(iter(im.fns.values()))
                call = lambda *a: M.run_fn(head, im, fn, list(a))
                rhs = [p for p in fn["params"] if not p["self"]]
                ints = Int(13, "i64")
                cases = []
                if tr == "Neg":
                    cases = [((na,), lambda ea=ea: call(ea), -pa) for na, ea, pa in operands(M)]
                elif tr == "Sum":
                    for k in range(4):
                        es = operands(M)[:k]
                        cases.append(((f"{k} terms",), lambda es=es: call(IterV([e for _, e, _ in es])), sum([p for _, _, p in es], FPoly.const(0))))
                else:
                    op = OPS[ASSIGN.get(tr, tr)]
                    lhs = operands(M) if head != "i64" else [("i64", ints, FPoly.const(13))]
                    targ = im.trait[-1].get("a")
                    isint = targ and targ[0].get("k") == "TPath" and targ[0]["segs"][-1]["id"] == "i64"
                    rs = [("i64", ints, FPoly.const(13))] if isint else operands(M)
                    for na, ea, pa in lhs:
                        for nb, eb, pb in rs:
                            if tr in ASSIGN:
                                def go(ea=ea, eb=eb):
                                    pl = M.I.temp(ea)
                                    call(RefV(pl), eb)
                                    return pl.get()
                            else:
                                def go(ea=ea, eb=eb):
                                    return call(ea, eb)
                            cases.append(((na, nb), go, op(pa, pb)))
                for names, go, want in cases:
                    got, _ = M.eval(M.packed(), go())
                    ctx.ob(f"{key}:{','.join(names)}", got == want, f"{tr} of {' and '.join(names)} is the operation on the values", OW, lambda: f"{got} instead of {want}")
    for tr in OPS:
        ctx.floor(f"{tr} instances", n.get(tr, 0), 4)
    for tr in ASSIGN:
        ctx.floor(f"{tr} instances", n.get(tr, 0), 2)
    ctx.floor("Neg instances", n.get("Neg", 0), 1)
    ctx.floor("Sum instances", n.get("Sum", 0), 1)


def trees(M):
    b = lambda op, x, y: M.I.binop(op, x, y, None, M.env)
    a, c = M.lit(A), M.lit(B_)
    s, m = b("+", a, c), b("*", a, c)
    d = b("-", m, s)
    share = b("*", d, d)
    neg = M.I.unop("-", d, None, M.env)
    k1, k2 = M.const(3), M.const(-3)
    out = [("literal", a, A), ("constant", k1, FPoly.const(3)), ("negative constant", k2, FPoly.const(-3)), ("basic", M.basic(9), FPoly.const(9)), ("negative basic", M.basic(-9), FPoly.const(-9)),
           ("sum", s, A + B_), ("product", m, A * B_), ("difference", d, A * B_ - A - B_), ("negation", neg, A + B_ - A * B_),
           ("shared", share, (A * B_ - A - B_) * (A * B_ - A - B_)), ("two constants", b("-", b("*", k1, a), b("*", k2, c)), A * 3 + B_ * 3),
           ("order", b("-", a, b("-", c, k1)), A - B_ + 3), ("order2", b("-", b("-", a, c), k1), A - B_ - 3),
           ("mixed", b("+", b("*", M.basic(5), neg), share), (A + B_ - A * B_) * 5 + (A * B_ - A - B_) * (A * B_ - A - B_))]
    return out


def evaluators(ctx, M):
    with ctx.group("evaluators"):
        ts = trees(M)
        for name in M.all():
            for tn, e, want in ts:
                got, _ = M.eval(M.all()[name], e)
                ctx.ob(f"eval:{name}:{tn}", got == want, f"the {name} evaluator computes the denoted polynomial ({tn})", CW if "circuit" in name else W, lambda: f"{got} instead of {want}")
            # one evaluator used for a sequence of expressions: earlier results do not leak into later ones
            ev = M.all()[name]
            for tn, e, want in ts + ts[::-1]:
                got, ev = M.eval(ev, e)
                ctx.ob(f"reuse:{name}:{tn}", got == want, f"a reused {name} evaluator still computes the denoted polynomial ({tn})", CW if "circuit" in name else W, lambda: f"{got} instead of {want}")


def helpers(ctx, M):
    with ctx.group("helpers"):
        for nm, e, p in operands(M):
            got, _ = M.eval(M.packed(), M.m(M.ex["path"], "is_binary", [e]))
            ctx.ob(f"is_binary:{nm}", got == p - p * p or got == p * p - p, "is_binary vanishes exactly on 0 and 1", W, lambda: f"{got}")
        ps = [FPoly.var(("l", f"t{i}")) for i in range(4)]
        for base in (1, 2, 256, -3):
            for k in range(5):
                e = M.m(M.ex["path"], "reduce_with_powers", [VecV([M.lit(p) for p in ps[:k]]), Int(base, "i64")])
                got, _ = M.eval(M.packed(), e)
                want = sum([p * FPoly.const(pow(base, i)) for i, p in enumerate(ps[:k])], FPoly.const(0))
                ctx.ob(f"reduce:{base}:{k}", got == want, "reduce_with_powers is little-endian in the base", W, lambda: f"{got} instead of {want}")


def frame(ctx, M):
    with ctx.group("frame"):
        lv, nv, pi = ([FPoly.var((k, str(i))) for i in range(n)] for k, n in (("l", 5), ("n", 5), ("p", 3)))
        r = M.m(M.eb["path"], "to_typed_starkframe", [M.builder, sm.Frame(lv, nv, pi)])
        for f, want in (("local_values", lv), ("next_values", nv), ("public_inputs", pi)):
            xs = items(M.I, r.f[f])
            got = [M.eval(M.packed(), M.I.deref(x))[0] for x in xs or []]
            ctx.ob(f"frame:{f}", got == want, f"{f} are the frame's values in column order", W, lambda: repr(got))
            got = [M.eval(M.circuit(), M.I.deref(x))[0] for x in xs or []]
            ctx.ob(f"frame:circuit:{f}", got == want, f"{f} are the frame's values in column order", W, lambda: repr(got))


KINDS = [("always", "always"), ("first_row", "first"), ("transition", "transition"), ("last_row", "last")]


def consumers(ctx, M):
    with ctx.group("consumers"):
        cbd = M.P.lookup_abs(("mozak_circuits", "expr", "ConstraintBuilder"))
        if cbd is None:
            raise AnalysisError("ConstraintBuilder is gone")
        vs = [FPoly.var(("l", f"c{i}")) for i in range(3)]
        for order in ([0, 1, 2, 3, 3, 2, 1, 0], [2, 0, 3, 1], [1], []):
            cb = M.m(cbd["path"], "default", [], "Default")
            pl = M.I.temp(cb)
            want = []
            for j, o in enumerate(order):
                p = vs[j % 3] * vs[(j + 1) % 3] + j
                e = M.I.binop("+", M.I.binop("*", M.lit(vs[j % 3]), M.lit(vs[(j + 1) % 3]), None, M.env), Int(j, "i64"), None, M.env)
                M.m(cbd["path"], KINDS[o][0], [RefV(pl), e])
                want.append((KINDS[o][1], p))
            for fn in ("build_packed", "build_ext"):
                d = M.P.fn("mozak_circuits::expr::" + fn)
                if d is None:
                    raise AnalysisError(f"{fn} is gone")
                cons = sm.Consumer()
                args = [pl.get(), RefV(M.I.temp(cons))] if fn == "build_packed" else [pl.get(), RefV(M.I.temp(sm.Builder())), RefV(M.I.temp(cons))]
                M.I.call_fn(d, [("v", a) for a in args], Env(None, d["mod"]))
                ctx.ob(f"{fn}:{order}", cons.log == want, "every constraint reaches the consumer once, in order and under its own kind", CW, lambda: f"{cons.log} instead of {want}")
