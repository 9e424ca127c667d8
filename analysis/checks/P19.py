"""Column algebra: named views are flat rows, and every operation on linear combinations of columns is the linear operation."""
import starkmodel as sm
from builtins_rs import items
from field import FPoly, fof
from interp import Env
from program import AnalysisError
from values import *

C = "mozak_circuits"
VW = "circuits/src/columns_view.rs"
TW = "circuits/src/linear_combination_typed.rs"
SW = "circuits/src/linear_combination.rs"
BIN = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b}


def run(ctx):
    ctx.rule = ("column views: representation, field types and generated conversions checked structure by structure, with indeterminates as column values; linear combinations: every operator instance and "
                "evaluation function run on indeterminate coefficients, and the denotation Σ c·local + Σ d·next + k compared with the linear operation")
    P = sm.load()
    M = Model(P)
    views(ctx, M)
    colmaps(ctx, M)
    typed(ctx, M)
    sparse(ctx, M)
    evals(ctx, M)
    ctx.saw(M.I)


def py(f):
    return FnV("py", f)


def where(d):
    return d.get("file") or "/".join(d["path"])


class Model:
    def __init__(self, P):
        self.P = P
        self.I = sm.interp(P)
        self.I.pc = True
        for nm in ("add", "sub", "mul", "neg"):
            def chk(I, v, place, args, hint, node, env, nm=nm):
                # overflow of an i64 coefficient panics; the property is about the results delivered
                a, b = fof(v), fof(I.deref(args[0])) if args else None
                if not isinstance(v, FPoly) and not (args and isinstance(I.deref(args[0]), FPoly)):
                    return NotImplemented
                return Some(-a if nm == "neg" else BIN[nm.capitalize()](a, b))
            self.I.methods["checked_" + nm] = chk
        self.ct = self.adt("linear_combination_typed", "ColumnWithTypedInput")
        self.cs = self.adt("linear_combination", "ColumnSparse")

    def adt(self, *p):
        d = self.P.lookup_abs((C,) + p)
        if d is None:
            raise AnalysisError(f"{p[-1]} is gone")
        return d

    def run_fn(self, head, im, fn, args, st=None):
        st = st or (("p", head) if isinstance(head, str) else ("adt", self.P.lookup_abs(head), []))
        return self.I.call_fn(fn, [("v", a) for a in args], Env(None, im.mod, {}, st, impl=im), self_ty=st, impl=im)

    def find(self, head, name, trait):
        r = [im for im in self.P.impls.get(head, []) if name in im.fns and (im.trait[-1]["id"] if im.trait else None) == trait]
        if not r:
            raise AnalysisError(f"{head[-1]}::{name} is gone")
        return r

    def m(self, head, name, args, trait=None):
        im = self.find(head, name, trait)[0]
        return self.run_fn(head, im, im.fns[name], args)


# ------------------------------------------------------------------- views
def view_defs(P):
    out = []
    for head, ims in P.impls.items():
        if isinstance(head, tuple) and head[0] == C and any(im.trait and im.trait[-1]["id"] == "NumberOfColumns" for im in ims):
            out.append(P.lookup_abs(head))
    return sorted((d for d in out if d and d["k"] == "ItemStruct"), key=lambda d: d["path"])


def uniform(P, d, seen=()):
    """[problem]: the struct must be repr(C) with every leaf of the column type, so that it is layout-compatible with an array of columns"""
    out = []
    ps = [p["n"] for p in d["gen"]["params"] if p["g"] == "type"]
    rc = any(a.replace(" ", "").startswith("repr(") and "C" in a.replace(" ", "")[5:-1].split(",") for a in d.get("attrs") or [])
    if not rc and len(d["fields"]["f"]) > 1:
        out.append(f"{d['n']} is not repr(C)")
    if len(ps) != 1:
        out.append(f"{d['n']} has {len(ps)} type parameters")
        return out

    def ty(n, m, own):
        if n["k"] == "TArray":
            return ty(n["ty"], m, own)
        if n["k"] == "TTuple":
            return out.append("tuple field") if n.get("e") else None
        if n["k"] == "TPath":
            s = n["segs"]
            if s[-1]["id"] == "PhantomData" or len(s) == 1 and s[0]["id"] in own:
                return
            q = P.lookup(m, [x["id"] for x in s])
            if isinstance(q, dict) and q["k"] == "ItemType":
                return ty(q["ty"], q["mod"], [p["n"] for p in q["gen"]["params"] if p["g"] == "type"])
            if isinstance(q, dict) and q["k"] == "ItemStruct" and q["path"] not in seen:
                ts = [a for a in s[-1]["a"] if a["k"] != "TLife"]
                for a in ts:
                    if a["k"] == "TPath":
                        ty(a, m, own)
                sub = uniform(P, q, seen + (d["path"],))
                out.extend(sub)
                return
        out.append(f"a field of {d['n']} is not of the column type")
    for fd in d["fields"]["f"]:
        ty(fd["ty"], d["mod"], ps)
    return out


def views(ctx, M):
    ds = view_defs(M.P)
    ctx.floor("column views", len(ds), 40)
    for d in ds:
        key = "::".join(d["path"][1:])
        with ctx.group("view:" + key):
            bad = uniform(M.P, d)
            ctx.ob(f"layout:{key}", not bad, f"{d['n']} is laid out as an array of its columns", where(d), lambda: "; ".join(bad))
            view_ops(ctx, M, d, key)


def view_ops(ctx, M, d, key):
    I, head = M.I, d["path"]
    n = len(I.layout(d))
    st = ("adt", d, [("any", "T")])
    w = where(d)
    xs = [FPoly.var(("a", i)) for i in range(n)]
    ys = [FPoly.var(("b", i)) for i in range(n)]
    X, Y = I.unflatten(d, xs), I.unflatten(d, ys)
    flat = lambda v: [fof(I.deref(x)) for x in items(I, I.flatten(d, I.deref(v)))]
    lst = lambda v: [fof(I.deref(x)) for x in items(I, I.deref(v)) or []]

    def ob(name, got, want):
        ctx.ob(f"{name}:{key}", got == want, f"{name} of {d['n']} keeps every column in its place", w, lambda: f"differs at column {next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))} of {n}")

    def c(name, args, trait=None, pick=0):
        im = M.find(head, name, trait)[pick]
        return M.run_fn(head, im, im.fns[name], args, st)
    ob("from_array", flat(c("from_array", [VecV(xs)])), xs)
    ob("into_array", lst(c("into_array", [X])), xs)
    ob("iter", lst(c("iter", [RefV(I.temp(X))])), xs)
    ob("into_iter", lst(c("into_iter", [X], "IntoIterator")), xs)
    ob("from_iter", flat(c("from_iter", [IterV(xs)], "FromIterator")), xs)
    ob("map", flat(c("map", [X, py(lambda x: fof(I.deref(x)) * 3)])), [x * 3 for x in xs])
    ob("zip_with", flat(c("zip_with", [X, Y, py(lambda x, y: fof(I.deref(x)) * 3 - fof(I.deref(y)))], "Zip")), [x * 3 - y for x, y in zip(xs, ys)])
    im = M.find(head, "index", "Index")[0]
    ob("index", [fof(I.deref(M.run_fn(head, im, im.fns["index"], [RefV(I.temp(X)), Int(i, "usize")], st))) for i in sorted({0, 1 % n, n // 2, n - 1} if n else ())], [xs[i] for i in sorted({0, 1 % n, n // 2, n - 1} if n else ())])
    ob("neg", flat(c("neg", [X], "Neg")), [-x for x in xs])
    ob("add", flat(c("add", [X, Y], "Add")), [x + y for x, y in zip(xs, ys)])
    ob("sub", flat(c("sub", [X, Y], "Sub")), [x - y for x, y in zip(xs, ys)])
    ob("mul", flat(c("mul", [X, FPoly.var(("k",))], "Mul")), [x * FPoly.var(("k",)) for x in xs])
    ob("sum", flat(c("sum", [IterV([X, Y, X])], "Sum")), [x * 2 + y for x, y in zip(xs, ys)])
    ob("default", flat(c("default", [], "Default")), [FPoly.const(0)] * n)
    nc = next(im for im in M.P.impls[head] if im.trait and im.trait[-1]["id"] == "NumberOfColumns")
    v = I.eval(nc.consts["NUMBER_OF_COLUMNS"]["e"], Env(None, nc.mod, {}, st, impl=nc))
    ctx.ob(f"count:{key}", isinstance(v, Int) and v.v == n, f"NUMBER_OF_COLUMNS of {d['n']} counts its columns", w, lambda: f"{v!r} instead of {n}")


def colmaps(ctx, M):
    I = M.I
    k = 0
    for path, m in sorted(M.P.mods.items()):
        if path[0] != C:
            continue
        for name, ds in sorted(m.items.items()):
            for c in ds if isinstance(ds, list) else []:
                if c.get("k") == "ItemConst" and c.get("from_macro") == "make_col_map":
                    k += 1
                    key = "::".join(path[1:]) + "::" + name
                    with ctx.group("colmap:" + key):
                        v = I.deref(I.const_item(c))
                        d = M.P.lookup_abs(v.path)
                        lay = I.layout(d)
                        cs = items(I, I.flatten(d, v))
                        bad = []
                        for i, x in enumerate(cs):
                            x = I.deref(x)
                            lv, nv = ([fof(I.deref(y)) for y in items(I, I.flatten(d, I.deref(x.f[f])))] for f in ("lv_linear_combination", "nv_linear_combination"))
                            if lv != [FPoly.const(int(i == j)) for j in range(len(lay))] or any(y != FPoly.const(0) for y in nv) or fof(I.deref(x.f["constant"])) != FPoly.const(0):
                                bad.append(sm.colname(lay[i]))
                        ctx.ob(f"colmap:{key}", not bad and len(cs) == len(lay), "every entry of the column map selects its own column of the local row and nothing else", "/".join(path), lambda: f"wrong for {', '.join(bad[:5])}")
    ctx.floor("column maps", k, 24)


# ------------------------------------------------------- typed combinations
def view3(M):
    return M.adt("xor", "columns", "XorView")


def mk(M, tag, d):
    n = len(M.I.layout(d))
    co = lambda r: M.I.unflatten(d, [FPoly.var((tag, r, i)) for i in range(n)])
    return StructV(M.ct["path"], {"lv_linear_combination": co("l"), "nv_linear_combination": co("n"), "constant": FPoly.var((tag, "k"))})


def den(M, d, v):
    """denotation: indeterminates ('L',i), ('N',i) for the columns"""
    I = M.I
    v = I.deref(v)
    r = FPoly.const(0) + fof(I.deref(v.f["constant"]))
    for f, t in (("lv_linear_combination", "L"), ("nv_linear_combination", "N")):
        x = I.deref(v.f[f])
        for i, c in enumerate(items(I, I.flatten(d, x))):
            r = r + fof(I.deref(c)) * FPoly.var((t, i))
    return r


def flipd(p):
    from field import vid, vname
    out = {}
    for m, c in p.p.items():
        k = tuple(sorted(vid(({"L": "N", "N": "L"}[vname(v)[0]],) + vname(v)[1:]) if vname(v)[0] in "LN" else v for v in m))
        out[k] = c
    return FPoly(out)


def den_sparse(M, v):
    I = M.I
    v = I.deref(v)
    if v is DEFAULT:
        return FPoly.const(0)
    r = FPoly.const(0) + fof(I.deref(v.f["constant"]))
    for f, t in (("lv_linear_combination", "L"), ("nv_linear_combination", "N")):
        for x in items(I, I.deref(v.f[f])):
            x = I.deref(x)
            i = I.deref(x[0])
            r = r + fof(I.deref(x[1])) * FPoly.var((t, i.v))
    return r


def instances(ctx, M, head, ours, values, denote, key, scalars, where_):
    """every operator instance of one combination type"""
    I = M.I
    n = {}
    heads = [head] + (["i64"] if key == "typed" else [])
    for h in heads:
        for im in M.P.impls.get(h, []):
            tr = im.trait[-1]["id"] if im.trait else None
            if im.mod.path[0] != C or tr not in BIN and tr not in ("Neg", "Not", "Sum") or h == "i64" and not ours(im):
                continue
            n[tr] = n.get(tr, 0) + 1
            k = f"{key}:{tr}:{n[tr]}"
            with ctx.group(k):
                fn = next(iter(im.fns.values()))
                call = lambda *a: M.run_fn(h, im, fn, list(a))
                ref = lambda v, y: RefV(I.temp(v)) if y else v
                cases = []
                if tr == "Neg":
                    cases = [((na,), lambda a=a: call(a), -pa) for na, a, pa in values]
                elif tr == "Not":
                    cases = [((na,), lambda a=a: call(a), FPoly.const(1) - pa) for na, a, pa in values]
                elif tr == "Sum":
                    for c in range(4):
                        cases.append(((f"{c} terms",), lambda c=c: call(IterV([a for _, a, _ in values[:c]])), sum([p for _, _, p in values[:c]], FPoly.const(0))))
                else:
                    targ = [a for a in im.trait[-1].get("a") or [] if a["k"] != "TLife"]
                    t0 = targ[0] if targ else None
                    tref = t0 is not None and t0["k"] == "TRef"
                    last = (t0["ty"] if tref else t0) if t0 is not None else None
                    ident = last["segs"][-1]["id"] if last is not None and last["k"] == "TPath" else None
                    other = ident is None or ident in ("Self", head[-1])
                    sref = im_self_ref(im)
                    ls = values if h != "i64" else scalars
                    for na, a, pa in ls:
                        for nb, b, pb in values if other else scalars:
                            cases.append(((na, nb), lambda a=a, b=b: call(ref(a, sref), ref(b, tref)), BIN[tr](pa, pb)))
                for names, go, want in cases:
                    got = denote(go())
                    ctx.ob(f"{k}:{','.join(names)}", got == want, f"{tr} of column combinations is {tr} of what they denote", where_, lambda: f"{got} instead of {want}")
    return n


def im_self_ref(im):
    return im.node["ty"]["k"] == "TRef"


def typed(ctx, M):
    d = view3(M)
    vals = [(t, mk(M, t, d), None) for t in ("a", "b", "c")]
    vals = [(t, v, den(M, d, v)) for t, v, _ in vals]
    sc = [("i64", FPoly.var(("s",)), FPoly.var(("s",)))]

    def ours(im):
        t = [a for a in (im.trait[-1].get("a") or [])]
        return any(a["k"] == "TPath" and a["segs"][-1]["id"] == "ColumnWithTypedInput" for a in t)
    n = instances(ctx, M, M.ct["path"], ours, vals, lambda v: den(M, d, v), "typed", sc, TW)
    for tr, k in (("Add", 3), ("Sub", 3), ("Mul", 2), ("Neg", 1), ("Not", 1), ("Sum", 1)):
        ctx.floor(f"typed {tr} instances", n.get(tr, 0), k)
    st = ("adt", M.ct, [("adt", d, [("p", "i64")])])
    with ctx.group("typed helpers"):
        h = M.ct["path"]

        def c(name, args):
            im = M.find(h, name, None)[0]
            return den(M, d, M.run_fn(h, im, im.fns[name], args, st))
        for t, v, p in vals:
            for nm, want in (("flip", flipd(p)), ("diff", flipd(p) - p)):
                got = c(nm, [v])
                ctx.ob(f"{nm}:{t}", got == want, f"{nm} exchanges / compares the local and the next row", TW, lambda: f"{got} instead of {want}")
        got = c("constant", [FPoly.var(("s",))])
        ctx.ob("constant", got == FPoly.var(("s",)), "a constant combination denotes the constant", TW, lambda: str(got))
        for k in range(4):
            ts = vals[:k]
            for base in (1, 256, -2):
                got = c("reduce_with_powers", [VecV([v for _, v, _ in ts]), Int(base, "i64")])
                want = sum([p * FPoly.const(base ** i) for i, (_, _, p) in enumerate(ts)], FPoly.const(0))
                ctx.ob(f"reduce_with_powers:{base}:{k}", got == want, "reduce_with_powers weighs term i with the i-th power, first term first", TW, lambda: f"{got} instead of {want}")
            got = c("ascending_sum", [VecV([v for _, v, _ in ts])])
            want = sum([p * i for i, (_, _, p) in enumerate(ts)], FPoly.const(0))
            ctx.ob(f"ascending_sum:{k}", got == want, "ascending_sum weighs term i with i", TW, lambda: f"{got} instead of {want}")


# ------------------------------------------------------ sparse combinations
def sp(M, tag, lv, nv):
    t = lambda r, xs: VecV([(Int(i, "usize"), FPoly.var((tag, r, i))) for i in xs])
    return StructV(M.cs["path"], {"lv_linear_combination": t("l", lv), "nv_linear_combination": t("n", nv), "constant": FPoly.var((tag, "k"))})


SHAPES = [("a", [0, 1, 4], [2]), ("b", [4, 1, 3], []), ("c", [], [5, 2, 0]), ("d", [], [])]


def sparse(ctx, M):
    I = M.I
    h = M.cs["path"]
    vals = [(t, sp(M, t, l, n)) for t, l, n in SHAPES]
    vals = [(t, v, den_sparse(M, v)) for t, v in vals]
    s = FPoly.var(("s",))
    n = instances(ctx, M, h, lambda im: False, vals, lambda v: den_sparse(M, v), "sparse", [("scalar", s, s)], SW)
    for tr, k in (("Add", 6), ("Sub", 1), ("Mul", 2), ("Neg", 1), ("Sum", 1)):
        ctx.floor(f"sparse {tr} instances", n.get(tr, 0), k)
    with ctx.group("sparse conversions"):
        for t, v, p in vals:
            got = den_sparse(M, M.m(h, "to_field", [RefV(I.temp(v))]))
            ctx.ob(f"to_field:{t}", got == p, "to_field keeps the combination", SW, lambda: f"{got} instead of {p}")
            got = den_sparse(M, M.m(h, "map", [v, py(lambda x: fof(M.I.deref(x)) * 7)]))
            ctx.ob(f"map:{t}", got == p * 7, "map applies to every coefficient and the constant", SW, lambda: f"{got}")
        d = view3(M)
        co = [0, 1, -1, 256, 0, 7, 0]
        for sh in range(len(co)):
            xs = [co[(sh + j) % len(co)] for j in range(7)]
            v = StructV(M.ct["path"], {"lv_linear_combination": I.unflatten(d, [Int(x, "i64") for x in xs[:3]]), "nv_linear_combination": I.unflatten(d, [Int(x, "i64") for x in xs[3:6]]), "constant": Int(xs[6], "i64")})
            got = den_sparse(M, M.m(h, "from", [v], "From"))
            want = den(M, d, v)
            ctx.ob(f"from:{sh}", got == want, "the sparse form denotes the same combination as the typed one", SW, lambda: f"{got} instead of {want}")


def evals(ctx, M):
    I, h = M.I, M.cs["path"]
    for tag, l, nx in SHAPES:
        with ctx.group("eval:" + tag):
            v = sp(M, tag, l, nx)
            W = 6
            lv, nv = ([FPoly.var((r, i)) for i in range(W)] for r in "LN")
            want = den_sparse(M, v)
            ref = lambda x: RefV(I.temp(x))
            for nm in ("eval", "eval_row"):
                got = fof(I.deref(M.m(h, nm, [ref(v), ref(VecV(lv)), ref(VecV(nv))])))
                ctx.ob(f"{nm}:{tag}", got == want, f"{nm} is the value of the combination on the two rows", SW, lambda: f"{got} instead of {want}")
            got = fof(I.deref(M.m(h, "eval_circuit", [ref(v), ref(sm.Builder()), ref(VecV(lv)), ref(VecV(nv))])))
            ctx.ob(f"eval_circuit:{tag}", got == want, "the circuit evaluates the combination on the two rows", SW, lambda: f"{got} instead of {want}")
            for H in (1, 2, 4):
                tab = VecV([poly([FPoly.var(("t", j, r)) for r in range(H)]) for j in range(W)])
                for r in range(H):
                    got = fof(I.deref(M.m(h, "eval_table", [ref(v), ref(tab), Int(r, "usize")])))
                    want2 = FPoly.var((tag, "k"))
                    for i in l:
                        want2 = want2 + FPoly.var((tag, "l", i)) * FPoly.var(("t", i, r))
                    for i in nx:
                        want2 = want2 + FPoly.var((tag, "n", i)) * FPoly.var(("t", i, (r + 1) % H))
                    ctx.ob(f"eval_table:{tag}:{H}:{r}", got == want2, "on a table the next row of the last row is the first", SW, lambda: f"{got} instead of {want2}")


def poly(xs):
    return StructV(("PolynomialValues",), {"values": VecV(xs)})
