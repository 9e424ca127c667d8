"""The look-up argument: running sums, their constraints, their order and the final checks all speak of the same multiset equality."""
import bdd
import starkmodel as sm
from builtins_rs import items, seq
from field import FPoly, feq, fof, inverse
from interp import Env
from program import AnalysisError
from values import *

C = "mozak_circuits"
XW = "circuits/src/cross_table_lookup.rs"
PW = "circuits/src/public_sub_table.rs"
HW = "circuits/src/stark/permutation.rs"


def run(ctx):
    ctx.rule = ("abstract interpretation of the look-up code on indeterminate traces, challenges and openings: running sums, constraints (packed and circuit), orders in which running sums are produced and "
                "consumed, and the conditions the verifiers check, each compared with the sum over rows of filter/(gamma + sum x_i beta^i)")
    M = Model(sm.load())
    challenges(ctx, M)
    partial(ctx, M)
    constraints(ctx, M)
    tables(ctx, M)
    orders(ctx, M)
    finals(ctx, M)
    publics(ctx, M)
    ctx.saw(M.I)


class Challenger(DomainV):
    def __init__(self):
        self.n = 0

    def method(self, I, name, args, hint, place):
        if name == "get_challenge":
            self.n += 1
            return FPoly.var(("ch", self.n))
        return NotImplemented


def reduce_desc(I, terms, base):
    xs = seq(I, I.deref(terms))
    b = fof(I.deref(base))
    if xs is None or b is None:
        raise AnalysisError("reduce_with_powers of an unknown sequence")
    r = FPoly.const(0)
    for x in reversed(list(xs)):
        r = r * b + fof(I.deref(x))
    return r


class PolyVals(DomainV):
    """values of a trace column"""

    def __init__(self, values):
        self.values = values

    def key(self):
        return ("polyvals", freeze(self.values))

    def field(self, I, name):
        return self.values if name == "values" else NotImplemented

    def method(self, I, name, args, hint, place):
        if name in ("clone", "to_owned", "borrow", "as_ref"):
            return self
        if name in ("len", "iter", "into_iter", "first", "last", "is_empty"):
            return I.method(self.values, name, args, hint, None, None, None)
        return NotImplemented


class Model:
    def __init__(self, P):
        self.P = P
        self.I = I = sm.interp(P)
        I.pc = True
        I.sym_feq = True   # elements are indeterminate: equality is a condition
        for n in ("reduce_with_powers",):
            I.intrinsics["ext:" + n] = lambda I_, vs, h, e, nd: reduce_desc(I_, vs[0], vs[1])
        for n in ("reduce_with_powers_ext_circuit", "reduce_with_powers_circuit"):
            I.intrinsics["ext:" + n] = lambda I_, vs, h, e, nd: reduce_desc(I_, vs[1], vs[2])
        I.intrinsics["*::batch_multiplicative_inverse"] = lambda I_, vs, h, e, nd: VecV([inverse(fof(I_.deref(x))) for x in seq(I_, I_.deref(vs[-1]))])
        self.kinds = [v["n"] for v in self.adt("stark", "mozak_stark", "TableKind")["variants"]]

    def adt(self, *p):
        d = self.P.lookup_abs((C,) + p)
        if d is None:
            raise AnalysisError(f"{p[-1]} is gone")
        return d

    def fn(self, *p):
        d = self.P.fn("::".join((C,) + p))
        if d is None:
            raise AnalysisError(f"{p[-1]} is gone")
        return d

    def call(self, path, *args):
        d = self.fn(*path.split("::"))
        return self.I.call_fn(d, [("v", a) for a in args], Env(None, d["mod"]))

    def meth(self, head, name, *args, trait=None, pick=None):
        ims = [im for im in self.P.impls.get(head, []) if name in im.fns and (im.trait[-1]["id"] if im.trait else None) == trait]
        if pick:
            ims = [im for im in ims if pick(im)]
        if not ims:
            raise AnalysisError(f"{head[-1]}::{name} is gone")
        im = ims[0]
        st = ("adt", self.P.lookup_abs(head), [])
        return self.I.call_fn(im.fns[name], [("v", a) for a in args], Env(None, im.mod, {}, st, impl=im), self_ty=st, impl=im)

    # ------------------------------------------------------------- values
    def ref(self, v):
        return RefV(self.I.temp(v))

    def struct(self, path, **f):
        d = self.adt(*path.split("::"))
        names = {x["n"] for x in d["fields"]["f"]}
        if names != set(f):
            raise AnalysisError(f"{d['n']} has fields {sorted(names)}")
        return StructV(d["path"], f)

    def challenge(self, i):
        return self.struct("stark::permutation::challenge::GrandProductChallenge", beta=FPoly.var(("beta", i)), gamma=FPoly.var(("gamma", i)))

    def challenge_set(self, n):
        return self.struct("stark::permutation::challenge::GrandProductChallengeSet", challenges=VecV([self.challenge(i) for i in range(n)]))

    def column(self, lv, nv=(), k=0):
        t = lambda xs: VecV([(Int(i, "usize"), Int(c, "i64")) for i, c in xs])
        return self.struct("linear_combination::ColumnSparse", lv_linear_combination=t(lv), nv_linear_combination=t(nv), constant=Int(k, "i64"))

    def kind(self, n):
        return EnumV(self.adt("stark", "mozak_stark", "TableKind")["path"], n)

    def table(self, kind, cols, filt):
        return self.struct("stark::mozak_stark::TableWithTypedOutput", kind=self.kind(kind), columns=VecV(cols), filter_column=filt)

    def array(self, xs):
        return StructV(self.adt("stark", "mozak_stark", "TableKindArray")["path"], {"0": VecV(xs)})

    def poly(self, xs):
        return PolyVals(VecV(xs))

    def list(self, v):
        xs = seq(self.I, self.I.deref(v))
        if xs is None:
            raise AnalysisError(f"not a known sequence: {v!r:.80}")
        return [self.I.deref(x) for x in xs]

    def pvals(self, v):
        """values of a polynomial given by them"""
        v = self.I.deref(v)
        if isinstance(v, StructV) and v.path[-1] == "PolynomialValues":
            v = v.f["values"]
        return self.list(v.values if isinstance(v, PolyVals) else v)

    def per_kind(self, v):
        xs = self.list(self.I.deref(v).f["0"])
        if len(xs) != len(self.kinds):
            raise AnalysisError("table array of the wrong size")
        return dict(zip(self.kinds, xs))


def cden(col, l, n, sub=None):
    """value of a column combination on rows l, n (lists of FPoly)"""
    r = FPoly.const(col.f["constant"].v)
    for f, row in (("lv_linear_combination", l), ("nv_linear_combination", n)):
        for t in col.f[f].xs:
            r = r + row[t[0].v] * t[1].v
    return r


def combine(vals, ch):
    r = FPoly.const(0)
    for x in reversed(vals):
        r = r * ch.f["beta"] + x
    return r + ch.f["gamma"]


def challenges(ctx, M):
    I = M.I
    with ctx.group("challenges"):
        h = M.adt("stark", "permutation", "challenge", "GrandProductChallenge")["path"]
        ch = M.challenge(0)
        for n in range(5):
            xs = [FPoly.var(("x", i)) for i in range(n)]
            want = combine(xs, ch)
            got = fof(I.deref(M.meth(h, "combine", M.ref(ch), IterV([M.ref(x) for x in xs]))))
            ctx.ob(f"combine:{n}", got == want, "a row is combined as gamma + sum of x_i beta^i", HW, lambda: f"{got} instead of {want}")
            got = fof(I.deref(M.meth(h, "combine_circuit", M.ref(ch), M.ref(sm.Builder()), VecV(xs))))
            ctx.ob(f"combine_circuit:{n}", got == want, "the circuit combines a row the same way", HW, lambda: f"{got} instead of {want}")
            cols = [M.struct("linear_combination::ColumnSparse", lv_linear_combination=VecV([(Int(i, "usize"), FPoly.var(("c", i)))]), nv_linear_combination=VecV([(Int(i + 1, "usize"), FPoly.var(("d", i)))]), constant=FPoly.var(("k", i)))
                    for i in range(n)]
            v = M.call("cross_table_lookup::compose_ctl_with_challenge", VecV(cols), ch)
            import P19
            got = P19.den_sparse(M, v)
            want = combine([P19.den_sparse(M, c) for c in cols], ch)
            ctx.ob(f"compose:{n}", got == want, "the combined column is the combination of the columns", XW, lambda: f"{got} instead of {want}")
        for n in (0, 1, 3):
            want = [(FPoly.var(("ch", 2 * i + 1)), FPoly.var(("ch", 2 * i + 2))) for i in range(n)]
            im = [im for im in M.P.impls.get("*", []) + [x for v in M.P.impls.values() for x in v] if im.trait and im.trait[-1]["id"] == "GrandProductChallengeTrait"]
            if not im:
                raise AnalysisError("native challenge generation is gone")
            im = im[0]
            c = Challenger()
            tr = M.adt("stark", "permutation", "challenge", "GrandProductChallengeTrait")
            pl = M.ref(c)
            I.methods["get_grand_product_challenge"] = lambda I_, v, place, args, hint, node, env: I_.call_fn(im.fns["get_grand_product_challenge"], [("v", pl)], Env(None, im.mod, impl=im), impl=im)
            d = im.fns.get("get_grand_product_challenge_set") or next(x for x in tr["items"] if x.get("n") == "get_grand_product_challenge_set")
            v = I.call_fn(d, [("v", pl), ("v", Int(n, "usize"))], Env(None, tr["mod"] if "mod" in tr else im.mod))
            del I.methods["get_grand_product_challenge"]
            got = [(fof(I.deref(x.f["beta"])), fof(I.deref(x.f["gamma"]))) for x in M.list(I.deref(v).f["challenges"])]
            ctx.ob(f"draw:{n}", got == want, "the challenge set draws beta then gamma for each challenge", HW, lambda: repr(got))
            c = Challenger()
            v = M.call("stark::permutation::challenge::get_grand_product_challenge_set_target", M.ref(sm.Builder()), M.ref(c), Int(n, "usize"))
            got = [(fof(I.deref(x.f["beta"])), fof(I.deref(x.f["gamma"]))) for x in M.list(I.deref(v).f["challenges"])]
            ctx.ob(f"draw_target:{n}", got == want, "the circuit draws the same challenges in the same order", HW, lambda: repr(got))


def sample_columns(M):
    """columns and filter of a small look-up, using both rows, constants and negative factors"""
    return [M.column([(0, 1)]), M.column([(1, 2), (0, -1)], [(1, 3)], 5), M.column([], [], 7)], M.column([(2, 1)], [(0, 1)], -1)


def partial(ctx, M):
    I = M.I
    with ctx.group("running sums"):
        ch = M.challenge(0)
        cols, filt = sample_columns(M)
        for H in (1, 2, 4):
            rows = [[FPoly.var(("t", r, c)) for c in range(3)] for r in range(H)]
            tr = VecV([M.poly([rows[r][c] for r in range(H)]) for c in range(3)])
            v = I.deref(M.call("cross_table_lookup::partial_sums", tr, VecV(cols), M.ref(filt), ch))
            z = [fof(x) for x in M.pvals(v)]
            term = []
            for r in range(H):
                l, n = rows[r], rows[(r + 1) % H]
                term.append(cden(filt, l, n) * inverse(combine([cden(c, l, n) for c in cols], ch)))
            ctx.ob(f"sum:{H}:len", len(z) == H, "the running sum has one value per row", XW, lambda: str(len(z)))
            acc = FPoly.const(0)
            for r in range(H):
                acc = acc + term[(r - 1) % H]
                ctx.ob(f"sum:{H}:{r}", z[r] == acc, "row r of the running sum adds filter/combination of the last row and of all rows before r", XW, lambda: f"{z[r]} instead of {acc}")
            total = sum(term, FPoly.const(0))
            ctx.ob(f"sum:{H}:last", z[-1] == total, "the last value is the sum over all rows", XW)


def constraints(ctx, M):
    I = M.I
    with ctx.group("constraints"):
        cols, filt = sample_columns(M)
        cols2, filt2 = [M.column([(2, 1)])], M.column([(1, 1)])
        l = [FPoly.var(("l", c)) for c in range(3)]
        n = [FPoly.var(("n", c)) for c in range(3)]
        want = []
        vs = []
        for i, (cs, f) in enumerate(((cols, filt), (cols2, filt2))):
            ch = M.challenge(i)
            z, zn = FPoly.var(("z", i)), FPoly.var(("zn", i))
            comb, mult = combine([cden(c, l, n) for c in cs], ch), cden(f, l, n)
            want.append([("last", zn * comb - mult), ("transition", (zn - z) * comb - mult)])
            vs.append(dict(local_z=z, next_z=zn, challenges=ch, columns=VecV(cs), filter_column=M.ref(f)))
        fr = sm.Frame(l, n, [])
        logs = {}
        for which, path in (("packed", "CtlCheckVars"), ("circuit", "CtlCheckVarsTarget")):
            vars_ = VecV([M.struct("cross_table_lookup::" + path, **v) for v in vs])
            cons = sm.Consumer()
            if which == "packed":
                M.call("cross_table_lookup::eval_cross_table_lookup_checks", M.ref(fr), vars_, M.ref(cons))
            else:
                M.call("cross_table_lookup::eval_cross_table_lookup_checks_circuit", M.ref(sm.Builder()), M.ref(fr), vars_, M.ref(cons))
            flat = [x for w in want for x in w]
            logs[which] = cons.log
            order = lambda xs: sorted(((k, sorted(p.p.items())) for k, p in xs), key=repr)
            ctx.ob(f"checks:{which}", order(cons.log) == order(flat), "first value and step of every running sum are constrained as filter/combination of the current row", XW, lambda: f"{cons.log} instead of {flat}"[:900])
        ctx.ob("checks:same", logs["packed"] == logs["circuit"], "both evaluators impose the constraints in the same order", XW)


def tables(ctx, M):
    I = M.I
    with ctx.group("look-ups"):
        h = M.adt("cross_table_lookup", "CrossTableLookupWithTypedOutput")["path"]
        cols, filt = sample_columns(M)
        ks = M.kinds
        a = [M.table(ks[i], [cols[i % 3]], filt) for i in (0, 3, 0)]
        b = [M.table(ks[i], [cols[i % 3]], cols[0]) for i in (5, 3)]
        v = I.deref(M.meth(h, "new", VecV(a), VecV(b)))
        got = [(t.f["kind"].var, freeze(I.deref(t.f["columns"])), cden(I.deref(t.f["filter_column"]), L3, N3)) for t in M.list(v.f["looking_tables"])]
        want = [(t.f["kind"].var, freeze(t.f["columns"]), cden(t.f["filter_column"], L3, N3) * s) for ts, s in ((a, 1), (b, -1)) for t in ts]
        ctx.ob("new", got == want, "looking tables count positively, looked tables negatively, columns unchanged", XW, lambda: f"{got} instead of {want}"[:900])
        u = I.deref(M.meth(h, "to_untyped_output", v))
        got2 = [(t.f["kind"].var, freeze(I.deref(t.f["columns"])), cden(I.deref(t.f["filter_column"]), L3, N3)) for t in M.list(u.f["looking_tables"])]
        ctx.ob("untyped", got2 == got, "erasing the row type keeps tables, columns and filters", XW, lambda: f"{got2}"[:900])
        ctls = VecV([v, StructV(h, {"looking_tables": VecV([a[0]])})])
        pst = M.adt("public_sub_table", "PublicSubTable")["path"]
        subs = VecV([StructV(pst, {"table": a[1], "num_rows": Int(2, "usize")}), StructV(pst, {"table": a[1], "num_rows": Int(1, "usize")}), StructV(pst, {"table": b[0], "num_rows": Int(1, "usize")})])
        for i in (0, 1, 3, 5):
            for n in (1, 2, 3):
                want = n * sum(1 for c in M.list(ctls) for t in M.list(c.f["looking_tables"]) if t.f["kind"].var == ks[i])
                got = M.meth(h, "num_ctl_zs", ctls, M.kind(ks[i]), Int(n, "usize"))
                ctx.ob(f"num_ctl_zs:{i}:{n}", isinstance(got, Int) and got.v == want, "a table has one running sum per look-up it takes part in and challenge", XW, lambda: f"{got!r} instead of {want}")
                want = n * sum(1 for c in M.list(subs) if c.f["table"].f["kind"].var == ks[i])
                got = M.meth(pst, "num_zs", subs, M.kind(ks[i]), Int(n, "usize"))
                ctx.ob(f"num_zs:{i}:{n}", isinstance(got, Int) and got.v == want, "a table has one running sum per public sub table and challenge", PW, lambda: f"{got!r} instead of {want}")


L3 = [FPoly.var(("l", c)) for c in range(3)]
N3 = [FPoly.var(("n", c)) for c in range(3)]


class Setup:
    """three look-ups and three public sub tables over all table kinds; every table two rows of three columns"""

    def __init__(self, M, nch=2):
        self.M, self.nch = M, nch
        ks = M.kinds
        self.H = 2
        k = [0]

        def tab(kind):
            k[0] += 1
            return M.table(kind, [M.column([(0, 1)], [], k[0]), M.column([(1, k[0])], [(0, 1)])], M.column([(2, 1)], [], k[0]))
        self.ctls_py = [[tab(x) for x in ks], [tab(ks[2]), tab(ks[0]), tab(ks[2])], [tab(ks[0]), tab(ks[7])]]
        self.subs_py = [(tab(ks[0]), 1), (tab(ks[2]), 2), (tab(ks[0]), 2)]
        h = M.adt("cross_table_lookup", "CrossTableLookupWithTypedOutput")["path"]
        p = M.adt("public_sub_table", "PublicSubTable")["path"]
        self.ctls = VecV([StructV(h, {"looking_tables": VecV(ts)}) for ts in self.ctls_py])
        self.subs = VecV([StructV(p, {"table": t, "num_rows": Int(n, "usize")}) for t, n in self.subs_py])
        self.rows = {x: [[FPoly.var(("t", x, r, c)) for c in range(3)] for r in range(self.H)] for x in ks}
        self.trace = M.array([VecV([M.poly([self.rows[x][r][c] for r in range(self.H)]) for c in range(3)]) for x in ks])
        self.chs = M.challenge_set(nch)

    def ident(self, t, ch):
        return (freeze(self.M.I.deref(t["columns"])), freeze(self.M.I.deref(t["filter_column"])), freeze(self.M.I.deref(ch)))

    def expected(self, subs=True, ctls=True):
        """{kind: [(columns, filter, challenge)]} in the canonical order"""
        out = {k: [] for k in self.M.kinds}
        chs = [c for c in self.chs.f["challenges"].xs]
        if ctls:
            for ch in chs:
                for ts in self.ctls_py:
                    for t in ts:
                        out[t.f["kind"].var].append(self.ident(t.f, ch))
        if subs:
            for ch in chs:
                for t, _ in self.subs_py:
                    out[t.f["kind"].var].append(self.ident(t.f, ch))
        return out

    def zsum(self, t, ch):
        rows = self.rows[t.f["kind"].var]
        H = self.H
        r = FPoly.const(0)
        for i in range(H):
            l, n = rows[i], rows[(i + 1) % H]
            r = r + cden(t.f["filter_column"], l, n) * inverse(combine([cden(c, l, n) for c in t.f["columns"].xs], ch))
        return r


def orders(ctx, M):
    I = M.I
    S = Setup(M)
    with ctx.group("prover order"):
        v = M.per_kind(M.call("cross_table_lookup::cross_table_lookup_data", M.ref(S.trace), S.ctls, M.ref(S.chs)))
        exp = S.expected(subs=False)
        for k in M.kinds:
            zs = M.list(v[k].f["zs_columns"])
            got = [S.ident(z.f, z.f["challenge"]) for z in zs]
            ctx.ob(f"prover:{k}", got == exp[k], f"running sums of {k}: by challenge, then look-up, then table of the look-up", XW, lambda: f"{len(got)} entries, {len(exp[k])} expected, or a different order")
        byid = {S.ident(t.f, ch): S.zsum(t, ch) for ts in S.ctls_py + [[t for t, _ in S.subs_py]] for t in ts for ch in S.chs.f["challenges"].xs}

        def sums(key, zs):
            for i, z in enumerate(zs):
                zz = I.deref(z.f["z"])
                last = fof(M.pvals(zz)[-1])
                want = byid[S.ident(z.f, z.f["challenge"])]
                ctx.ob(f"{key}:{i}", last == want, "the running sum belongs to its own table, columns, filter and challenge", XW, lambda: f"{last} instead of {want}"[:600])
        for k in (M.kinds[0], M.kinds[2], M.kinds[7], M.kinds[-1]):
            sums(f"prover-z:{k}", M.list(v[k].f["zs_columns"]))
    with ctx.group("prover order, public sub tables"):
        D, _ = values_run(M, S)
        exp = S.expected(ctls=False)
        for k in M.kinds:
            zs = M.list(D[k].f["zs_columns"]) if D[k] is not DEFAULT and D[k].f["zs_columns"] is not DEFAULT else []
            got = [S.ident(z.f, z.f["challenge"]) for z in zs]
            ctx.ob(f"prover-public:{k}", got == exp[k], f"public running sums of {k}: by challenge, then sub table", PW, lambda: f"{got} instead of {exp[k]}"[:600])
            sums(f"prover-public-z:{k}", zs)
    with ctx.group("verifier order"):
        exp = S.expected()
        op = {k: [(FPoly.var(("z", k, i)), FPoly.var(("zn", k, i))) for i in range(len(exp[k]))] for k in M.kinds}
        opening = lambda k: StructV(("Openings",), {"ctl_zs": VecV([a for a, _ in op[k]]), "ctl_zs_next": VecV([b for _, b in op[k]])})
        proofs = M.array([StructV(("Proof",), {"openings": opening(k)}) for k in M.kinds])
        h = M.adt("cross_table_lookup", "CtlCheckVars")["path"]
        v = M.per_kind(M.meth(h, "from_proofs", M.ref(proofs), S.ctls, S.subs, M.ref(S.chs)))
        want = {k: [x + p for x, p in zip(exp[k], op[k])] for k in M.kinds}
        show_ = lambda zs: [S.ident(z.f, z.f["challenges"]) + (fof(I.deref(z.f["local_z"])), fof(I.deref(z.f["next_z"]))) for z in zs]
        for k in M.kinds:
            got = show_(M.list(v[k]))
            ctx.ob(f"verifier:{k}", got == want[k], f"the verifier matches the openings of {k} with look-ups in the prover's order", XW, lambda: "openings are matched with other look-ups, challenges or columns")
        h = M.adt("cross_table_lookup", "CtlCheckVarsTarget")["path"]
        for k in M.kinds:
            v = M.meth(h, "from_proof", M.kind(k), M.ref(StructV(("Proof",), {"openings": opening(k)})), S.ctls, S.subs, M.ref(S.chs))
            got = show_(M.list(v))
            ctx.ob(f"circuit:{k}", got == want[k], f"the recursive verifier matches the openings of {k} with look-ups in the prover's order", XW, lambda: "openings are matched with other look-ups, challenges or columns")


def values_run(M, S):
    """public_sub_table_data_and_values on a trace whose filters are constants"""
    I = M.I
    v = I.deref(M.call("public_sub_table::public_sub_table_data_and_values", M.ref(S.trace), S.subs, M.ref(S.chs)))
    if not (isinstance(v, tuple) and len(v) == 2):
        raise AnalysisError("public sub table data has an unexpected form")
    return M.per_kind(v[0]), v[1]


def finals(ctx, M):
    I = M.I
    with ctx.group("final checks"):
        for nch in (1, 2):
            S = Setup(M, nch)
            exp = S.expected()
            zl = {k: [FPoly.var(("zl", k, i)) for i in range(len(exp[k]))] for k in M.kinds}
            pv = {k: [FPoly.var(("pv", k, i)) for i in range(len(S.expected(ctls=False)[k]))] for k in M.kinds}
            zs = M.array([VecV(zl[k]) for k in M.kinds])
            red = M.array([VecV(pv[k]) for k in M.kinds])
            cfg = StructV(("StarkConfig",), {"num_challenges": Int(nch, "usize")})
            it = {k: iter(zl[k]) for k in M.kinds}
            ip = {k: iter(pv[k]) for k in M.kinds}
            eqs = []
            for _ in range(nch):
                for ts in S.ctls_py:
                    eqs.append((sum([next(it[t.f["kind"].var]) for t in ts], FPoly.const(0)), FPoly.const(0)))
            for _ in range(nch):
                for t, _n in S.subs_py:
                    k = t.f["kind"].var
                    eqs.append((next(ip[k]), next(it[k])))
            want = bdd.and_(*[feq(a, b) for a, b in eqs])
            ok = lambda r: I.is_variant(I.deref(r), ("Result",), "Ok")
            r = M.call("cross_table_lookup::verify_cross_table_lookups_and_public_sub_tables", S.ctls, S.subs, M.ref(red), M.ref(zs), M.ref(cfg))
            got = ok(r)
            ctx.ob(f"final:{nch}", got == want, "accepts exactly when every look-up sums to zero and every public sub table has the public value", XW, lambda: "the acceptance condition is a different one: " + diff(got, want))
            b = sm.Builder()
            M.call("cross_table_lookup::verify_cross_table_lookups_and_public_sub_table_circuit", M.ref(b), S.ctls, S.subs, M.ref(red), M.ref(zs), M.ref(cfg))
            got = bdd.and_(*[feq(x, y) for x, y in b.log])
            ctx.ob(f"final-circuit:{nch}", got == want, "the circuit connects exactly the same equations", XW, lambda: "the connected equations are different: " + diff(got, want))


def diff(a, b):
    return f"{len(bdd.support(a))} conditions, {len(bdd.support(b))} expected" if hasattr(bdd, "support") else "not equivalent"


def publics(ctx, M):
    I = M.I
    with ctx.group("public sub tables"):
        pst = M.adt("public_sub_table", "PublicSubTable")["path"]
        H = 4
        for pat in ([0, 1, 0, 1], [1, 0, 0, 0], [0, 0, 0, 0], [1, 1, 1, 1]):
            rows = [[FPoly.var(("t", r, c)) for c in range(2)] + [FPoly.const(pat[r])] for r in range(H)]
            tr = M.array([VecV([M.poly([rows[r][c] for r in range(H)]) for c in range(3)])] * len(M.kinds))
            cols = [M.column([(0, 1)]), M.column([(1, 2)], [(0, 1)], 3)]
            sub = StructV(pst, {"table": M.table(M.kinds[4], cols, M.column([(2, 1)])), "num_rows": Int(sum(pat), "usize")})
            v = M.list(M.meth(pst, "get_values", M.ref(sub), M.ref(tr)))
            got = [[fof(x) for x in M.list(r)] for r in v]
            want = [[cden(c, rows[r], rows[(r + 1) % H]) for c in cols] for r in range(H) if pat[r]]
            ctx.ob(f"values:{pat}", got == want, "the public values are the columns of the rows with filter one, in order", PW, lambda: f"{got} instead of {want}")
    with ctx.group("public reduction"):
        for nch in (1, 2):
            chs = M.challenge_set(nch)
            S = Setup(M, nch)
            shape = {k: [n for t, n in S.subs_py if t.f["kind"].var == k] for k in M.kinds}
            vals = {k: [[[FPoly.var(("v", k, s, r, c)) for c in range(2)] for r in range(n)] for s, n in enumerate(shape[k])] for k in M.kinds}
            arr = M.array([VecV([VecV([VecV(r) for r in s]) for s in vals[k]]) for k in M.kinds])
            v = M.per_kind(M.call("public_sub_table::reduce_public_sub_tables_values", M.ref(arr), M.ref(chs)))
            cl = chs.f["challenges"].xs
            want = {k: [sum([inverse(combine(r, ch)) for r in s], FPoly.const(0)) for ch in cl for s in vals[k]] for k in M.kinds}
            for k in M.kinds:
                got = [fof(x) for x in M.list(v[k])]
                ctx.ob(f"reduce:{nch}:{k}", got == want[k], "the public value is the sum of inverse combinations, by challenge, then sub table", PW, lambda: f"{got} instead of {want[k]}"[:600])
            for s in (vals[M.kinds[2]][0], vals[M.kinds[0]][1], []):
                got = fof(I.deref(M.call("public_sub_table::reduce_public_sub_table_targets", M.ref(sm.Builder()), M.ref(cl[0]), M.ref(VecV([VecV(r) for r in s])))))
                w = sum([inverse(combine(r, cl[0])) for r in s], FPoly.const(0))
                ctx.ob(f"reduce-circuit:{nch}:{len(s)}", got == w, "the circuit reduces a public sub table the same way", PW, lambda: f"{got} instead of {w}")
            b = Virtual()
            v = I.deref(M.call("public_sub_table::public_sub_table_values_and_reduced_targets", M.ref(b), S.subs, M.ref(chs)))
            vt, rt = M.per_kind(v[0]), M.per_kind(v[1])
            for k in M.kinds:
                ts = [[[fof(x) for x in M.list(r)] for r in M.list(s)] for s in (M.list(vt[k]) if vt[k] is not DEFAULT else [])]
                ctx.ob(f"targets:{nch}:{k}", [[len(r) for r in s] for s in ts] == [[2] * n for n in shape[k]], "one target per public value, sub tables in order", PW, lambda: repr(ts)[:300])
                got = [fof(x) for x in (M.list(rt[k]) if rt[k] is not DEFAULT else [])]
                w = [sum([inverse(combine(r, ch)) for r in s], FPoly.const(0)) for ch in cl for s in ts]
                ctx.ob(f"reduced-targets:{nch}:{k}", got == w, "reduced targets come by challenge, then sub table, as in the native verifier", PW, lambda: f"{got} instead of {w}"[:600])


class Virtual(sm.Builder):
    def __init__(self):
        super().__init__()
        self.n = 0

    def method(self, I, name, args, hint, place):
        if name == "add_virtual_target":
            self.n += 1
            return FPoly.var(("vt", self.n))
        return super().method(I, name, args, hint, place)
