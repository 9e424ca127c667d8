"""Comparison of a table's constraints with what its rows must satisfy."""
import starkmodel as sm
import starkref
from field import Span

KINDS = ("always", "first", "last", "transition")
UNCONSTRAINED = ("Unstark",)


def check_table(ctx, P, name):
    d, im = sm.starks(P)[name]
    where = "/".join(d["path"][1:-1])
    with ctx.group(name):
        ref = starkref.TABLES[name]()
        packed, cols, I = sm.run_constraints(P, name, "packed")
        ext, _, J = sm.run_constraints(P, name, "ext")
        ctx.saw(I)
        ctx.saw(J)
        names = set(cols)
        for part, cs in ref.items():
            for k, p in cs:
                for m in p.p:
                    for v in m:
                        t, c = sm.varname(v)
                        if t in "ln" and c not in names:
                            raise sm.AnalysisError(f"{name} has no column {c}")
        got = {k: Span([p.p for kk, p in packed if kk == k]) for k in KINDS}
        want = {k: Span([p.p for cs in ref.values() for kk, p in cs if kk == k]) for k in KINDS}
        for part, cs in ref.items():
            for i, (k, p) in enumerate(cs):
                ctx.ob(f"{name}:{part}:{i}", got[k].has(p.p), f"{name} does not enforce: {part} ({k})", where, lambda: f"{p} = 0 does not follow from the constraints")
        for i, (k, p) in enumerate(packed):
            ctx.ob(f"{name}:extra:{i}", want[k].has(p.p), f"{name} imposes a constraint that valid rows do not satisfy ({k})", where, lambda: f"{p} = 0")
        ctx.ob(f"{name}:same", packed == ext, f"{name}: the recursive verifier evaluates the same constraints in the same order", where,
               lambda: f"{len(packed)} and {len(ext)} constraints, first difference at {next((i for i, (a, b) in enumerate(zip(packed, ext)) if a != b), min(len(packed), len(ext)))}")
        ctx.ob(f"{name}:degree", all(p.degree() <= 3 for _, p in packed), f"{name}: constraints have at most the declared degree", where)
        e = sm.Env(None, im.mod, {}, ("adt", d, []), impl=im)
        deg = I.deref(I.call_fn(im.fns["constraint_degree"], [("v", sm.StructV(d["path"], {}))], e, self_ty=("adt", d, []), impl=im))
        # first- and last-row constraints are multiplied by a selector of the table's own degree; the look-up
        # argument, which every table takes part in, has such a constraint of degree two
        need = max([3] + [p.degree() + (k not in ("always", "transition")) for k, p in packed])
        ctx.ob(f"{name}:declared", isinstance(deg, sm.Int) and need <= deg.v <= 3, f"{name}: declared degree covers every constraint", where, lambda: f"declared {deg!r}, needed {need}")
        for fr in ("EvaluationFrame", "EvaluationFrameTarget"):
            t = im.types[fr]["ty"]
            while t["k"] in ("TParen", "TGroup"):
                t = t["e"]
            a = t["segs"][-1]["a"] or []
            val = [None, None]
            for i, x in enumerate(a[-2:]):
                if x["k"] == "TPath":
                    x = {**x, "k": "Path"}
                val[i] = I.deref(I.eval(x, e))
            pub = 1 if name == "CpuSkeletonStark" else 0
            ok = all(isinstance(v, sm.Int) for v in val) and [v.v for v in val] == [len(cols), pub]
            ctx.ob(f"{name}:frame:{fr}", ok, f"{name}: constraints see a row of the table's columns and the {pub} public values the provers supply", where, lambda: f"{val}, expected {[len(cols), pub]}")
