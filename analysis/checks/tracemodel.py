"""Trace generation: rows of field elements computed from an execution record, over embedded machine integers."""
import bdd
import starkmodel as sm
import terms
import vmmodel as vm
from builtins_rs import items
from field import FPoly, PR, feq as poly_feq, fof, inverse, vid, vname
from interp import Env
from program import AnalysisError
from symdom import regfile
from values import *

C, R = "mozak_circuits", "mozak_runner"
K = FPoly.const


# ------------------------------------------------------------------ field elements of machine integers
def embed(t):
    """the field element of an unsigned machine integer"""
    if t.op == "const":
        return K(terms.cval(t))
    if t.op == "zext":
        return embed(t.args[0])
    if t.op == "ite":
        return merge(t.args[0], embed(t.args[1]), embed(t.args[2]))
    if t.op == "bits" and all(b is False for b in t.args[1:]):
        return merge(t.args[0], K(1), K(0))
    if t.op == "canon":
        return FPoly(dict(t.args[0]))
    w = t.w
    while w > 8 and t.op == "bits" and all(b is False for b in t.args[w // 2:w]):
        w //= 2
    if w != t.w:
        return embed(terms.trunc(t, w))
    if t.op == "poly" and t.w == 64:
        # sums that cannot wrap are sums in the field
        lo = hi = 0
        for k, c in t.args:
            c = c - (1 << 64) if c >> 63 else c
            if len(k) > 1:
                break
            a, b = terms.rng(k[0]) if k else (1, 1)
            lo, hi = lo + min(c * a, c * b), hi + max(c * a, c * b)
        else:
            if 0 <= lo and hi < 1 << 64:
                r = K(0)
                for k, c in t.args:
                    c = c - (1 << 64) if c >> 63 else c
                    r = gmap2(lambda x, y: x + y, r, gmap(lambda x: x.scale(c), embed(k[0]) if k else K(1)))
                return r
    return FPoly.var(("u", t))


def gmap(f, v):
    return merge(v.c, gmap(f, v.a), gmap(f, v.b)) if isinstance(v, GateV) else f(v)


def gmap2(f, a, b):
    return gmap(lambda x: gmap(lambda y: f(x, y), b), a)


def felt(v):
    """any embedded value as a field element"""
    if isinstance(v, RefV):
        return felt(v.place.get())
    if isinstance(v, GateV):
        return merge(v.c, felt(v.a), felt(v.b))
    if is_bool(v):
        return merge(v, K(1), K(0))
    if isinstance(v, int):
        return K(v)
    p = fof(v)
    if p is not None:
        return p
    if isinstance(v, BV):
        if signed(v.ty):
            neg = terms.slt(v.t, terms.const(0, v.t.w))
            return merge(neg, gmap(lambda x: -x, embed(terms.neg(v.t))), embed(v.t))
        return embed(v.t)
    if isinstance(v, T) and v.w:
        return embed(v)
    raise AnalysisError(f"not a field element: {v!r}"[:200])


def uatom(p):
    """(term, coefficient, constant) of a polynomial in one embedded integer"""
    lin = [(m, c) for m, c in p.p.items() if m]
    if len(lin) == 1 and len(lin[0][0]) == 1:
        n = vname(lin[0][0][0])
        if isinstance(n, tuple) and n[0] == "u":
            return n[1], lin[0][1], p.p.get((), 0)
    return None


def canon(p):
    """the representative below the modulus, as a 64-bit term"""
    if not p.p or set(p.p) == {()}:
        return terms.const(p.p.get((), 0), 64)
    u = uatom(p)
    if u and u[1] == 1 and u[2] == 0 and u[0].w <= 32:
        return terms.zext(u[0], 64)
    # sums of embedded integers that stay below the modulus
    lo = hi = 0
    t = terms.const(0, 64)
    for m, c in p.p.items():
        c = c if c <= PR // 2 else c - PR
        if len(m) > 1:
            break
        if not m:
            lo, hi, t = lo + c, hi + c, terms.add(t, terms.const(c, 64))
            continue
        n = vname(m[0])
        if not (isinstance(n, tuple) and n[0] == "u") or n[1].w > 32:
            break
        a, b = terms.rng(n[1])
        lo, hi = lo + min(c * a, c * b), hi + max(c * a, c * b)
        t = terms.add(t, terms.mul(terms.const(c, 64), terms.zext(n[1], 64)))
    else:
        if 0 <= lo and hi < PR:
            return t
    return terms.mkT("canon", (frozenset(p.p.items()),), 64)


def is_zero(p):
    lin = {m: c for m, c in p.p.items() if m}
    k = p.p.get((), 0)
    if not lin:
        return k == 0
    us = []
    for m, c in lin.items():
        n = vname(m[0]) if len(m) == 1 else None
        if not (isinstance(n, tuple) and n[0] == "u" and n[1].w <= 32):
            us = None
            break
        us.append((n[1], c))
    if us and len(us) == 1:
        t, c = us[0]
        v = -k * pow(c, PR - 2, PR) % PR
        return terms.eq(t, terms.const(v, t.w)) if v >> t.w == 0 else False
    if us and len(us) == 2 and (us[0][1] + us[1][1]) % PR == 0 and us[0][1] in (1, PR - 1):
        kk = k if k <= PR // 2 else k - PR
        if abs(kk) >= 1 << 32 and abs(kk) <= 1 << 40:
            return False
        if kk == 0:
            w = max(us[0][0].w, us[1][0].w)
            return terms.eq(terms.zext(us[0][0], w), terms.zext(us[1][0], w))
    return poly_feq(p, K(0))


def inv0(p):
    """inverse, zero for zero"""
    return merge(is_zero(p), K(0), inverse(p))


def _under(care, p):
    """atoms rewritten by what is decided on the care set"""
    r = K(0)
    for m, c in p.p.items():
        x = K(c)
        for v in m:
            n = vname(v)
            y = FPoly({(v,): 1})
            if isinstance(n, tuple) and n[0] == "u":
                t = n[1]
                for i in sorted(terms.cond_atoms(t)):
                    lit = bdd.mk(i, True, False)
                    if bdd.and_(care, lit) is False:
                        t = terms.cofactor_term(t, i, False)
                    elif bdd.and_(care, bdd.not_(lit)) is False:
                        t = terms.cofactor_term(t, i, True)
                y = embed(t)
            x = gmap2(lambda a, b: a * b, x, y)
        r = gmap2(lambda a, b: a + b, r, x)
    return r


def _atoms_of(p):
    return {i for m in p.p for v in m for n in [vname(v)] if isinstance(n, tuple) and n[0] == "u" for i in terms.cond_atoms(n[1])}


def feq_under(care, a, b, depth=0):
    if care is False:
        return True
    if isinstance(a, GateV):
        return feq_under(bdd.and_(care, a.c), a.a, b, depth) and feq_under(bdd.and_(care, bdd.not_(a.c)), a.b, b, depth)
    if isinstance(b, GateV):
        return feq_under(care, b, a, depth)
    if not (isinstance(a, FPoly) and isinstance(b, FPoly)):
        return eqv(care, a, b)
    if a.p == b.p:
        return True
    at = _atoms_of(a) | _atoms_of(b)
    if depth < 24 and at:
        i = min(at)
        lit = bdd.mk(i, True, False)
        for v, l in ((True, lit), (False, bdd.not_(lit))):
            c = bdd.and_(care, l)
            if c is not False and not feq_under(c, _under(l, a), _under(l, b), depth + 1):
                return False
        return True
    # pair the monomials that differ
    pa, pb = dict(a.p), dict(b.p)
    for m in list(pa):
        if pb.get(m) == pa[m]:
            del pa[m], pb[m]
    if len(pa) != len(pb):
        return unsat(care, a, b)
    for m, c in pa.items():
        for n, d in list(pb.items()):
            if c == d and len(m) == len(n) and _pair(care, m, n):
                del pb[n]
                break
        else:
            return unsat(care, a, b)
    return True


def _pair(care, m, n):
    rest = list(n)
    for x in m:
        for y in rest:
            if x == y or _same_atom(care, vname(x), vname(y)):
                rest.remove(y)
                break
        else:
            return False
    return True


def _same_atom(care, x, y):
    if not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]):
        return False
    if x[0] == "u":
        w = max(x[1].w, y[1].w)
        return eqv(care, bv(terms.zext(x[1], w), "u%d" % w), bv(terms.zext(y[1], w), "u%d" % w))
    if x[0] == "inv":
        return feq_under(care, FPoly(dict(x[1][1])), FPoly(dict(y[1][1])))
    return False


def unsat(care, a, b):
    """the care set itself is contradictory"""
    ax = terms.axioms(care, *[vname(v)[1] for p in (a, b) for m in p.p for v in m if isinstance(vname(v), tuple) and vname(v)[0] == "u"])
    return ax is not True and bdd.and_(care, ax) is False


# ------------------------------------------------------------------ interpreter
def conv(I, vs, h, e, n):
    v = I.deref(vs[-1])
    try:
        return felt(v)
    except AnalysisError:
        return NotImplemented


def fmethod(I, v, name, args, hint, place):
    if name in ("is_zero", "is_nonzero", "is_one"):
        r = is_zero(v - int(name == "is_one"))
        return bdd.not_(r) if name == "is_nonzero" else r
    if name == "try_inverse":
        return merge(is_zero(v), NONE, Some(inverse(v)))
    if name == "inverse":
        return inverse(v)
    if name in ("to_canonical_u64", "to_noncanonical_u64"):
        return bv(canon(v), "u64")
    if name == "to_canonical":
        return v
    return NotImplemented


def interp(P):
    I = sm.interp(P)
    I.sym_feq = False
    for n in sm.FIELD_CONV + ("from_canonical_i32", "from_noncanonical_i32"):
        I.intrinsics["*::" + n] = conv
    I.intrinsics["Evaluator::eval"] = conv
    I.fpoly_pre = fmethod
    for n in ("is_zero", "is_nonzero", "is_one", "to_canonical_u64", "to_noncanonical_u64", "to_canonical"):
        I.methods[n] = lambda I_, v, place, args, hint, node, env, n=n: fmethod(I_, K(0), n, args, hint, place) if v is DEFAULT else NotImplemented
    I.fpoly_eq = is_zero
    del I.intrinsics["*::from"]
    return I


# ------------------------------------------------------------------ records
OPS = None


def struct(P, path, **f):
    d = P.lookup_abs(path)
    have = [x["n"] for x in d["fields"]["f"]]
    if set(have) != set(f):
        raise AnalysisError(f"fields of {path[-1]} changed: {sorted(set(have) ^ set(f))}")
    return StructV(d["path"], f)


def inst(P, op, rd, rs1, rs2, imm):
    return struct(P, (R, "instruction", "Instruction"), op=EnumV((R, "instruction", "Op"), op), args=struct(P, (R, "instruction", "Args"), rd=rd, rs1=rs1, rs2=rs2, imm=imm))


def opaque_aux(P, **over):
    u = lambda n: BV(terms.var("aux." + n, 32), "u32")
    f = dict(dst_val=u("dst_val"), new_pc=u("new_pc"), mem=NONE, mem_addresses_used=VecV([]), will_halt=False, op1=u("op1"), op2=u("op2"), op2_raw=u("op2_raw"),
             poseidon2=NONE, storage_device_entry=NONE)
    return struct(P, (R, "state", "Aux"), **{**f, **over})


def row(P, state, instruction, aux):
    return struct(P, (R, "vm", "Row"), state=state, instruction=instruction, aux=aux)


def record(P, rows, last):
    return struct(P, (R, "vm", "ExecutionRecord"), executed=VecV(rows), last_state=last)


def view(P, *path):
    d = P.lookup_abs((C,) + path)
    if d is None:
        raise AnalysisError(f"row type {'::'.join(path)} not found")
    return d


def mk(I, d, vals):
    """a row with the given columns (the others are zero)"""
    cols = sm.columns(I, d)
    if set(vals) - set(cols):
        raise AnalysisError(f"columns of {d['n']} changed: {sorted(set(vals) - set(cols))}")
    return I.unflatten(d, [felt(vals.get(c, 0)) for c in cols])


def symrow(I, d, tag):
    return I.unflatten(d, [FPoly.var((tag, c)) for c in sm.columns(I, d)])


def cases(v, c=True):
    """(condition, rows) of a possibly gated vector"""
    if isinstance(v, GateV):
        yield from cases(v.a, bdd.and_(c, v.c))
        yield from cases(v.b, bdd.and_(c, bdd.not_(v.c)))
    elif isinstance(v, RefV):
        yield from cases(v.place.get(), c)
    elif c is not False:
        if not isinstance(v, (VecV, IterV)):
            raise AnalysisError(f"not a list of rows: {v!r}"[:200])
        yield c, v.xs


def flat(I, d, x):
    """columns of a row as field elements"""
    x = I.deref(x)
    if isinstance(x, GateV):
        a, b = flat(I, d, x.a), flat(I, d, x.b)
        return {k: merge(x.c, a[k], b[k]) for k in a}
    return {c: felt(I.deref(v)) for c, v in zip(sm.columns(I, d), items(I, I.flatten(d, x)))}


def call(I, P, name, *args):
    d = P.fn(name)
    if d is None:
        raise AnalysisError(f"{name} not found")
    env = Env(None, d["mod"])
    return I.deref(I.call_fn(d, [("v", a) for a in args], env))


def pow2(n):
    k = 8
    while k < n:
        k *= 2
    return k
