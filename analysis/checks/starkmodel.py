"""Column-level model of the proving tables: constraints as polynomials over named columns, look-ups as affine forms over them."""
import hashlib

import bdd
import terms
from builtins_rs import items
from field import PR, FPoly, inverse, vname as varname, LinV, fof, lof, llift, lift, show, Span
from interp import Dead, Env, Interp
from program import AnalysisError, Program
from terms import mkT
from values import *

C = "mozak_circuits"
CRATES = ("mozak_circuits", "expr", "mozak_runner", "mozak_sdk")
_progs = {}


def load(crates=CRATES, extra=()):
    k = (tuple(crates), tuple(extra))
    if k not in _progs:
        _progs[k] = Program(list(crates) + list(extra), cfg=cfg)
    return _progs[k]


def cfg(s):
    from program import eval_cfg
    return eval_cfg(s, lambda a: a == "std" or a.startswith('feature="std"') or a.startswith('feature = "std"'))


class Frame(DomainV):
    """evaluation frame: rows of column variables"""

    def __init__(self, lv, nv, pi):
        self.lv, self.nv, self.pi = lv, nv, pi

    def method(self, I, name, args, hint, place):
        if name == "get_local_values":
            return VecV(self.lv)
        if name == "get_next_values":
            return VecV(self.nv)
        if name == "get_public_inputs":
            return VecV(self.pi)
        return NotImplemented


KIND = {"constraint": "always", "constraint_first_row": "first", "constraint_transition": "transition", "constraint_last_row": "last"}


class Consumer(DomainV):
    """constraint consumer: records constraints in order"""

    def __init__(self):
        self.log = []

    def emit(self, I, name, v):
        p = fof(I.deref(v))
        if p is None:
            raise AnalysisError(f"constraint is not a polynomial: {v!r}"[:200])
        if I.pc is not True:
            raise AnalysisError("constraint emitted conditionally")
        self.log.append((KIND[name], p))
        return UNIT

    def method(self, I, name, args, hint, place):
        if name in KIND:
            return self.emit(I, name, args[-1])
        return NotImplemented


class Builder(DomainV):
    """circuit builder: every arithmetic gadget is the field operation it builds"""

    def __init__(self):
        self.log = []

    def method(self, I, name, args, hint, place):
        a = [I.deref(x) for x in args]
        f = lambda i: lift(fof(a[i])) if fof(a[i]) is not None else _bad(a[i], name)
        base = name[:-len("_extension")] if name.endswith("_extension") else name[:-4] if name.endswith("_ext") else name
        if base in ("constant", "constant_ext", "convert_to"):
            return f(0)
        if base in ("zero", "one", "two", "neg_one"):
            return FPoly.const({"zero": 0, "one": 1, "two": 2, "neg_one": -1}[base])
        if base == "add":
            return f(0) + f(1)
        if base == "sub":
            return f(0) - f(1)
        if base in ("mul", "scalar_mul"):
            return f(0) * f(1)
        if base in ("neg",):
            return -f(0)
        if base == "square":
            return f(0) * f(0)
        if base == "cube":
            return f(0) * f(0) * f(0)
        if base == "mul_add":
            return f(0) * f(1) + f(2)
        if base == "mul_sub":
            return f(0) * f(1) - f(2)
        if base in ("mul_const", "mul_const_extension"):
            return f(0) * f(1)
        if base in ("add_const",):
            return f(0) + f(1)
        if base in ("convert_to_ext",):
            return f(0)
        if base == "mul_const_add":
            return f(0) * f(1) + f(2)
        if base in ("arithmetic",):
            return f(0) * f(2) * f(3) + f(1) * f(4)
        if base == "wide_arithmetic":
            return NotImplemented
        if base in ("add_many", "mul_many"):
            xs = items(I, a[0])
            r = FPoly.const(0 if base == "add_many" else 1)
            for x in xs:
                r = r + lift(fof(I.deref(x))) if base == "add_many" else r * lift(fof(I.deref(x)))
            return r
        if base == "inner_product":
            r = f(1)
            for x in items(I, a[2]):
                x = I.deref(x)
                r = r + f(0) * lift(fof(I.deref(x[0]))) * lift(fof(I.deref(x[1])))
            return r
        if base in ("exp_u64", "exp_power_of_2") and isinstance(a[1], Int):
            return f(0) ** (a[1].v if base == "exp_u64" else 1 << a[1].v)
        if base in ("inverse",):
            return inverse(f(0))
        if base in ("assert_zero", "assert_one"):
            self.log.append((f(0), FPoly.const(0 if base == "assert_zero" else 1)))
            return UNIT
        if base == "connect":
            self.log.append((f(0), f(1)))
            return UNIT
        return NotImplemented


def _bad(v, n):
    raise AnalysisError(f"{n} of a non-field value {v!r}"[:200])


def conv(I, vs, h, e, n):
    v = I.deref(vs[-1])
    p = fof(v)
    if p is not None:
        return p
    if isinstance(v, (BV, T)) or is_bool(v):
        return NotImplemented
    return NotImplemented


FIELD_CONV = ("from_noncanonical_i64", "from_noncanonical_u64", "from_canonical_u64", "from_canonical_u32", "from_canonical_u8", "from_canonical_u16",
              "from_canonical_usize", "from_canonical_i64", "from_bool", "from_basefield", "from_noncanonical_u96", "from_noncanonical_u128")
# parameters of the external Poseidon2 permutation; its sources are not here, so its round constants and matrix are distinct generic values
EXT_CONST = {"WIDTH": 12, "ROUND_F_BEGIN": 4, "ROUND_F_END": 8, "ROUND_P": 22, "RATE": 8, "SPONGE_RATE": 8, "NUM_HASH_OUT_ELTS": 4}
EXT_ARRAY = {"RC12": 96, "RC12_MID": 22, "MAT_DIAG12_M_1": 12}
FIELD_CONST = {"ZERO": 0, "ONE": 1, "TWO": 2, "NEG_ONE": -1, "ZEROS": 0, "ONES": 1}


def generic(name, i):
    return int.from_bytes(hashlib.sha256(f"{name}[{i}]".encode()).digest()[:8], "little") % PR


def ext_const(I, t, name, env, ids):
    if name in EXT_CONST and not (t and t[0] == "adt"):
        return Int(EXT_CONST[name], "usize")
    if name in EXT_ARRAY:
        return VecV([FPoly.const(generic(name, i)) for i in range(EXT_ARRAY[name])])
    if name in FIELD_CONST and t is not None and t[0] in ("any", "ext") and t[1:2] != ("Column",):
        return FPoly.const(FIELD_CONST[name])
    return None


def expr_method(I, v, name, args, hint, place):
    """methods of the expression type on polynomials: run the repository's own code"""
    if name in ("to_canonical_i64", "to_noncanonical_u64", "to_canonical_u64"):
        return v
    for im in I.P.impls.get(("expr", "Expr"), []):
        if name in im.fns and im.trait is None:
            d = im.fns[name]
            return I.call_fn(d, [("v", v)] + [("v", a) for a in args], Env(None, im.mod, None, None, impl=im), impl=im)
    return NotImplemented


def interp(P, exprs=True, lin=True):
    I = Interp(P)
    I.fpoly_method = expr_method
    I.statics["assoc_const_hook"] = ext_const
    for n in FIELD_CONV:
        I.intrinsics["*::" + n] = conv
    I.intrinsics["*::from"] = lambda I_, vs, h, e, n: I_.deref(vs[-1])
    if exprs:
        # justified by P18: an expression denotes the polynomial it is written as, whatever evaluates it
        I.intrinsics["Expr::from"] = conv
        I.intrinsics["expr::Expr::from"] = conv
        I.intrinsics["ExprBuilder::lit"] = lambda I_, vs, h, e, n: I_.deref(vs[1])
        I.intrinsics["ExprBuilder::constant"] = conv

        def ev(I_, vs, h, e, n):
            p = fof(I_.deref(vs[-1]))
            return p if p is not None else NotImplemented
        I.intrinsics["Evaluator::eval"] = ev
        I.intrinsics["*::from"] = conv
    for nm in ("new", "from", "into"):
        I.intrinsics["PolynomialValues::" + nm] = lambda I_, vs, h, e, n: StructV(("PolynomialValues",), {"values": VecV([I_.deref(x) for x in items(I_, vs[-1])])})
    I.intrinsics["*::caller"] = I.intrinsics["Location::caller"] = lambda I_, vs, h, e, n: StructV(("Location",), {})
    for who in ("ConstraintConsumer", "RecursiveConstraintConsumer"):
        for nm in KIND:
            def f(I_, vs, h, e, n, nm=nm):
                c = I_.deref(vs[0])
                return c.emit(I_, nm, vs[-1])
            I.intrinsics[f"{who}::{nm}"] = f
    return I


# ------------------------------------------------------------------ columns
def colname(path):
    return "".join((f"[{p}]" if isinstance(p, int) else ("." if i else "") + p) for i, p in enumerate(path))


def columns(I, d):
    return [colname(p) for p in I.layout(d)]


def starks(P):
    """{struct name: (definition, impl of Stark)} of every proving table type"""
    out = {}
    for head, ims in P.impls.items():
        for im in ims:
            if im.trait and im.trait[-1]["id"] == "Stark" and isinstance(head, tuple) and head[0] == C:
                out[head[-1]] = (P.lookup_abs(head), im)
    return out


def view_of(I, P, head):
    """struct definition of a table's row type, from HasNamedColumns"""
    for im in P.impls.get(head, []):
        if "Columns" in im.types:
            t = I.ty(im.types["Columns"]["ty"], Env(None, im.mod, {}, None, impl=im))
            if t[0] == "adt":
                return t[1]
    raise AnalysisError(f"no row type for {head[-1]}")


def num_public(I, P, im):
    """declared number of public inputs of a table"""
    for t in ("EvaluationFrameTarget",):
        a = im.types[t]["ty"]["segs"][-1]["a"]
        return I.const_usize(a[3]["e"] if a[3]["k"] == "TConst" else {"k": "Path", "segs": a[3]["segs"], "qself": None}, Env(None, im.mod, {}, None, impl=im))


def run_constraints(P, name, which="packed"):
    """[(kind, polynomial)] a table imposes, in order"""
    d, im = starks(P)[name]
    I = interp(P)
    view = view_of(I, P, d["path"])
    cols = columns(I, view)
    lv = [FPoly.var(("l", c)) for c in cols]
    nv = [FPoly.var(("n", c)) for c in cols]
    fr = Frame(lv, nv, [FPoly.var(("p", str(i))) for i in range(num_public(I, P, im))])
    cons = Consumer()
    st = ("adt", d, [])
    env = Env(None, im.mod, {}, st, impl=im)
    pub = P.lookup_abs((C, "stark", "mozak_stark", "PublicInputs")) if fr.pi else None
    if fr.pi and len(I.layout(pub)) != len(fr.pi):
        raise AnalysisError(f"{name}: {len(fr.pi)} public inputs, the program-wide struct has {len(I.layout(pub))}")

    def typed(I_, vs, h, e, n):
        # justified by P18: literals of the frame in column order
        f = I_.deref(vs[1])
        nt = P.lookup_abs(("expr", "StarkFrameTyped"))
        return StructV(nt["path"], {"local_values": I_.unflatten(view, f.lv), "next_values": I_.unflatten(view, f.nv),
                                    "public_inputs": I_.unflatten(pub, f.pi) if pub else VecV([])})
    I.intrinsics["ExprBuilder::to_typed_starkframe"] = typed
    me = StructV(d["path"], {})
    I.pc = True
    if which == "packed":
        I.call_fn(im.fns["eval_packed_generic"], [("v", me), ("v", fr), ("v", RefV(I.temp(cons)))], env, self_ty=st, impl=im)
    else:
        I.call_fn(im.fns["eval_ext_circuit"], [("v", me), ("v", RefV(I.temp(Builder()))), ("v", fr), ("v", RefV(I.temp(cons)))], env, self_ty=st, impl=im)
    return cons.log, cols, I
