"""Abstract values of the interpreter (all immutable)."""
import bdd
import terms
from terms import T, mkT
from program import PRIMS, AnalysisError


class Int:
    __slots__ = ("v", "ty")

    def __init__(self, v, ty=None):
        self.v, self.ty = v, ty

    def __repr__(self):
        return f"{self.v}{self.ty or ''}"


class BV:
    """Symbolic integer of Rust type ty."""
    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __repr__(self):
        return f"{self.t}:{self.ty}"


class Canon(dict):
    """the path a type is defined under, for a path it is re-exported under"""
    prog = None

    def __missing__(self, path):
        if self.prog is None or len(path) < 2:
            return path
        d = self.prog.lookup_abs(path)
        r = d["path"] if isinstance(d, dict) and d.get("k") in ("ItemStruct", "ItemEnum") and d.get("path") else path
        self[path] = r
        return r


CANON = Canon()


class StructV:
    __slots__ = ("path", "f", "targs")

    def __init__(self, path, f, targs=None):
        self.path, self.f, self.targs = CANON[path], f, targs

    def __repr__(self):
        return f"{self.path[-1]}{{{', '.join(f'{k}: {v!r}' for k, v in self.f.items())}}}"


class EnumV:
    __slots__ = ("path", "var", "p")

    def __init__(self, path, var, p=()):
        self.path, self.var, self.p = CANON[path], var, p  # p: tuple or dict

    def __repr__(self):
        return f"{self.path[-1]}::{self.var}{self.p if self.p else ''}"


class VecV:
    """Array, slice or Vec of known length."""
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = tuple(xs)

    def __repr__(self):
        return f"[{', '.join(map(repr, self.xs[:8]))}{'..' if len(self.xs) > 8 else ''}]"


class IterV:
    """Iterator over known items."""
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = tuple(xs)

    def __repr__(self):
        return f"iter{self.xs}"


class InfIter:
    """Infinite iterator: item i is fn(i)."""
    __slots__ = ("fn", "pos")

    def __init__(self, fn, pos=0):
        self.fn, self.pos = fn, pos


class MapV:
    """Map with known keys (insertion into HashMap/BTreeMap with frozen keys)."""
    __slots__ = ("d", "kind")

    def __init__(self, d, kind="map"):
        self.d, self.kind = d, kind  # frozen key -> (key value, value)

    def __repr__(self):
        return f"map{list(self.d.values())}"

    @property
    def is_set(self):
        return self.kind.endswith("set")

    def entries(self):
        """(key, value) in iteration order: sorted collections iterate by key"""
        xs = list(self.d.values())
        if self.kind[0] == "b" and len(xs) > 1:
            xs.sort(key=lambda kv: sort_key(kv[0]))
        return xs


def map_kind(tn):
    return ("b" if tn.startswith("BTree") else "") + ("set" if tn.endswith("Set") else "map")


class sort_key:
    """order of a constant under the derived `Ord`; parts are looked at only as far as the order needs them"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return cmp_const(self.v, o.v) < 0


def cmp_const(x, y):
    if type(x) in (int, bool, str) and type(x) is type(y):
        return (x > y) - (x < y)
    if isinstance(x, Int) and isinstance(y, Int):
        return (x.v > y.v) - (x.v < y.v)
    if isinstance(x, (VecV, IterV)) and isinstance(y, (VecV, IterV)):
        return cmp_seq(x.xs, y.xs)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return cmp_seq(x, y)
    if isinstance(x, RefV) and x.place is not None:
        return cmp_const(x.place.get(), y)
    if isinstance(y, RefV) and y.place is not None:
        return cmp_const(x, y.place.get())
    if isinstance(x, StructV) and isinstance(y, StructV) and x.path == y.path and (len(x.f) <= 1 or all(k.isdigit() for k in x.f)):
        ks = sorted(x.f, key=lambda k: (len(k), k))
        r = cmp_seq([x.f[k] for k in ks], [y.f[k] for k in ks])
        return -r if x.path == ("Reverse",) else r
    if x is y and not isinstance(x, DomainV):
        return 0
    raise AnalysisError(f"sorted collection with keys of unknown order: {x!r:.80}")


def cmp_seq(xs, ys):
    for a, b in zip(xs, ys):
        c = cmp_const(a, b)
        if c:
            return c
    return (len(xs) > len(ys)) - (len(xs) < len(ys))


class RangeV:
    __slots__ = ("lo", "hi", "incl")

    def __init__(self, lo, hi, incl):
        self.lo, self.hi, self.incl = lo, hi, incl

    def __repr__(self):
        return f"{self.lo}..{'=' if self.incl else ''}{self.hi}"


class ClosureV:
    __slots__ = ("node", "env", "b", "ret")

    def __init__(self, node, env, ret=None):
        self.node, self.env, self.ret = node, env, ret


class FnV:
    """Function item, enum/tuple-struct constructor or builtin."""
    __slots__ = ("kind", "x", "env", "segs")

    def __init__(self, kind, x, env=None, segs=None):
        self.kind, self.x, self.env, self.segs = kind, x, env, segs

    def __repr__(self):
        return f"fn<{self.kind} {self.segs}>"


class TypeV:
    """A type used as a path prefix."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class RefV:
    """&mut place."""
    __slots__ = ("place",)

    def __init__(self, place):
        self.place = place


class GateV:
    """cond ? a : b over non-integer values."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"({self.c} ? {self.a} : {self.b})"


class DomainV:
    """Base class of plug-in abstract domains (field polynomials, circuits)."""

    def method(self, I, name, args, hint, place):
        return NotImplemented

    def binop(self, I, op, other, swapped):
        return NotImplemented

    def unop(self, I, op):
        return NotImplemented

    def field(self, I, name):
        return NotImplemented

    def key(self):
        return ("dom", id(self))


class _Default:
    def __repr__(self):
        return "DEFAULT"


DEFAULT = _Default()


class DefWith:
    """the default value of a type not known yet, with some fields replaced"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = dict(f)

    def key(self):
        return ("defwith", tuple(sorted((n, freeze(x)) for n, x in self.f.items())))

    def __repr__(self):
        return f"DEFAULT with {self.f}"


UNIT = ()
NONE = EnumV(("Option",), "None")


def Some(v):
    return EnumV(("Option",), "Some", (v,))


def Ok(v):
    return EnumV(("Result",), "Ok", (v,))


def Err(v):
    return EnumV(("Result",), "Err", (v,))


def is_enum(v, name):
    return isinstance(v, EnumV) and v.path[-1] == name


def width(ty):
    return PRIMS[ty]


def signed(ty):
    return ty[0] == "i"


def mkint(v, ty):
    """wrap concrete value into ty"""
    if ty is None:
        return Int(v, None)
    w = PRIMS[ty]
    v &= (1 << w) - 1
    if ty[0] == "i" and v >> (w - 1):
        v -= 1 << w
    return Int(v, ty)


def bv(t, ty):
    if t.op == "const":
        return mkint(t.args[0], ty)
    return BV(t, ty)


def is_int(v):
    return isinstance(v, (Int, BV))


def is_bool(v):
    return isinstance(v, (bool, bdd.B))


def term_of(v, ty):
    """integer value -> core term of the width of ty"""
    w = PRIMS[ty]
    if isinstance(v, Int):
        return terms.const(v.v, w)
    if isinstance(v, BV):
        if v.t.w == w:
            return v.t
        if v.t.w < w:
            return terms.sext(v.t, w) if signed(v.ty) else terms.zext(v.t, w)
        return terms.trunc(v.t, w)
    if isinstance(v, T):
        return mkT("int", (v,), w)
    if v is DEFAULT:
        return terms.const(0, w)
    if is_bool(v):
        return terms.from_bool(v, w)
    raise AnalysisError(f"not an integer: {v!r}")


def freeze(v):
    """Hashable normal form of any value."""
    if isinstance(v, T):
        return v
    if isinstance(v, Int):
        return ("i", v.v)
    if isinstance(v, BV):
        return v.t
    if isinstance(v, (bool, bdd.B)):
        return ("b", v)
    if isinstance(v, StructV):
        return ("S", v.path[-1]) + tuple((k, freeze(v.f[k])) for k in sorted(v.f))
    if isinstance(v, EnumV):
        p = v.p
        return ("E", v.path[-1], v.var) + (tuple((k, freeze(p[k])) for k in sorted(p)) if isinstance(p, dict) else tuple(freeze(x) for x in p))
    if isinstance(v, tuple):
        return ("t",) + tuple(freeze(x) for x in v)
    if isinstance(v, VecV):
        return ("V",) + tuple(freeze(x) for x in v.xs)
    if isinstance(v, IterV):
        return ("V",) + tuple(freeze(x) for x in v.xs)
    if isinstance(v, str):
        return ("s", v)
    if isinstance(v, GateV):
        return mkT("ite", (v.c, freeze(v.a), freeze(v.b)))
    if isinstance(v, RefV):
        return freeze(v.place.get())
    if isinstance(v, RangeV):
        return ("r", freeze(v.lo), freeze(v.hi), v.incl)
    if isinstance(v, MapV):
        return ("M",) + tuple(sorted(((k, freeze(x[1])) for k, x in v.d.items()), key=lambda q: repr(q[0])))
    if isinstance(v, ClosureV):
        b = getattr(v, "b", None)
        return ("clo", id(v.node))
    if isinstance(v, FnV):
        return ("fn", fnname(v))
    if isinstance(v, DomainV):
        return v.key()
    if v is DEFAULT:
        return ("default",)
    if v is None:
        return ("none",)
    if isinstance(v, TypeV):
        return ("type", str(v.t))
    return ("py", repr(v))


def fnname(v):
    if v.kind == "item":
        return "::".join(v.x.get("path", (v.x["n"],))[-2:])
    if v.kind == "ctor":
        return "::".join(v.segs or ("ctor",))
    return "::".join(v.segs or ("?",))


def opaque(v):
    """value -> T (for building opaque applications)"""
    return v if isinstance(v, T) else freeze(v)


def val_is(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta is Int:
        return a.v == b.v and (a.ty == b.ty or a.ty is None or b.ty is None)
    if ta is BV:
        return a.t is b.t
    if ta is tuple:
        return len(a) == len(b) and all(val_is(x, y) for x, y in zip(a, b))
    if ta in (VecV, IterV):
        return len(a.xs) == len(b.xs) and all(val_is(x, y) for x, y in zip(a.xs, b.xs))
    if ta is StructV:
        return a.path == b.path and all(k in b.f and val_is(x, b.f[k]) for k, x in a.f.items())
    if ta is EnumV:
        if a.path[-1] != b.path[-1] or a.var != b.var:
            return False
        if isinstance(a.p, dict):
            return isinstance(b.p, dict) and all(val_is(x, b.p[k]) for k, x in a.p.items())
        return len(a.p) == len(b.p) and all(val_is(x, y) for x, y in zip(a.p, b.p))
    if ta is str:
        return a == b
    if ta is GateV:
        return a.c is b.c and val_is(a.a, b.a) and val_is(a.b, b.b)
    if ta is MapV:
        return a.d.keys() == b.d.keys() and all(val_is(x[1], b.d[k][1]) for k, x in a.d.items())
    if ta is RangeV:
        return a.incl == b.incl and val_is(a.lo, b.lo) and val_is(a.hi, b.hi)
    if ta is RefV:
        return a.place.key() == b.place.key()
    if isinstance(a, DomainV):
        return a.key() == b.key()
    return False


def merge(c, a, b):
    """value that is a when c else b"""
    if a is b or val_is(a, b):
        return a
    if c is True:
        return a
    if c is False:
        return b
    if is_bool(a) and is_bool(b):
        return bdd.ite(c, a, b)
    if (is_int(a) or a is DEFAULT) and (is_int(b) or b is DEFAULT) and not (a is DEFAULT and b is DEFAULT):
        ty = (a.ty if is_int(a) else None) or (b.ty if is_int(b) else None)
        if ty is None:
            return GateV(c, a, b)
        return bv(terms.ite(c, term_of(a, ty), term_of(b, ty)), ty)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, VecV) and isinstance(b, VecV) and len(a.xs) == len(b.xs):
        return VecV(merge(c, x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, StructV) and isinstance(b, StructV) and a.path == b.path and a.f.keys() == b.f.keys():
        return StructV(a.path, {k: merge(c, x, b.f[k]) for k, x in a.f.items()}, a.targs)
    if isinstance(a, EnumV) and isinstance(b, EnumV) and a.path[-1] == b.path[-1] and a.var == b.var:
        if isinstance(a.p, dict):
            return EnumV(a.path, a.var, {k: merge(c, x, b.p[k]) for k, x in a.p.items()})
        return EnumV(a.path, a.var, tuple(merge(c, x, y) for x, y in zip(a.p, b.p)))
    if isinstance(a, T) and isinstance(b, T):
        return mkT("ite", (c, a, b))
    if isinstance(a, DomainV) and hasattr(a, "merge"):
        r = a.merge(c, b, False)
        if r is not NotImplemented:
            return r
    return GateV(c, a, b)


def eq_values(care, a, b):
    """Equality of two abstract values on the care set (sound)."""
    if care is False or a is b or val_is(a, b):
        return True
    if isinstance(a, GateV):
        return eq_values(bdd.and_(care, a.c), a.a, b) and eq_values(bdd.and_(care, bdd.not_(a.c)), a.b, b)
    if isinstance(b, GateV):
        return eq_values(care, b, a)
    if isinstance(a, RefV):
        return eq_values(care, a.place.get(), b)
    if isinstance(b, RefV):
        return eq_values(care, a, b.place.get())
    if is_bool(a) and is_bool(b):
        return bdd.and_(care, bdd.xor(a, b)) is False
    if is_int(a) and is_int(b):
        ty = a.ty or b.ty
        if ty is None:
            return a.v == b.v
        if isinstance(a, Int) and isinstance(b, Int):
            return a.v == b.v
        return terms.eq_under(care, term_of(a, ty), term_of(b, ty))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eq_values(care, x, y) for x, y in zip(a, b))
    if isinstance(a, (VecV, IterV)) and isinstance(b, (VecV, IterV)):
        return len(a.xs) == len(b.xs) and all(eq_values(care, x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, StructV) and isinstance(b, StructV):
        return a.path[-1] == b.path[-1] and a.f.keys() == b.f.keys() and all(eq_values(care, x, b.f[k]) for k, x in a.f.items())
    if isinstance(a, EnumV) and isinstance(b, EnumV):
        if a.path[-1] != b.path[-1] or a.var != b.var:
            return False
        if isinstance(a.p, dict):
            return isinstance(b.p, dict) and all(eq_values(care, x, b.p[k]) for k, x in a.p.items())
        return len(a.p) == len(b.p) and all(eq_values(care, x, y) for x, y in zip(a.p, b.p))
    if isinstance(a, DomainV) and hasattr(a, "equals"):
        return a.equals(care, b)
    fa, fb = freeze(a), freeze(b)
    if fa == fb:
        return True
    if isinstance(fa, T) and isinstance(fb, T):
        return terms.eq_under(care, fa, fb)
    return terms._eq_arg(care, fa, fb, 0)


def eqv(care, a, b):
    """eq_values, retried under the order axioms of the atoms involved"""
    if eq_values(care, a, b):
        return True
    ax = terms.axioms(care, freeze(a), freeze(b))
    return ax is not True and eq_values(bdd.and_(care, ax), a, b)


def cap(k):
    """the analysis only lists sequences of moderate length"""
    if k.v > 1 << 21:
        raise ValueError(f"a sequence of {k.v} elements")
    return k.v
