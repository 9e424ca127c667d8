"""Polynomials over the Goldilocks field as an abstract domain: the exact normal form of every arithmetic expression over named columns."""
import bdd
from program import AnalysisError
from values import *

PR = 0xFFFFFFFF00000001
_ids, _names = {}, []


def vid(name):
    i = _ids.get(name)
    if i is None:
        i = _ids[name] = len(_names)
        _names.append(name)
    return i


def vname(i):
    return _names[i]


class FPoly(DomainV):
    __slots__ = ("p", "_key")

    def __init__(self, p):
        self.p = p
        self._key = None

    @staticmethod
    def const(c):
        c %= PR
        return FPoly({(): c} if c else {})

    @staticmethod
    def var(name):
        return FPoly({(vid(name),): 1})

    def key(self):
        if self._key is None:
            self._key = ("fpoly", frozenset(self.p.items()))
        return self._key

    def __repr__(self):
        return show(self.p)

    def __eq__(self, o):
        return isinstance(o, FPoly) and self.p == o.p

    def __hash__(self):
        return hash(self.key())

    def degree(self, skip=()):
        return max((sum(1 for v in m if v not in skip) for m in self.p), default=0)

    def add(self, o, k=1):
        r = dict(self.p)
        for m, c in o.p.items():
            x = (r.get(m, 0) + k * c) % PR
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return FPoly(r)

    def mul(self, o):
        if len(self.p) * len(o.p) > 4_000_000:
            raise AnalysisError("constraint polynomial too large")
        r = {}
        for m, c in self.p.items():
            for n, d in o.p.items():
                k = tuple(sorted(m + n)) if m and n else m or n
                r[k] = (r.get(k, 0) + c * d) % PR
        return FPoly({m: c for m, c in r.items() if c})

    def scale(self, k):
        k %= PR
        return FPoly({m: c * k % PR for m, c in self.p.items()} if k else {})

    # Python-side convenience for references
    def __add__(self, o):
        return self.add(lift(o))
    __radd__ = __add__

    def __sub__(self, o):
        return self.add(lift(o), -1)

    def __rsub__(self, o):
        return lift(o).add(self, -1)

    def __mul__(self, o):
        return self.mul(lift(o))
    __rmul__ = __mul__

    def __neg__(self):
        return self.scale(-1)

    def __pow__(self, n):
        r = FPoly.const(1)
        for _ in range(n):
            r = r.mul(self)
        return r

    # ----------------------------------------------------------- domain hooks
    def binop(self, I, op, other, swapped):
        if isinstance(other, GateV):
            return merge(other.c, *[I.binop(op, x, self) if swapped else I.binop(op, self, x) for x in (other.a, other.b)])
        o = fof(other)
        if o is None:
            return NotImplemented
        if op in ("==", "!=") and getattr(I, "fpoly_eq", None):
            r = I.fpoly_eq(self.add(o, -1))
            return r if op == "==" else bdd.not_(r)
        if op == "+":
            return self.add(o)
        if op == "*":
            return self.mul(o)
        if op == "-":
            return o.add(self, -1) if swapped else self.add(o, -1)
        if op == "==":
            return feq(self, o) if getattr(I, "sym_feq", False) else self.p == o.p
        if op == "!=":
            return bdd.not_(feq(self, o)) if getattr(I, "sym_feq", False) else self.p != o.p
        return NotImplemented

    def unop(self, I, op):
        return self.scale(-1) if op == "-" else NotImplemented

    def method(self, I, name, args, hint, place):
        if name in ("clone", "copied", "cloned", "to_owned", "into", "borrow", "as_ref", "unwrap"):
            return self
        if name == "type_score":
            return 0 if isinstance(args[0], tuple) and args[0][-1] != "Expr" else 1
        if name in ("neg",):
            return self.scale(-1)
        h = getattr(I, "fpoly_pre", None)
        if h:
            r = h(I, self, name, args, hint, place)
            if r is not NotImplemented:
                return r
        if name == "scalar_mul":
            name = "mul"
        if name in ("add", "sub", "mul"):
            o = fof(I.deref(args[0]))
            return NotImplemented if o is None else {"add": self.add, "sub": lambda x: self.add(x, -1), "mul": self.mul}[name](o)
        if name in ("is_zero", "is_nonzero", "is_one"):
            r = feq(self, FPoly.const(int(name == "is_one")))
            return bdd.not_(r) if name == "is_nonzero" else r
        if name in ("inverse", "try_inverse"):
            return inverse(self)
        if name in ("square", "cube"):
            return self.mul(self) if name == "square" else self.mul(self).mul(self)
        if name in ("add_assign", "sub_assign", "mul_assign") and place is not None:
            o = fof(I.deref(args[0]))
            place.set({"a": self.add, "s": lambda x: self.add(x, -1), "m": self.mul}[name[0]](o))
            return UNIT
        if name in ("exp_u64", "exp_power_of_2"):
            k = I.deref(args[0])
            if isinstance(k, Int) and k.v <= 64:
                return self ** (k.v if name == "exp_u64" else 1 << k.v)
        h = getattr(I, "fpoly_method", None)
        return h(I, self, name, args, hint, place) if h else NotImplemented


def feq(a, b):
    """a == b as a condition: an atom on the difference, scaled to be monic"""
    d = a.add(b, -1).p
    if not d:
        return True
    if len(d) == 1 and () in d:
        return False
    inv = pow(d[max(d, key=mono_key)], PR - 2, PR)
    return bdd.var(("feq", frozenset((m, c * inv % PR) for m, c in d.items())))


def inverse(a):
    if not a.p or len(a.p) == 1 and () in a.p:
        return FPoly.const(pow(a.p.get((), 0), PR - 2, PR))
    if len(a.p) == 1 and len(next(iter(a.p))) == 1:
        n = vname(next(iter(a.p))[0])
        if isinstance(n, tuple) and n[:1] == ("inv",) and next(iter(a.p.values())) == 1:
            return FPoly(dict(n[1][1]))
    c = pow(a.p[max(a.p, key=mono_key)], PR - 2, PR)
    return FPoly.var(("inv", a.scale(c).key())).scale(c)


def lift(v):
    if isinstance(v, FPoly):
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return FPoly.const(v)
    raise AnalysisError(f"not a field element: {v!r}"[:200])


def fof(v):
    if isinstance(v, FPoly):
        return v
    if isinstance(v, Int):
        return FPoly.const(v.v)
    if v is DEFAULT:
        return FPoly.const(0)
    if isinstance(v, EnumV) and v.path[-1] == "Expr" and v.var == "Basic":
        return fof(v.p["value"] if isinstance(v.p, dict) else v.p[0])
    return None


def show(p, n=14):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda x: (-len(x[0]), x[0]))[:n]:
        c = c if c <= PR // 2 else c - PR
        s = "*".join(str(_names[v]) for v in m)
        out.append((f"{c:+d}" if not m or abs(c) != 1 else "+" if c > 0 else "-") + (("*" if abs(c) != 1 else "") + s if m else ""))
    return " ".join(out) + (f" … ({len(p)} terms)" if len(p) > n else "")


class Span:
    """Linear span over the field of a list of polynomials (row echelon form)."""

    def __init__(self, ps=()):
        self.rows = {}   # leading monomial -> normalised poly dict
        for p in ps:
            self.insert(p)

    def reduce(self, p):
        p = dict(p)
        todo = sorted(p, key=mono_key)
        import heapq
        heap = [(_neg(mono_key(m)), m) for m in p]
        heapq.heapify(heap)
        out = {}
        while heap:
            _, m = heapq.heappop(heap)
            c = p.pop(m, 0)
            if not c:
                continue
            r = self.rows.get(m)
            if r is None:
                out[m] = c
                continue
            for k, d in r.items():
                if k == m:
                    continue
                x = (p.get(k, 0) - c * d) % PR
                if x:
                    if k not in p:
                        heapq.heappush(heap, (_neg(mono_key(k)), k))
                    p[k] = x
                else:
                    p.pop(k, None)
        return out

    def insert(self, p):
        r = self.reduce(p)
        if not r:
            return False
        lead = max(r, key=mono_key)
        inv = pow(r[lead], PR - 2, PR)
        r = {m: c * inv % PR for m, c in r.items()}
        self.rows[lead] = r
        return True

    def has(self, p):
        return not self.reduce(p)


def mono_key(m):
    return (len(m), m)


class _neg:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return self.k > o.k

    def __eq__(self, o):
        return self.k == o.k


class LinV(DomainV):
    """Affine form over the columns of the current ('l') and next ('n') row with integer coefficients."""
    __slots__ = ("c", "k")

    def __init__(self, c, k=0):
        self.c, self.k = {x: y for x, y in c.items() if y}, k

    def key(self):
        return ("lin", frozenset(self.c.items()), self.k)

    def __eq__(self, o):
        return isinstance(o, LinV) and self.c == o.c and self.k == o.k

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = " ".join(f"{v:+d}*{'' if k[0] == 'l' else 'next '}{k[1]}" for k, v in sorted(self.c.items(), key=str))
        return (s + (f" {self.k:+d}" if self.k or not s else "")).strip()

    def add(self, o, k=1):
        c = dict(self.c)
        for x, y in o.c.items():
            c[x] = c.get(x, 0) + k * y
        return LinV(c, self.k + k * o.k)

    def scale(self, k):
        return LinV({x: y * k for x, y in self.c.items()}, self.k * k)

    def __add__(self, o):
        return self.add(llift(o))
    __radd__ = __add__

    def __sub__(self, o):
        return self.add(llift(o), -1)

    def __rsub__(self, o):
        return llift(o).add(self, -1)

    def __mul__(self, k):
        return self.scale(k)
    __rmul__ = __mul__

    def __neg__(self):
        return self.scale(-1)

    def flip(self):
        return LinV({("n" if x[0] == "l" else "l", x[1]): y for x, y in self.c.items()}, self.k)

    def binop(self, I, op, other, swapped):
        o = lof(other)
        if o is None:
            return NotImplemented
        if op == "+":
            return self.add(o)
        if op == "-":
            return o.add(self, -1) if swapped else self.add(o, -1)
        if op == "*":
            if not o.c:
                return self.scale(o.k)
            if not self.c:
                return o.scale(self.k)
        if op == "==":
            return self == o
        return NotImplemented

    def unop(self, I, op):
        return self.scale(-1) if op == "-" else LinV({}, 1).add(self, -1) if op == "!" else NotImplemented

    def method(self, I, name, args, hint, place):
        if name in ("clone", "copied", "cloned", "to_owned", "into", "borrow", "as_ref"):
            return self
        if name == "flip":
            return self.flip()
        if name == "diff":
            return self.flip().add(self, -1)
        if name == "neg":
            return self.scale(-1)
        if name == "not":
            return LinV({}, 1).add(self, -1)
        if name in ("add", "sub"):
            o = lof(I.deref(args[0]))
            return NotImplemented if o is None else self.add(o, 1 if name == "add" else -1)
        return NotImplemented


def llift(v):
    return v if isinstance(v, LinV) else LinV({}, v)


def lof(v):
    if isinstance(v, LinV):
        return v
    if isinstance(v, Int):
        return LinV({}, v.v)
    if v is DEFAULT:
        return LinV({}, 0)
    return None
