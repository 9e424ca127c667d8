"""Reduced ordered binary decision diagrams over interned atoms.

Boolean abstract values.  A node is Python True/False or a `B` (var, hi, lo),
hash-consed, so two Boolean functions of the same atoms are equal iff they are
the same object.  Atoms are arbitrary hashable keys; their order is the order
of first use (or an explicit `declare`).
"""


class B:
    __slots__ = ("v", "hi", "lo", "id")

    def __init__(self, v, hi, lo, id):
        self.v, self.hi, self.lo, self.id = v, hi, lo, id

    def __repr__(self):
        return show(self)


_uniq = {}
_atoms = {}
_index = {}
limit = [9_000_000]


class Budget(Exception):
    """too many decision nodes: the question is given up, never answered"""

_ite = {}
_n = [0]
# Pairs of atoms known to be mutually exclusive, or implications, are handled
# by `axioms` (see terms.py): a care set conjoined to path conditions.


def atom_index(a):
    i = _index.get(a)
    if i is None:
        # bits of words are ordered by significance, so that sums and comparisons of words stay small
        i = len(_index)
        if isinstance(a, tuple) and len(a) == 3 and a[0] == "bit" and isinstance(a[2], int):
            i += (a[2] + 1) << 40
        _index[a] = i
        _atoms[i] = a
    return i


def atom_of(i):
    return _atoms[i]


def mk(v, hi, lo):
    if hi is lo:
        return hi
    k = (v, id(hi) if not isinstance(hi, bool) else hi, id(lo) if not isinstance(lo, bool) else lo)
    n = _uniq.get(k)
    if n is None:
        _n[0] += 1
        if _n[0] > limit[0]:
            raise Budget(f"more than {limit[0]} decision nodes")
        n = _uniq[k] = B(v, hi, lo, _n[0])
    return n


def var(a):
    return mk(atom_index(a), True, False)


def _cof(f, v):
    if isinstance(f, B) and f.v == v:
        return f.hi, f.lo
    return f, f


def ite(f, g, h):
    if f is True:
        return g
    if f is False:
        return h
    if g is h:
        return g
    if g is True and h is False:
        return f
    k = (f.id, g.id if isinstance(g, B) else g, h.id if isinstance(h, B) else h, isinstance(g, B), isinstance(h, B))
    r = _ite.get(k)
    if r is not None:
        return r
    v = f.v
    if isinstance(g, B) and g.v < v:
        v = g.v
    if isinstance(h, B) and h.v < v:
        v = h.v
    f1, f0 = _cof(f, v)
    g1, g0 = _cof(g, v)
    h1, h0 = _cof(h, v)
    r = mk(v, ite(f1, g1, h1), ite(f0, g0, h0))
    _ite[k] = r
    return r


def and_(*fs):
    r = True
    for f in fs:
        r = ite(r, f, False)
        if r is False:
            return False
    return r


def or_(*fs):
    r = False
    for f in fs:
        r = ite(r, True, f)
        if r is True:
            return True
    return r


def not_(f):
    return ite(f, False, True)


def xor(f, g):
    return ite(f, not_(g), g)


def iff(f, g):
    return ite(f, g, not_(g))


def implies(f, g):
    return ite(f, g, True)


def restrict(f, c):
    """Coudert-Madre restrict: simplify f under care set c (c not False)."""
    if isinstance(f, bool) or c is True or c is False:
        return f
    memo = {}

    def go(f, c):
        if isinstance(f, bool) or c is True:
            return f
        k = (f.id, c.id)
        r = memo.get(k)
        if r is not None:
            return r
        if c.v < f.v:
            r = go(f, or_(c.hi, c.lo))
        elif c.v > f.v:
            r = mk(f.v, go(f.hi, c), go(f.lo, c))
        elif c.hi is False:
            r = go(f.lo, c.lo)
        elif c.lo is False:
            r = go(f.hi, c.hi)
        else:
            r = mk(f.v, go(f.hi, c.hi), go(f.lo, c.lo))
        memo[k] = r
        return r

    return go(f, c)


def support(f, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [f]
    while st:
        x = st.pop()
        if isinstance(x, B) and x.id not in seen:
            seen.add(x.id)
            acc.add(x.v)
            st.append(x.hi)
            st.append(x.lo)
    return acc


def cofactor(f, idx, val):
    memo = {}

    def go(f):
        if isinstance(f, bool) or f.v > idx:
            return f
        r = memo.get(f.id)
        if r is None:
            if f.v == idx:
                r = f.hi if val else f.lo
            else:
                r = mk(f.v, go(f.hi), go(f.lo))
            memo[f.id] = r
        return r

    return go(f)


def one_cube(f):
    """Some satisfying cube of f as [(atom, bool)] (f is not False)."""
    out = []
    while isinstance(f, B):
        if f.hi is not False:
            out.append((_atoms[f.v], True))
            f = f.hi
        else:
            out.append((_atoms[f.v], False))
            f = f.lo
    return out


class budget:
    """with budget(n): allow n more nodes"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = limit[0]
        limit[0] = min(self.old, _n[0] + self.n)

    def __exit__(self, t, v, tb):
        limit[0] = self.old


def cubes(f, limit=64):
    out = []

    def go(f, acc):
        if len(out) >= limit or f is False:
            return
        if f is True:
            out.append(list(acc))
            return
        go(f.hi, acc + [(_atoms[f.v], True)])
        go(f.lo, acc + [(_atoms[f.v], False)])

    go(f, [])
    return out


def sat_count(f, nvars):
    memo = {}

    def go(f):  # fraction
        if f is True:
            return 1.0
        if f is False:
            return 0.0
        r = memo.get(f.id)
        if r is None:
            r = memo[f.id] = (go(f.hi) + go(f.lo)) / 2
        return r

    return go(f) * (1 << nvars)


def show(f):
    if isinstance(f, bool):
        return str(f)
    cs = cubes(f, 5)
    s = " | ".join("&".join(("" if b else "!") + _sa(a) for a, b in c) for c in cs[:4])
    return "{" + s + (" | ..." if len(cs) > 4 else "") + "}"


def _sa(a):
    return str(a)
