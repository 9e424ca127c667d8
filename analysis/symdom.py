"""Abstract maps, sets and arrays with symbolic keys: base contents plus an
ordered list of writes; look-ups are resolved by the difference of keys."""
import bdd
import terms
from program import PRIMS, AnalysisError
from terms import mkT
from values import *


class SymMap(DomainV):
    """kind: 'map' (Option reads), 'arr' (total, zero-extended key), 'set'."""

    def __init__(self, base, kind, kty, valf=None, writes=(), has=None):
        self.base, self.kind, self.kty, self.valf, self.writes = base, kind, kty, valf, tuple(writes)
        self.hasf = has
        self._ix = None

    def __repr__(self):
        return f"{self.base}{{{', '.join(f'{terms.show(k)}:={v!r}' for k, v in self.writes)}}}"

    def _with(self, writes):
        return SymMap(self.base, self.kind, self.kty, self.valf, writes, self.hasf)

    def k(self, v):
        t = term_of(v, v.ty or self.kty) if is_int(v) else None
        if t is None:
            raise AnalysisError(f"key of {self.base}: {v!r}"[:200])
        w = PRIMS[self.kty]
        return terms.trunc(t, w) if t.w > w else terms.zext(t, w) if t.w < w else t

    # ---------------------------------------------------------------- reading
    def base_has(self, k):
        if self.kind == "arr":
            return True
        if self.hasf is not None:
            return self.hasf(k)
        return bdd.var(("in", self.base, k))

    def base_val(self, k):
        return self.valf(k) if self.valf else UNIT

    def index(self):
        if self._ix is None:
            self._ix = {}
            for wk, wv in self.writes:
                b, o = split_const(wk)
                self._ix.setdefault(b, {})[o] = wv
        return self._ix

    def lookup(self, k):
        """(present condition, value)"""
        ix = self.index()
        b, o = split_const(k)
        if not ix or (len(ix) == 1 and b in ix):
            if not ix or o not in ix[b]:
                return self.base_has(k), self.base_val(k)
            v = ix[b][o]
            return (False, self.base_val(k)) if v is None else (True, v)
        has, val = self.base_has(k), self.base_val(k)
        for wk, wv in self.writes:
            c = terms.eq(k, wk)
            if c is False:
                continue
            if wv is None:
                has = bdd.and_(has, bdd.not_(c))
                continue
            has = bdd.or_(has, c)
            val = merge(c, wv, val)
        return has, val

    def store(self, k, v):
        b, o = split_const(k)
        if not (b in self.index() and o in self._ix[b]):
            r = self._with(self.writes + ((k, v),))
            r._ix = {**self._ix, b: {**self._ix.get(b, {}), o: v}}
            return r
        ws = [(wk, wv) for wk, wv in self.writes if wk is not k]
        return self._with(ws + [(k, v)])

    # -------------------------------------------------------------- interface
    def method(self, I, name, args, hint, place):
        def opt(h, v):
            return merge(h, Some(v), NONE)
        if name in ("get", "get_mut"):
            a = I.deref(args[0])
            h, v = self.lookup(self.k(a))
            if isinstance(a, GateV):
                raise AnalysisError("gated key")
            return opt(h, v)
        if name == "index":
            a = args[0]
            if isinstance(a, RangeV):
                return NotImplemented
            h, v = self.lookup(self.k(I.deref(a)))
            I.panic_if(bdd.not_(h), "index", f"key missing in {self.base}", None, None)
            return v
        if name == "set_index":
            return self.store(self.k(I.deref(args[0])), args[1])
        if name in ("contains", "contains_key"):
            return self.lookup(self.k(I.deref(args[0])))[0]
        if name == "insert" and place is not None:
            k = self.k(I.deref(args[0]))
            h, v = self.lookup(k)
            place.set(self.store(k, args[1] if self.kind == "map" else UNIT))
            return opt(h, v) if self.kind == "map" else bdd.not_(h)
        if name == "update":
            return self.store(self.k(I.deref(args[0])), args[1] if len(args) > 1 else UNIT)
        if name == "remove" and place is not None:
            k = self.k(I.deref(args[0]))
            h, v = self.lookup(k)
            place.set(self.store(k, None))
            return opt(h, v) if self.kind == "map" else h
        if name in ("clone", "as_ref", "borrow", "to_owned", "as_slice", "as_mut"):
            return self
        if name == "len" and self.kind == "arr":
            return NotImplemented
        return NotImplemented

    def canon(self):
        ws = []
        for i, (k, v) in enumerate(self.writes):
            ws.append((k, freeze(v) if v is not None else None))
        # order is irrelevant between provably distinct keys
        distinct = all(terms.eq(a[0], b[0]) is False for i, a in enumerate(ws) for b in ws[:i]) if len(ws) <= 64 else _const_offsets(ws)
        if distinct:
            ws.sort(key=lambda x: x[0].id)
        return tuple(ws)

    def key(self):
        return ("symmap", self.base) + self.canon()

    def equals(self, care, o):
        if isinstance(o, RefV):
            o = o.place.get()
        if isinstance(o, GateV):
            return self.equals(bdd.and_(care, o.c), o.a) and self.equals(bdd.and_(care, bdd.not_(o.c)), o.b)
        if care is False:
            return True
        if not isinstance(o, SymMap) or o.base != self.base:
            return False
        if self.canon() == o.canon():
            return True
        # extensionally: every key written on either side reads the same
        for k, _ in self.writes + o.writes:
            h1, v1 = self.lookup(k)
            h2, v2 = o.lookup(k)
            if bdd.and_(care, bdd.xor(h1, h2)) is not False:
                return False
            if not eq_values(bdd.and_(care, h1), v1, v2):
                return False
        return True


def split_const(k):
    """key term -> (symbolic part, constant offset)"""
    r = _split.get(k.id)
    if r is None:
        p = terms.to_poly(k)
        c = p.get((), 0) if isinstance(p, dict) else 0
        if terms.is_const(k):
            r = (None, terms.cval(k))
        elif c:
            r = (terms.sub(k, terms.const(c, k.w)).id, c)
        else:
            r = (k.id, 0)
        _split[k.id] = r
    return r


_split = {}


def _const_offsets(ws):
    seen = set()
    b = None
    for k, _ in ws:
        d = terms.sub(k, ws[0][0])
        if not terms.is_const(d):
            return False
        if terms.cval(d) in seen:
            return False
        seen.add(terms.cval(d))
    return True


def regfile(name="x"):
    return SymMap(name, "arr", "u64", lambda k: BV(mkT("reg", (name, k), 32), "u32"))


def bytemap(name="mem"):
    return SymMap(name, "map", "u32", lambda k: BV(mkT("byte", (name, k), 8), "u8"))


def keyset(name):
    return SymMap(name, "set", "u32")


class KeyTok(DomainV):
    """the fixed key a pointwise map is seen at; usable only as a key"""

    def __init__(self, at):
        self.at = at

    def key(self):
        return ("keytok",)

    def method(self, I, name, args, hint, place):
        return self if name in ("clone", "copied", "cloned", "to_owned", "borrow") else NotImplemented


class PMap(DomainV):
    """A map (or set) seen at one fixed symbolic key: whether the key is present
    and with which value.  Exact for every operation that acts key by key."""

    def __init__(self, has, val=UNIT):
        self.has, self.val = has, val

    def generic(self, I):
        k = KeyTok(self)
        acc = lambda: PMap(False, UNIT)
        acc.kind = PMap
        return (k if self.val is UNIT else (k, self.val)), self.has, acc

    def merge(self, c, o, sw):
        if not isinstance(o, PMap):
            return NotImplemented
        v = self.val if o.has is False else o.val if self.has is False else merge(c, self.val, o.val)
        return PMap(bdd.ite(c, self.has, o.has), v)

    def __repr__(self):
        return f"PMap({self.has!r}, {self.val!r})"

    def key(self):
        return ("pmap", self.has, freeze(self.val))

    def over(self, top):
        """entries of `top` win"""
        return PMap(bdd.or_(self.has, top.has), self.val if top.has is False else merge(top.has, top.val, self.val))

    @staticmethod
    def of(I, v):
        v = I.deref(v)
        if isinstance(v, PMap):
            return v
        if isinstance(v, IterV):
            m = PMap(False, UNIT)
            for x in v.xs:
                m = m.over(PMap.of(I, x))
            return m
        if isinstance(v, StructV) and list(v.f) == ["0"]:
            return PMap.of(I, v.f["0"])
        if isinstance(v, MapV) and not v.d:
            return PMap(False, UNIT)
        raise AnalysisError(f"not a pointwise map: {v!r}"[:200])

    def method(self, I, name, args, hint, place):
        if name in ("insert", "get", "contains", "contains_key", "remove") and args and isinstance(I.deref(args[0]), KeyTok):
            old = merge(self.has, Some(self.val), NONE) if self.val is not UNIT else self.has
            if name == "insert" and place is not None:
                place.set(PMap(True, args[1] if len(args) > 1 else UNIT))
                return old if len(args) > 1 else bdd.not_(self.has)
            if name == "remove" and place is not None:
                place.set(PMap(False, UNIT))
                return old
            if name == "get":
                return old
            if name in ("contains", "contains_key"):
                return self.has
        if name == "for_each":
            return NotImplemented
        if name in ("clone", "into_iter", "iter", "collect", "copied", "cloned", "into", "to_owned", "iter_mut", "as_ref", "borrow", "by_ref", "into", "fuse"):
            return self
        if name in ("keys", "into_keys"):
            return PMap(self.has, UNIT)
        if name in ("extend", "append"):
            place.set(self.over(PMap.of(I, args[0])))
            return UNIT
        if name == "union":
            return PMap.of(I, args[0]).over(self)
        if name == "chain":
            return self.over(PMap.of(I, args[0]))
        if name in ("union_with", "intersection", "difference", "relative_complement", "symmetric_difference", "without"):
            o = PMap.of(I, args[0])
            if name == "intersection":
                return PMap(bdd.and_(self.has, o.has), self.val)
            if name in ("difference", "relative_complement"):
                return PMap(bdd.and_(self.has, bdd.not_(o.has)), self.val)
        if name == "flat_map" or name == "map":
            return NotImplemented
        return NotImplemented


def pmap_hooks(I):
    def flat_map(I_, v, place, args, hint, node, env):
        xs = v.xs if isinstance(v, (IterV, VecV)) else None
        if xs is None or not xs or not all(isinstance(I_.deref(x), (PMap, StructV)) for x in xs):
            return NotImplemented
        rs = [I_.deref(I_.call(args[0], [x])) for x in xs]
        if all(isinstance(r, PMap) for r in rs):
            m = PMap(False, UNIT)
            for r in rs:
                m = m.over(r)
            return m
        return NotImplemented
    I.methods["flat_map"] = flat_map

    def flatten(I_, v, place, args, hint, node, env):
        xs = v.xs if isinstance(v, (IterV, VecV)) else None
        if xs and all(isinstance(I_.deref(x), PMap) for x in xs):
            m = PMap(False, UNIT)
            for r in xs:
                m = m.over(I_.deref(r))
            return m
        return NotImplemented
    I.methods["flatten"] = flatten

    def extend(I_, v, place, args, hint, node, env):
        o = I_.deref(args[0])
        if isinstance(v, MapV) and not v.d and isinstance(o, PMap) and place is not None:
            place.set(o)
            return UNIT
        return NotImplemented
    I.methods["extend"] = extend
    for t in ("HashMap", "BTreeMap", "HashSet", "IntoIterator", "Iterator"):
        for n in ("into_iter", "iter", "clone", "from", "from_iter"):
            def f(I_, vs, h, e, n_):
                v = I_.deref(vs[0])
                return PMap.of(I_, v) if isinstance(v, PMap) or isinstance(v, IterV) and v.xs and all(isinstance(I_.deref(x), PMap) for x in v.xs) else NotImplemented
            I.intrinsics[f"{t}::{n}"] = f
    for t in ("HashMap", "HashSet"):
        I.intrinsics[f"{t}::union"] = lambda I_, vs, h, e, n_: PMap.of(I_, vs[1]).over(PMap.of(I_, vs[0]))

    def unions(I_, vs, h, e, n_):
        v = I_.deref(vs[0])
        if not isinstance(v, IterV):
            return NotImplemented
        m = PMap(False, UNIT)
        for x in reversed(v.xs):
            m = m.over(PMap.of(I_, x))
        return m
    I.intrinsics["HashMap::unions"] = I.intrinsics["HashSet::unions"] = unions
