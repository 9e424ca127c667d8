"""Word-level value numbering: hash-consed terms with a ring / bit normal form.

The abstract values of integer expressions.  `+ - *` and shifts by constants
are kept as polynomials modulo 2^w, bitwise operations as vectors of BDDs over
the bits of their operands, comparisons as BDD atoms; so terms that differ only
in how the source spells them (operand order, `<<` vs `*`, masks, casts,
if/match, early returns) are the same object.
"""
import bdd

_tab = {}
_cnt = [0]


class T:
    """Interned term. w = width in bits for integer terms, None for opaque."""
    __slots__ = ("op", "args", "w", "id", "_bits")

    def __repr__(self):
        return show(self)


def mkT(op, args, w=None):
    k = (op, args, w)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.w = op, args, w
        _cnt[0] += 1
        t.id = _cnt[0]
        t._bits = None
        _tab[k] = t
    return t


def var(name, w=None):
    return mkT("var", (name,), w)


def const(v, w):
    return mkT("const", (v & ((1 << w) - 1),), w)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def scval(t):
    v = t.args[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


# ---------------------------------------------------------------- bit vectors
def bits(t):
    if t._bits is None:
        o = t.op
        if o == "const":
            r = tuple(bool((t.args[0] >> i) & 1) for i in range(t.w))
        elif o == "bits":
            r = t.args
        elif o == "zext":
            b = bits(t.args[0])
            r = b + (False,) * (t.w - len(b))
        elif o == "sext":
            b = bits(t.args[0])
            r = b + (b[-1],) * (t.w - len(b))
        elif o == "ite":
            c, a, b = t.args
            r = tuple(bdd.ite(c, x, y) for x, y in zip(bits(a), bits(b)))
        elif o == "poly" and t.w > 32:
            # low bits are named at the narrowest of 32/64/128 bits (ring homomorphism)
            n = 64 if t.w > 64 else 32
            low = bits(trunc(t, n))
            r = low + tuple(bdd.var(("bit", t, i)) for i in range(n, t.w))
            s = _sign_of_difference(t)
            if s is not None:
                r = r[:-1] + (s,)
        else:
            r = tuple(bdd.var(("bit", t, i)) for i in range(t.w))
        t._bits = r
    return t._bits


def _sign_of_difference(t):
    """the sign of x - y, when the difference cannot overflow, is x < y"""
    if len(t.args) != 2:
        return None
    (k1, c1), (k2, c2) = t.args
    if len(k1) != 1 or len(k2) != 1 or {c1, c2} != {1, (1 << t.w) - 1}:
        return None
    x, y = (k1[0], k2[0]) if c1 == 1 else (k2[0], k1[0])
    (a, b), (c, d) = rng(x, True), rng(y, True)
    h = 1 << (t.w - 1)
    if a - d < -h or b - c >= h:
        return None
    return slt(x, y)


def bitlike(t):
    return t.op in ("const", "bits") or (t.op in ("zext", "sext") and bitlike(t.args[0]))


def from_bits(bs):
    bs = tuple(bs)
    w = len(bs)
    if all(isinstance(b, bool) for b in bs):
        return const(sum(1 << i for i, b in enumerate(bs) if b), w)
    # whole word (or its extension) in disguise
    b0 = bs[0]
    if isinstance(b0, bdd.B) and b0.hi is True and b0.lo is False:
        a = bdd.atom_of(b0.v)
        if a[0] == "bit" and a[2] == 0:
            src = a[1]
            sb = bits(src)
            if len(sb) <= w and bs[:len(sb)] == sb:
                rest = bs[len(sb):]
                if not rest:
                    return src
                if all(b is False for b in rest):
                    return mkT("zext", (src,), w)
                if all(b is sb[-1] for b in rest):
                    return mkT("sext", (src,), w)
    for j in (1, 2):
        bn = bs[-j] if w > j else None
        if isinstance(bn, bdd.B) and bn.hi is True and bn.lo is False:
            a = bdd.atom_of(bn.v)
            if a[0] == "bit" and a[1].op == "poly" and a[1].w == w and a[2] == w - j and bits(a[1]) == bs:
                return a[1]
    return mkT("bits", bs, w)


def bitop(f, a, b):
    return from_bits(f(x, y) for x, y in zip(bits(a), bits(b)))


def band(a, b):
    for x, y in ((a, b), (b, a)):
        # a low mask of a choice between words
        if is_const(y) and x.op == "ite" and cval(y) & (cval(y) + 1) == 0 and 0 < cval(y).bit_length() < x.w:
            return zext(trunc(x, cval(y).bit_length()), x.w)
    return bitop(lambda x, y: bdd.and_(x, y), a, b)


def bor(a, b):
    return bitop(lambda x, y: bdd.or_(x, y), a, b)


def bxor(a, b):
    return bitop(lambda x, y: bdd.xor(x, y), a, b)


def bnot(a):
    return from_bits(bdd.not_(x) for x in bits(a))


# ------------------------------------------------------------------ ring form
def to_poly(t):
    """dict: sorted tuple of factor terms -> coefficient mod 2^w"""
    if t.op == "const":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args)
    return {(t,): 1}


def from_poly(p, w):
    m = (1 << w) - 1
    p = {k: c & m for k, c in p.items() if c & m}
    if not p:
        return const(0, w)
    if len(p) == 1:
        (k, c), = p.items()
        if k == ():
            return const(c, w)
        if len(k) == 1 and c == 1:
            return k[0]
    return mkT("poly", tuple(sorted(p.items(), key=lambda kc: tuple(x.id for x in kc[0]))), w)


def add(a, b):
    # disjoint bit supports: an OR (only when one of them is bit-structured)
    if bitlike(a) and bitlike(b) and not (is_const(a) and is_const(b)):
        ba, bb = bits(a), bits(b)
        if all(x is False or y is False for x, y in zip(ba, bb)):
            return from_bits(y if x is False else x for x, y in zip(ba, bb))
    p = to_poly(a)
    for k, c in to_poly(b).items():
        p[k] = p.get(k, 0) + c
    return from_poly(p, a.w)


def neg(a):
    return from_poly({k: -c for k, c in to_poly(a).items()}, a.w)


def sub(a, b):
    if bitlike(b) and not is_const(b) and a is not b:
        # clearing bits: no borrow
        ba, bb = bits(a), bits(b)
        if all(y is False or y is x or x is True for x, y in zip(ba, bb)):
            return from_bits(x if y is False else False if y is x else bdd.not_(y) for x, y in zip(ba, bb))
    return add(a, neg(b)) if not is_const(b) else add(a, const(-cval(b), b.w))


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if is_const(x) and cval(x) and cval(x) & (cval(x) - 1) == 0 and bitlike(y) and not is_const(y):
            return shl(y, cval(x).bit_length() - 1)
    pa, pb = to_poly(a), to_poly(b)
    r = {}
    for k1, c1 in pa.items():
        for k2, c2 in pb.items():
            k = tuple(sorted(k1 + k2, key=lambda x: x.id))
            r[k] = r.get(k, 0) + c1 * c2
    return from_poly(r, a.w)


def shl(a, n):
    if n >= a.w:
        return const(0, a.w)
    if bitlike(a):
        return from_bits((False,) * n + bits(a)[:a.w - n])
    return from_poly({k: c << n for k, c in to_poly(a).items()}, a.w)


def lshr(a, n):
    if n >= a.w:
        return const(0, a.w)
    return from_bits(bits(a)[n:] + (False,) * n)


def ashr(a, n):
    b = bits(a)
    n = min(n, a.w - 1)
    return from_bits(b[n:] + (b[-1],) * n)


def vshift(op, a, amt):
    """op in shl/lshr/ashr; amt is a term already masked to log2(w) bits."""
    if is_const(amt):
        return {"shl": shl, "lshr": lshr, "ashr": ashr}[op](a, cval(amt))
    amt = trunc(zext(amt, 64) if amt.w < 64 else amt, 32)
    if op == "shl" and is_const(a) and cval(a) != 1:
        return mul(a, vshift(op, const(1, a.w), amt))
    if op == "shl" and not is_const(a):
        return mul(a, vshift(op, const(1, a.w), amt))
    return mkT(op, (a, amt), a.w)


def trunc(a, w):
    if a.w == w:
        return a
    if a.op == "const":
        return const(cval(a), w)
    if a.op in ("zext", "sext"):
        s = a.args[0]
        if s.w >= w:
            return trunc(s, w)
        return mkT(a.op, (s,), w)
    if a.op == "poly":
        if True:
            r = const(0, w)
            for k, c in a.args:
                t = const(c, w)
                for x in k:
                    t = mul(t, trunc(x, w))
                r = add(r, t)
            return r
    if a.op == "ite":
        return ite(a.args[0], trunc(a.args[1], w), trunc(a.args[2], w))
    return from_bits(bits(a)[:w])


def zext(a, w):
    if a.w == w:
        return a
    if a.op == "const":
        return const(cval(a), w)
    if a.op == "zext":
        return zext(a.args[0], w)
    if a.op == "bits":
        return from_bits(a.args + (False,) * (w - a.w))
    if a.op == "ite":
        return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    return mkT("zext", (a,), w)


def sext(a, w):
    if a.w == w:
        return a
    if a.op == "const":
        return const(scval(a), w)
    if a.op == "zext":
        return zext(a.args[0], w)
    if a.op == "sext":
        return sext(a.args[0], w)
    if a.op == "bits":
        return from_bits(a.args + (a.args[-1],) * (w - a.w))
    if a.op == "ite":
        return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return mkT("sext", (a,), w)


def from_bool(b, w):
    return from_bits((b,) + (False,) * (w - 1))


def ite(c, a, b):
    if c is True or a is b:
        return a
    if c is False:
        return b
    if bitlike(a) and bitlike(b):
        return from_bits(bdd.ite(c, x, y) for x, y in zip(bits(a), bits(b)))
    if a.op == "ite":
        if a.args[0] is c:
            a = a.args[1]
    if b.op == "ite":
        if b.args[0] is c:
            b = b.args[2]
    # order polarity
    n = bdd.not_(c)
    if isinstance(n, bdd.B) and n.id < c.id:
        c, a, b = n, b, a
    return mkT("ite", (c, a, b), a.w)


# ---------------------------------------------------------------- comparisons
def eq(a, b):
    if a is b:
        return True
    if a.op == "ite" and not bitlike(b):
        return bdd.ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and not bitlike(a):
        return bdd.ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == "ite" or b.op == "ite":
        x, y = (a, b) if a.op == "ite" else (b, a)
        return bdd.ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if a.op in ("zext", "sext") and b.op == a.op and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    if is_const(a) and is_const(b):
        return cval(a) == cval(b)
    if a.op == "shl" and is_const(b) and cval(b) == 0 and rng(a)[0] > 0 or b.op == "shl" and is_const(a) and cval(a) == 0 and rng(b)[0] > 0:
        return False
    for x, y in ((a, b), (b, a)):
        if x.op in ("zext", "sext") and is_const(y):
            k = trunc(y, x.args[0].w)
            return eq(x.args[0], k) if (zext if x.op == "zext" else sext)(k, y.w) is y else False
    if "poly" in (a.op, b.op) or not (bitlike(a) or bitlike(b)):
        d = sub(a, b)
        if is_const(d):
            return cval(d) == 0
        n = neg(d)
        if d.op == "poly" and n.op == "poly":
            d = min(d, n, key=lambda t: [(c, [x.id for x in k]) for k, c in t.args])
        elif n.op != "poly":
            d = n
        if d.op != "poly":
            return eq(d, const(0, d.w)) if not bitlike(d) else _eqbits(d, const(0, d.w))
        return bdd.var(("eq0", d))
    return _eqbits(a, b)


def _eqbits(a, b):
    # use the bit decomposition, narrow first so that the BDD stays linear
    r = True
    p = _xor_words(a, b)
    if p:
        return eq(*p)
    for x, y in zip(bits(a), bits(b)):
        r = bdd.and_(r, bdd.iff(x, y))
        if r is False:
            return False
    return r


def _xor_words(a, b):
    """a compared with zero where a is the exclusive or of two whole words: the two words"""
    if is_const(a):
        a, b = b, a
    if not (is_const(b) and cval(b) == 0) or a.op != "bits":
        return None
    ws = None
    for i, f in enumerate(a.args):
        if not isinstance(f, bdd.B) or isinstance(f.hi, bool) or isinstance(f.lo, bool) or f.hi is not bdd.not_(f.lo):
            return None
        p, q = bdd.atom_of(f.v), bdd.atom_of(f.lo.v)
        if f.lo.hi is not True or f.lo.lo is not False or p[0] != "bit" or q[0] != "bit" or p[2] != i or q[2] != i:
            return None
        s = {p[1], q[1]}
        if ws is None:
            ws = s
        if s != ws or len(s) != 2:
            return None
    x, y = ws
    return (x, y) if x.w == y.w == a.w else None


def rng(t, sg=False, d=0):
    """interval of the value read as (un)signed"""
    w = t.w
    full = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    if is_const(t):
        v = scval(t) if sg else cval(t)
        return v, v
    if d > 30:
        return full
    o = t.op
    if o == "zext":
        return rng(t.args[0], False, d + 1) if t.args[0].w < w else full
    if o == "sext":
        r = rng(t.args[0], True, d + 1)
        return r if sg or r[0] >= 0 else full
    if o == "ite":
        a, b = rng(t.args[1], sg, d + 1), rng(t.args[2], sg, d + 1)
        return min(a[0], b[0]), max(a[1], b[1])
    if o == "bits":
        bs = t.args
        lo = sum(1 << i for i, b in enumerate(bs) if b is True)
        hi = sum(1 << i for i, b in enumerate(bs) if b is not False)
        if not sg:
            return lo, hi
        if bs[-1] is False:
            return lo, hi
        return full
    if o == "poly":
        lo = hi = 0
        for k, c in t.args:
            if c >> (w - 1):
                c -= 1 << w
            l = h = 1
            for x in k:
                xl, xh = rng(x, sg, d + 1)
                q = (l * xl, l * xh, h * xl, h * xh)
                l, h = min(q), max(q)
            lo, hi = lo + min(c * l, c * h), hi + max(c * l, c * h)
        return (lo, hi) if full[0] <= lo and hi <= full[1] else full
    if o in ("udiv", "lshr") and not sg:
        return 0, rng(t.args[0], False, d + 1)[1]
    if o == "shl" and is_const(t.args[0]) and cval(t.args[0]) == 1 and rng(t.args[1])[1] < w - int(sg):
        return tuple(1 << x for x in rng(t.args[1]))
    if o == "urem" and not sg:
        a, b = rng(t.args[0], False, d + 1), rng(t.args[1], False, d + 1)
        return 0, (min(a[1], b[1] - 1) if b[0] > 0 else a[1])
    return full


def ult(a, b):
    if a is b:
        return False
    if is_const(a) and is_const(b):
        return cval(a) < cval(b)
    if is_const(b) and cval(b) == 0:
        return False
    if is_const(a) and cval(a) == (1 << a.w) - 1:
        return False
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return ult(a.args[0], b.args[0])
    if a.op == "zext" and is_const(b):
        n = a.args[0].w
        return True if cval(b) >> n else ult(a.args[0], const(cval(b), n))
    if b.op == "zext" and is_const(a):
        n = b.args[0].w
        return False if cval(a) >> n else ult(const(cval(a), n), b.args[0])
    if a.op == "ite":
        return bdd.ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if b.op == "ite":
        return bdd.ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
    ra, rb = rng(a), rng(b)
    if ra[1] < rb[0]:
        return True
    if ra[0] >= rb[1]:
        return False
    if is_const(a) or is_const(b):
        r = False
        for x, y in zip(bits(a), bits(b)):
            r = bdd.ite(bdd.xor(x, y), y, r)
        return r
    return bdd.var(("ult", a, b))


def slt(a, b):
    if a is b:
        return False
    if is_const(a) and is_const(b):
        return scval(a) < scval(b)
    for e, f in (("sext", slt), ("zext", ult)):
        if a.op == e and b.op == e and a.args[0].w == b.args[0].w:
            return f(a.args[0], b.args[0])
    if a.op == "ite":
        return bdd.ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if b.op == "ite":
        return bdd.ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    ra, rb = rng(a, True), rng(b, True)
    if ra[1] < rb[0] or ra[0] >= rb[1]:
        return ra[1] < rb[0]
    if is_const(a) or is_const(b):
        r = False
        ba, bb = bits(a), bits(b)
        for x, y in zip(ba[:-1], bb[:-1]):
            r = bdd.ite(bdd.xor(x, y), y, r)
        return bdd.ite(bdd.xor(ba[-1], bb[-1]), ba[-1], r)
    return bdd.var(("slt", a, b))


def divop(op, a, b):
    """op in udiv urem sdiv srem"""
    if is_const(a) and is_const(b) and cval(b):
        if op[0] == "u":
            return const(cval(a) // cval(b) if op == "udiv" else cval(a) % cval(b), a.w)
        x, y = scval(a), scval(b)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return const(q if op == "sdiv" else x - q * y, a.w)
    if is_const(b) and op[0] == "u" and cval(b) and cval(b) & (cval(b) - 1) == 0:
        n = cval(b).bit_length() - 1
        return lshr(a, n) if op == "udiv" else band(a, const(cval(b) - 1, a.w))
    # x / (1 << n)  ==  x >> n
    if op == "udiv" and b.op == "shl" and is_const(b.args[0]) and cval(b.args[0]) == 1:
        return mkT("lshr", (a, b.args[1]), a.w)
    return mkT(op, (a, b), a.w)


# ------------------------------------------------------------- rebuild / show
def atoms_terms(a):
    return [x for x in a if isinstance(x, T)]


def rebuild(t, f, g, memo):
    """Rebuild t with f applied to sub-terms and g to embedded BDDs."""
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o in ("const", "var"):
        r = t
    elif o == "bits":
        r = from_bits(g(b) for b in t.args)
    elif o == "poly":
        r = const(0, t.w)
        for k, c in t.args:
            m = const(c, t.w)
            for x in k:
                m = mul(m, f(x))
            r = add(r, m)
    elif o == "ite":
        c = g(t.args[0])
        if c is True:
            r = f(t.args[1])
        elif c is False:
            r = f(t.args[2])
        else:
            a, b = f(t.args[1]), f(t.args[2])
            r = ite(c, a, b) if isinstance(a, T) and a.w is not None else (a if a is b else mkT("ite", (c, a, b), None))
    elif o == "zext":
        r = zext(f(t.args[0]), t.w)
    elif o == "sext":
        r = sext(f(t.args[0]), t.w)
    elif o in ("udiv", "urem", "sdiv", "srem"):
        r = divop(o, f(t.args[0]), f(t.args[1]))
    elif o in ("shl", "lshr", "ashr"):
        r = vshift(o, f(t.args[0]), f(t.args[1]))
    else:
        r = mkT(o, rb_args(t.args, f, g), t.w)
    memo[t] = r
    return r


def rb_args(x, f, g):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(rb_args(y, f, g) for y in x)
    if isinstance(x, bdd.B):
        return g(x)
    return x


def cofactor_term(t, idx, val):
    memo = {}
    g = lambda b: bdd.cofactor(b, idx, val)
    f = lambda x: rebuild(x, f, g, memo)
    return f(t)


def cond_atoms(t, acc=None, seen=None):
    """Indices of atoms deciding `ite` nodes inside t (not bit vectors)."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "ite":
                bdd.support(x.args[0], acc)
                st.extend(x.args[1:])
            elif x.op != "bits":
                st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, bdd.B):
            bdd.support(x, acc)
    return acc


def const_cases(t, limit=8):
    """{value: condition} of a word that is one of few constants, or None"""
    out = {}

    def go(t, c):
        if c is False:
            return True
        if t.op == "const":
            out[cval(t)] = bdd.or_(out.get(cval(t), False), c)
            return len(out) <= limit
        if t.op == "ite":
            return go(t.args[1], bdd.and_(c, t.args[0])) and go(t.args[2], bdd.and_(c, bdd.not_(t.args[0])))
        if t.op == "zext":
            return t.args[0].op in ("bits", "ite") and go(from_bits(bits(t)), c)
        if t.op == "bits":
            s = set()
            for b in t.args:
                bdd.support(b, s)
                if len(s) > 10:
                    return False
            i = min(s)
            lit = bdd.mk(i, True, False)
            return go(cofactor_term(t, i, True), bdd.and_(c, lit)) and go(cofactor_term(t, i, False), bdd.and_(c, bdd.not_(lit)))
        return False
    return out if go(t, True) else None


def eq_under(care, a, b):
    """a and b equal on the care set, structurally or in the bit-level canonical form"""
    if _eq_under(care, a, b):
        return True
    if a.w is None or b.w is None or a.w != b.w:
        return False
    from blast import same
    return same(care, a, b)


def _eq_under(care, a, b, depth=0):
    """Are a and b equal on the whole care set?  (sound; complete up to the
    normal form: False may mean 'not shown equal')."""
    if a is b or care is False:
        return True
    if a.w is not None and b.w is not None and a.w != b.w:
        return False
    if a.w is not None and bitlike(a) and bitlike(b):
        return all(bdd.and_(care, bdd.xor(x, y)) is False for x, y in zip(bits(a), bits(b)))
    if depth > 40:
        return False
    at = cond_atoms(a) | cond_atoms(b)
    if not at:
        if a.op == b.op and a.w == b.w and len(a.args) == len(b.args) and a.op != "var":
            if a.op == "poly":
                # match monomials by equality under care
                if len(a.args) != len(b.args):
                    return False
                rest = list(b.args)
                for k, c in a.args:
                    for i, (k2, c2) in enumerate(rest):
                        if c == c2 and len(k) == len(k2) and _match(care, k, k2, depth):
                            rest.pop(i)
                            break
                    else:
                        return False
                return True
            return all(_eq_arg(care, x, y, depth) for x, y in zip(a.args, b.args))
        if a.w is not None and (bitlike(a) or bitlike(b)):
            return all(bdd.and_(care, bdd.xor(x, y)) is False for x, y in zip(bits(a), bits(b)))
        return False
    i = min(at)
    for v in (True, False):
        lit = bdd.mk(i, True, False)
        c = bdd.and_(care, lit if v else bdd.not_(lit))
        if c is False:
            continue
        if not _eq_under(c, cofactor_term(a, i, v), cofactor_term(b, i, v), depth + 1):
            return False
    return True


def _match(care, k, k2, depth):
    rest = list(k2)
    for x in k:
        for i, y in enumerate(rest):
            if _eq_under(care, x, y, depth + 1):
                rest.pop(i)
                break
        else:
            return False
    return True


def _eq_arg(care, x, y, depth):
    if x is y:
        return True
    if isinstance(x, T) and isinstance(y, T):
        return _eq_under(care, x, y, depth + 1)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(_eq_arg(care, p, q, depth) for p, q in zip(x, y))
    if isinstance(x, (bool, bdd.B)) and isinstance(y, (bool, bdd.B)):
        return bdd.and_(care, bdd.xor(x, y)) is False
    return x == y


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d + 1) for x in t) + ")"
    if isinstance(t, bdd.B):
        return bdd.show(t) if d < 6 else "{..}"
    if not isinstance(t, T):
        return str(t)
    if d > 8:
        return "..."
    o = t.op
    if o == "const":
        return hex(t.args[0]) if t.args[0] > 9 else str(t.args[0])
    if o == "var":
        return str(t.args[0])
    if o == "poly":
        return "(" + " + ".join((f"{_sc(c, t.w)}*" if c != 1 or not k else "") + "*".join(show(x, d + 1) for x in k)
                                for k, c in t.args) + ")"
    if o == "bits":
        return show_bits(t.args, d)
    if o == "ite":
        return f"({show(t.args[0], d+1)} ? {show(t.args[1], d+1)} : {show(t.args[2], d+1)})"
    return f"{o}({', '.join(show(x, d+1) for x in t.args)})"


def _sc(c, w):
    return str(c - (1 << w) if c >> (w - 1) else c)


def show_bits(bs, d=0):
    out = []
    i = 0
    while i < len(bs):
        b = bs[i]
        j = i
        s = None
        if isinstance(b, bool):
            while j + 1 < len(bs) and bs[j + 1] is b:
                j += 1
            s = f"{'1' if b else '0'}x{j-i+1}"
        elif b.hi is True and b.lo is False:
            a = bdd.atom_of(b.v)
            if a[0] == "bit":
                k = a[2]
                while j + 1 < len(bs) and isinstance(bs[j + 1], bdd.B) and bs[j + 1].hi is True and bs[j + 1].lo is False \
                        and bdd.atom_of(bs[j + 1].v)[0] == "bit" and bdd.atom_of(bs[j + 1].v)[1] is a[1] \
                        and bdd.atom_of(bs[j + 1].v)[2] == k + 1:
                    j += 1
                    k += 1
                s = f"{show(a[1], d+1)}[{a[2]}..{k}]"
        if s is None:
            s = bdd.show(b) if d < 4 else "{..}"
        out.append(s)
        i = j + 1
    return "<" + " ".join(out) + ">"


# ------------------------------------------------------------- order axioms
def axioms(*xs):
    """valid facts relating the comparison atoms that occur in the arguments
    (antisymmetry and trichotomy), as one BDD"""
    acc, seen, stk = set(), set(), list(xs)
    while stk:
        x = stk.pop()
        if isinstance(x, bdd.B):
            if x.id in seen:
                continue
            seen.add(x.id)
            for i in bdd.support(x):
                if i not in acc:
                    acc.add(i)
                    a = bdd.atom_of(i)
                    stk.extend(y for y in a if isinstance(y, (T, tuple)))
        elif isinstance(x, T):
            if id(x) in seen:
                continue
            seen.add(id(x))
            stk.extend(x.args)
        elif isinstance(x, tuple):
            stk.extend(x)
    r = True
    done = set()
    for i in acc:
        a = bdd.atom_of(i)
        if a[0] in ("ult", "slt"):
            x, y = a[1], a[2]
            key = (a[0],) + tuple(sorted((x.id, y.id)))
            if key in done:
                continue
            done.add(key)
            f = ult if a[0] == "ult" else slt
            e, l, g = eq(x, y), f(x, y), f(y, x)
            r = bdd.and_(r, bdd.not_(bdd.and_(l, e)), bdd.not_(bdd.and_(g, e)), bdd.not_(bdd.and_(l, g)), bdd.or_(e, l, g))
    return r
