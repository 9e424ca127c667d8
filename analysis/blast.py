"""Bit-level canonical form of word terms: sums become ripple-carry BDDs over the bits of the leaf variables."""
import bdd
import terms


def blast(t, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o == "poly":
        acc = [False] * t.w
        for ks, c in t.args:
            if len(ks) == 0:
                x = [bool(c >> i & 1) for i in range(t.w)]
                acc = _add(acc, x)
                continue
            if len(ks) != 1:
                raise ValueError("product of variables")
            x = list(blast(ks[0], memo))
            neg = bool(c >> (t.w - 1))
            k = (-c) & ((1 << t.w) - 1) if neg else c
            for i in range(t.w):
                if k >> i & 1:
                    y = [False] * i + x[:t.w - i]
                    acc = _sub(acc, y) if neg else _add(acc, y)
        r = tuple(acc)
    elif o == "ite":
        c, a, b = t.args
        c = cond(c, memo)
        r = tuple(bdd.ite(c, x, y) for x, y in zip(blast(a, memo), blast(b, memo)))
    elif o in ("zext", "sext"):
        b = blast(t.args[0], memo)
        r = b + ((False if o == "zext" else b[-1]),) * (t.w - len(b))
    elif o == "bits":
        r = tuple(cond(b, memo) for b in t.args)
    else:
        r = tuple(terms.bits(t))
    memo[t] = r
    return r


def _add(a, b):
    out, c = [], False
    for x, y in zip(a, b):
        s = bdd.xor(x, y)
        out.append(bdd.xor(s, c))
        c = bdd.or_(bdd.and_(x, y), bdd.and_(s, c))
    return out


def _sub(a, b):
    out, c = [], True
    for x, y in zip(a, b):
        y = bdd.not_(y)
        s = bdd.xor(x, y)
        out.append(bdd.xor(s, c))
        c = bdd.or_(bdd.and_(x, y), bdd.and_(s, c))
    return out


def cond(f, memo=None):
    """the same condition over leaf bits only, as far as its atoms allow"""
    memo = {} if memo is None else memo
    cm = memo.setdefault("cond", {})

    def go(f):
        if isinstance(f, bool):
            return f
        r = cm.get(f.id)
        if r is None:
            r = cm[f.id] = bdd.ite(atom(bdd.atom_of(f.v), f), go(f.hi), go(f.lo))
        return r

    def atom(a, f):
        if a[0] == "bit":
            t = a[1]
            b = blast(t, memo) if t.op in ("poly", "ite", "zext", "sext", "bits") else terms.bits(t)
            return b[a[2]]
        if a[0] == "eq0":
            r = True
            for x in blast(a[1], memo):
                r = bdd.and_(r, bdd.not_(x))
            return r
        return bdd.var(a)
    return go(f)


def _size(t, seen, lim):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, terms.T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if len(seen) > lim:
                return False
            if x.op == "poly" and any(len(k) > 1 for k, _ in x.args):
                return False
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, bdd.B):
            for i in bdd.support(x):
                st.append(bdd.atom_of(i))
    return True


def same(care, a, b, nodes=150_000):
    """equality in the bit-level canonical form, within a node budget (False also when the budget runs out)"""
    seen = set()
    if not (_size(a, seen, 400) and _size(b, seen, 400)):
        return False
    try:
        with bdd.budget(nodes):
            memo = {}
            c = cond(care, memo)
            return all(bdd.and_(c, bdd.xor(x, y)) is False for x, y in zip(blast(a, memo), blast(b, memo)))
    except (bdd.Budget, ValueError):
        return False
