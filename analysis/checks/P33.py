"""Addresses and trees of the block proposer: prefixes, ancestors, comparisons, and the shape of what is reduced."""
import itertools

from nodemodel import *

W_ = "node/src/block_proposer.rs"
M64 = (1 << 64) - 1
CMP = BP + ("BranchAddressComparison",)


class Node(World):
    def __init__(self):
        super().__init__()
        self.base = dict(self.I.store)
        self.adr = self.adt(*BP, "Address")["path"]
        self.dir = self.adt(*BP, "Dir")["path"]

    def reset(self):
        self.I.store = dict(self.base)

    def run(self, f):
        """the answer of a call, or None where it panics"""
        self.reset()
        r, dead = self.attempt(f)
        return None if dead else (self.I.deref(r),)

    # ------------------------------------------------------------ addresses
    def branch(self, h, a):
        """the branch address at a height, made from its pieces the way users make one"""
        v = self.meth(BP + ("BranchAddress",), "base", Int(a, "u64"))
        return self.I.deref(self.meth(BP + ("BranchAddress",), "parent", v, Int(0, "usize"))) if h == 0 else self.up(a, h)

    def up(self, a, h):
        """a branch of height h that has the address bits a: an ancestor of a leaf below it"""
        if a << h <= M64:
            v = self.meth(BP + ("BranchAddress",), "base", Int(a << h, "u64"))
            return self.I.deref(self.meth(BP + ("BranchAddress",), "parent", v, Int(h, "usize")))
        return None

    def show(self, v):
        """(height, bits) of a branch address"""
        v = self.I.deref(v)
        ints = {k: self.I.deref(x) for k, x in v.f.items()}
        h = [x for x in ints.values() if isinstance(x, Int)]
        a = [x for x in ints.values() if isinstance(x, StructV)]
        if len(h) != 1 or len(a) != 1:
            raise AnalysisError("a branch address is no longer a height and an address")
        return h[0].v, self.I.deref(a[0].f["0"]).v


def pars(h, a, n):
    return h + n, a >> n


def ancestor(x, y):
    (h, a), (k, b) = x, y
    a, b, m = a >> max(0, k - h), b >> max(0, h - k), max(h, k)
    d = (a ^ b).bit_length()
    return m + d, a >> d


def relation(x, y):
    """what y is to x"""
    (h, a), (k, b) = x, y
    if h == k:
        if a == b:
            return "Equal"
        side = "Right" if b > a else "Left"
        return side + ("Sibling" if a >> 1 == b >> 1 else "Cousin")
    if h > k:
        c = b >> h - k
        if c != a:
            return ("Right" if c > a else "Left") + "Cousin"
        return ("Right" if b >> h - k - 1 & 1 else "Left") + "Child"
    c = a >> k - h
    if c != b:
        return ("Right" if b > c else "Left") + "Cousin"
    return ("Right" if a >> k - h - 1 & 1 else "Left") + "Parent"


def places(top):
    """every place of a small tree, and the edges of the largest"""
    out = [(h, a) for h in range(top + 1) for a in range(1 << top - h)]
    for a in (0, 1, 2, M64, M64 - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 0x5555555555555555, 1 << 32):
        for h in (0, 1, 31, 63, 64):
            out.append((h, a >> h))
    return list(dict.fromkeys(out))


def addresses(ctx, N, top):
    n = 0
    bad = {}

    def note(key, ok, what):
        nonlocal n
        n += 1
        bad.setdefault(key, None)
        if not ok and bad[key] is None:
            bad[key] = what()
    ps = places(top)
    vs = {}
    for h, a in ps:
        r = N.run(lambda: N.meth(BP + ("BranchAddress",), "parent", N.meth(BP + ("BranchAddress",), "base", Int(a << h & M64, "u64")), Int(h, "usize")))
        note("parent", r is not None and N.show(r[0]) == (h, a), lambda: f"the ancestor {h} levels above {a << h & M64} is {'a panic' if r is None else N.show(r[0])}, not {(h, a)}")
        vs[h, a] = r and r[0]
    if any(v is None for v in vs.values()):
        return n, bad
    for h, a in ps:
        for k in (0, 1, 2, 5, 63, 64, 65, 100):
            r = N.run(lambda: N.meth(BP + ("BranchAddress",), "parent", vs[h, a], Int(k, "usize")))
            note("parent", r is not None and N.show(r[0]) == pars(h, a, k), lambda: f"parent({k}) of {(h, a)} is {'a panic' if r is None else N.show(r[0])}")
        for s, d in ((0, "Left"), (1, "Right")):
            r = N.run(lambda: N.meth(BP + ("BranchAddress",), "child", vs[h, a], EnumV(N.dir, d, ())))
            want = (h - 1, (a << 1 | s) & M64)
            got = None
            if r is not None and isinstance(r[0], EnumV):
                got = (r[0].var, N.show(r[0].p[0]) if r[0].var == "Ok" else N.I.deref(N.I.deref(r[0].p[0]).f["0"]).v)
            if a << 1 | s <= M64:
                note("child", got == (("Ok", want) if h else ("Err", want[1])), lambda: f"the {d} child of {(h, a)} is {got}")
    for x, y in itertools.product(ps, ps):
        r = N.run(lambda: N.meth(BP + ("BranchAddress",), "common_ancestor", vs[x], vs[y]))
        note("common ancestor", r is not None and N.show(r[0]) == ancestor(x, y), lambda: f"of {x} and {y}: {'a panic' if r is None else N.show(r[0])}, not {ancestor(x, y)}")
        r = N.run(lambda: N.meth(BP + ("BranchAddress",), "compare", vs[x], vs[y]))
        note("comparison", r is not None and isinstance(r[0], EnumV) and r[0].var == relation(x, y), lambda: f"{y} is called {'a panic' if r is None else r[0]} of {x}, it is its {relation(x, y)}")
    return n, bad


def path(N, v):
    """the turns of a path, with whether all that is left turns left before each"""
    out = []
    while v is not None:
        z = N.meth(BP + ("AddressPath",), "is_zero", v)
        nxt, d = N.meth(BP + ("AddressPath",), "next", v)
        out.append((N.I.deref(d).var, z))
        nxt = N.I.deref(nxt)
        v = nxt.p[0] if nxt.var == "Some" else None
        if len(out) > 70:
            raise AnalysisError("a path does not end")
    return out


def paths(ctx, N, top):
    """a path turns by the bits of the address, most significant first"""
    n, bad = 0, {"path": None}
    cases = [(b, a) for b in range(top + 2) for a in range(1 << b)] + [(64, a) for a in (0, 1, M64, 1 << 63, 0x123456789abcdef0)] + [(63, (1 << 63) - 1), (63, 1 << 62)]
    for b, a in cases:
        def go():
            v = N.I.deref(N.meth(BP + ("AddressPath",), "path", Int(a, "u64"), Int(b, "usize")))
            return None if v.var == "None" else path(N, v.p[0])
        r = N.run(go)
        want = None if b == 0 else [("Right" if a >> i & 1 else "Left", not a & (1 << i + 1) - 1) for i in reversed(range(b))]
        n += 1
        if (r is None or r[0] != want) and bad["path"] is None:
            bad["path"] = f"the path of {a:#x} in {b} bits is {'a panic' if r is None else r[0]}"
    return n, bad


# ------------------------------------------------------------------- trees
def balanced(xs):
    """left subtree as large as a full tree can be"""
    if len(xs) == 1:
        return xs[0]
    m = 1 << (len(xs) - 1).bit_length() - 1
    return ("m", balanced(xs[:m]), balanced(xs[m:]))


def term(I, v):
    v = I.deref(v)
    if isinstance(v, Tok):
        return v.k if v.k[0] != "x" else v.k[1]
    raise AnalysisError(f"not a tree: {v!r}"[:100])


def py(f):
    return FnV("py", f)


def reduced(ctx, N, top):
    n, bad = 0, {"reduce_tree": None}
    for k in range(top + 1):
        def go():
            I = N.I
            xs = IterV([Tok("t", Tok("x", i).k) for i in range(k)])
            ret = py(lambda t: Tok("r", I.deref(t).k))
            mkt = py(lambda r: Tok("t", I.deref(r).k))
            mrg = py(lambda a, b: Tok("r", ("m", I.deref(a).k, I.deref(b).k)))
            return I.deref(N.fn(BP + ("reduce_tree",), xs, ret, mkt, mrg))
        r = N.run(go)

        def plain(t):
            while t[0] in ("t", "r"):
                t = t[1]
            return t[1] if t[0] == "x" else ("m", plain(t[1]), plain(t[2]))

        def typed(t):
            # merges take t's and give r's; conversions alternate
            if t[0] == "m":
                return t[1][0] == t[2][0] == "t" and typed(t[1]) and typed(t[2])
            if t[0] == "x":
                return True
            return t[1][0] in (("r", "x") if t[0] == "t" else ("t", "m")) and typed(t[1])
        n += 1
        if r is None:
            got = "a panic"
        elif r[0].var == "None":
            got = None
        else:
            t = I_deref(N, r[0].p[0]).k
            got = plain(t) if t[0] == "r" and typed(t) else f"wrongly converted {t}"
        want = balanced(list(range(k))) if k else None
        if got != want and bad["reduce_tree"] is None:
            bad["reduce_tree"] = f"{k} items become {got}, not {want}"
    return n, bad


def I_deref(N, v):
    return N.I.deref(v)


def prefix(xs):
    """(address, tree) of items by address: same address first, then by longest common prefix"""
    xs = [(a, balanced([t for _, t in g])) for a, g in itertools.groupby(xs, lambda x: x[0])]
    while len(xs) > 1:
        xs = [(a >> 1, t) for a, t in xs]
        xs = [(a, balanced([t for _, t in g])) for a, g in itertools.groupby(xs, lambda x: x[0])]
    return xs[0][1] if xs else None


def patterns(tier):
    """ascending addresses"""
    out = [()]
    for k in range(1, 5 if tier == "quick" else 6):
        out += itertools.combinations_with_replacement(range(8 if k < 4 else 4), k)
    out += [(3,) * k for k in range(5, 10)] + [(0, 0, 0, 0, 0, 1), (1, 6, 6, 6, 6), (0, 1, 2, 3, 4, 5, 6, 7), (0, 2, 2, 2, 5, 7, 7)]
    out += [(0, M64), (0, 1 << 63), ((1 << 63) - 1, 1 << 63), (0, 1, M64 - 1, M64), (5, 5, 1 << 63, 1 << 63), (1 << 32, 1 << 33)]
    return list(dict.fromkeys(out))


def by_address(ctx, N, tier):
    n, bad = 0, {"reduce_tree_by_address": None, "grouping address": None}
    for pat in patterns(tier):
        def go():
            I = N.I
            xs = VecV([(Int(a, "u64"), Tok("x", i)) for i, a in enumerate(pat)])
            inc = py(lambda a: Int(I.deref(a).v >> 1, "u64"))
            seen = []

            def mrg(a, l, r):
                seen.append((I.deref(a).v, I.deref(l).k, I.deref(r).k))
                return Tok("m", I.deref(l).k, I.deref(r).k)
            r = I.deref(N.fn(BP + ("reduce_tree_by_address",), xs, inc, py(mrg)))
            return r, seen
        r = N.run(go)
        want = prefix([(a, ("x", i)) for i, a in enumerate(pat)])
        n += 1
        if r is None:
            got = "a panic"
        else:
            (v, seen) = r[0]
            got = None if v.var == "None" else I_deref(N, v.p[0])[1]
            got = None if got is None else I_deref(N, got).k
            # a merge is told the prefix its items share, at the level they are joined
            for a, l, rr in seen:
                ls = [pat[i] for i in leaves(l) + leaves(rr)]
                d = max((x ^ y).bit_length() for x in ls for y in ls)
                if a != ls[0] >> d and bad["grouping address"] is None:
                    bad["grouping address"] = f"items of {ls} are joined under {a}"
        if got != want and bad["reduce_tree_by_address"] is None:
            bad["reduce_tree_by_address"] = f"items at {pat} become {got}, not {want}"
    return n, bad


def leaves(t):
    return [t[1]] if t[0] == "x" else leaves(t[1]) + leaves(t[2])


# ------------------------------------------------------------------- events
def events(ctx, N):
    I = N.I
    sdk = ("mozak_sdk", "common", "types")
    by = {k: N.adt(*sdk, k) for k in ("CanonicalEvent", "ProgramIdentifier", "Poseidon2Hash", "EventType", "StateAddress")}
    kinds = [v["n"] for v in by["EventType"]["variants"]]
    n, bad = 0, {"kind": None, "owner": None, "value": None, "address": None, "address conversions": None}
    own, val, adr = bytes(range(32)), bytes(range(100, 132)), bytes([1, 2, 3, 4, 5, 6, 7, 200])
    raw = lambda bs: VecV(Int(b, "u8") for b in bs)
    ev = lambda k: StructV(by["CanonicalEvent"]["path"], {"address": StructV(by["StateAddress"]["path"], {"0": raw(adr)}), "type_": EnumV(by["EventType"]["path"], k, ()),
                                                          "value": StructV(by["Poseidon2Hash"]["path"], {"0": raw(val)})})
    pid = StructV(by["ProgramIdentifier"]["path"], {"0": StructV(by["Poseidon2Hash"]["path"], {"0": raw(own)})})
    words = lambda bs: [int.from_bytes(bs[i:i + 8], "little") for i in range(0, 32, 8)]

    def felts(v):
        return [sm.fof(I.deref(x)) for x in I.deref(v).xs]
    for k in kinds:
        r = N.run(lambda: N.fn(BP + ("convert_event",), N.ref(pid), N.ref(ev(k))))
        n += 4
        if r is None:
            bad["kind"] = bad["kind"] or f"{k} panics"
            continue
        f = r[0].f
        chk = {"kind": I.deref(f["ty"]).var == k, "owner": [str(x) for x in felts(f["owner"])] == [str(sm.FPoly.const(w)) for w in words(own)],
               "value": [str(x) for x in felts(f["value"])] == [str(sm.FPoly.const(w)) for w in words(val)], "address": I.deref(f["address"]).v == int.from_bytes(adr, "little")}
        for c, ok in chk.items():
            if not ok and bad[c] is None:
                bad[c] = f"of a {k} event of {own.hex()} at {adr.hex()}: {r[0]!r}"[:300]
    a = N.run(lambda: N.meth(BP + ("Address",), "from_state", StructV(by["StateAddress"]["path"], {"0": raw(adr)})))
    x = int.from_bytes(adr, "little")
    b = N.run(lambda: N.meth(BP + ("Address",), "to_state", StructV(N.adr, {"0": Int(x, "u64")})))
    n += 2
    if a is None or I.deref(a[0].f["0"]).v != x:
        bad["address conversions"] = "the number of a state address is not its little-endian one"
    elif b is None or bytes(I.deref(y).v for y in I.deref(b[0].f["0"]).xs) != adr:
        bad["address conversions"] = "the state address of a number is not its little-endian bytes"
    return n, bad


TEXT = {"parent": "the parent n levels up drops the n lowest bits, at any height", "child": "a child adds one bit; below a leaf there is an address instead",
        "common ancestor": "the common ancestor is the lowest node both descend from or are", "comparison": "two places compare as they lie in the tree",
        "path": "a path turns by the bits of the address, most significant first", "reduce_tree": "items are joined in order, the left subtree as large as a full tree can be",
        "reduce_tree_by_address": "items are joined by longest common address prefix, those of one address first", "grouping address": "each join is told the prefix its items share",
        "kind": "an event keeps its kind", "owner": "an event is owned by its program", "value": "an event keeps its value", "address": "an event's address is the little-endian number of its bytes",
        "address conversions": "state addresses and tree addresses convert both ways"}


def run(ctx):
    ctx.rule = ("abstract interpretation of the proposer's address and tree functions: every place of a small tree and the edges of the largest compared with the definition by prefixes; "
                "trees of opaque items compared with the recursive definition of their shape")
    ctx.assumptions.append("heights up to 3 exhaustively and the corners of 64-bit addresses at heights 0, 1, 31, 63 and 64; numbers of items and address patterns enumerated")
    N = Node()
    deep = ctx.tier == "thorough"
    for what, f, least in (("addresses", lambda: addresses(ctx, N, 5 if deep else 3), 2500), ("paths", lambda: paths(ctx, N, 6 if deep else 4), 60),
                           ("reduce_tree", lambda: reduced(ctx, N, 70 if deep else 34), 30), ("reduce_tree_by_address", lambda: by_address(ctx, N, ctx.tier), 100),
                           ("events", lambda: events(ctx, N), 20)):
        with ctx.group(what):
            n, bad = f()
            ctx.floor(f"{what}: cases", n, least)
            for k, v in bad.items():
                ctx.ob(f"{what}:{k}", v is None, TEXT[k], W_, v)
    ctx.saw(N.I)
