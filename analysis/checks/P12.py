"""Merkle roots over address-ordered leaves."""
import itertools

import guestmodel as gm
import sdkmodel as sm
import terms
import vmmodel as vm
from interp import Dead, Env
from terms import mkT
from values import *

W = "sdk/src/common/merkle.rs"


class Entries(DomainV):
    """vec_entries::Entries: a front cursor with already-written, unread and freed slots"""

    def __init__(self, done, rest, back, gap):
        self.done, self.rest, self.back, self.gap = tuple(done), tuple(rest), tuple(back), gap

    def key(self):
        return ("entries", tuple(freeze(x) for x in self.done), tuple(freeze(x) for x in self.rest), self.gap)

    def method(self, I, name, args, hint, place):
        if name == "remove":
            if not self.rest:
                return NONE
            place.set(Entries(self.done, self.rest[1:], self.back, self.gap + 1))
            return Some(self.rest[0])
        if name == "shift":
            if not self.rest:
                return NONE
            place.set(Entries(self.done + (self.rest[0],), self.rest[1:], self.back, self.gap))
            return Some(self.rest[0])
        if name == "try_insert_outside":
            if self.gap == 0:
                return Err(args[0])
            place.set(Entries(self.done + (I.deref(args[0]),), self.rest, self.back, self.gap - 1))
            return Ok(UNIT)
        if name == "try_insert_inside":
            if self.gap == 0:
                return Err(args[0])
            place.set(Entries(self.done, (I.deref(args[0]),) + self.rest, self.back, self.gap - 1))
            return Ok(UNIT)
        if name == "remaining_len":
            return Int(len(self.rest), "usize")
        return NotImplemented


def hooks(I):
    def entries(I_, v, place, args, hint, node, env):
        if not isinstance(v, VecV):
            return NotImplemented
        pl = I_.temp(Entries((), v.xs, (), 0))
        r = I_.call(args[1], [RefV(pl)])
        e = I_.deref(pl.get())
        place.set(VecV(e.done + e.rest + e.back))
        return r
    I.methods["entries"] = entries
    I.intrinsics["Poseidon2Hash::two_to_one"] = lambda I_, vs, h, e, n: StructV(sm.T_HASH, {"0": node(inner(I_, vs[0]), inner(I_, vs[1]))})


def inner(I, v):
    return freeze(I.get_field(I.deref(v), "0"))


def node(a, b):
    return mkT("two_to_one", (a, b))


def leaf(i):
    return mkT("var", (f"leaf{i}",))


def rounds(xs):
    while len(xs) > 1:
        xs = [node(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return xs[0]


def root(ls):
    """ls: sorted (address, value): equal addresses combine first, then siblings by longest common prefix"""
    groups = [(a, rounds([v for _, v in g])) for a, g in itertools.groupby(ls, key=lambda x: x[0])]

    def go(gs):
        if len(gs) == 1:
            return gs[0][1]
        top = (gs[0][0] ^ gs[-1][0]).bit_length() - 1
        lo = [g for g in gs if not g[0] >> top & 1]
        hi = [g for g in gs if g[0] >> top & 1]
        return node(go(lo), go(hi))
    return go(groups)


def address_sets(tier):
    fam = [(0, 1, 2, 3), (0, 1, 5, 7), (0, 1 << 31, 1 << 32, (1 << 33) - 1), (0, 1 << 62, 1 << 63, (1 << 64) - 1), (3, 4, (1 << 63) - 1, 1 << 63),
           ((1 << 64) - 2, (1 << 64) - 1, 0, 1 << 63)]
    seen = set()
    for f in fam:
        f = sorted(f)
        for n in range(1, 5 if tier == "quick" else 6):
            for c in itertools.combinations_with_replacement(f, n):
                if c not in seen:
                    seen.add(c)
                    yield c
    for n in (8, 16):
        yield tuple(range(n))
        yield tuple((i * 0x9E3779B97F4A7C15) % (1 << 64) for i in range(n))
    for b in range(64):
        yield (0, 1 << b)
        yield (0, 1, 1 << b) if b else (0, 0, 1)


def run(ctx):
    ctx.rule = ("abstract interpretation of the tree construction over concrete address patterns with symbolic leaf hashes: the resulting hash expression must be the "
                "expression of the address-prefix tree; interpretation must terminate without panic")
    P = gm.load_host()
    d = P.fn("mozak_sdk::common::merkle::merkleize") or vm.find_fn(P, "mozak_sdk::common::merkle::merkleize")
    n = 0
    with ctx.group("empty"):
        I = gm.interp(P)
        I.unroll_limit = 400
        hooks(I)
        r = gm.call(I, d, [("v", VecV(()))])
        ctx.ob("empty", eqv(True, r, I.default_of(("adt", P.lookup_abs(sm.T_HASH), []))), "no leaves: the default hash", W, lambda: repr(r))
    for c in address_sets(ctx.tier):
        c = sorted(c)
        key = ",".join(f"{a:x}" for a in c)
        n += 1
        with ctx.group(key):
            I = gm.interp(P)
            I.track_overflow = True
            I.unroll_limit = 400
            hooks(I)
            ls = VecV((Int(a, "u64"), StructV(sm.T_HASH, {"0": leaf(i)})) for i, a in enumerate(c))
            r = gm.call(I, d, [("v", ls)])
            ctx.saw(I)
            ctx.ob(f"total:{key}", I.pc is True and not I.panics, "the tree is built without panicking", W, lambda: repr([p[2] for p in I.panics]))
            want = root([(a, leaf(i)) for i, a in enumerate(c)])
            got = inner(I, r) if r is not None else None
            ctx.ob(f"root:{key}", got is want, "the root is that of the address-prefix tree over all leaves in order", W, lambda: f"{got!r} / {want!r}"[:500])
    ctx.floor("address patterns", n, 250)
