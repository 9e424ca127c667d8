"""The state tree: what it answers, and what its root proof says, after any history."""
from nodemodel import *

W_ = "node/src/block_proposer/state.rs"
ST = BP + ("state",)
SU = R + "::circuits::state_update"
EMPTY = ("hash", "empty")


class Obj(Tok):
    def method(self, I, name, args, hint, place):
        if name == "hash" and not args:
            return Tok("hash", self.k[1])
        return Tok.method(self, I, name, args, hint, place)


class Proof(Tok):
    """a state update proof: level (0 for a leaf), hash before, hash after, summary of what was touched"""

    def method(self, I, name, args, hint, place):
        if name == "old":
            return Tok(*self.k[2])
        if name == "new":
            return Tok(*self.k[3])
        if name in ("address_present", "summary_present"):
            return self.k[4] is not None
        if name == "summary":
            return Tok("summary", self.k[4])
        return Tok.method(self, I, name, args, hint, place)


def option(I, v):
    v = I.deref(v)
    if not isinstance(v, EnumV) or v.var not in ("Some", "None"):
        raise AnalysisError(f"not a known option: {v!r}"[:120])
    return I.deref(v.p[0]) if v.var == "Some" else None


class Leaf(Tok):
    def method(self, I, name, args, hint, place):
        if name == "prove":
            old, new = (I.deref(a).k for a in args[:2])
            a = option(I, args[2])
            if a is None and old != new:
                return Err(Tok("a change without an address"))
            return Ok(Proof("proof", 0, old, new, None if a is None else ("touched", a.v, old, new)))
        return Tok.method(self, I, name, args, hint, place)


class Branch(Tok):
    def method(self, I, name, args, hint, place):
        if name == "prove":
            l, r = (I.deref(a) for a in args)
            if not (isinstance(l, Proof) and isinstance(r, Proof)) or (l.k[1], r.k[1]) != (self.k[1],) * 2:
                return Err(Tok("a child proof of another height"))
            return Ok(Proof("proof", self.k[1] + 1, two(l.k[2], r.k[2]), two(l.k[3], r.k[3]), both(l.k[4], r.k[4])))
        return Tok.method(self, I, name, args, hint, place)


def two(a, b):
    return ("hash", "two", a, b)


def both(a, b):
    return ("both", a, b) if a is not None and b is not None else a if a is not None else b


class Tree(World):
    def __init__(self, depth):
        super().__init__()
        x = self.I.intrinsics
        self.intercept(SU + "::LeafCircuit::new", lambda I, vs, h, e, n: Leaf("leaf circuit"))
        self.intercept(SU + "::BranchCircuit::from_leaf", lambda I, vs, h, e, n: Branch("branch circuit", 0))
        self.intercept(SU + "::BranchCircuit::from_branch", lambda I, vs, h, e, n: Branch("branch circuit", I.deref(vs[1]).k[1] + 1))
        self.intercept(R + "::Object::default", lambda I, vs, h, e, n: Obj("object", "empty"))
        x["Object::default"] = x[R + "::Object::default"]
        self.depth = depth
        self.aux = self.ref(self.meth(ST + ("AuxStateData",), "new", self.ref(Tok("config")), Int(depth, "usize")))
        op = self.adt(*ST, "Operation")
        self.op = lambda k, o=None: EnumV(op["path"], k, (o,) if o is not None else ())
        self.adr = lambda a: StructV(self.adt(*BP, "Address")["path"], {"0": Int(a, "u64")})

    def new(self):
        return self.I.deref(self.meth(ST + ("State",), "new", self.aux, Int(self.depth, "usize")))

    def call(self, st, name, *args):
        p = self.ref(st)
        r, dead = self.attempt(lambda: self.meth(ST + ("State",), name, p, *args))
        return r, self.I.deref(p), dead

    def root(self, st):
        """the proof nearest the top of the state's value"""
        todo = [st]
        while todo:
            nxt = []
            for v in todo:
                v = self.I.deref(v)
                if isinstance(v, Proof):
                    return v
                if isinstance(v, StructV) and v.path[-1] != "AuxStateData":
                    nxt += v.f.values()
                elif isinstance(v, EnumV):
                    nxt += v.p.values() if isinstance(v.p, dict) else v.p
            todo = nxt
        raise AnalysisError("the state has no root proof")


# --------------------------------------------------------------- reference
UNTOUCHED, READ, WRITTEN, DELETED = "untouched", "read", "written", "deleted"
NEVER = (None, None, UNTOUCHED)


def step(ref, op, a=None, o=None):
    """the state after an operation, and whether it has to be accepted (True), rejected (False), or either (None)"""
    if op == "finalize":
        return {k: (n, n, UNTOUCHED) for k, (b, n, t) in ref.items() if n}, True
    b, n, t = ref.get(a, NEVER)
    ok = True
    if op == "Read":
        now = (b, n, READ if t == UNTOUCHED else t)
    elif op == "Delete":
        ok = t != WRITTEN
        now = (b, None, DELETED)
    else:
        # a delete of nothing commits to nothing: whether a create may follow is left open
        ok = n == o if t == WRITTEN else True if t != DELETED else False if b else None
        now = (b, o, WRITTEN)
    return {**ref, a: now}, ok


def hashes(ref, depth, lo=0, level=None):
    """(hash before, hash after, summary) of the subtree at an address"""
    level = depth + 1 if level is None else level
    if level == 0:
        b, n, t = ref.get(lo, NEVER)
        b, n = ("hash", b or "empty"), ("hash", n or "empty")
        return b, n, None if t == UNTOUCHED else ("touched", lo, b, n)
    l, r = hashes(ref, depth, lo, level - 1), hashes(ref, depth, lo + (1 << level - 1), level - 1)
    return two(l[0], r[0]), two(l[1], r[1]), both(l[2], r[2])


def bare(v):
    """the part of a state that changes"""
    return freeze(StructV(v.path, {k: x for k, x in v.f.items() if not isinstance(x, RefV)}))


class Explore:
    """all states reachable through the given addresses and objects"""

    def __init__(self, ctx, depth, addrs, objs):
        self.ctx, self.depth, self.addrs = ctx, depth, addrs
        self.T = T = Tree(depth)
        self.base = dict(T.I.store)
        self.objs = {o: Obj("object", o) for o in objs}
        self.classes, self.n = {}, 0
        self.name = f"height {depth + 1}, {len(addrs)} addresses, {len(objs)} object{'s' * (len(objs) > 1)}"

    def ops(self):
        T = self.T
        for a in self.addrs:
            adr = T.adr(a)
            yield ("Read", a), ("apply_operation", adr, T.op("Read"))
            yield ("Delete", a), ("apply_operation", adr, T.op("Delete"))
            for o, v in self.objs.items():
                yield ("Upsert", a, o), ("apply_operation", adr, T.op("Upsert", v))
        yield ("finalize",), ("finalize",)

    def note(self, cls, ok, detail):
        n, bad = self.classes.get(cls, (0, None))
        self.classes[cls] = (n + 1, bad or (None if ok else detail()))

    def run(self, fuel=10**9):
        T, I = self.T, self.T.I
        st = T.new()
        seen = {}
        todo = [(st, {}, ())]
        ops = list(self.ops())
        self.say("a new state", st, {}, ())
        while todo:
            nxt = []
            for st, ref, hist in todo:
                for what, call in ops:
                    now, ok = step(ref, *what)
                    b, n, t = ref.get(what[1], NEVER) if len(what) > 1 else NEVER
                    cls = what[0] if len(what) == 1 else f"{what[0]} {'existing' if b else 'missing'} {t}" + (" same" if len(what) > 2 and t == WRITTEN and n == what[2] else "")
                    h = hist + (what,)
                    I.store = dict(self.base)
                    _, st2, dead = T.call(st, *call)
                    self.n += 1
                    self.note(cls + ":accepted", ok is None or dead is not ok, lambda: f"{'panics' if dead else 'does not panic'} after {tell(h)}")
                    if dead or ok is False:
                        continue
                    k = (bare(st2), tuple(sorted(now.items())))
                    if k in seen:
                        # what it answers was compared when it was first reached
                        self.note(cls + ":answers", True, None)
                        continue
                    seen[k] = True
                    self.say(cls, st2, now, h)
                    nxt.append((st2, now, h))
                if self.n > fuel:
                    raise AnalysisError(f"more than {fuel} transitions: states do not repeat")
            todo = nxt
        self.states = len(seen) + 1
        for cls, (n, bad) in sorted(self.classes.items()):
            self.ctx.ob(f"{self.name}:{cls}", bad is None, TEXT[cls.rsplit(":", 1)[1]], W_, lambda: bad)

    def say(self, cls, st, ref, hist):
        """what a state answers against what it should"""
        T = self.T
        p = T.root(st)
        want = hashes(ref, self.depth)
        self.note(cls + ":proof", p.k[1] == self.depth + 1 and p.k[2:] == want, lambda: f"root proof says {short(p.k[2:])}, the state is {short(want)} after {tell(hist)}")
        for a in self.addrs:
            T.I.store = dict(self.base)
            got, _, dead = T.call(st, "get_state", T.adr(a))
            exp = ref.get(a, NEVER)[:2]
            if not dead:
                got = tuple(o.k[1] if o is not None else None for o in (option(T.I, x) for x in T.I.deref(got)))
            self.note(cls + ":answers", not dead and got == exp, lambda: f"address {a}: {'panics' if dead else got}, expected {exp} after {tell(hist)}")


TEXT = {"accepted": "exactly the contradictory writes are refused",
        "proof": "the root proof states the hash before, the hash after and every address touched",
        "answers": "every address reads as it was before the block and as it is now"}


def tell(hist):
    return ", ".join(" ".join(map(str, h)) for h in hist)


def short(x):
    if x is None:
        return "nothing touched"
    if x[0] == "hash":
        return f"({short(x[2])} {short(x[3])})" if x[1] == "two" else "-" if x[1] == "empty" else x[1]
    if x[0] == "touched":
        return f"{x[1]}: {short(x[2])} to {short(x[3])}"
    if x[0] == "both":
        return f"{short(x[1])}, {short(x[2])}"
    return " | ".join(map(short, x))


def run(ctx):
    ctx.rule = ("typestate exploration: the state tree's operations are abstractly interpreted from every abstract state reachable from the empty one (opaque objects, circuits and proofs as terms that remember their inputs), to a fixpoint, "
                "against a map from addresses to objects before and after")
    ctx.assumptions.append("trees of one to three levels with one to four addresses in use and one or two distinct objects; deeper trees repeat the same branch code")
    ctx.assumptions.append("a state update circuit proves what P28 says it proves; a hash is equal only to itself")
    runs = [(0, (0, 1), "AB"), (1, (0, 1, 2), "A"), (2, (1, 6), "A")]
    if ctx.tier == "thorough":
        runs += [(1, (0, 3), "AB"), (2, (0, 1, 2), "A"), (2, (3, 4, 7), "A"), (3, (5, 15), "A")]
    n = s = 0
    for r in runs:
        with ctx.group(f"height {r[0] + 1}: {r[1]}"):
            e = Explore(ctx, *r)
            e.run(60000)
            n, s = n + e.n, s + e.states
            ctx.saw(e.T.I)
    ctx.floor("transitions", n, 5000)
    ctx.floor("states", s, 500)
