"""The block proposer: any casts, ingested in any order, become the proofs of exactly their events, and chain into blocks."""
import hashlib
import itertools

from nodemodel import *
from P33 import M64, balanced, leaves, py

WT, WM, WB = (f"node/src/block_proposer/{x}.rs" for x in ("transactions", "matches", "block"))
CI = R + "::circuits"
TX, MA, BL = BP + ("transactions",), BP + ("matches",), BP + ("block",)
SDK = ("mozak_sdk", "common", "types")


class Mismatch(Exception):
    pass


def need(ok):
    if not ok:
        raise Mismatch()


class Proof(Tok):
    """a proof: its circuit and what it states"""

    def __init__(self, kind, **says):
        self.kind, self.says = kind, says
        self.k = ("proof", kind) + tuple(sorted((k, str(v)) for k, v in says.items()))

    def __getattr__(self, n):
        try:
            return self.__dict__["says"][n]
        except KeyError:
            raise AttributeError(n)

    def method(self, I, name, args, hint, place):
        W = I.world
        if not args:
            h = {"merge leaf": ("merged", "merged"), "merge branch": ("merged", "merged"), "program leaf": ("events", "events"), "program branch": ("events", "events"),
                 "tx leaf": ("events", "events"), "tx branch": ("events", "events")}.get(self.kind)
            if name in ("merged_hash", "events", "hash", "a_hash", "b_hash"):
                k = {"merged_hash": "merged", "a_hash": "a", "b_hash": "b"}.get(name, "events")
                if k not in self.says:
                    raise AnalysisError(f"a {self.kind} proof has no {name}")
                return Tok("hash", self.says[k])
            if name in ("merged_present", "events_present", "a_present", "b_present"):
                return self.says[{"merged_present": "merged", "a_present": "a", "b_present": "b"}.get(name, "events")] is not None
            if name in ("call_list", "cast_root"):
                return W.words(self.says[name])
            if name == "program_id":
                return StructV(("HashOut",), {"elements": W.words(self.says["id"])})
            if name == "block_height":
                return Int(self.says["height"], "u64")
            if name == "verifier":
                return Tok("verifier of", self.kind)
        return Tok.method(self, I, name, args, hint, place)


def unwrap(I, v):
    """the proof behind references, copies on write, and alternatives"""
    v = I.deref(v)
    while isinstance(v, EnumV) and v.path[-1] in ("Either", "Cow", "Result") or isinstance(v, StructV) and len(v.f) == 1:
        v = I.deref(v.p[0]) if isinstance(v, EnumV) else I.deref(next(iter(v.f.values())))
    return v


def opt(I, v):
    v = I.deref(v)
    if not isinstance(v, EnumV) or v.var not in ("Some", "None"):
        raise AnalysisError(f"not a known option: {v!r}"[:120])
    return I.deref(v.p[0]).k[1] if v.var == "Some" else None


def two(a, b):
    return ("m", a, b)


def join(a, b):
    return two(a, b) if a is not None and b is not None else b if a is None else a


class Circuit(Tok):
    """a circuit that proves what P29 to P31 say it proves, or refuses"""

    def __init__(self, kind, *parts):
        self.kind, self.parts = kind, parts
        self.k = ("circuit", kind)

    def method(self, I, name, args, hint, place):
        f = getattr(self, name + "_" + self.kind.replace(" ", "_"), None)
        if f is None:
            return Tok.method(self, I, name, args, hint, place)
        try:
            return Ok(f(I, I.world, args))
        except Mismatch:
            return Err(Tok("the circuit is not satisfied"))

    def pair(self, I, args, *kinds):
        ps = [unwrap(I, a) for a in args]
        for p in ps:
            if not isinstance(p, Proof) or p.kind not in kinds:
                raise AnalysisError(f"{self.kind} is given {p!r}"[:200])
        return ps

    def owner(self, I, arg, kind):
        c = I.deref(arg)
        if not isinstance(c, Circuit) or c.kind != kind:
            raise AnalysisError(f"{self.kind} is given {c!r} for its branches"[:200])

    # event roots
    def prove_event_leaf(self, I, W, a):
        self.owner(I, a[0], "event branch")
        e = W.event(I.deref(a[1]))
        return Proof("event leaf", events=("x", e), owner=e[0])

    def prove_event_branch(self, I, W, a):
        l, r = self.pair(I, a, "event leaf", "event branch")
        need(l.owner == r.owner)
        return Proof("event branch", events=two(l.events, r.events), owner=l.owner)

    def prove_one_event_branch(self, I, W, a):
        l, = self.pair(I, a, "event leaf", "event branch")
        return Proof("event branch", events=l.events, owner=l.owner)

    # merges
    def prove_merge_leaf(self, I, W, a):
        self.owner(I, a[0], "merge branch")
        x, y = opt(I, a[1]), opt(I, a[2])
        return Proof("merge leaf", a=x, b=y, merged=join(x, y))

    def prove_merge_branch(self, I, W, a):
        l, r = self.pair(I, a, "merge leaf", "merge branch")
        return Proof("merge branch", a=join(l.a, r.a), b=join(l.b, r.b), merged=join(l.merged, r.merged))

    # programs
    def prove_program_leaf(self, I, W, a):
        self.owner(I, a[0], "program branch")
        v, p, ev = I.deref(a[1]), I.deref(a[2]), I.deref(a[3])
        need(v.k == ("verifier", p.k[1]["id"]))
        p = p.k[1]
        if ev.var == "Ok":
            e, = self.pair(I, [ev.p[0]], "event branch")
            need(e.events == p["events"] and e.owner == p["id"])
        else:
            need(p["events"] is None and W.unwords(ev.p[0]) == p["id"])
        return Proof("program leaf", events=p["events"], id=p["id"], cast=("x", p["id"]), call_list=p["call_list"], cast_root=p["cast_root"])

    def merged(self, I, m, l, r):
        m, = self.pair(I, [m], "merge branch")
        need(m.a == l.events and m.b == (r.events if r is not None else None))
        return m.merged

    def prove_program_branch(self, I, W, a):
        l, r = self.pair(I, a[1:], "program leaf", "program branch")
        need((l.call_list, l.cast_root) == (r.call_list, r.cast_root))
        return Proof("program branch", events=self.merged(I, a[0], l, r), cast=two(l.cast, r.cast), call_list=l.call_list, cast_root=l.cast_root)

    def prove_one_program_branch(self, I, W, a):
        l, = self.pair(I, a[1:], "program leaf", "program branch")
        return Proof("program branch", events=self.merged(I, a[0], l, None), cast=l.cast, call_list=l.call_list, cast_root=l.cast_root)

    # transactions
    def prove_tx_leaf(self, I, W, a):
        self.owner(I, a[0], "tx branch")
        p, = self.pair(I, a[1:], "program branch")
        need(W.cast_root(p.cast) == p.cast_root)
        return Proof("tx leaf", events=p.events, txs=(p.cast_root,))

    def prove_tx_branch(self, I, W, a):
        l, r = self.pair(I, a[1:], "tx leaf", "tx branch")
        return Proof("tx branch", events=self.merged(I, a[0], l, r), txs=l.txs + r.txs)

    def prove_one_tx_branch(self, I, W, a):
        l, = self.pair(I, a[1:], "tx leaf", "tx branch")
        return Proof("tx branch", events=self.merged(I, a[0], l, None), txs=l.txs)

    # what happens to each object
    def prove_acc_leaf(self, I, W, a):
        self.owner(I, a[0], "acc branch")
        e = (W.unwords(a[2]), I.deref(a[3]).var, I.deref(a[1]).v, W.unwords(a[4]))
        return Proof("acc leaf", events=("x", e), at=e[2])

    def prove_acc_branch(self, I, W, a):
        l, r = self.pair(I, a, "acc leaf", "acc branch")
        need(l.at == r.at)
        return Proof("acc branch", events=two(l.events, r.events), at=l.at)

    def prove_one_acc_branch(self, I, W, a):
        l, = self.pair(I, a, "acc leaf", "acc branch")
        return Proof("acc branch", events=l.events, at=l.at)

    def prove_match_leaf(self, I, W, a):
        self.owner(I, a[0], "match branch")
        p, = self.pair(I, [a[1]], "acc branch")
        v = I.deref(a[2])
        g = lambda k: I.deref(v.f[k])
        old = {"constraint_owner": W.unwords(g("old_owner")), "last_updated": W.word(g("last_updated")), "credits": W.word(g("old_credits")), "data": W.unwords(g("old_data"))}
        new = {"constraint_owner": W.unwords(g("new_owner")), "credits": W.word(g("new_credits")), "data": W.unwords(g("new_data"))}
        return Proof("match leaf", events=p.events, height=W.word(g("block_height")), change=("x", (p.at, tuple(sorted(old.items())), tuple(sorted(new.items())))))

    def prove_match_branch(self, I, W, a):
        l, r = self.pair(I, a, "match leaf", "match branch")
        need(l.height == r.height)
        return Proof("match branch", events=two(l.events, r.events), height=l.height, change=two(l.change, r.change))

    def prove_one_match_branch(self, I, W, a):
        l, = self.pair(I, a, "match leaf", "match branch")
        return Proof("match branch", events=l.events, height=l.height, change=l.change)

    # blocks
    def prove_base_block(self, I, W, a):
        return Proof("base", height=0, state=I.deref(a[0]).k)

    def prove_block(self, I, W, a):
        t, = self.pair(I, [a[0]], "tx branch")
        m, = self.pair(I, [a[1]], "match branch")
        s, = self.pair(I, [a[2]], "state")
        p, = self.pair(I, [a[3]], "base", "block")
        need(t.events == m.events and m.height == p.height + 1 and s.change == m.change and s.old == p.state)
        return Proof("block", height=m.height, state=s.new, events=t.events, after=p.k)


NEW = {"build_event_root": "event", "merge": "merge", "verify_program": "program", "verify_tx": "tx", "accumulate_delta": "acc", "match_delta": "match"}


def felts(tag, k=4):
    """a distinct value of k words for a tag"""
    h = hashlib.sha256(repr(tag).encode()).digest()
    return tuple(int.from_bytes(h[8 * i:8 * i + 7], "little") for i in range(k))


class Node(World):
    def __init__(self):
        super().__init__()
        I = self.I
        I.world = self
        for mod, kind in NEW.items():
            self.intercept(f"{CI}::{mod}::LeafCircuit::new", lambda I, vs, h, e, n, kind=kind: Circuit(kind + " leaf", *[I.deref(v) for v in vs[1:]]))
            self.intercept(f"{CI}::{mod}::BranchCircuit::new", lambda I, vs, h, e, n, kind=kind: Circuit(kind + " branch", *[I.deref(v) for v in vs[1:]]))
        self.intercept(f"{CI}::verify_block::Circuit::new", lambda I, vs, h, e, n: Circuit("block", *[I.deref(v) for v in vs[1:]]))
        self.intercept(R + "::Event::hash", lambda I, vs, h, e, n: Tok("hash", ("x", self.event(I.deref(vs[0])))))

        def both(I, vs, h, e, n):
            a, b = I.deref(vs[0]), I.deref(vs[1])
            if isinstance(a, Tok):
                return Tok("hash", two(a.k[1], b.k[1]))
            return self.digest(self.bytes_two(self.raw(a), self.raw(b)))
        I.intrinsics["Poseidon2Hash::two_to_one"] = both
        I.intrinsics["mozak_sdk::common::types::poseidon2hash::Poseidon2Hash::two_to_one"] = both
        self.ty = {k: self.adt(*SDK, k)["path"] for k in ("CanonicalEvent", "ProgramIdentifier", "Poseidon2Hash", "EventType", "StateAddress")}
        self.obj = self.adt(R, "Object")["path"]
        cfg = self.ref(Tok("config"))
        self.aux = self.ref(self.meth(TX + ("AuxTransactionData",), "new", cfg, self.ref(Tok("indices")), self.ref(Tok("common"))))
        self.maux = self.ref(self.meth(MA + ("AuxMatchesData",), "new", cfg))
        self.base = dict(I.store)

    def reset(self):
        self.I.store = dict(self.base)

    # values
    def digest(self, bs):
        return StructV(self.ty["Poseidon2Hash"], {"0": VecV(Int(b, "u8") for b in bs)})

    def raw(self, v):
        return bytes(self.I.deref(x).v for x in self.I.deref(self.I.deref(v).f["0"]).xs)

    @staticmethod
    def bytes_of(ws):
        return b"".join(w.to_bytes(8, "little") for w in ws)

    @staticmethod
    def bytes_two(a, b):
        h = hashlib.sha256(a + b).digest()
        return b"".join(h[8 * i:8 * i + 7] + b"\0" for i in range(4))

    def pid(self, ws):
        return StructV(self.ty["ProgramIdentifier"], {"0": self.digest(self.bytes_of(ws))})

    def words(self, ws):
        return VecV(sm.FPoly.const(w) for w in ws)

    def unwords(self, v):
        v = self.I.deref(v)
        if isinstance(v, StructV):
            v = self.I.deref(v.f.get("elements", v.f.get("0")))
        return tuple(self.word(x) for x in v.xs)

    def word(self, x):
        x = self.I.deref(x)
        if isinstance(x, Int):
            return x.v
        p = x if isinstance(x, sm.FPoly) else None
        if p is None or any(m for m in p.p):
            raise AnalysisError(f"not a known field element: {x!r}"[:100])
        return p.p.get((), 0)

    def event(self, v):
        f = v.f
        return self.unwords(f["owner"]), self.I.deref(f["ty"]).var, self.I.deref(f["address"]).v, self.unwords(f["value"])

    def cast_root(self, t):
        def go(t):
            return self.bytes_of(t[1]) if t[0] == "x" else self.bytes_two(go(t[1]), go(t[2]))
        return tuple(int.from_bytes(go(t)[8 * i:8 * i + 8], "little") for i in range(4))

    def canonical(self, e):
        return StructV(self.ty["CanonicalEvent"], {"address": StructV(self.ty["StateAddress"], {"0": VecV(Int(b, "u8") for b in e[2].to_bytes(8, "little"))}),
                                                   "type_": EnumV(self.ty["EventType"], e[1], ()), "value": self.digest(self.bytes_of(e[3]))})


# --------------------------------------------------------------- scenarios
class Tx:
    """a cast; for each member the addresses and kinds of its events, in the order of its tape"""

    def __init__(self, name, cast):
        self.name, self.n = name, len(cast)
        self.ids = [felts((name, "id", i)) for i in range(self.n)]
        self.call = felts((name, "calls"))
        self.events = [[(self.ids[i], k, a, felts((name, i, j))) for j, (a, k) in enumerate(evs)] for i, evs in enumerate(cast)]

    def cast(self):
        return balanced([("x", i) for i in self.ids])

    def tree(self, i):
        return {a: balanced([("x", e) for e in g]) for a, g in itertools.groupby(self.events[i], lambda e: e[2])}

    def by_address(self):
        """what becomes of each address, over the tree of the cast"""
        def go(t):
            return t[1] if t[0] == "x" else over(go(t[1]), go(t[2]))
        return go(balanced([("x", self.tree(i)) for i in range(self.n)]))


def over(a, b):
    return {k: join(a.get(k), b.get(k)) for k in sorted({**a, **b})}


def root(t):
    """join by longest common prefix"""
    if not t:
        return None
    xs = sorted(t.items())
    while len(xs) > 1:
        xs = [(a >> 1, v) for a, v in xs]
        xs = [(a, balanced([v for _, v in g])) for a, g in itertools.groupby(xs, lambda x: x[0])]
    return xs[0][1]


W1, RD = "Write", "Read"
HI = 1 << 63


def casts(n, deep):
    """who touches what, for a cast of n"""
    yield "no events", [[] for _ in range(n)]
    yield "ascending addresses", [[(i, W1)] for i in range(n)]
    yield "descending addresses", [[(2 * (n - i), W1)] for i in range(n)]
    yield "one address", [[(5, RD)] for _ in range(n)]
    yield "every other", [[(i * 3 % 8, W1)] if i % 2 else [] for i in range(n)]
    yield "overlapping", [sorted([(i, RD), (i + 1, W1), (7, RD)]) for i in range(n)]
    yield "several of one address", [[(4, W1), (4, RD), (4, "Ensure")] if i % 2 else [(4, W1), (4, RD)] for i in range(n)]
    yield "nested", [[[(0, RD), (1, RD), (2, RD), (3, RD)], [(0, W1)], [(2, W1), (6, W1)], [(3, W1), (HI, W1)]][i % 4] for i in range(n)]
    yield "far apart", [[[(HI, W1)], [(0, W1), (M64, W1)], [(HI - 1, RD), (HI, RD)]][i % 3] for i in range(n)]
    yield "interleaved", [[(i, W1), (i + 8, W1)] for i in (range(n) if n < 5 else reversed(range(n)))]
    if deep:
        yield "mixed", [[(a, W1 if (a + i) % 3 else RD) for a in range(8) if (a * 5 + i * 3) % 4 == 0] for i in range(n)]
        yield "four of one address", [[(1, "Ensure"), (1, RD), (1, W1), (1, "GiveOwner")] if i % 3 == 0 else [(1, RD)] for i in range(n)]


def orders(n, deep):
    if n <= 3 or deep and n == 4:
        yield from itertools.permutations(range(n))
        return
    yield tuple(range(n))
    yield tuple(reversed(range(n)))
    yield tuple(i * 3 % n if n % 3 else (i * 5 % n if n % 5 else i) for i in range(n))
    yield tuple(range(1, n, 2)) + tuple(range(0, n, 2))
    yield tuple((i + n // 2) % n for i in range(n))


class Play:
    """an accumulator of transactions, and what it should hold"""

    def __init__(self, N):
        self.N = N
        N.reset()
        self.acc = N.ref(N.meth(TX + ("TransactionAccumulator",), "new", N.aux))
        self.todo, self.done = {}, []

    def proof(self, tx, i, **other):
        return Tok("program proof", {"id": tx.ids[i], "call_list": tx.call, "cast_root": self.N.cast_root(tx.cast()), "events": root(tx.tree(i)), **other})

    def ingest(self, tx, i, proof=None, events=None, ids=None, verifier=None):
        """(outcome, whether the cast is complete)"""
        N = self.N
        p = proof or self.proof(tx, i)
        args = (Int(i, "usize"), N.ref(Tok("verifier", verifier or (tx.ids[i] if i < tx.n else None))), N.ref(p), N.ref(VecV(N.pid(x) for x in (ids or tx.ids))),
                N.ref(VecV(N.canonical(e) for e in (tx.events[i] if events is None else events))), N.words(tx.call))
        r, dead = N.attempt(lambda: N.meth(TX + ("TransactionAccumulator",), "ingest_program", self.acc, *args))
        if dead:
            return "panic", None
        r = N.I.deref(r)
        if r.var != "Ok":
            return "refused", None
        key, full = r.p[0]
        key = N.I.deref(key)
        self.key = key
        if (N.unwords(key.f["cast_root"]), N.unwords(key.f["call_tape"])) != (N.cast_root(tx.cast()), tx.call):
            return "another key", None
        if full not in (True, False):
            raise AnalysisError("whether a transaction is complete is not known")
        return "ok", full

    def step(self, tx, i):
        """None, or what was wrong about ingesting a member not seen yet"""
        left = self.todo.setdefault(tx.name, set(range(tx.n)))
        left.discard(i)
        got = self.ingest(tx, i)
        if not left:
            del self.todo[tx.name]
            self.done.append(tx)
        if got != ("ok", not left):
            return f"ingesting member {i} of {tx.n}: {got[0]}" + ("" if got[1] is None else f", complete={got[1]}")
        return None

    def finalize(self):
        r, dead = self.N.attempt(lambda: self.N.meth(TX + ("TransactionAccumulator",), "finalize", self.acc))
        if dead:
            return "panic"
        r = self.N.I.deref(r)
        return "refused" if r.var != "Ok" else unwrap(self.N.I, r.p[0])

    def finish(self):
        """None, or what was wrong about the proof of everything complete"""
        done, self.done = self.done, []
        got = self.finalize()
        if not done:
            return None if got == "refused" else f"without a complete transaction: {got}"
        if isinstance(got, str):
            return f"finalizing is {'a panic' if got == 'panic' else got}"
        t = {}
        for x in done:
            t = over(t, x.by_address())
        if got.kind != "tx branch" or got.txs != tuple(self.N.cast_root(x.cast()) for x in done):
            return "the proof is not of the complete transactions, in the order they were completed"
        if got.events != root(t):
            return f"the proof states the events {tell(got.events)}, not {tell(root(t))}"
        return None


def tell(t):
    if t is None:
        return "none"
    return f"{t[1][1]}@{t[1][2]:x}" if t[0] == "x" else f"({tell(t[1])} {tell(t[2])})"


class Tally:
    def __init__(self, ctx, group, where):
        self.ctx, self.group, self.where, self.n, self.bad, self.text = ctx, group, where, {}, {}, {}

    def note(self, key, text, wrong, what):
        self.n[key] = self.n.get(key, 0) + 1
        self.text[key] = text
        if wrong and key not in self.bad:
            self.bad[key] = f"{what}: {wrong}"

    def flush(self):
        for k in sorted(self.n):
            self.ctx.ob(f"{self.group}:{k}", k not in self.bad, self.text[k], self.where, self.bad.get(k))
        return sum(self.n.values())


def singles(ctx, N, deep):
    """one transaction, in every order of its members"""
    T = Tally(ctx, "transaction", WT)
    text = "a cast ingested in any order completes with its last member and proves exactly its events"
    for n in range(1, 10 if not deep else 14):
        for what, cast in casts(n, deep):
            if n > {"far apart": 3, "nested": 6, "overlapping": 6}.get(what, 9) and not deep:
                continue
            for o in orders(n, deep):
                tx = Tx("t", cast)
                p = Play(N)
                wrong = None
                for i in o:
                    wrong = wrong or p.step(tx, i)
                wrong = wrong or p.finish() or p.finish()
                T.note(f"cast of {n}:{what}", text, wrong, f"members in the order {o}")
    return T.flush()


def several(ctx, N, deep):
    """transactions that overlap in time and in what they touch"""
    T = Tally(ctx, "transactions", WT)
    A = Tx("a", [[(1, RD)], [(1, W1), (2, W1)]])
    B = Tx("b", [[(0, W1), (2, RD)]])
    C = Tx("c", [[], [(HI, W1)], [(1, W1), (3, W1)]])
    D = Tx("d", [[]])
    text = "interleaved transactions are proven in the order they are completed; unfinished ones stay"
    members = lambda *ts: [(t, i) for t in ts for i in range(t.n)]
    lists = [members(A, B), members(B, A), [(A, 1), (B, 0), (A, 0)], [(C, 2), (A, 0), (C, 0), (A, 1), (C, 1)], members(D, D, A), members(D, B), members(B, D, C),
             members(B, B), [(A, 1), (C, 1), (B, 0), (C, 0), (D, 0), (A, 0), (C, 2)], members(A, A, A)]
    for k, l in enumerate(lists):
        for cut in range(len(l) + 1):
            p = Play(N)
            wrong = None
            for j, (t, i) in enumerate(l):
                if j == cut:
                    wrong = wrong or p.finish()
                wrong = wrong or p.step(t, i)
            wrong = wrong or p.finish()
            T.note(f"history {k}", text, wrong, " ".join(f"{t.name}{i}" for t, i in l) + f", finalized after {cut}")
    return T.flush()


def refused(ctx, N, deep):
    """what is not accepted leaves no trace"""
    T = Tally(ctx, "refusal", WT)
    tx = Tx("t", [[(1, RD)], [], [(1, W1), (2, W1)], [(0, W1)], [(7, W1)]])
    other = Tx("u", [[(1, RD)]])

    def cases(p, seen):
        out = [("no such member", lambda: p.ingest(tx, tx.n, proof=p.proof(tx, 0), events=[])), ("far outside", lambda: p.ingest(tx, 1 << 40, proof=p.proof(tx, 0), events=[]))]
        for i in range(tx.n):
            if i in seen:
                out.append(("a member twice", lambda i=i: p.ingest(tx, i)))
                continue
            out += [("another program's proof", lambda i=i: p.ingest(tx, i, proof=p.proof(other, 0))), ("another verifier", lambda i=i: p.ingest(tx, i, verifier=other.ids[0])),
                    ("events it did not emit", lambda i=i: p.ingest(tx, i, events=tx.events[i] + [(tx.ids[i], W1, 9, felts("more"))])),
                    ("another call list", lambda i=i: p.ingest(tx, i, proof=p.proof(tx, i, call_list=other.call))),
                    ("another cast", lambda i=i: p.ingest(tx, i, proof=p.proof(tx, i, cast_root=other.call)))]
            if tx.events[i]:
                out.append(("events missing", lambda i=i: p.ingest(tx, i, events=[])))
        return out
    full = [0, 3, 1, 4, 2]
    n = 0
    for k in range(len(full)):
        seen = full[:k]
        j = 0
        while True:
            p = Play(N)
            wrong = None
            for i in seen:
                wrong = wrong or p.step(tx, i)
            cs = cases(p, seen)
            if j == len(cs):
                break
            name, f = cs[j]
            j += 1
            got = f()
            T.note(f"{name}:refused", "what does not belong to the transaction is refused with an error", wrong or (None if got[0] == "refused" else f"{got[0]}"), f"after {seen}")
            for i in full[k:]:
                wrong = wrong or p.step(tx, i)
            wrong = wrong or p.finish()
            T.note(f"{name}:no trace", "a refused program leaves the transaction as it was", wrong, f"after {seen}")
    return T.flush()


class Match:
    def __init__(self, N):
        self.N = N
        N.reset()
        self.m = N.ref(N.meth(MA + ("Matches",), "new", N.maux))

    def key(self, tx):
        N = self.N
        return StructV(N.adt(*BP, "OngoingTxKey")["path"], {"cast_root": N.words(N.cast_root(tx.cast())), "call_tape": N.words(tx.call)})

    def call(self, name, *a):
        N = self.N
        r, dead = N.attempt(lambda: N.meth(MA + ("Matches",), name, self.m, *a))
        return "panic" if dead else N.I.deref(r)

    def ingest(self, tx, i):
        return self.call("ingest_events", self.key(tx), self.N.ref(self.N.pid(tx.ids[i])), self.N.ref(VecV(self.N.canonical(e) for e in tx.events[i])))

    def ready(self, tx):
        r = self.call("ready_tx", self.key(tx))
        return r if r == "panic" else r.var == "Ok"

    def finalize(self, height):
        N, I = self.N, self.N.I
        asked = []

        def objs(a):
            a = I.deref(I.deref(a).f["0"]).v
            asked.append(a)
            return tuple(self.object(a, w) for w in ("old", "new"))
        r = self.call("finalize", Int(height, "u64"), py(objs))
        return r, asked

    def object(self, a, w):
        c = lambda k, n=4: felts((a, w, k), n)
        N = self.N
        return StructV(N.obj, {"constraint_owner": N.words(c("owner")), "last_updated": N.words(c("last", 1)).xs[0], "credits": N.words(c("credits", 1)).xs[0], "data": N.words(c("data"))})

    @staticmethod
    def change(a):
        c = lambda w, k, n=4: felts((a, w, k), n)
        old = {"constraint_owner": c("old", "owner"), "last_updated": c("old", "last", 1)[0], "credits": c("old", "credits", 1)[0], "data": c("old", "data")}
        new = {"constraint_owner": c("new", "owner"), "credits": c("new", "credits", 1)[0], "data": c("new", "data")}
        return ("x", (a, tuple(sorted(old.items())), tuple(sorted(new.items()))))


def flatten(t):
    return [] if t is None else [t[1]] if t[0] == "x" else flatten(t[1]) + flatten(t[2])


def matched(ctx, N, deep):
    """per address, exactly the events of the ready transactions, matched with the object before and after"""
    T = Tally(ctx, "match", WM)
    A = Tx("a", [[(1, RD)], [(1, W1), (2, W1)]])
    B = Tx("b", [[(0, W1), (2, RD)]])
    C = Tx("c", [[(HI, W1)], [(1, W1), (3, W1)], [(1, RD)]])
    E = Tx("e", [[(6, "Ensure"), (6, RD), (6, W1), (6, "GiveOwner")], [(6, "TakeOwner"), (7, W1)]])
    Fv = Tx("f", [[(M64, RD), (M64, W1), (HI, W1)], []])
    m = lambda *ts: [(t, i) for t in ts for i in range(t.n)]
    hist = [(m(A), [A]), (m(B), [B]), (m(A, B), [A, B]), (m(A, B), [B, A]), ([(C, 0), (A, 0), (C, 1), (B, 0), (A, 1), (C, 2)], [A, C, B]), (m(E), [E]), (m(E, A), [E]), (m(Fv, C), [C, Fv]),
            (m(E, E), [E]), (m(A, B, C, E, Fv), [Fv, E, C, B, A])]
    for k, (ing, ready) in enumerate(hist):
        p = Match(N)
        wrong = None
        for t, i in ing:
            wrong = wrong or ("ingesting events panics" if p.ingest(t, i) == "panic" else None)
        for t in ready:
            wrong = wrong or (None if p.ready(t) is True else f"transaction {t.name} does not become ready")
            # ready once only
            wrong = wrong or (None if p.ready(t) is False else f"transaction {t.name} becomes ready twice")
        got, asked = p.finalize(40 + k)
        per, shape = {}, {}
        for t in ready:
            mine = {}
            for s, i in ing:
                if s is t:
                    for e in t.events[i]:
                        per.setdefault(e[2], []).append(e)
                    mine = over(mine, t.tree(i))
            shape = over(shape, mine)
        what = f"history {k}"
        pr = None
        if not isinstance(got, str) and not wrong:
            pr = unwrap(N.I, got)
        bad = wrong or ("finalizing panics" if pr is None else None)
        T.note(what + ":objects", "the objects before and after are asked for once per touched address, and matched at the block's height",
               bad or (None if sorted(asked) == sorted(per) and pr.change == root({a: p.change(a) for a in per}) and pr.height == 40 + k else f"addresses {sorted(per)}: asked {asked}, proof says {pr.change} at {pr.height}"), what)
        T.note(what + ":events", "each touched address accumulates its events, each once, in the order they came",
               bad or (None if flatten(pr.events) == flatten(root({a: balanced([("x", e) for e in es]) for a, es in per.items()})) else tell(pr.events)), what)
        T.note(what + ":shape", "the events of an address are joined program by program, transaction by transaction", bad or (None if pr.events == root(shape) else f"{tell(pr.events)}, not {tell(root(shape))}"), what)
        if not deep and k > 6:
            continue
        # the next block starts anew
        rest = [t for t in dict.fromkeys(t for t, _ in ing) if t not in ready]
        r = [p.ready(t) for t in rest]
        for t in [A] if not rest else []:
            p.ingest(t, 0), p.ingest(t, 1), p.ready(t)
            rest = [A]
        got, asked = p.finalize(50)
        per = {}
        for t in rest:
            for s, i in (ing if r else [(A, 0), (A, 1)]):
                if s is t:
                    per = over(per, t.tree(i))
        pr = None if isinstance(got, str) else unwrap(N.I, got)
        T.note(what + ":next block", "a block's end leaves only transactions that are not ready", bad or (None if pr is not None and pr.events == root(per) and pr.height == 50 else "another block contains something else"), what)
    return T.flush()


def blocks(ctx, N, deep):
    """honest transactions end in a block; anything that does not fit is refused"""
    T = Tally(ctx, "block", WB)
    I = N.I
    import P32
    tree = P32.Tree(3)
    A = Tx("a", [[(1, RD)], [(1, W1), (2, W1)]])
    B = Tx("b", [[(0, W1), (2, RD)]])
    C = Tx("c", [[(HI, W1)], [], [(0, W1), (3, W1)]])
    E = Tx("e", [[(6, "Ensure"), (6, RD), (6, W1), (6, "GiveOwner")], [(6, "TakeOwner"), (7, W1)]])
    G = Tx("g", [[(6, RD), (6, W1)], [(6, "Ensure"), (6, RD)]])
    H = Tx("h", [[(1, RD)], [(1, W1)], [(1, "Ensure")]])
    Q = Tx("q", [[(1, RD)], [(1, W1)], [(1, "Ensure")], [(1, "TakeOwner")]])

    def play(txs, order=None):
        """what a proposer that hands every program to both accumulators ends up with"""
        p = Play(N)
        keep = p.acc
        N2 = N.ref(N.meth(MA + ("Matches",), "new", N.maux))
        m = Match.__new__(Match)
        m.N, m.m = N, N2
        for t, i in order or [(t, i) for t in txs for i in range(t.n)]:
            w = p.step(t, i)
            if w or m.ingest(t, i) == "panic":
                return None, None
            if p.done and p.done[-1] is t and t.name not in p.todo and not m.ready(t):
                return None, None
        tx, (mp, _) = p.finalize(), m.finalize(1)
        return (tx if isinstance(tx, Proof) else None), (None if isinstance(mp, str) else unwrap(I, mp))
    cases = {"one program": ([B], None), "a cast": ([A], None), "three members": ([H], None), "transactions": ([A, B, C], None), "many events of one address": ([E], None),
             "events of one address in two programs": ([G], None), "late first transaction": ([A, B], [(A, 0), (B, 0), (A, 1)]),
             "members out of order": ([A], [(A, 1), (A, 0)]), "four members with one address": ([Q], None)}
    for name, (txs, order) in cases.items():
        tx, mp = play(txs, order)
        ok = tx is not None and mp is not None and tx.events == mp.events
        T.note(f"provable:{name}", "the events of a block's transactions are those its matches account for, so that the block can be proven",
               None if ok else f"transactions {tell(tx.events) if tx else 'fail'}, matches {tell(mp.events) if mp else 'fail'}", name)
    # chaining
    s = [Tok("state", k) for k in range(4)]
    N.reset()
    built = []
    was = I.intrinsics[CI + "::verify_block::Circuit::new"]

    def build(I_, vs, h, e, n):
        built.append([I.deref(v) for v in vs[1:]])
        return was(I_, vs, h, e, n)
    I.intrinsics[CI + "::verify_block::Circuit::new"] = build
    try:
        st = N.meth(BL + ("AuxBlockData",), "new", N.ref(Tok("config")), N.aux, N.maux, N.ref(tree.I.deref(tree.aux)))
    finally:
        I.intrinsics[CI + "::verify_block::Circuit::new"] = was
    parts = built[0] if len(built) == 1 else []
    top = tree.root(tree.new()).k[1]
    T.note("circuit", "blocks are proven over the circuit of the whole state", None if parts and parts[-1].k == ("branch circuit", top - 1) else f"built over {parts[-1:]}, the state has {top} levels", "auxiliary data")
    b = N.ref(N.meth(BL + ("Blocks",), "new", N.ref(st), s[0]))
    h = lambda: I.deref(N.meth(BL + ("Blocks",), "height", b)).v
    mk = lambda k, e, old, new: (Proof("tx branch", events=("x", e), txs=()), Proof("match branch", events=("x", e), height=k, change=("x", k)), Proof("state", change=("x", k), old=s[old].k, new=s[new].k))

    def inc(ps):
        r, dead = N.attempt(lambda: N.meth(BL + ("Blocks",), "increment", b, *[N.ref(x) for x in ps]))
        return "panic" if dead else I.deref(r).var
    T.note("first", "the first block has height zero", None if h() == 0 else f"height {h()}", "new blocks")
    for k in (1, 2, 3):
        good = mk(k, k, k - 1, k)
        for what, ps in (("another height", (good[0], mk(k + 1, k, k - 1, k)[1], good[2])), ("other events", (mk(k, k + 9, 0, 0)[0], good[1], good[2])),
                         ("another state", (good[0], good[1], mk(k, k, (k + 1) % 4, k)[2])), ("another change", (good[0], good[1], mk(k + 5, k, k - 1, k)[2]))):
            got = inc(ps)
            T.note(f"mismatch:{what}", "proofs that do not fit are refused and leave the chain as it was", None if got == "Err" and h() == k - 1 else f"{got}, height {h()}", f"block {k}")
        got = inc(good)
        T.note("increment", "a fitting set of proofs adds one block", None if got == "Ok" and h() == k else f"{got}, height {h()}", f"block {k}")
    return T.flush()


def run(ctx):
    ctx.rule = ("abstract interpretation of the proposer over circuits as checked term operations (each refuses exactly what P29 to P31 say it refuses): every scenario's proofs state the events, addresses, objects and heights of the specification")
    ctx.assumptions.append("casts of 1 to 9 members (13 in the thorough tier), all orders up to 3 (4), five orders of larger ones; event patterns enumerated; hashes are free terms")
    ctx.assumptions.append("accumulation of contradicting flags (two writes of one object) is the circuits' matter (P30)")
    N = Node()
    deep = ctx.tier == "thorough"
    for what, f, least in (("transaction", singles, 250), ("transactions", several, 40), ("refusal", refused, 100), ("match", matched, 30), ("block", blocks, 20)):
        with ctx.group(what):
            ctx.floor(f"{what}: scenarios", f(ctx, N, deep), least)
    ctx.saw(N.I)
