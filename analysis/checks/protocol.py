"""Runs of the provers on indeterminate traces, and what an honest transcript must look like (shared by the transcript, acceptance and circuit checks)."""
import bdd
import starkmodel as sm
import transcript as tr
from builtins_rs import items
from field import FPoly, feq, fof, inverse
from program import AnalysisError
from transcript import Cap, Challenger, Commitment, Consumer, EvalFrame, Poly, Tok, VWorld, intern, lst
from values import *

PUB = "stark::mozak_stark::PUBLIC_TABLE_KINDS"
FIELDS = ("local_values", "next_values", "ctl_zs", "ctl_zs_next", "ctl_zs_last", "quotient_polys")


class Run:
    """one run of a prover: the proof it makes, and the facts it was made from"""

    def __init__(self, batch, sizes=None, public=None, nch=2):
        self.W = W = VWorld(sm.load(), sizes, nch)
        self.I = I = W.I
        self.batch = batch
        self.entry = FPoly.var("entry")
        self.ms, self.cfg = W.machine(), W.config()
        pi = W.struct("stark::mozak_stark::PublicInputs", entry_point=self.entry)
        I.pc = True
        if batch:
            d = W.fn(*PUB.split("::"))
            self.public = [x.var for x in lst(I, I.const_item(d))] if public is None else public
            self.pubs = VecV([W.kind(k) for k in self.public])
            r = W.call("stark::batch_prover::batch_prove", W.ref(Tok("program")), W.ref(Tok("record")), W.ref(self.ms), W.ref(self.pubs), W.ref(self.cfg), pi, W.ref(Tok("timing")))
        else:
            self.public = list(W.kinds)
            r = W.call("stark::prover::prove_with_traces", W.ref(self.ms), W.ref(self.cfg), pi, W.ref(W.traces()), W.ref(Tok("timing")))
        self.proved = I.pc
        self.ok = I.is_variant(r, ("Result",), "Ok")
        I.pc = bdd.and_(I.pc, self.ok)
        r = I.payload(r, ("Result",), "Ok", 0)
        if batch:
            self.degrees = {k: I.deref(x).v for k, x in zip(W.kinds, lst(I, r[1].f["0"]))}
            r = r[0]
        I.pc = True
        self.proof = I.deref(r)
        self.proofs = dict(zip(W.kinds, [I.deref(x) for x in lst(I, self.proof.f["proofs"].f["0"])]))
        self.q = {x[1]: x for x in W.log if x[0] == "quotient"}
        self.opens = [x for x in W.log if x[0] == "open"]
        self.assign()

    def assign(self):
        """which opening argument belongs to which tables: by the trace polynomials it opens"""
        self.open_of, self.batched = {}, []
        for o in self.opens:
            ks = {p.name[1] for p in o[2][0].polys}
            if o[5] is None:
                if len(ks) != 1:
                    raise AnalysisError("one opening argument covers several tables")
                self.open_of[ks.pop()] = o
            else:
                self.batched.append(o)
                for k in ks:
                    self.open_of[k] = o

    def group(self, k):
        return [j for j in self.W.kinds if self.open_of.get(j) is self.open_of[k]]

    def zeta(self, k):
        """the point the instance opens first"""
        i = self.open_of[k][1]
        i = lst(self.I, i)[0] if self.open_of[k][5] is not None else i
        return fof(self.I.deref(lst(self.I, i.f["batches"])[0].f["point"]))

    def opened(self, k):
        """[(degree bits or None, [[(polynomial, point)] per batch])] an opening argument is about"""
        I, o = self.I, self.open_of[k]
        trees = o[2]
        single = o[5] is None
        out = []
        for n, inst in enumerate([o[1]] if single else lst(I, o[1])):
            bs = []
            for b in lst(I, inst.f["batches"]):
                pt = fof(I.deref(b.f["point"]))
                bs.append([(self.poly(trees, I.deref(x)), pt) for x in lst(I, b.f["polynomials"])])
            out.append((None if single else lst(I, o[5])[n].v, bs))
        return out

    @staticmethod
    def poly(trees, info):
        o, i = info.f["oracle_index"].v, info.f["polynomial_index"].v
        if o >= len(trees) or i >= len(trees[o].polys):
            raise AnalysisError(f"an opening refers to polynomial {i} of commitment {o}, which does not exist")
        return trees[o].polys[i]

    def expected_opened(self, k):
        """what has to be opened for a table: everything at zeta, trace and running sums one row later, running sums on the last row"""
        W, z = self.W, self.zeta(k)
        g = W.root(W.bits[k])
        T, Z, Q = self.polys(k)
        return [[(p, z) for p in T + Z + Q], [(p, z * g) for p in T + Z], [(p, inverse(g)) for p in Z]]

    def polys(self, k):
        o = self.open_of[k]
        pick = lambda t: [p for p in t.polys if self.kind_of(p) == k]
        return pick(o[2][0]), pick(o[2][1]), pick(o[2][2])

    @staticmethod
    def kind_of(p):
        n = p.name
        while n[0] == "chunk":
            n = n[1]
        return n[1]

    # ------------------------------------------------------------ reference acceptance
    def openings(self, k):
        """value lists of an opening argument, as the verifier must present them"""
        S = lambda bs: StructV(("FriOpenings",), {"batches": VecV([StructV(("FriOpeningBatch",), {"values": VecV([p.at(z) for p, z in b])}) for b in bs])})
        xs = [S(bs) for _, bs in self.opened(k)]
        return xs[0] if self.open_of[k][5] is None else VecV(xs)

    def fri_atom(self, k):
        I, o = self.I, self.open_of[k]
        owner = self.proof.f["batch_stark_proof"] if o[5] is not None else self.proofs[k]
        key = tr.fri_key(I, [o[1], self.openings(k), o[6], VecV([t.cap() for t in o[2]]), I.deref(owner.f["opening_proof"]), o[4]])
        return ("batch",) + key + (freeze(o[5]),) if o[5] is not None else key

    def quotient_atoms(self, k):
        """the quotient identity of a table, once per challenge"""
        W, I = self.W, self.I
        z, n, g = self.zeta(k), 1 << W.bits[k], W.root(W.bits[k])
        zh = z ** n - 1
        l0 = zh * inverse((z - 1) * n)
        ll = zh * inverse((z * g - 1) * n)
        T, Z, Q = self.polys(k)
        al = self.q[k][7]
        frame = EvalFrame([p.at(z) for p in T], [p.at(z * g) for p in T], [self.entry] if W.type_of[k][-1] == "CpuSkeletonStark" else [])
        op = StructV(("o",), {"ctl_zs": VecV([p.at(z) for p in Z]), "ctl_zs_next": VecV([p.at(z * g) for p in Z])})
        ctl = VecV(list(W.ctl_vars(k, op, self.ctl_challenges()).xs))
        van = list(tr.vanish(W, I.deref(self.stark(k)), frame, ctl, Consumer([fof(I.deref(a)) for a in al], z - inverse(g), l0, ll)))
        out = []
        f = W.qdf(k)
        for i, v in enumerate(van):
            q = FPoly.const(0)
            for p in reversed(Q[i * f:(i + 1) * f]):
                q = q * z ** n + p.at(z)
            out.append(feq(v, zh * q))
        return out

    def stark(self, k):
        fields = [n for n, t in self.W.machine_fields.items() if t[0] == "adt"]
        return self.ms.f[fields[self.W.kinds.index(k)]]

    def ctl_challenges(self):
        """the challenge set the running sums were made from"""
        return self.W.ctl_set

    def ctl_atom(self):
        W, ms = self.W, self.ms
        red = Tok("reduced", intern(freeze(self.proof.f["public_sub_table_values"])), intern(freeze(self.ctl_challenges())))
        last = W.array([VecV([p.at(inverse(W.root(W.bits[k]))) for p in self.polys(k)[1]]) for k in W.kinds])
        return W.ctl_key([ms.f["cross_table_lookups"], ms.f["public_sub_tables"], red, last, self.cfg])

    def program_id(self):
        """the identity of the program: hash of entry point and the hashes of the two program commitments"""
        caps = [tr.hash_of(self.open_of[k][2][0].cap().els()) for k in ("Program", "ElfMemoryInit")]
        h = tr.hash_of([self.entry] + [x for c in caps for x in c.f["elements"].xs])
        return [tr.byte(x, j) for x in h.f["elements"].xs for j in range(8)]

    def with_id(self, proof):
        """the proof claiming an unrelated program id"""
        v = proof.f["program_id"]
        w = StructV(v.path, {"0": StructV(v.f["0"].path, {"0": VecV([FPoly.var(("pid", i)) for i in range(32)])})})
        return StructV(proof.path, {**proof.f, "program_id": w})

    def acceptance(self):
        """every condition a verifier must check, on a proof with an arbitrary program id: {name: condition}"""
        out = {}
        for k in self.W.kinds:
            for i, a in enumerate(self.quotient_atoms(k)):
                out[f"quotient:{k}:{i}"] = a
            if self.open_of[k][5] is None:
                out[f"openings:{k}"] = bdd.var(self.fri_atom(k))
        if self.batched:
            out["openings:batch"] = bdd.var(self.fri_atom(next(k for k in self.W.kinds if k not in self.public)))
        out["lookups"] = bdd.var(self.ctl_atom())
        for i, b in enumerate(self.program_id()):
            out[f"program id:{i}"] = feq(b, FPoly.var(("pid", i)))
        return out

    def verify(self, proof):
        """(condition under which the native verifier returns Ok)"""
        W, I = self.W, self.I
        I.pc = True
        store = dict(I.store)
        try:
            return self.verify_(W, I, proof)
        finally:
            I.store, I.pc = store, True

    def verify_(self, W, I, proof):
        try:
            if self.batch:
                deg = W.array([Int(self.degrees[k], "usize") for k in W.kinds])
                r = W.call("stark::batch_verifier::batch_verify_proof", W.ref(self.ms), W.ref(self.pubs), proof, W.ref(self.cfg), W.ref(deg))
            else:
                r = W.call("stark::verifier::verify_proof", W.ref(self.ms), proof, W.ref(self.cfg))
        except Dead_:
            return False
        return bdd.and_(I.pc, I.is_variant(r, ("Result",), "Ok"))


from interp import Dead as Dead_  # noqa: E402
