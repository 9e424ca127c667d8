"""Model of the proof system's outside: commitments, polynomials, Fiat-Shamir challengers and FRI as symbolic objects."""
import bdd
import starkmodel as sm
from interp import Env
from builtins_rs import items, seq
from field import FPoly, feq, fof, inverse
from P20 import Model, reduce_desc
from program import AnalysisError
from values import *

C = "mozak_circuits"
_ids, _rev = {}, []


def intern(x):
    i = _ids.get(x)
    if i is None:
        i = _ids[x] = len(_rev)
        _rev.append(x)
    return i


class Tok(DomainV):
    """an indeterminate object known only by what it is"""

    def __init__(self, *name):
        self.name = name

    def key(self):
        return ("tok",) + self.name

    def __repr__(self):
        return "<" + " ".join(str(x) for x in self.name)[:80] + ">"

    def __eq__(self, o):
        return isinstance(o, Tok) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def binop(self, I, op, other, swapped):
        if op in ("==", "!="):
            return (self == other) == (op == "==")
        return NotImplemented

    def method(self, I, name, args, hint, place):
        if name in ("clone", "to_owned", "borrow", "as_ref", "iter", "into_iter", "copied"):
            return self
        return NotImplemented


class Poly(Tok):
    """a polynomial of a known degree"""

    def __init__(self, n, *name):
        super().__init__(*name)
        self.n = n

    def method(self, I, name, args, hint, place):
        if name == "len":
            return Int(self.n, "usize")
        if name == "to_extension":
            return self
        if name == "eval":
            z = fof(I.deref(args[0]))
            if z is None:
                raise AnalysisError(f"a polynomial is evaluated at an unknown point {I.deref(args[0])!r:.100}")
            return self.at(z)
        if name == "trim_to_len":
            k = I.deref(args[0])
            if not isinstance(k, Int) or k.v < self.n:
                raise AnalysisError("polynomial trimmed below its degree")
            return Ok(UNIT)
        if name == "chunks":
            k = I.deref(args[0])
            if not isinstance(k, Int) or self.n % k.v:
                raise AnalysisError("chunks of an unknown size")
            return VecV([Poly(k.v, "chunk", self.name, k.v, i) for i in range(self.n // k.v)])
        return super().method(I, name, args, hint, place)

    def at(self, z):
        return FPoly.var(("eval", intern(self.name), intern(z.key())))


class Commitment(Tok):
    """a Merkle commitment to a list of polynomials"""

    def __init__(self, polys, batch, coeffs):
        super().__init__("commit", batch, coeffs, tuple((intern(p.name), p.n) for p in polys))
        self.polys, self.batch, self.coeffs = polys, batch, coeffs
        self.sizes = sorted({p.n for p in polys}, reverse=True)
        if batch and [p.n for p in polys] != sorted((p.n for p in polys), reverse=True):
            raise AnalysisError("a batched commitment to polynomials that are not sorted by size")

    def cap(self):
        return Cap(intern(self.name))

    def field(self, I, name):
        if name == "polynomials":
            return VecV(self.polys)
        if name == ("batch_merkle_tree" if self.batch else "merkle_tree"):
            return StructV(("MerkleTree",), {"cap": self.cap()})
        return NotImplemented

    def method(self, I, name, args, hint, place):
        if name == "get_lde_values_packed":
            a = [I.deref(x) for x in args]
            if self.batch:
                g, i, step, lo, n = a
                ps = [p for p in self.polys if p.n == self.sizes[g.v]][lo.v:lo.v + n.v]
            else:
                (i, step), ps = a, self.polys
            return VecV([FPoly.var(("lde", intern(p.name), freeze(i), freeze(step))) for p in ps])
        return super().method(I, name, args, hint, place)


CAP_HEIGHT, RATE_BITS = 1, 2


class Cap(Tok):
    """a Merkle cap: 2^height hashes of four elements"""

    def __init__(self, ident, height=CAP_HEIGHT):
        super().__init__("cap", ident, height)
        self.height = height

    def els(self):
        return [FPoly.var(("capel", self.name[1], j)) for j in range(4 << self.height)] if self.height is not None else []

    def field(self, I, name):
        if name == "0":
            xs = self.els()
            return VecV([StructV(("HashOut",), {"elements": VecV(xs[i:i + 4])}) for i in range(0, len(xs), 4)])
        return NotImplemented

    def method(self, I, name, args, hint, place):
        if name == "flatten":
            return VecV(self.els())
        if name == "height":
            return Int(self.height, "usize")
        if name == "len":
            return Int(1 << self.height, "usize")
        return super().method(I, name, args, hint, place)


def hash_of(xs):
    h = intern(("hash", tuple(x.key() for x in xs)))
    return StructV(("HashOut",), {"elements": VecV([FPoly.var(("hash", h, j)) for j in range(4)])})


def byte(x, j):
    return FPoly.var(("byte", intern(x.key()), j))


def fri_proof(x, bits):
    """an opening proof; its query paths show the size of the committed domain"""
    path = StructV(("MerkleProof",), {"siblings": VecV([Tok("sibling", x, i) for i in range(bits + RATE_BITS - CAP_HEIGHT)])})
    q = StructV(("FriQueryRound",), {"initial_trees_proof": StructV(("FriInitialTreeProof",), {"evals_proofs": VecV([(Tok("evals", x), path)])}), "steps": Tok("steps", x)})
    return StructV(("FriProof",), {"commit_phase_merkle_caps": Tok("fricaps", x), "query_round_proofs": VecV([q]), "final_poly": Tok("frifinal", x), "pow_witness": FPoly.var(("fripow", x))})


class Consumer(DomainV):
    """collects the random combination of constraints, one per alpha"""

    def __init__(self, alphas, zl, l0, ll):
        self.alphas, self.z, self.acc = alphas, (zl, l0, ll), None

    def key(self):
        return ("consumer", tuple(a.key() for a in self.alphas), tuple(x.key() for x in self.z), freeze(VecV(self.acc or [])))

    def method(self, I, name, args, hint, place):
        if name == "accumulators":
            if self.acc is None:
                raise AnalysisError("constraints are read before they are evaluated")
            return VecV(self.acc)
        return NotImplemented


def vanish(W, stark, frame, ctl, cons):
    """value of the combined constraints: a function of everything that goes in"""
    for a in cons.alphas:
        yield FPoly.var(("van", intern((freeze(stark), frame.key(), freeze(ctl), a.key(), tuple(x.key() for x in cons.z)))))


class EvalFrame(Tok):
    def __init__(self, l, n, p):
        super().__init__("frame", tuple(x.key() for x in l), tuple(x.key() for x in n), tuple(x.key() for x in p))


class Challenger(DomainV):
    """sponge over what was observed; equal histories give equal challenges"""
    head = "Challenger"
    own = ("clone", "to_owned", "observe_cap", "observe_element", "observe_elements", "observe_hash", "observe_extension_element", "observe_extension_elements", "observe_openings",
           "compact", "get_challenge", "get_extension_challenge", "get_n_challenges", "fri_challenges", "get_hash")

    def __init__(self, state=0, pending=(), used=None):
        self.state, self.pending, self.used = state, pending, used

    def key(self):
        return ("challenger", self.state, self.pending, self.used)

    def flush(self, force=True):
        if self.pending or force:
            return Challenger(intern(("dup", self.state, self.pending)), (), 0)
        return self

    def observe(self, xs):
        xs = tuple(freeze(x) for x in xs)
        return Challenger(self.state, self.pending + xs, None) if xs else self

    def draw(self):
        c = self.flush() if self.pending or self.used is None else self
        return FPoly.var(("chal", c.state, c.used)), Challenger(c.state, (), c.used + 1)

    def compact(self):
        c = self.flush(False)
        return Challenger(c.state, c.pending, None)

    def method(self, I, name, args, hint, place):
        a = [I.deref(x) for x in args]
        a = [x for x in a if not isinstance(x, sm.Builder)]
        if name in ("clone", "to_owned"):
            return self
        if place is None:
            return NotImplemented

        def put(c):
            place.set(c)
            return UNIT
        if name == "observe_cap":
            return put(self.observe([a[0]]))
        if name in ("observe_element", "observe_extension_element"):
            return put(self.observe([a[0]]))
        if name in ("observe_elements", "observe_extension_elements", "observe_hash"):
            return put(self.observe(lst(I, a[0])))
        if name == "observe_openings":
            return put(self.observe([x for b in lst(I, I.get_field(a[0], "batches")) for x in lst(I, I.get_field(I.deref(b), "values"))]))
        if name == "compact":
            c = self.compact()
            put(c)
            return Tok("state", c.state, c.pending)
        if name in ("get_challenge", "get_extension_challenge"):
            v, c = self.draw()
            put(c)
            return v if name == "get_challenge" else FPoly.var(("ext", v.key()))
        if name == "get_n_challenges":
            c, out = self, []
            for _ in range(a[0].v):
                v, c = c.draw()
                out.append(v)
            put(c)
            return VecV(out)
        if name == "fri_challenges":
            r, c = self.fri(a[0], a[1], a[2])
            put(c)
            return r
        return NotImplemented

    def fri(self, caps, final, pw):
        # the FRI folding transcript ends by drawing query indices: nothing pending, outputs in use
        c = self.flush(False)
        s = intern(("fri", c.state, c.used if c.used is not None else None, freeze(caps), freeze(final), freeze(pw)))
        return Tok("frich", s), Challenger(intern(("after-fri", s)), (), 1)

    def history(self):
        """what a challenge of this state depends on, in order"""
        return hist(self.state) + list(self.pending)


def hist(s):
    if s == 0 or s is None:
        return []
    x = _rev[s]
    if x[0] == "dup":
        return hist(x[1]) + list(x[2])
    if x[0] == "after-fri":
        return hist(x[1])
    if x[0] == "fri":
        return hist(x[1]) + [x[3], x[4], x[5]]
    return []


def lst(I, v):
    v = I.deref(v)
    if isinstance(v, Tok):
        return [v]
    if v is DEFAULT:
        return []
    xs = seq(I, v)
    if xs is None:
        raise AnalysisError(f"not a known sequence: {v!r:.80}")
    return [I.deref(x) for x in xs]


def fri_instance(I, nch, qdf, cols, zeta, g, nzs, last):
    """what the proof library's `Stark::fri_instance` declares: three oracles; openings at zeta, g*zeta and the last row"""
    oracle = lambda n: StructV(("FriOracleInfo",), {"num_polys": Int(n, "usize"), "blinding": False})
    P = lambda o, n: [StructV(("FriPolynomialInfo",), {"oracle_index": Int(o, "usize"), "polynomial_index": Int(i, "usize")}) for i in range(n)]
    batch = lambda pt, ps: StructV(("FriBatchInfo",), {"point": pt, "polynomials": VecV(ps)})
    return StructV(("FriInstanceInfo",), {
        "oracles": VecV([oracle(cols), oracle(nzs), oracle(qdf * nch)]),
        "batches": VecV([batch(zeta, P(0, cols) + P(1, nzs) + P(2, qdf * nch)), batch(zeta * g, P(0, cols) + P(1, nzs)), batch(last, P(1, nzs))])})


class World(Model):
    """the prover's and verifiers' code with its outside modelled; every table has two columns of its own size"""

    def __init__(self, P, sizes=None, nch=2):
        super().__init__(P)
        I = self.I
        I.sym_feq = True
        self.nch = nch
        self.bits = dict(zip(self.kinds, (sizes or [3, 5, 4, 3, 6]) * len(self.kinds)))
        d = self.adt("stark", "mozak_stark", "MozakStark")
        self.machine_fields, types = {}, []
        for f in d["fields"]["f"]:
            t = I.ty(f["ty"], Env(None, d["mod"]))
            self.machine_fields[f["n"]] = t
            if t[0] == "adt":
                types.append(t[1]["path"])
        if len(types) != len(self.kinds):
            raise AnalysisError("the machine's tables and the table kinds differ in number")
        self.type_of = dict(zip(self.kinds, types))
        uniq = list(dict.fromkeys(types))
        # few columns, and not the same number everywhere
        self.tcols = {t: 1 + i % 3 for i, t in enumerate(uniq)}
        self.tqdf = {t: 1 + (i // 3) % 2 for i, t in enumerate(uniq)}
        self.log = []
        self.deps()

    # ------------------------------------------------------------ the outside
    def root(self, bits):
        return FPoly.var(("root", bits))

    def cols(self, k):
        return self.tcols[self.type_of[k]]

    def qdf(self, k):
        return self.tqdf[self.type_of[k]]

    def nz(self, k):
        return (2 if self.kinds.index(k) % 2 else 1) * self.nch

    def npub(self, k):
        return (1 if self.kinds.index(k) % 3 == 0 else 0) * self.nch

    def machine(self):
        f = {n: StructV(t[1]["path"], {}) if t[0] == "adt" else Tok("machine", n) for n, t in self.machine_fields.items()}
        f["debug"] = False
        return StructV(self.adt("stark", "mozak_stark", "MozakStark")["path"], f)

    def config(self):
        return Config(self)

    def degree_array(self):
        return self.array([Int(self.bits[k], "usize") for k in self.kinds])

    def traces(self):
        return self.array([VecV([Poly(1 << self.bits[k], "t", k, i) for i in range(self.cols(k))]) for k in self.kinds])

    def zpoly(self, k, i, what, chs):
        return Poly(1 << self.bits[k], what, k, i, intern(freeze(chs)))

    def ctl_data(self, k, n, what, chs):
        zs = []
        cs = lst(self.I, self.I.get_field(self.I.deref(chs), "challenges"))
        for i in range(n):
            zs.append(self.struct("cross_table_lookup::CtlZData", z=self.zpoly(k, i, what, chs), challenge=cs[i % len(cs)], columns=VecV([Tok("zcol", what, k, i)]), filter_column=Tok("zfilter", what, k, i)))
        return self.struct("cross_table_lookup::CtlData", zs_columns=VecV(zs))

    def deps(self):
        I = self.I
        I.intrinsics["PolynomialBatch::from_values"] = lambda I_, vs, h, e, n: self.commit(vs, False, False)
        I.intrinsics["PolynomialBatch::from_coeffs"] = lambda I_, vs, h, e, n: self.commit(vs, False, True)
        I.intrinsics["BatchFriOracle::from_values"] = lambda I_, vs, h, e, n: self.commit(vs, True, False)
        I.intrinsics["BatchFriOracle::from_coeffs"] = lambda I_, vs, h, e, n: self.commit(vs, True, True)
        I.intrinsics["Challenger::new"] = I.intrinsics["RecursiveChallenger::new"] = lambda I_, vs, h, e, n: Challenger()

        def from_state(I_, vs, h, e, n):
            t = I_.deref(vs[-1])
            return Challenger(t.name[1], t.name[2], None)
        I.intrinsics["RecursiveChallenger::from_state"] = from_state
        I.intrinsics["*::primitive_root_of_unity"] = lambda I_, vs, h, e, n: self.root(I_.deref(vs[-1]).v)
        I.intrinsics["ext:log2_strict"] = lambda I_, vs, h, e, n: Int(I_.deref(vs[0]).v.bit_length() - 1, "usize")
        I.intrinsics["ext:log2_ceil"] = lambda I_, vs, h, e, n: Int((I_.deref(vs[0]).v - 1).bit_length(), "usize")
        I.intrinsics["TimingTree::default"] = lambda I_, vs, h, e, n: Tok("timing")
        I.intrinsics["cross_table_lookup::cross_table_lookup_data"] = self.h_ctl
        I.intrinsics["public_sub_table::public_sub_table_data_and_values"] = self.h_pub
        I.intrinsics["generation::generate_traces"] = lambda I_, vs, h, e, n: self.traces()
        I.intrinsics["generation::debug_traces"] = I.intrinsics["ctl_utils::debug_ctl"] = lambda I_, vs, h, e, n: UNIT
        I.intrinsics["*::hash_pad"] = lambda I_, vs, h, e, n: hash_of([fof(x) for x in lst(I_, vs[-1])])
        I.methods["to_bytes"] = self.m_bytes
        I.methods["total_arities"] = lambda I_, v, place, args, hint, node, env: Int(0, "usize")
        I.intrinsics["poly::compute_quotient_polys"] = self.h_quotient
        I.intrinsics["PolynomialBatch::prove_openings"] = lambda I_, vs, h, e, n: self.h_open(vs[0], vs[1], vs[2], vs[3], None)
        I.intrinsics["BatchFriOracle::prove_openings"] = lambda I_, vs, h, e, n: self.h_open(vs[1], vs[2], vs[3], vs[4], vs[0])
        I.intrinsics["MerkleCap::default"] = lambda I_, vs, h, e, n: Cap("none", None)
        I.methods["fri_instance"] = self.m_fri_instance
        I.methods["quotient_degree_factor"] = lambda I_, v, place, args, hint, node, env: Int(self.tqdf[v.path], "usize")
        I.methods["num_quotient_polys"] = lambda I_, v, place, args, hint, node, env: Int(self.tqdf[v.path] * self.nch, "usize")
        I.methods["requires_ctls"] = I.methods["uses_lookups"] = lambda I_, v, place, args, hint, node, env: False
        old = I.statics["assoc_const_hook"]

        def const(I_, t, name, env, ids):
            if name == "COLUMNS" and t and t[0] == "adt":
                return Int(self.tcols[t[1]["path"]], "usize")
            if name == "PUBLIC_INPUTS" and t and t[0] == "adt":
                return Int(1 if t[1]["n"] == "CpuSkeletonStark" else 0, "usize")
            return old(I_, t, name, env, ids)
        I.statics["assoc_const_hook"] = const
        I.macros["timed"] = self.timed
        I.macros["with_context"] = self.timed
        I.macros["log_enabled"] = lambda I_, m, env, hint, n: False

    def commit(self, vs, batch, coeffs):
        a = [self.I.deref(v) for v in vs[1:4]]
        if not (isinstance(a[0], Int) and a[0].v == RATE_BITS and a[1] is False and isinstance(a[2], Int) and a[2].v == CAP_HEIGHT):
            raise AnalysisError(f"a commitment with parameters {a}")
        return Commitment(lst(self.I, vs[0]), batch, coeffs)

    def timed(self, I, m, env, hint, n):
        f = m["form"]
        a = f["a"] if f and f["f"] == "args" else None
        return I.eval(a[-1], env, hint) if a else NotImplemented

    def h_ctl(self, I, vs, h, e, n):
        self.ctl_set = I.deref(vs[-1])
        return self.array([self.ctl_data(k, self.nz(k), "z", vs[-1]) for k in self.kinds])

    def h_pub(self, I, vs, h, e, n):
        return (self.array([self.ctl_data(k, self.npub(k), "pz", vs[-1]) for k in self.kinds]),
                self.array([VecV([VecV([VecV([FPoly.var(("pubval", k, i))])]) for i in range(self.npub(k))]) for k in self.kinds]))

    def kind_of(self, names):
        ks = {n[1] for n in names}
        if len(ks) != 1:
            raise AnalysisError(f"columns of several tables are mixed: {sorted(ks)}"[:200])
        return ks.pop()

    def h_quotient(self, I, vs, h, e, n):
        i, s = Tok("point"), Tok("step")
        tr = lst(I, I.call(vs[1], [i, s]))
        zs = lst(I, I.call(vs[2], [i, s]))
        al = lst(I, vs[6])
        k = self.kind_of([self.lde(x)[1] for x in tr])
        self.log.append(("quotient", k, [self.lde(x)[1] for x in tr], [self.lde(x)[1] for x in zs], I.deref(vs[3]), I.deref(vs[4]), I.deref(vs[5]), al, I.deref(vs[7]), I.deref(vs[0])))
        return VecV([Poly((1 << self.bits[k]) * self.qdf(k), "quotient", k, j, intern(a.key())) for j, a in enumerate(al)])

    @staticmethod
    def lde(x):
        import field
        (m, c), = x.p.items()
        n = field.vname(m[0])
        return n[0], _rev[n[1]]

    def h_open(self, inst, trees, ch, params, degs):
        I = self.I
        c = I.deref(ch)
        x = intern(("opening", c.key(), freeze(I.deref(inst)), freeze(I.deref(trees)), freeze(I.deref(params)), freeze(I.deref(degs)) if degs is not None else None))
        self.log.append(("open", I.deref(inst), lst(I, trees), c, I.deref(params), degs and I.deref(degs)))
        bits = I.get_field(I.deref(params), "degree_bits").v
        pr = fri_proof(x, bits)
        t, c2 = c.fri(pr.f["commit_phase_merkle_caps"], pr.f["final_poly"], pr.f["pow_witness"])
        self.log[-1] += (t,)
        ch.place.set(c2)
        return pr

    def m_bytes(self, I, v, place, args, hint, node, env):
        if isinstance(v, StructV) and v.path == ("HashOut",):
            return VecV([byte(x, j) for x in v.f["elements"].xs for j in range(8)])
        return NotImplemented

    def m_fri_instance(self, I, v, place, args, hint, node, env):
        a = [I.deref(x) for x in args]
        zeta, g = fof(a[0]), fof(a[1])
        lc = I.payload(a[5], ("Option",), "Some", 0)
        nzs = I.get_field(lc, "num_zs").v
        last = inverse(self.root(I.get_field(lc, "degree_bits").v))
        if not (isinstance(a[2], Int) and a[2].v == 0 and lst(I, a[3]) == []):
            raise AnalysisError("the instance declares look-ups of the proof library")
        return fri_instance(I, self.nch, self.tqdf[v.path], self.tcols[v.path], zeta, g, nzs, last)


class Config(Tok):
    def __init__(self, W):
        super().__init__("config")
        self.W = W

    def field(self, I, name):
        if name == "num_challenges":
            return Int(self.W.nch, "usize")
        if name == "fri_config":
            return StructV(("FriConfig",), {"rate_bits": Int(RATE_BITS, "usize"), "cap_height": Int(CAP_HEIGHT, "usize"), "proof_of_work_bits": Int(0, "u32"), "reduction_strategy": Tok("strategy"), "num_query_rounds": Int(1, "usize")})
        return NotImplemented

    def method(self, I, name, args, hint, place):
        if name == "fri_params":
            return StructV(("FriParams",), {"degree_bits": I.deref(args[0]), "reduction_arity_bits": Tok("arities", I.deref(args[0]).v), "config": self.field(I, "fri_config")})
        return super().method(I, name, args, hint, place)


# ------------------------------------------------------------------ verifiers and circuits
class Reducer(DomainV):
    def __init__(self, base):
        self.base = base

    def key(self):
        return ("reducer", self.base.key())

    def method(self, I, name, args, hint, place):
        if name == "reduce":
            return reduce_desc(I, args[0], self.base)
        return NotImplemented


class Witness(Tok):
    """records which value every target is given"""

    def __init__(self):
        super().__init__("witness")
        self.pairs = []

    def put(self, I, t, v):
        t, v = I.deref(t), I.deref(v)
        if isinstance(t, (VecV, tuple)):
            a, b = lst(I, t), lst(I, v)
            if len(a) != len(b):
                raise AnalysisError("a list of targets is set from a list of another length")
            for x, y in zip(a, b):
                self.put(I, x, y)
        elif isinstance(t, StructV):
            if not isinstance(v, StructV):
                raise AnalysisError(f"targets of a {t.path[-1]} are set from {v!r:.100}")
            for k in t.f:
                self.put(I, t.f[k], v.f[k])
        else:
            self.pairs.append((t, v))
        return UNIT

    def method(self, I, name, args, hint, place):
        if name in ("set_target", "set_target_arr", "set_cap_target", "set_fri_openings", "set_extension_target", "set_extension_targets", "set_proof_with_pis_target", "set_verifier_data_target"):
            return self.put(I, args[0], args[1])
        return super().method(I, name, args, hint, place)


class Circuit(sm.Builder):
    """circuit builder: virtual targets are numbered, or, on the second pass, already have the values the witness gives them"""

    def __init__(self, W, values=None):
        super().__init__()
        self.W, self.values, self.made = W, values, []
        self.public, self.checks = [], []

    def virt(self, t):
        i = len(self.made)
        self.made.append(t)
        if self.values is None:
            return t
        return self.values.get(t, t)

    def target(self):
        return self.virt(FPoly.var(("tgt", len(self.made))))

    def method(self, I, name, args, hint, place):
        a = [I.deref(x) for x in args]
        if name in ("add_virtual_target", "add_virtual_extension_target"):
            return self.target()
        if name in ("add_virtual_targets", "add_virtual_extension_targets"):
            return VecV([self.target() for _ in range(a[0].v)])
        if name == "add_virtual_cap":
            return self.virt(Cap(("tgt", len(self.made)), a[0].v))
        if name == "add_virtual_fri_proof":
            bits = I.get_field(a[1], "degree_bits").v
            p = fri_proof(("tgt", len(self.made)), bits)
            q = self.virt(p.f["pow_witness"])
            if self.values is not None:
                p = self.values.get(p.f["commit_phase_merkle_caps"], p)
            if not all(isinstance(x, Int) for x in lst(I, a[0])):
                raise AnalysisError(f"an opening proof is reserved for an unknown number of polynomials: {lst(I, a[0])}"[:300])
            self.checks.append(("shape", tuple(x.v for x in lst(I, a[0])), freeze(a[1])))
            return p
        if name == "register_public_inputs":
            self.public += [I.deref(x) for x in lst(I, a[0])]
            return UNIT
        if name == "register_public_input":
            self.public.append(a[0])
            return UNIT
        if name == "hash_pad":
            return hash_of([fof(x) for x in lst(I, a[0])])
        if name == "split_low_high":
            return self.split(fof(a[0]), a[1].v, a[2].v)
        if name == "div_extension":
            return fof(a[0]) * inverse(fof(a[1]))
        if name == "verify_fri_proof":
            self.checks.append(fri_key(I, a))
            return UNIT
        if name == "verify_batch_fri_proof":
            self.checks.append(("batch",) + fri_key(I, a[1:]) + (freeze(a[0]),))
            return UNIT
        if name == "build":
            return Tok("circuit")
        return super().method(I, name, args, hint, place)

    def split(self, x, low, bits):
        import field
        base, off = x, 0
        if len(x.p) == 1:
            (m, c), = x.p.items()
            n = field.vname(m[0]) if len(m) == 1 and c == 1 else None
            if isinstance(n, tuple) and n[0] == "shr":
                base, off = FPoly(dict(_rev[n[1]][1])), n[2]
        if low % 8 or low != 8:
            raise AnalysisError(f"a target is split at {low} bits")
        if bits != 64 - off:
            return FPoly.var(("wrong-split", intern(x.key()), low, bits)), FPoly.var(("wrong-split-high", intern(x.key()), low, bits))
        return byte(base, off // 8), FPoly.var(("shr", intern(base.key()), off + low))

    def conditions(self):
        """what the circuit enforces, as a set of conditions"""
        out = []
        for x, y in self.log:
            c = feq(x, y)
            out.append(c)
        return out + [bdd.var(c) for c in self.checks if c[0] != "shape"]


def norm(k):
    """the native and the circuit form of a structure have the same parts"""
    if isinstance(k, tuple):
        return tuple(norm(x) for x in k)
    if isinstance(k, str) and k.endswith("Target"):
        return k[:-6]
    return k


def fri_key(I, a):
    """what an opening check is about: instance, openings, challenges, caps, proof, parameters"""
    return ("fri",) + tuple(intern(norm(freeze(x if not isinstance(x, VecV) else VecV([I.deref(y) for y in x.xs])))) for x in a[:6])


def cond_result(I, c):
    """Result that is Ok exactly when c"""
    return merge(c, Ok(UNIT), EnumV(("Result",), "Err", (Tok("error"),)))


class VWorld(World):
    """the world of the verifiers"""

    def deps(self):
        super().deps()
        I = self.I
        I.intrinsics["CtlCheckVars::from_proofs"] = self.h_ctl_vars
        I.intrinsics["CtlCheckVarsTarget::from_proof"] = self.h_ctl_vars_target
        I.intrinsics["CrossTableLookup::num_ctl_zs"] = I.intrinsics["CrossTableLookupWithTypedOutput::num_ctl_zs"] = lambda I_, vs, h, e, n: self.count(vs, self.nz)
        I.intrinsics["PublicSubTable::num_zs"] = lambda I_, vs, h, e, n: self.count(vs, self.npub)
        I.intrinsics["public_sub_table::reduce_public_sub_tables_values"] = lambda I_, vs, h, e, n: Tok("reduced", intern(freeze(I_.deref(vs[0]))), intern(freeze(I_.deref(vs[1]))))
        I.intrinsics["public_sub_table::public_sub_table_values_and_reduced_targets"] = self.h_pub_targets
        I.intrinsics["cross_table_lookup::verify_cross_table_lookups_and_public_sub_tables"] = lambda I_, vs, h, e, n: cond_result(I_, bdd.var(self.ctl_key(vs)))
        I.intrinsics["cross_table_lookup::verify_cross_table_lookups_and_public_sub_table_circuit"] = self.h_ctl_circuit
        I.intrinsics["StarkFrame::from_values"] = I.intrinsics["EvaluationFrame::from_values"] = I.intrinsics["EvaluationFrameTarget::from_values"] = lambda I_, vs, h, e, n: EvalFrame(*[[fof(x) for x in lst(I_, v)] for v in vs])
        I.intrinsics["ConstraintConsumer::new"] = lambda I_, vs, h, e, n: self.consumer(vs)
        I.intrinsics["RecursiveConstraintConsumer::new"] = lambda I_, vs, h, e, n: self.consumer(vs[1:])
        I.intrinsics["poly::eval_vanishing_poly"] = lambda I_, vs, h, e, n: self.h_vanish(*vs)
        I.intrinsics["poly::eval_vanishing_poly_circuit"] = lambda I_, vs, h, e, n: self.h_vanish(*vs[1:])
        I.intrinsics["ext:verify_fri_proof"] = lambda I_, vs, h, e, n: cond_result(I_, bdd.var(fri_key(I_, [I_.deref(v) for v in vs])))
        I.intrinsics["ext:verify_batch_fri_proof"] = self.h_batch_fri
        I.intrinsics["ext:set_fri_proof_target"] = lambda I_, vs, h, e, n: self.h_set_fri(vs)
        I.intrinsics["ReducingFactorTarget::new"] = I.intrinsics["ReducingFactor::new"] = lambda I_, vs, h, e, n: Reducer(fof(I_.deref(vs[0])))
        I.intrinsics["CircuitBuilder::new"] = lambda I_, vs, h, e, n: self.circuit
        I.intrinsics["PartialWitness::new"] = self.h_witness
        I.methods["fri_instance_target"] = lambda I_, v, place, args, hint, node, env: self.m_fri_instance(I_, v, place, [args[1], args[2], args[3], VecV([]) if isinstance(I_.deref(args[4]), Int) and I_.deref(args[4]).v == 0 else args[4]] + args[5:], hint, node, env)
        I.methods["to_ext_target"] = lambda I_, v, place, args, hint, node, env: v
        self.circuit = None

    def h_witness(self, I, vs, h, e, n):
        self.witness = Witness()
        return self.witness

    def consumer(self, vs):
        I = self.I
        return Consumer([fof(x) for x in lst(I, vs[0])], *[fof(I.deref(x)) for x in vs[1:4]])

    def h_vanish(self, stark, frame, ctl, cons):
        I = self.I
        c = I.deref(cons)
        if c.acc is not None:
            raise AnalysisError("constraints are evaluated twice into one accumulator")
        st = I.deref(stark)
        n = Consumer(c.alphas, *c.z)
        n.acc = list(vanish(self, st, I.deref(frame), I.deref(ctl), c))
        cons.place.set(n)
        return UNIT

    def count(self, vs, f):
        k = self.I.deref(vs[1]).var
        n = self.I.deref(vs[2])
        if not isinstance(n, Int) or n.v != self.nch:
            raise AnalysisError("running sums are counted for another number of challenges")
        return Int(f(k), "usize")

    def ctl_vars(self, k, op, ch):
        I = self.I
        z, zn = [[fof(x) for x in lst(I, I.get_field(op, f))] for f in ("ctl_zs", "ctl_zs_next")]
        n = self.nz(k) + self.npub(k)
        if len(z) < n or len(zn) < n:
            # the look-up code indexes the openings
            self.I.panic("index", "openings of look-ups are missing", None, None)
        return VecV([Tok("ctlvar", k, i, z[i].key(), zn[i].key(), intern(freeze(ch))) for i in range(n)])

    def h_ctl_vars(self, I, vs, h, e, n):
        ps = lst(I, vs[0]) if not isinstance(I.deref(vs[0]), StructV) else lst(I, I.deref(vs[0]).f["0"])
        return self.array([self.ctl_vars(k, I.get_field(p, "openings"), I.deref(vs[3])) for k, p in zip(self.kinds, ps)])

    def h_ctl_vars_target(self, I, vs, h, e, n):
        return self.ctl_vars(I.deref(vs[0]).var, I.get_field(I.deref(vs[1]), "openings"), I.deref(vs[4]))

    def h_pub_targets(self, I, vs, h, e, n):
        b = I.deref(vs[0])
        vals = self.array([VecV([VecV([VecV([b.target()])]) for i in range(self.npub(k))]) for k in self.kinds])
        return (vals, Tok("reduced", intern(freeze(vals)), intern(freeze(I.deref(vs[2])))))

    def ctl_key(self, vs):
        return ("ctl",) + tuple(intern(freeze(self.I.deref(v))) for v in vs)

    def h_ctl_circuit(self, I, vs, h, e, n):
        I.deref(vs[0]).checks.append(self.ctl_key(vs[1:]))
        return UNIT

    def h_batch_fri(self, I, vs, h, e, n):
        a = [I.deref(v) for v in vs]
        return cond_result(I, bdd.var(("batch",) + fri_key(I, a[1:]) + (freeze(a[0]),)))

    def h_set_fri(self, vs):
        I = self.I
        w, t, p = [I.deref(v) for v in vs]
        w.pairs.append((t.f["commit_phase_merkle_caps"], p))
        w.pairs.append((t.f["pow_witness"], p.f["pow_witness"]))
        return UNIT
