"""Verifiers: exactly the conditions of the argument are accepted, natively and in circuits."""
import bdd
import protocol as pr
import transcript as tr
from builtins_rs import items
from field import FPoly, feq, fof
from interp import Dead
from program import AnalysisError
from transcript import Cap, Circuit, Tok, Witness, lst
from values import *

W1, W2, W3 = "circuits/src/stark/verifier.rs", "circuits/src/stark/batch_verifier.rs", "circuits/src/stark/recursive_verifier.rs"
SIZES = ([3, 5, 4, 3, 6],)
MORE = ([4], [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17], [6, 3, 3, 6])


def run(ctx):
    ctx.rule = ("abstract interpretation of verifiers and verifying circuits on indeterminate proofs: the condition under which a proof is accepted, compared with the conditions of the argument (quotient identities, "
                "openings, look-ups, program identity); rejection of every malformed set of openings; witness assignment of every circuit input")
    ctx.assumptions.append("openings, commitments, sponge and constraint evaluation are symbols with the dependencies of the real ones; opening proofs and Merkle caps of the proof library are sound")
    n = m = 0
    for batch in (False, True):
        for sizes in SIZES + (MORE if ctx.tier == "thorough" else MORE[:1]):
            for nch in (2,) if sizes is not SIZES[0] else (2, 3):
                name = f"{'batch' if batch else 'single'}:{'-'.join(map(str, sizes))}:{nch}"
                with ctx.group(name):
                    R = pr.Run(batch, sizes, nch=nch)
                    acc = native(ctx, R, name, W2 if batch else W1)
                    if sizes is SIZES[0] and nch == 2:
                        m += malformed(ctx, R, name, W2 if batch else W1)
                    circuit(ctx, R, name, acc)
                    ctx.saw(R.I)
                    n += 1
    for name, f in (("layout", layout), ("vanishing", vanishing), ("quotient", quotients)):
        with ctx.group(name):
            f(ctx)
    ctx.floor("runs", n, 6)
    ctx.floor("malformed proofs", m, 100)


def native(ctx, R, name, w):
    acc = R.acceptance()
    got = R.verify(R.with_id(R.proof))
    ok = True
    for k, a in acc.items():
        ctx.ob(f"{name}:{k}", bdd.and_(got, bdd.not_(a)) is False, "a proof is only accepted if this condition of the argument holds", w)
        ok = bdd.and_(ok, a)
    ctx.ob(f"{name}:accepts", bdd.and_(ok, bdd.not_(got)) is False, "a proof meeting all conditions is accepted", w, lambda: repr(bdd.and_(ok, bdd.not_(got)))[:300])
    ctx.ob(f"{name}:satisfiable", got is not False, "some proof is accepted", w)
    return acc


def malformed(ctx, R, name, w):
    """openings of another shape than the table's are rejected"""
    n = 0
    P = R.proof
    W = R.W

    def attempt(k, f, what):
        nonlocal n
        p = R.proofs[k]
        op = p.f["openings"]
        q = StructV(p.path, {**p.f, "openings": StructV(op.path, {**op.f, **f})})
        arr = P.f["proofs"]
        xs = [q if j == k else R.proofs[j] for j in W.kinds]
        got = R.verify(R.with_id(StructV(P.path, {**P.f, "proofs": StructV(arr.path, {"0": VecV(xs)})})))
        ctx.ob(f"{name}:{k}:{what}", got is False, "openings of a wrong shape are never accepted", w, lambda: repr(got)[:200])
        n += 1
    pub = [k for k in W.kinds if k in R.public]
    rest = [k for k in W.kinds if k not in R.public]
    some = W.kinds if ctx.tier == "thorough" else list(dict.fromkeys(pub[:1] + pub[-1:] + rest[:1] + rest[-1:] + ["CpuSkeleton"]))
    for k in some:
        with ctx.group(f"{name}:{k}:shapes"):
            op = R.proofs[k].f["openings"]
            for f in pr.FIELDS:
                xs = lst(R.I, op.f[f])
                attempt(k, {f: VecV(xs[:-1])}, f"short {f}")
                attempt(k, {f: VecV(xs + [FPoly.var(("extra", f))])}, f"long {f}")
            z, q = lst(R.I, op.f["ctl_zs"]), lst(R.I, op.f["quotient_polys"])
            l = lst(R.I, op.f["local_values"])
            attempt(k, {"ctl_zs": VecV(z + q), "quotient_polys": VecV([])}, "quotients presented as running sums")
            attempt(k, {"ctl_zs": VecV(z[:-1]), "quotient_polys": VecV(z[-1:] + q)}, "running sum presented as quotient")
            attempt(k, {"local_values": VecV(l[:-1]), "ctl_zs": VecV(l[-1:] + z)}, "column presented as running sum")
            if R.open_of[k][5] is None:
                p = R.proofs[k]
                for f in ("trace_cap", "ctl_zs_cap", "quotient_polys_cap"):
                    for h in (tr.CAP_HEIGHT - 1, tr.CAP_HEIGHT + 1):
                        q2 = StructV(p.path, {**p.f, f: Cap(p.f[f].name[1] if isinstance(p.f[f], Cap) else R.I.deref(p.f[f]).name[1], h)})
                        xs = [q2 if j == k else R.proofs[j] for j in W.kinds]
                        got = R.verify(R.with_id(StructV(P.path, {**P.f, "proofs": StructV(P.f["proofs"].path, {"0": VecV(xs)})})))
                        ctx.ob(f"{name}:{k}:{f}:height {h}", got is False, "commitments of a wrong height are never accepted", w, lambda: repr(got)[:200])
                        n += 1
    return n


def build(R, values=None):
    W, I = R.W, R.I
    W.circuit = c = Circuit(W, values)
    I.pc = True
    deg = W.array([Int(W.bits[k], "usize") for k in W.kinds])
    if R.batch:
        r = W.call("stark::recursive_verifier::recursive_batch_stark_circuit", W.ref(R.ms), W.ref(deg), W.ref(R.pubs), W.ref(Tok("circuit config")), W.ref(R.cfg))
    else:
        r = W.call("stark::recursive_verifier::recursive_mozak_stark_circuit", W.ref(R.ms), W.ref(deg), W.ref(Tok("circuit config")), W.ref(R.cfg))
    if I.pc is not True:
        raise AnalysisError("the circuit is not always built")
    return c, I.deref(r)


def circuit(ctx, R, name, acc):
    W, I = R.W, R.I
    ob = lambda k, c, what, d=None: ctx.ob(f"{name}:circuit:{k}", c, what, W3, d)
    c1, r = build(R)
    # what the prover of the circuit puts where
    I.pc = True
    proof = R.with_id(R.proof)
    res = W.meth(r.path, "prove", W.ref(r), W.ref(proof))
    ob("prove", I.pc is True, "every proof can be given to the circuit")
    I.pc = True
    vals, twice = {}, []
    for t, v in W.witness.pairs:
        t = t.name if isinstance(t, Tok) and not isinstance(t, Cap) else t
        old = vals.get(hk(t))
        if old is not None and freeze(old[1]) != freeze(v):
            twice.append(t)
        vals[hk(t)] = (t, v)
    ob("assigned once", not twice, "no input of the circuit is assigned two values", lambda: str(twice)[:200])
    c2, r2 = build(R, Values(vals))
    unset = [t for t in c2.made if hk(t) not in vals and not (R.batch and isinstance(t, Cap))]
    ob("assigned", not unset, "every input of the circuit is assigned", lambda: str(unset)[:300])
    conds = [x for x in c2.conditions() if x is not True]
    want = acc
    got = True
    for x in conds:
        got = bdd.and_(got, x)
    ok = True
    for k, a in want.items():
        ob(k, bdd.and_(got, bdd.not_(a)) is False, "the circuit enforces this condition of the argument")
        ok = bdd.and_(ok, a)
    ob("accepts", bdd.and_(ok, bdd.not_(got)) is False, "the circuit is satisfied by every proof meeting the conditions", lambda: repr(bdd.and_(ok, bdd.not_(got)))[:300])
    pub = [FPoly.var(("pubval", k, i)) for k in W.kinds for i in range(W.npub(k))]
    exp = [R.entry] + R.program_id() + pub
    gotp = [fof(x) for x in c2.public]
    ob("public inputs", len(gotp) == len(exp) and all(a is not None and a.key() == b.key() for a, b in zip(gotp, exp)), "the circuit's public inputs are the entry point, the program identity and the public column values in table order",
       lambda: str(gotp)[:300])
    shapes(ob, R, c2)


def shapes(ob, R, c):
    """inputs reserved for opening proofs have the shape of the proofs they take"""
    W = R.W
    leaves = lambda ks: tuple(sum(f(k) for k in ks) for f in (W.cols, lambda k: W.nz(k) + W.npub(k), lambda k: W.qdf(k) * W.nch))
    want = [("shape", leaves([k]), freeze(R.open_of[k][4])) for k in W.kinds if R.open_of[k][5] is None]
    for o in R.batched:
        want.append(("shape", leaves([k for k in W.kinds if k not in R.public]), freeze(o[4])))
    got = [x for x in c.checks if x[0] == "shape"]
    ob("opening proof inputs", sorted(map(repr, got)) == sorted(map(repr, want)), "inputs reserved for opening proofs have the shape of the proofs they take", lambda: str(got)[:300])


def hk(t):
    return t if isinstance(t, tuple) else freeze(t)


class Values:
    def __init__(self, d):
        self.d = d

    def get(self, t, default):
        x = self.d.get(hk(t.name if isinstance(t, Tok) and not isinstance(t, Cap) else t))
        return default if x is None else x[1]


def layout(ctx):
    """the circuit's public inputs are read back by name"""
    import P24
    import starkmodel as sm
    M = P24.Model(sm.load())
    P24.prepare(M)
    I = M.I
    P24.extracted(M)
    rows = []
    for p in items(I, I.deref(M.machine.f["public_sub_tables"])):
        p = I.deref(p)
        k, cs, f = P24.table_of(M, p.f["table"])
        n = I.deref(p.f["num_rows"])
        rows.append((k, len(cs) * n.v, repr(f)))
    order = [v["n"] for v in M.P.lookup_abs((P24.C, "stark", "mozak_stark", "TableKind"))["variants"]]
    rows.sort(key=lambda r: order.index(r[0]))
    got = [(n, f) for _, n, f in rows]
    ev, ca = repr(P24.L("is_event_commitment_tape_row")), repr(P24.L("is_castlist_commitment_tape_row"))
    d = M.P.lookup_abs((P24.C, "stark", "recursive_verifier", "VMRecursiveProofPublicInputs"))
    lay = {}
    for p in I.layout(d):
        lay.setdefault(p[0], []).append(p)
    sizes = [(k, len(v)) for k, v in lay.items()]
    want = [("entry_point", 1), ("program_hash_as_bytes", 32), ("event_commitment_tape", 32), ("castlist_commitment_tape", 32)]
    ctx.ob("layout:fields", sizes == want, "public inputs of the circuit are read as entry point, program identity, event commitment, cast list commitment", W3, lambda: str(sizes))
    ctx.ob("layout:values", got == [(32, ev), (32, ca)], "public column values come in the order they are read back", W3, lambda: str(got))
    ctx.saw(I)


def vanishing(ctx, w="circuits/src/stark/poly.rs"):
    """both forms of the combined constraints cover the table's own constraints and its look-ups, in one order"""
    import starkmodel as sm
    logs = {}
    for circuit in (False, True):
        W = tr.VWorld(sm.load())
        I = W.I
        for n in ("poly::eval_vanishing_poly", "poly::eval_vanishing_poly_circuit"):
            I.intrinsics.pop(n)
        log = logs[circuit] = []

        def stark(I_, v, place, args, hint, node, env, log=log):
            a = [I_.deref(x) for x in args]
            log.append(("stark", freeze(v)) + tuple(freeze(x) for x in a if not isinstance(x, (Circuit, Tok)) or isinstance(x, Tok) and x.name[0] != "builder"))
            return UNIT

        def ctls(I_, vs, h, e, n, log=log):
            a = [I_.deref(x) for x in vs]
            log.append(("ctl",) + tuple(freeze(x) for x in a if not (isinstance(x, Tok) and x.name[0] == "builder")))
            return UNIT
        I.methods["eval_ext_circuit" if circuit else "eval_packed_generic"] = stark
        I.intrinsics["cross_table_lookup::eval_cross_table_lookup_checks" + ("_circuit" if circuit else "")] = ctls
        st = StructV(("SomeStark",), {})
        args = [W.ref(st), W.ref(Tok("vars")), Tok("ctl vars"), W.ref(Tok("consumer"))]
        I.pc = True
        W.call("stark::poly::eval_vanishing_poly" + ("_circuit" if circuit else ""), *(([W.ref(Tok("builder"))] if circuit else []) + args))
        k = freeze(Tok("vars")), freeze(Tok("consumer"))
        want = [("stark", freeze(st), k[0], k[1]), ("ctl", k[0], freeze(Tok("ctl vars")), k[1])]
        nm = "circuit" if circuit else "native"
        ctx.ob(f"vanishing:{nm}", sorted(map(repr, log)) == sorted(map(repr, want)) and I.pc is True, "combined constraints are the table's own and those of its look-ups, each once, on the same values", w, lambda: str(log)[:300])
        ctx.saw(I)
    ctx.ob("vanishing:order", [x[0] for x in logs[False]] == [x[0] for x in logs[True]], "prover, verifier and circuit combine constraints in the same order", w, lambda: str(logs)[:300])


class Packed(DomainV):
    """a packed field element: one value per lane"""

    def __init__(self, xs):
        self.xs = xs

    def key(self):
        return ("packed", tuple(x.key() for x in self.xs))

    def binop(self, I, op, other, swapped):
        o = I.deref(other)
        if op in ("+", "-", "*"):
            ys = o.xs if isinstance(o, Packed) else [fof(o)] * len(self.xs)
            f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}[op]
            return Packed([f(b, a) if swapped else f(a, b) for a, b in zip(self.xs, ys)])
        return NotImplemented

    def method(self, I, name, args, hint, place):
        if name in ("clone", "borrow"):
            return self
        if name == "as_slice":
            return VecV(self.xs)
        return NotImplemented


def quotients(ctx, w="circuits/src/stark/poly.rs"):
    """the quotient of a table is its combined constraints on every point of the coset, divided by the vanishing polynomial"""
    for kind, nc, np, bits, width in (("RangeCheck", 2, 1, 3, 1), ("CpuSkeleton", 3, 2, 2, 2), ("Xor", 0, 0, 4, 4), ("Memory", 1, 0, 3, 2)):
        for qdf in (1, 2, 4):
            quotient(ctx, w, kind, nc, np, bits, width, qdf)


def quotient(ctx, w, kind, nc, np, bits, width, qdf):
    import starkmodel as sm
    W = tr.VWorld(sm.load())
    I = W.I
    qb = qdf.bit_length() - 1
    deg, size = 1 << bits, 1 << (bits + qb)
    V = lambda *n: FPoly.var(n)
    name = f"quotient:{kind}:{nc}:{np}:{bits}:{width}:{qdf}"
    old = I.statics["assoc_const_hook"]
    I.statics["assoc_const_hook"] = lambda I_, t, n, env, ids: Int(width, "usize") if n == "WIDTH" else old(I_, t, n, env, ids)
    I.intrinsics["*::coset_shift"] = lambda I_, vs, h, e, n: V("shift")
    I.intrinsics["*::cyclic_subgroup_coset_known_order"] = lambda I_, vs, h, e, n: coset(I_, *[I_.deref(v) for v in vs[-3:]])
    I.intrinsics["*::from_slice"] = lambda I_, vs, h, e, n: RefV(I_.temp(Packed([fof(x) for x in lst(I_, vs[-1])])))
    I.intrinsics["PolynomialValues::selector"] = lambda I_, vs, h, e, n: Sel(I_.deref(vs[0]).v, I_.deref(vs[1]).v)
    I.intrinsics["ZeroPolyOnCoset::new"] = lambda I_, vs, h, e, n: ZH(I_.deref(vs[0]).v, I_.deref(vs[1]).v, width)
    I.intrinsics["PolynomialValues::new"] = lambda I_, vs, h, e, n: Vals([fof(x) for x in lst(I_, vs[0])])
    I.methods["quotient_degree_factor"] = lambda I_, v, place, args, hint, node, env: Int(qdf, "usize")

    def coset(I_, g, s, n):
        if n.v != size:
            raise AnalysisError(f"a coset of {n.v} points instead of {size}")
        return VecV([fof(s) * fof(g) ** i for i in range(n.v)])

    def packed(what):
        def f(I_, a):
            i, s = [I_.deref(x) for x in a]
            if not (isinstance(i, Int) and isinstance(s, Int)):
                raise AnalysisError(f"values at an unknown point {i!r}, {s!r}"[:300])
            return VecV([Packed([V(what, c, (i.v + j) * s.v) for j in range(width)]) for c in range(3 if what == "t" else nc + np)])
        return Fn(f)

    def vanish(I_, vs, h, e, n):
        st, fr, ctl, cons = vs
        c = I_.deref(cons)
        out = tr.Consumer(c.alphas, *c.z)
        st, fr, ctl = [freeze(I_.deref(x)) for x in (st, fr, ctl)]
        out.acc = [Packed([V("van", tr.intern((st, fr, ctl, a.key(), tuple(x.key() for x in c.z))), j) for j in range(width)]) for a in c.alphas]
        cons.place.set(out)
        return UNIT
    I.intrinsics.pop("poly::compute_quotient_polys")
    I.intrinsics["poly::eval_vanishing_poly"] = vanish
    I.intrinsics["ext:transpose"] = lambda I_, vs, h, e, n: VecV([VecV(list(c)) for c in zip(*[lst(I_, x) for x in lst(I_, vs[0])])])
    I.intrinsics["ConstraintConsumer::new"] = lambda I_, vs, h, e, n: tr.Consumer([fof(x) for x in lst(I_, vs[0])], *[I_.deref(x) for x in vs[1:4]])
    frame = lambda I_, vs, h, e, n: Tok("frame", *[freeze(I_.deref(v)) for v in vs])
    for n in ("StarkFrame::from_values", "EvaluationFrame::from_values", "StarkEvaluationFrame::from_values"):
        I.intrinsics[n] = frame
    chs = W.challenge_set(2)
    ctl, pub = W.ctl_data(kind, nc, "z", chs), W.ctl_data(kind, np, "pz", chs)
    al = [V("alpha", i) for i in range(3)]
    pis = VecV([V("pi")])
    stark = StructV(W.type_of[kind], {})
    with ctx.group(name):
        r = W.call("stark::poly::compute_quotient_polys", W.ref(stark), W.ref(packed("t")), W.ref(packed("zs")), W.ref(pis), W.ref(ctl), W.ref(pub), W.ref(VecV(al)), Int(bits, "usize"), W.ref(W.config()))
        got = lst(I, r)
        ctx.ob(f"{name}:number", len(got) == len(al) and I.pc is True, "one quotient per challenge", w, lambda: str(len(got)))
        step = 1 << (tr.RATE_BITS - qb)
        last = tr.inverse(W.root(bits))
        x = [V("shift") * W.root(bits + qb) ** i for i in range(size)]
        zc = W.struct
        allz = lst(I, I.get_field(ctl, "zs_columns")) + lst(I, I.get_field(pub, "zs_columns"))
        for j, a in enumerate(al):
            want = []
            for i in range(0, size, width):
                n = (i + qdf) % size
                row = lambda what, at: VecV([Packed([V(what, c, (at + l) * step) for l in range(width)]) for c in range(3 if what == "t" else nc + np)])
                fr = Tok("frame", freeze(row("t", i)), freeze(row("t", n)), freeze(pis))
                z0, z1 = row("zs", i).xs, row("zs", n).xs
                cv = VecV([W.struct("cross_table_lookup::CtlCheckVars", local_z=z0[q], next_z=z1[q], challenges=I.get_field(z, "challenge"), columns=I.get_field(z, "columns"), filter_column=I.get_field(z, "filter_column")) for q, z in enumerate(allz)])
                cs = (Packed([x[i + l] - last for l in range(width)]), Packed([V("sel", deg, 0, qb, i + l) for l in range(width)]), Packed([V("sel", deg, deg - 1, qb, i + l) for l in range(width)]))
                v = tr.intern((freeze(stark), fr.key(), freeze(cv), a.key(), tuple(c.key() for c in cs)))
                want += [V("van", v, l) * V("zhinv", bits, qb, i + l) for l in range(width)]
            g = got[j] if j < len(got) else None
            ok = isinstance(g, Coeffs) and g.shift.key() == V("shift").key() and len(g.xs) == size and all(p.key() == q.key() for p, q in zip(g.xs, want))
            ctx.ob(f"{name}:{j}", ok, "the quotient interpolates the combined constraints over the vanishing polynomial on the coset; the next row is one step of the table's domain away", w, lambda: repr(g.xs[:2] if isinstance(g, Coeffs) else g)[:300])
    ctx.saw(I)


class Fn(DomainV):
    def __init__(self, f):
        self.f = f

    def key(self):
        return ("fn", id(self.f))

    def method(self, I, name, args, hint, place):
        return self.f(I, args) if name == "call" else NotImplemented


class Sel(DomainV):
    """the polynomial that is one on one row"""

    def __init__(self, n, i):
        self.n, self.i = n, i

    def key(self):
        return ("sel", self.n, self.i)

    def method(self, I, name, args, hint, place):
        if name == "lde_onto_coset":
            q = I.deref(args[0]).v
            return Vals([FPoly.var(("sel", self.n, self.i, q, j)) for j in range(self.n << q)])
        return NotImplemented


class Vals(DomainV):
    def __init__(self, xs):
        self.xs = xs

    def key(self):
        return ("vals", tuple(x.key() for x in self.xs))

    def field(self, I, name):
        return VecV(self.xs) if name == "values" else NotImplemented

    def method(self, I, name, args, hint, place):
        if name == "coset_ifft":
            return Coeffs(self.xs, fof(I.deref(args[0])))
        return NotImplemented


class Coeffs(DomainV):
    def __init__(self, xs, shift):
        self.xs, self.shift = xs, shift

    def key(self):
        return ("coeffs", tuple(x.key() for x in self.xs), self.shift.key())


class ZH(DomainV):
    """inverse of the vanishing polynomial on the coset"""

    def __init__(self, bits, q, width):
        self.b, self.q, self.w = bits, q, width

    def key(self):
        return ("zh", self.b, self.q)

    def method(self, I, name, args, hint, place):
        if name == "eval_inverse_packed":
            i = I.deref(args[0])
            if not isinstance(i, Int):
                raise AnalysisError("the vanishing polynomial is evaluated at an unknown point")
            return Packed([FPoly.var(("zhinv", self.b, self.q, i.v + l)) for l in range(self.w)])
        return NotImplemented
