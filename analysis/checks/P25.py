"""Provers: what is committed, challenged, combined and opened, in which order."""
import bdd
import field
import protocol as pr
import transcript as tr
from field import FPoly, feq, fof
from transcript import Cap, intern, lst
from values import *

W1, W2 = "circuits/src/stark/prover.rs", "circuits/src/stark/batch_prover.rs"
SIZES = ([3, 5, 4, 3, 6],)
MORE = ([4], [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17], [6, 3, 3, 6])


def run(ctx):
    ctx.rule = ("abstract interpretation of both provers and of the verifier's transcript on indeterminate trace polynomials, with commitments, sponge and opening argument as symbols that remember what went in: "
                "contents of the proof, inputs of every quotient, polynomials and points of every opening, and what each challenge depends on, against the specification of the argument")
    ctx.assumptions.append("one to three columns per table and one or two chunks per quotient, so that tables differ; table sizes from the given patterns; the code is uniform in the number of columns")
    n = 0
    for batch in (False, True):
        for sizes in SIZES + (MORE if ctx.tier == "thorough" else MORE[:1]):
            for nch in (2,) if sizes is not SIZES[0] else (2, 3):
                name = f"{'batch' if batch else 'single'}:{'-'.join(map(str, sizes))}:{nch}"
                with ctx.group(name):
                    R = pr.Run(batch, sizes, nch=nch)
                    prover(ctx, R, name, W2 if batch else W1)
                    ctx.saw(R.I)
                    n += 1
    ctx.floor("prover runs", n, 6)


def prover(ctx, R, name, w):
    W, I = R.W, R.I
    ob = lambda k, c, what, d=None: ctx.ob(f"{name}:{k}", c, what, w, d)
    out = True
    for k in W.kinds:
        out = bdd.and_(out, bdd.not_(feq(R.zeta(k) ** (1 << W.bits[k]), FPoly.const(1))))
    ob("completes", bdd.and_(out, bdd.not_(bdd.and_(R.proved, R.ok))) is False, "the prover answers for every trace, unless a sampled point lies in a table's domain", lambda: f"{I.panics}"[:300])
    ob("opening arguments", set(R.open_of) == set(W.kinds) and len(R.batched) == (1 if R.batch else 0) and {k for k in W.kinds if R.open_of[k][5] is None} == set(R.public),
       "every table is opened exactly once: the public ones by themselves, the others together", lambda: str({k: R.open_of[k][5] for k in R.open_of}))
    ob("quotients", set(R.q) == set(W.kinds) and sum(1 for x in W.log if x[0] == "quotient") == len(W.kinds), "one quotient is computed per table")
    traces = {k: [("t", k, i) for i in range(W.cols(k))] for k in W.kinds}
    chs = R.ctl_challenges()
    zn = {k: [("z", k, i, intern(freeze(chs))) for i in range(W.nz(k))] + [("pz", k, i, intern(freeze(chs))) for i in range(W.npub(k))] for k in W.kinds}
    for k in W.kinds:
        K = f"{name}:{k}"
        o = R.open_of[k]
        q = R.q[k]
        with ctx.group(K):
            ok = lambda key, c, what, d=None: ctx.ob(f"{K}:{key}", c, what, w, d)
            T, Z, Q = R.polys(k)
            als = [fof(I.deref(a)) for a in q[7]]
            alkeys = [intern(a.key()) for a in als]
            ok("committed trace", [p.name for p in T] == traces[k] and not o[2][0].coeffs, "the trace commitment holds the table's columns in order", lambda: str(T))
            ok("committed sums", [p.name for p in Z] == zn[k] and not o[2][1].coeffs, "the second commitment holds the table's running sums: look-ups, then public columns", lambda: str(Z))
            n = 1 << W.bits[k]
            want = [("chunk", ("quotient", k, j, alkeys[j]), n, i) for j in range(W.nch) for i in range(W.qdf(k))]
            ok("committed quotient", [p.name for p in Q] == want and o[2][2].coeffs, "the third commitment holds the pieces of the table's quotients, one quotient per challenge in order", lambda: str(Q))
            ok("quotient count", len(als) == W.nch and len(set(alkeys)) == W.nch, "as many different combination challenges as configured", lambda: str(als))
            ok("quotient trace", [x for x in q[2]] == traces[k], "the quotient is computed from the table's own columns", lambda: str(q[2]))
            ok("quotient sums", [x for x in q[3]] == zn[k], "the quotient is computed from the table's own running sums", lambda: str(q[3]))
            want = [R.entry.key()] if W.type_of[k][-1] == "CpuSkeletonStark" else []
            ok("quotient inputs", [fof(x).key() for x in lst(I, q[4])] == want, "the quotient is computed from the table's public inputs", lambda: repr(q[4]))
            for x, f, what in ((q[5], [("z", i) for i in range(W.nz(k))], "look-ups"), (q[6], [("pz", i) for i in range(W.npub(k))], "public columns")):
                zs = [I.deref(z).f["z"] for z in lst(I, I.get_field(x, "zs_columns"))]
                ok(f"quotient {what}", [z.name for z in zs] == [(a, k, i, intern(freeze(chs))) for a, i in f], f"the quotient is computed with the table's own {what}", lambda: str(zs))
            ok("quotient size", is_int(q[8], W.bits[k]), "the quotient is computed for the table's size", lambda: str(q[8]))
            ok("quotient constraints", I.deref(q[9]).path == W.type_of[k], "the quotient is computed from the table's own constraints", lambda: str(q[9]))
            opened(ok, R, k)
            proof(ok, R, k)
            order(ok, R, k, als, T, Z, Q)
    for o in R.batched:
        with ctx.group(f"{name}:batch"):
            instances(ob, R, o)
    whole(ctx, ob, R, name, chs)


def is_int(x, v):
    return isinstance(x, Int) and x.v == v


def opened(ok, R, k):
    """values in the proof are the evaluations they claim to be"""
    want = R.expected_opened(k)
    (z, zn, zl) = want
    W = R.W
    c, s = W.cols(k), len(R.polys(k)[1])
    exp = {"local_values": z[:c], "ctl_zs": z[c:c + s], "quotient_polys": z[c + s:], "next_values": zn[:c], "ctl_zs_next": zn[c:], "ctl_zs_last": zl}
    op = R.proofs[k].f["openings"]
    for f in pr.FIELDS:
        got = [fof(x) for x in lst(R.I, op.f[f])]
        ok(f"opening {f}", len(got) == len(exp[f]) and all(a is not None and a.key() == p.at(x).key() for a, (p, x) in zip(got, exp[f])), "opened values are the table's polynomials at the sampled point, one row later, or on the last row",
           lambda: f"{got}"[:300])
    if R.open_of[k][5] is None:
        got = R.opened(k)[0][1]
        ok("opened set", [[(p.name, x.key()) for p, x in b] for b in got] == [[(p.name, x.key()) for p, x in b] for b in want],
           "the opening argument covers everything at the sampled point, columns and sums one row later, sums on the last row", lambda: str(got)[:300])
        ok("opened size", is_int(R.open_of[k][4].f["degree_bits"], W.bits[k]), "the opening argument has the table's size")


def instances(ob, R, o):
    """the groups of the batched opening argument: all tables of a size, in table order"""
    W, I = R.W, R.I
    ks = [k for k in W.kinds if k not in R.public]
    degs = sorted({W.bits[k] for k in ks}, reverse=True)
    groups = R.opened(ks[0])
    ob("group sizes", [d for d, _ in groups] == degs, "one group per table size, largest first", lambda: str([d for d, _ in groups]))
    ob("batch size", is_int(o[4].f["degree_bits"], degs[0]), "the batched argument starts at the largest size")
    for (d, got), dd in zip(groups, degs):
        want = [[], [], []]
        for k in ks:
            if W.bits[k] == dd:
                for a, b in zip(want, R.expected_opened(k)):
                    a += b
        ob(f"group {dd}", [[(p.name, x.key()) for p, x in b] for b in got] == [[(p.name, x.key()) for p, x in b] for b in want],
           "a group covers everything of its tables at the sampled point, columns and sums one row later, sums on the last row", lambda: str(got)[:400])
    bad = [f for i, inst in enumerate(lst(I, o[1])) for j, f in enumerate(lst(I, inst.f["oracles"]))
           if f.f["num_polys"].v != sum(len(R.polys(k)[j]) for k in ks if W.bits[k] == degs[i])]
    ob("group oracles", not bad, "a group states how many polynomials of each commitment are its own")
    for j in range(3):
        names = [R.kind_of(p) for p in o[2][j].polys]
        ob(f"commitment {j}", set(names) <= set(ks) and len(o[2][j].polys) == sum(len(R.polys(k)[j]) for k in ks), "the batched commitments hold the polynomials of the batched tables and nothing else")


def proof(ok, R, k):
    """commitments and arguments in the proof are those the openings are about"""
    o = R.open_of[k]
    P = R.proofs[k] if o[5] is None else R.proof.f["batch_stark_proof"]
    for f, t in zip(("trace_cap", "ctl_zs_cap", "quotient_polys_cap"), o[2]):
        ok(f"proof {f}", R.I.deref(P.f[f]) == t.cap(), "the proof carries the commitments its openings are about", lambda: f"{P.f[f]!r}")
    x = intern(("opening", o[3].key(), freeze(o[1]), freeze(VecV(o[2])), freeze(o[4]), freeze(o[5]) if o[5] is not None else None))
    got = R.I.deref(P.f["opening_proof"])
    ok("proof opening", isinstance(got, StructV) and freeze(got) == freeze(tr.fri_proof(x, R.I.get_field(o[4], "degree_bits").v)), "the proof carries the opening argument made for it", lambda: repr(got)[:200])
    for i, t in enumerate(o[2]):
        pass


def state_of(v):
    """sponge state a challenge was drawn in"""
    v = fof(v)
    if v is None or len(v.p) != 1:
        return None
    (m, c), = v.p.items()
    n = field.vname(m[0]) if len(m) == 1 and c == 1 else None
    if isinstance(n, tuple) and n[0] == "ext":
        (m, c), = n[1][1]
        n = field.vname(m[0])
    return n[1] if isinstance(n, tuple) and n[0] == "chal" else None


def seen(v):
    s = state_of(v)
    return None if s is None else tr.hist(s)


def order(ok, R, k, als, T, Z, Q):
    """every challenge is drawn after everything it has to bind"""
    I, o = R.I, R.open_of[k]
    caps = [freeze(t.cap()) for t in o[2]]
    traces = list(dict.fromkeys(freeze(R.open_of[j][2][0].cap()) for j in R.W.kinds))
    for i, a in enumerate(als):
        h = seen(a)
        ok(f"alpha {i}", h is not None and set(traces) | {caps[1]} <= set(h) and caps[2] not in h, "combination challenges are drawn after all traces and the table's running sums are committed", lambda: repr(a))
    z = R.zeta(k)
    h = seen(z)
    ok("zeta", h is not None and set(traces) | {caps[1], caps[2]} <= set(h) and h.index(caps[1]) < h.index(caps[2]), "the sampled point is drawn after the quotients are committed", lambda: repr(z))
    hz = tr.hist(state_of(z)) if state_of(z) is not None else []
    h = o[3].history()
    vals = [freeze(v) for b in R.expected_opened(k) for p, x in b for v in [p.at(x)]]
    ok("opening challenges", h[:len(hz)] == hz and not set(vals) - set(h), "the opening argument's challenges are drawn after all opened values are fixed", lambda: str(len(h)))
    after = h[len(hz):]
    n = sum(len(b) for j in R.group(k) for b in R.expected_opened(j))
    ok("opening transcript", len(after) == n, "nothing but the opened values enters between the sampled point and the opening argument", lambda: f"{len(after)} instead of {n}")


def whole(ctx, ob, R, name, chs):
    W, I = R.W, R.I
    cs = lst(I, I.get_field(chs, "challenges"))
    traces = list(dict.fromkeys(freeze(R.open_of[j][2][0].cap()) for j in W.kinds))
    ob("lookup challenges", len(cs) == W.nch and len({freeze(c) for c in cs}) == W.nch, "as many different look-up challenges as configured", lambda: str(cs))
    used = []
    for i, c in enumerate(cs):
        for f in ("beta", "gamma"):
            v = I.get_field(c, f)
            h = seen(v)
            used.append(freeze(v))
            ob(f"lookup challenge {i} {f}", h is not None and set(traces) <= set(h), "look-up challenges are drawn after every trace is committed", lambda: repr(v))
            sums = {freeze(R.open_of[j][2][1].cap()) for j in W.kinds}
            ob(f"lookup challenge {i} {f} early", h is not None and not sums & set(h), "look-up challenges do not depend on running sums", lambda: repr(v))
    ob("lookup challenges fresh", len(set(used)) == 2 * W.nch, "every part of every look-up challenge is drawn anew")
    zs = {}
    for k in W.kinds:
        if R.open_of[k][5] is None:
            zs.setdefault(freeze(R.zeta(k)), []).append(k)
    ob("points", all(len(v) == 1 for v in zs.values()), "no two tables opened by themselves share a sampled point unless their transcripts agree", lambda: str(zs))
    ob("public inputs", fof(I.get_field(R.proof.f["public_inputs"], "entry_point")).key() == R.entry.key(), "the proof states the entry point it was made for")
    want = R.program_id()
    got = [fof(x) for x in lst(I, R.proof.f["program_id"].f["0"].f["0"])]
    ob("program id", len(got) == 32 and all(a is not None and a.key() == b.key() for a, b in zip(got, want)), "the program identity is the hash of entry point, program and initial memory commitments", lambda: str(got)[:300])
    vals = lst(I, R.proof.f["public_sub_table_values"].f["0"])
    ob("public values", [[freeze(x) for x in lst(I, v)] for v in vals] == [[freeze(VecV([VecV([FPoly.var(("pubval", k, i))])])) for i in range(W.npub(k))] for k in W.kinds],
       "the proof states the values of the public columns", lambda: str(vals)[:300])
    if R.batch:
        ob("degrees", R.degrees == W.bits, "the prover reports the size of every table", lambda: str(R.degrees))
    # what the argument is about has to be in the transcript before the first challenge that depends on it
    h = seen(fof(I.deref(R.q[W.kinds[0]][7][0]))) or []
    pub = {freeze(FPoly.var(("pubval", k, i))) for k in W.kinds for i in range(W.npub(k))}
    key = "batch" if R.batch else "single"
    ctx.ob(f"{key}:public inputs bound", freeze(R.entry) in h, "public inputs are in the transcript before the combination challenges are drawn", W2 if R.batch else W1)
    ctx.ob(f"{key}:public values bound", pub <= set(h), "the values of public columns are in the transcript before the combination challenges are drawn", W2 if R.batch else W1)
    if not R.batch:
        c = W.meth(W.adt("stark", "proof", "AllProof")["path"], "get_challenges", W.ref(R.proof), W.ref(R.cfg))
        same = freeze(c.f["ctl_challenges"]) == freeze(chs)
        ob("verifier look-up challenges", same, "the verifier derives the prover's look-up challenges")
        for k, x in zip(W.kinds, lst(I, c.f["stark_challenges"])):
            al = [fof(I.deref(a)).key() for a in lst(I, I.get_field(x, "stark_alphas"))]
            ob(f"verifier:{k}", al == [fof(I.deref(a)).key() for a in R.q[k][7]] and fof(I.get_field(x, "stark_zeta")).key() == R.zeta(k).key()
               and freeze(I.get_field(x, "fri_challenges")) == freeze(R.open_of[k][6]), "the verifier derives the prover's challenges", lambda: repr(x)[:300])
