"""Events of one address accumulate into one change, and a change is matched with a state update, exactly as stated."""
import recmodel as rm
from field import FPoly
from recref import *
from values import *

AC, MD = "recproofs/src/circuits/accumulate_delta.rs", "recproofs/src/circuits/match_delta.rs"
VER, EV, SH, BH = "unbounded.verifier", "event_hash.unpruned_hash", "state_hash.unpruned_hash", "block_height.values"
PS = {k: "partial_state." + k for k in ("address", "object_flags", "old_owner", "new_owner", "old_data", "new_data", "credit_delta")}
FLAGS = ["write", "ensure", "read", "give", "take"]          # bits 0..4
TYPES = ["Write", "Ensure", "Read", "GiveOwner", "TakeOwner", "CreditDelta"]
TRANSFER_BITS = 40


def flags(R, p):
    bs, exact = bits_of(p, 5)
    if not exact:
        R.range(p, 5)
    return dict(zip(FLAGS, bs))


def when(R, c, xs, ys):
    for x, y in zip(aslist(xs), aslist(ys), strict=True):
        R.eq(c * (y - x))


def acc_leaf_ref(c):
    """an event sets exactly its own flag, and the fields its type gives a value"""
    R = Ref()
    t = c.at("partial_state.targets.event_ty")
    own, val = c.at("partial_state.targets.event_owner"), c.at("partial_state.targets.event_value")
    p = {k: c.pi(v) for k, v in PS.items()}
    write, ensure, read, give, take, credit = [eqz(t - i) for i in range(6)]
    f = flags(R, p["object_flags"])
    for b, x in zip(FLAGS, (write, ensure, read, give, take)):
        R.eq(f[b], x)
    when(R, write + give + credit, p["old_owner"], own)
    when(R, take, p["old_owner"], val)
    when(R, take, p["new_owner"], own)
    when(R, give, p["new_owner"], val)
    when(R, read, p["old_data"], val)
    when(R, write + ensure, p["new_data"], val)
    amount, sign = credit * val[0], credit * val[3]
    R.range(amount, TRANSFER_BITS)
    R.bool(sign)
    R.eq(p["credit_delta"], amount * (1 - 2 * sign))
    R.eq(c.pi(EV), hash_n(own + [t, p["address"]] + val))
    return R


def owner_of(f):
    return 1 - (1 - f["give"]) * (1 - f["take"])


def acc_branch_ref(c, leaf):
    R = Ref()
    b = Branch(R, c, leaf)
    b.unbounded()
    part = c.at("event_hash.targets.extension.partial")
    b.unpruned(EV, partial="event_hash.targets.extension.partial")
    R.eq(c.at("partial_state.targets.partial"), part)
    me = {k: c.pi(v) for k, v in PS.items()}
    l = {k: b.l(v) for k, v in PS.items()}
    r = {k: b.r(v) for k, v in PS.items()}
    R.eq(me["address"], l["address"])
    R.eq(me["address"], r["address"])
    fm, fl, fr = flags(R, me["object_flags"]), flags(R, l["object_flags"]), flags(R, sel(part, 0, r["object_flags"]))
    for k in ("write", "give", "take"):
        R.eq(fm[k], fl[k] + fr[k])
    for k in ("ensure", "read"):
        R.eq(fm[k], or_(fl[k], fr[k]))
    for f, s in ((fl, l), (fr, r)):
        when(R, or_(f["write"], owner_of(f)), me["old_owner"], s["old_owner"])
        when(R, owner_of(f), me["new_owner"], s["new_owner"])
        when(R, f["read"], me["old_data"], s["old_data"])
        when(R, 1 - (1 - f["write"]) * (1 - f["ensure"]), me["new_data"], s["new_data"])
    R.eq(me["credit_delta"], l["credit_delta"] + sel(part, 0, r["credit_delta"]))
    return R


def eq_all(xs, ys):
    r = FPoly.const(1)
    for x, y in zip(xs, ys, strict=True):
        r = r * eqz(lift(x) - lift(y))
    return r


def md_leaf_ref(c, acc):
    R = Ref()
    pf = c.get("targets.accumulate_event")
    R.verify(pf, vk(acc), acc)
    R.eq(c.child(pf, acc, VER), vk(acc))
    R.eq(c.pi(EV), c.child(pf, acc, EV))
    a = {k: c.child(pf, acc, v) for k, v in PS.items()}
    m = {k: c.at("compare_delta.targets." + k) for k in ("old_owner", "new_owner", "old_data", "new_data", "last_updated", "old_credits", "new_credits")}
    height = c.pi(BH)
    f = flags(R, a["object_flags"])
    when(R, or_(f["write"], owner_of(f)), m["old_owner"], a["old_owner"])
    when(R, owner_of(f), m["new_owner"], a["new_owner"])
    when(R, f["read"], m["old_data"], a["old_data"])
    when(R, 1 - (1 - f["write"]) * (1 - f["ensure"]), m["new_data"], a["new_data"])
    R.eq(m["new_credits"] - m["old_credits"], a["credit_delta"])
    # ownership moves only as a whole, data only by writes
    R.eq(f["give"], f["take"])
    same = eq_all(m["old_data"], m["new_data"])
    R.eq((1 - same) * (1 - f["write"]))
    zero = [FPoly.const(0)] * 4
    created, deleted, kept = eq_all(m["old_owner"], zero), eq_all(m["new_owner"], zero), eq_all(m["old_owner"], m["new_owner"])
    R.eq(created + deleted + kept, 1)
    R.eq(created + deleted, f["give"])
    paid = 1 - eqz(m["old_credits"] - m["new_credits"])
    updated = or_(or_(f["give"], f["write"]), paid)
    stamp = (1 - deleted) * sel(updated, height, m["last_updated"])
    old = hash_n(m["old_owner"] + [m["last_updated"], m["old_credits"]] + m["old_data"])
    new = hash_n(m["new_owner"] + [stamp, m["new_credits"]] + m["new_data"])
    R.eq(c.pi(SH), hash_n([a["address"]] + old + new))
    return R


def md_branch_ref(c, leaf):
    R = Ref()
    b = Branch(R, c, leaf)
    b.unbounded()
    b.unpruned(EV, partial="event_hash.targets.extension.partial")
    b.unpruned(SH, partial="state_hash.targets.extension.partial")
    R.eq(c.at("event_hash.targets.extension.partial"), c.at("state_hash.targets.extension.partial"))
    b.propagate(BH)
    return R


def build(W):
    cfg = W.ref(rm.Config())
    al = W.new("circuits::accumulate_delta::LeafCircuit", cfg)
    ab = W.new("circuits::accumulate_delta::BranchCircuit", cfg, W.ref(al.v))
    ml = W.new("circuits::match_delta::LeafCircuit", cfg, W.ref(ab.v))
    mb = W.new("circuits::match_delta::BranchCircuit", cfg, W.ref(ml.v))
    return al, ab, ml, mb


def event_fields(i, own, val):
    """what an event of the i-th type says: flags and the fields it gives"""
    ty = TYPES[i]
    z = [FPoly.const(0)] * 4
    return {"object_flags": FPoly.const(1 << i if i < 5 else 0),
            "old_owner": own if ty in ("Write", "GiveOwner", "CreditDelta") else val if ty == "TakeOwner" else z,
            "new_owner": own if ty == "TakeOwner" else val if ty == "GiveOwner" else z,
            "old_data": val if ty == "Read" else z,
            "new_data": val if ty in ("Write", "Ensure") else z}


def prove_acc(ctx, W, al, ab, thorough):
    own, ad = arg("owner", 4), arg("address")
    P = Prover(ctx, W, "event", al, AC)
    for i, ty in enumerate(TYPES):
        for sign in ((0, 1) if ty == "CreditDelta" else (None,)):
            val = arg("value", 4)
            d = FPoly.const(0)
            if sign is not None:
                val[3] = FPoly.const(sign)
                d = -val[0] if sign else val[0]
            w = event_fields(i, own, val)
            P.check(f"prove {ty}{'' if sign is None else '+-'[sign]}", "prove", [W.ref(ab.v), ad, VecV(list(own)), ev_type(W, ty), VecV(list(val))],
                    [(al.pi(VER), const_verifier(ab)), (al.pi(PS["address"]), ad), (al.pi(PS["credit_delta"]), d)] + [(al.pi(PS[k]), v) for k, v in w.items()] +
                    [(al.at("partial_state.targets.event_owner"), own), (al.at("partial_state.targets.event_ty"), FPoly.const(i)), (al.at("partial_state.targets.event_value"), val)])
    P = Prover(ctx, W, "accumulation", ab, AC)
    parts = ("event_hash.targets.extension.partial", "partial_state.targets.partial")
    keep = {"old_owner": 0b11001, "new_owner": 0b11000, "old_data": 0b00100, "new_data": 0b00011}

    def one(child, leaf, fl):
        p = proof_of(W, child, "l", {PS["object_flags"]: FPoly.const(fl)})
        m, ps = unbounded_inputs(ab, leaf, leaf, p, p)
        m += [(ab.pi(v), proof_pis(W, p, child, v)) for k, v in PS.items() if k != "address"] + [(ab.at(x), FPoly.const(1)) for x in parts]
        P.check(f"prove one {'leaf' if leaf else 'branch'} {fl:05b}", "prove_one", [leaf_or_branch(W, p, leaf)], m, [(ab.pi(PS["address"]), proof_pis(W, p, child, PS["address"]))], ps)

    def two(lc, ll, rc, rl, fl, fr):
        p, q = proof_of(W, lc, "l", {PS["object_flags"]: FPoly.const(fl)}), proof_of(W, rc, "r", {PS["object_flags"]: FPoly.const(fr)})
        m, ps = unbounded_inputs(ab, ll, rl, p, q)
        g = lambda x, c, k: proof_pis(W, x, c, PS[k])
        m += [(ab.pi(PS["object_flags"]), FPoly.const(fl | fr)), (ab.pi(PS["credit_delta"]), g(p, lc, "credit_delta") + g(q, rc, "credit_delta"))]
        may = [(ab.pi(PS["address"]), g(p, lc, "address"))]
        for k, mask in keep.items():
            v = g(p, lc, k) if fl & mask else g(q, rc, k) if fr & mask else [FPoly.const(0)] * 4
            m.append((ab.pi(PS[k]), v))
        P.check(f"prove {'leaf' if ll else 'branch'} {fl:05b} {'leaf' if rl else 'branch'} {fr:05b}", "prove", [leaf_or_branch(W, p, ll), leaf_or_branch(W, q, rl)],
                m + [(ab.at(x), FPoly.const(0)) for x in parts], may, ps)
    one(al, True, 1)
    for fl in range(32):
        one(ab, False, fl)
        for fr in range(32) if thorough else [0] + [1 << i for i in range(5)] + [31]:
            if not (fl & fr & 0b11001):
                two(ab, False, ab, False, fl, fr)
    for ll, rl in ((True, True), (True, False), (False, True)):
        two(al if ll else ab, ll, al if rl else ab, rl, 1, 4)


def prove_md(ctx, W, ab, ml, mb):
    d = W.adt("circuits", "match_delta", "LeafWitnessValue")
    fields = {}
    for k in ("block_height", "last_updated", "old_owner", "new_owner", "old_data", "new_data", "old_credits", "new_credits"):
        fields[k] = arg(k, 4) if k.endswith(("owner", "data")) else arg(k)
    v = StructV(d["path"], {k: VecV(list(x)) if isinstance(x, list) else x for k, x in fields.items()})
    p = proof_of(W, ab, "acc")
    P = Prover(ctx, W, "match", ml, MD)
    must = [(ml.at("compare_delta.targets." + k), fields[k]) for k in fields if k != "block_height"] + [(ml.pi(VER), const_verifier(mb))]
    P.check("prove", "prove", [W.ref(mb.v), W.ref(p), v], must + [(ml.at("compare_delta.targets.block_height"), fields["block_height"])], [(ml.pi(BH), fields["block_height"])],
            [(ml.get("targets.accumulate_event"), p.f["proof"])])
    P = Prover(ctx, W, "matches", mb, MD)
    part = lambda v: [(mb.at(x), FPoly.const(v)) for x in ("event_hash.targets.extension.partial", "state_hash.targets.extension.partial")]
    lp = proof_of(W, ml, "l")
    m, ps = unbounded_inputs(mb, True, True, lp, lp)
    P.check("prove one leaf", "prove_one", [leaf_or_branch(W, lp, True)], m + part(1), [], ps)
    for l, r, lp, rp in pairs_of(W, ml, mb):
        m, ps = unbounded_inputs(mb, l, r, lp, rp)
        P.check(f"prove {'leaf' if l else 'branch'} {'leaf' if r else 'branch'}", "prove", [leaf_or_branch(W, lp, l), leaf_or_branch(W, rp, r)], m + part(0), [], ps)
    lp = proof_of(W, mb, "l")
    m, ps = unbounded_inputs(mb, False, False, lp, lp)
    P.check("prove one branch", "prove_one", [leaf_or_branch(W, lp, False)], m + part(1), [], ps)


def run(ctx):
    W = rm.World()
    al, ab, ml, mb = build(W)
    rm.compare(ctx, "event", al, acc_leaf_ref(al), AC)
    rm.compare(ctx, "accumulation", ab, acc_branch_ref(ab, al), AC)
    rm.compare(ctx, "match", ml, md_leaf_ref(ml, ab), MD)
    rm.compare(ctx, "matches", mb, md_branch_ref(mb, ml), MD)
    same_indices(ctx, "accumulation", ab, al, [VER, EV] + list(PS.values()), AC)
    same_indices(ctx, "matches", mb, ml, [VER, EV, SH, BH], MD)
    prove_acc(ctx, W, al, ab, ctx.tier == "thorough")
    prove_md(ctx, W, ab, ml, mb)
    for nm, c in (("event", al), ("accumulation", ab)):
        p = proof_of(W, c)
        for fn, path in [("verifier", VER), ("events", EV)] + list(PS.items()):
            accessor(ctx, W, nm, fn, p, proof_pis(W, p, c, path), AC, "accumulate_delta")
    for nm, c in (("match", ml), ("matches", mb)):
        p = proof_of(W, c)
        for fn, path in (("verifier", VER), ("events", EV), ("state_hash", SH), ("block_height", BH)):
            accessor(ctx, W, nm, fn, p, proof_pis(W, p, c, path), MD, "match_delta")
    verifies(ctx, W, [("event", al), ("accumulation", ab)], AC)
    verifies(ctx, W, [("match", ml), ("matches", mb)], MD)
    o = {k: arg("o." + k, 4) if k in ("constraint_owner", "data") else arg("o." + k) for k in ("constraint_owner", "last_updated", "credits", "data")}
    obj = StructV(W.adt("Object")["path"], {k: VecV(list(x)) if isinstance(x, list) else x for k, x in o.items()})
    method(ctx, W, "Object::hash", "Object", "hash", W.ref(obj), hash_n(o["constraint_owner"] + [o["last_updated"], o["credits"]] + o["data"]))
    ctx.saw(W.I)
    ctx.rule = "each circuit's constraints, as polynomials over its targets, span the same space as the reference's; every assignment of the prover is the argument it stands for"
    ctx.assumptions = ["the gadgets of the external plonky2 builder enforce what their names say", "the hash is collision free", "the flags of an accumulated proof are some subset of the five (as its circuit enforces)"]
