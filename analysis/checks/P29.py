"""The event-root and merge circuits prove exactly the statements they are for."""
import recmodel as rm
from field import FPoly
from recref import *
from values import *

ER, MG = "recproofs/src/circuits/build_event_root.rs", "recproofs/src/circuits/merge.rs"
H, VH, OW, VER = "hash.unpruned_hash", "vm_hash.unpruned_hash", "event_owner.values", "unbounded.verifier"
MP = ["merge." + x for x in ("a_present", "a_hash", "b_present", "b_hash", "merged_present", "merged_hash")]


def er_leaf_ref(c):
    R = Ref()
    ty, ad, val = c.at("targets.event_ty"), c.at("targets.event_address"), c.at("targets.event_value")
    R.eq(c.pi(H), hash_n(c.pi(OW) + [ty, ad] + val))
    R.eq(c.pi(VH), hash_n(le_bytes(R, [ty, ad] + val)))
    return R


def er_branch_ref(c, leaf):
    R = Ref()
    b = Branch(R, c, leaf)
    b.unbounded()
    b.unpruned(H, partial="hash.targets.extension.partial")
    b.unpruned(VH, vm=True, partial="vm_hash.targets.extension.partial")
    R.eq(c.at("hash.targets.extension.partial"), c.at("vm_hash.targets.extension.partial"))
    b.propagate(OW)
    return R


def mg_leaf_ref(c):
    R = Ref()
    ap, a, bp, b, mp, m = [c.pi(p) for p in MP]
    R.bool(ap, bp, mp)
    R.eq((1 - zero_hash(a)) * (1 - ap))
    R.eq((1 - zero_hash(b)) * (1 - bp))
    R.eq(mp, or_(ap, bp))
    R.eq(m, hash_or_forward(ap, a, bp, b))
    return R


def mg_branch_ref(c, leaf):
    R = Ref()
    b = Branch(R, c, leaf)
    b.unbounded()
    for p, h in zip(MP[::2], MP[1::2]):
        R.bool(c.pi(p))
        R.assume(b.l(p), b.r(p))
        R.eq(c.pi(p), or_(b.l(p), b.r(p)))
        R.eq(c.pi(h), hash_or_forward(b.l(p), b.l(h), b.r(p), b.r(h)))
    return R


def build(W):
    cfg = W.ref(rm.Config())
    el = W.new("circuits::build_event_root::LeafCircuit", cfg)
    eb = W.new("circuits::build_event_root::BranchCircuit", cfg, W.ref(el.v))
    ml = W.new("circuits::merge::LeafCircuit", cfg)
    mb = W.new("circuits::merge::BranchCircuit", cfg, W.ref(ml.v))
    return el, eb, ml, mb


def prove_er(ctx, W, el, eb):
    own, ad, val = arg("owner", 4), arg("address"), arg("value", 4)
    P = Prover(ctx, W, "event leaf", el, ER)
    for i, ty in enumerate(EVENTS):
        P.check(f"prove {ty}", "prove", [W.ref(eb.v), event(W, ty, own, ad, val)],
                [(el.pi(OW), own), (el.at("targets.event_ty"), FPoly.const(i)), (el.at("targets.event_address"), ad), (el.at("targets.event_value"), val), (el.pi(VER), const_verifier(eb))])
    part = lambda v: [(eb.at(x), FPoly.const(v)) for x in ("hash.targets.extension.partial", "vm_hash.targets.extension.partial")]
    P = Prover(ctx, W, "event branch", eb, ER)
    lp = proof_of(W, el, "l")
    m, ps = unbounded_inputs(eb, True, True, lp, lp)
    P.check("prove one leaf", "prove_one", [leaf_or_branch(W, lp, True)], m + part(1), [], ps)
    for l, r, lp, rp in pairs_of(W, el, eb):
        m, ps = unbounded_inputs(eb, l, r, lp, rp)
        P.check(f"prove {'leaf' if l else 'branch'} {'leaf' if r else 'branch'}", "prove", [leaf_or_branch(W, lp, l), leaf_or_branch(W, rp, r)], m + part(0), [], ps)
    lp = proof_of(W, eb, "l")
    m, ps = unbounded_inputs(eb, False, False, lp, lp)
    P.check("prove one branch", "prove_one", [leaf_or_branch(W, lp, False)], m + part(1), [], ps)


def prove_mg(ctx, W, ml, mb):
    a, b, z = arg("a", 4), arg("b", 4), [FPoly.const(0)] * 4
    P = Prover(ctx, W, "merge leaf", ml, MG)
    for pa in (1, 0):
        for pb in (1, 0):
            P.check(f"prove {pa}{pb}", "prove", [W.ref(mb.v), Some(rm.hashv(a)) if pa else NONE, Some(rm.hashv(b)) if pb else NONE],
                    [(ml.pi(VER), const_verifier(mb)), (ml.pi(MP[0]), FPoly.const(pa)), (ml.pi(MP[1]), a if pa else z), (ml.pi(MP[2]), FPoly.const(pb)), (ml.pi(MP[3]), b if pb else z)])
    P = Prover(ctx, W, "merge branch", mb, MG)
    branches = False
    for l, r in ((1, 1), (1, 0), (0, 1), (0, 0)):
        lp, rp = proof_of(W, ml if l else mb, "l"), proof_of(W, ml if r else mb, "r")
        m, ps = unbounded_inputs(mb, l, r, lp, rp)
        P.check(f"prove {'leaf' if l else 'branch'} {'leaf' if r else 'branch'}", "prove", [leaf_or_branch(W, lp, l), leaf_or_branch(W, rp, r)], m, [], ps)


def run(ctx):
    W = rm.World()
    el, eb, ml, mb = build(W)
    rm.compare(ctx, "event leaf", el, er_leaf_ref(el), ER)
    rm.compare(ctx, "event branch", eb, er_branch_ref(eb, el), ER)
    rm.compare(ctx, "merge leaf", ml, mg_leaf_ref(ml), MG)
    rm.compare(ctx, "merge branch", mb, mg_branch_ref(mb, ml), MG)
    same_indices(ctx, "event branch", eb, el, [VER, H, VH, OW], ER)
    same_indices(ctx, "merge branch", mb, ml, [VER] + MP, MG)
    prove_er(ctx, W, el, eb)
    prove_mg(ctx, W, ml, mb)
    for nm, c in (("event leaf", el), ("event branch", eb)):
        p = proof_of(W, c)
        for fn, path in (("verifier", VER), ("hash", H), ("vm_hash", VH), ("event_owner", OW)):
            accessor(ctx, W, nm, fn, p, proof_pis(W, p, c, path), ER, "build_event_root")
    for nm, c in (("merge leaf", ml), ("merge branch", mb)):
        p = proof_of(W, c)
        for path in [VER] + MP:
            accessor(ctx, W, nm, path.split(".")[1], p, proof_pis(W, p, c, path), MG, "merge")
    verifies(ctx, W, [("event leaf", el), ("event branch", eb)], ER)
    verifies(ctx, W, [("merge leaf", ml), ("merge branch", mb)], MG)
    own, ad, val = arg("owner", 4), arg("address"), arg("value", 4)
    for i, ty in enumerate(EVENTS):
        e = event(W, ty, own, ad, val)
        method(ctx, W, f"Event::hash of {ty}", "Event", "hash", e, hash_n(own + [FPoly.const(i), ad] + val))
        method(ctx, W, f"Event::byte_wise_hash of {ty}", "Event", "byte_wise_hash", e, hash_n(le_byte_polys([FPoly.const(i), ad] + val)))
    ctx.saw(W.I)
    ctx.rule = "each circuit's constraints, as polynomials over its targets, span the same space as the reference's; every assignment of the prover is the argument it stands for"
    ctx.assumptions = ["the gadgets of the external plonky2 builder enforce what their names say", "the hash is collision free"]
