"""The state-tree update circuits prove exactly the statement they are for."""
import recmodel as rm
from field import FPoly
from recref import *
from values import *

SRC = "recproofs/src/circuits/state_update.rs"
PATHS = ["summarized.summary_hash_present", "summarized.summary_hash", "old.unpruned_hash", "new.unpruned_hash", "address.node_present", "address.node_address"]
ACC = [("summary_present", PATHS[0]), ("summary", PATHS[1]), ("old", PATHS[2]), ("new", PATHS[3]), ("address_present", PATHS[4]), ("address", PATHS[5])]


def leaf_ref(c):
    R = Ref()
    pr, sh, old, new, _, ad = [c.pi(p) for p in PATHS]
    same = FPoly.const(1)
    for x, y in zip(old, new):
        same = same * eqz(x - y)
    R.bool(pr)
    R.eq(pr, 1 - eqz(ad + 1))
    R.eq((1 - zero_hash(sh)) * (1 - pr))
    R.eq((1 - same) * (1 - pr))
    R.eq(sh, [pr * h for h in hash_n([ad] + old + new)])
    return R


def branch_ref(c, child):
    R = Ref()
    b = Branch(R, c, child, "bounded.targets.left_proof", "bounded.targets.right_proof")
    R.bool(c.pi(PATHS[0]))
    b.bounded()
    b.summarized("summarized.summary_hash")
    b.unpruned("old.unpruned_hash")
    b.unpruned("new.unpruned_hash")
    b.address("address.node_present", "address.node_address")
    return R


def run(ctx):
    W = rm.World()
    cfg = W.ref(rm.Config())
    S = "circuits::state_update::"
    leaf = W.new(S + "LeafCircuit", cfg)
    rm.compare(ctx, "leaf", leaf, leaf_ref(leaf), SRC)
    b1 = W.new(S + "BranchCircuit", cfg, W.ref(leaf.v), fn="from_leaf")
    rm.compare(ctx, "branch over leaves", b1, branch_ref(b1, leaf), SRC)
    b2 = W.new(S + "BranchCircuit", cfg, W.ref(b1.v), fn="from_branch")
    rm.compare(ctx, "branch over branches", b2, branch_ref(b2, b1), SRC)
    same_indices(ctx, "branch over leaves", b1, leaf, PATHS, SRC)
    same_indices(ctx, "branch over branches", b2, b1, PATHS, SRC)

    # proving
    old, new, ad = arg("old", 4), arg("new", 4), arg("address")
    P = Prover(ctx, W, "leaf", leaf, SRC)
    for label, a, av, pv in (("prove present", Some(ad), ad, 1), ("prove absent", NONE, FPoly.const(-1), 0)):
        P.check(label, "prove", [rm.hashv(old), rm.hashv(new), a],
                [(leaf.pi(PATHS[2]), old), (leaf.pi(PATHS[3]), new), (leaf.pi(PATHS[5]), av)],
                [(leaf.pi(PATHS[4]), FPoly.const(pv))])
    for c, child, nm in ((b1, leaf, "branch over leaves"), (b2, b1, "branch over branches")):
        l, r = proof_of(W, child, "l"), proof_of(W, child, "r")
        Prover(ctx, W, nm, c, SRC).check("prove", "prove", [W.ref(l), W.ref(r)], [], [],
                                         [(c.get("bounded.targets.left_proof"), l.f["proof"]), (c.get("bounded.targets.right_proof"), r.f["proof"])])
    for nm, c in (("leaf", leaf), ("branch", b1)):
        p = proof_of(W, c)
        for fn, path in ACC:
            accessor(ctx, W, nm, fn, p, proof_pis(W, p, c, path), SRC, "state_update")

    verifies(ctx, W, [("leaf", leaf), ("branch", b1)], SRC)

    # the summary and the leaf hash outside circuits
    native(ctx, W, "summarize", "summarize", [ad, rm.hashv(old), rm.hashv(new)], hash_n([ad] + old + new))
    ctx.saw(W.I)
    ctx.rule = "each circuit's constraints, as polynomials over its targets, span the same space as the reference's; every assignment of the prover is the argument it stands for"
    ctx.assumptions = ["the gadgets of the external plonky2 builder enforce what their names say", "the hash is collision free"]
