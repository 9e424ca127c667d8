"""Programs verify into transactions, transactions into blocks, and blocks chain, exactly as stated."""
import recmodel as rm
import P29
import P30
from field import FPoly
from recref import *
from values import *

VP, VT, VB = ("recproofs/src/circuits/verify_program.rs", "recproofs/src/circuits/verify_tx.rs", "recproofs/src/circuits/verify_block.rs")
VER, EP, EH, PID, CL, CR = "unbounded.verifier", "events.hash_present", "events.hash", "program_id.unpruned_hash", "call_list.values", "cast_root.values"
FIELDS = [("program_hash", 4), ("events_present", 1), ("event_root", 4), ("call_list", 4), ("cast_root", 4)]


class Program:
    """some program's circuit, with its public inputs in no particular order"""

    def __init__(self, W, order):
        self.W = W
        self.b = rm.B(W)
        at = {}
        for k in order:
            if k is None:
                self.b.pis.append(self.b.virt())
                continue
            at[k] = [self.b.virt() for _ in range(dict(FIELDS)[k])]
            self.b.pis += at[k]
        self.place = {k: [self.b.pis.index(t) for t in ts] for k, ts in at.items()}
        pis = W.ref(VecV(list(self.b.pis)))
        ix = lambda ty, v: W.meth((rm.C, "indices", ty), "new", pis, v)
        arr = lambda k: W.I.get_field(W.I.deref(ix("HashOutTargetIndex", rm.hasht(at[k]))), "0")
        d = W.adt("circuits", "verify_program", "core", "ProgramPublicIndices")
        self.indices = StructV(d["path"], {
            "program_hash": arr("program_hash"), "call_list": arr("call_list"),
            "events_present": ix("BoolTargetIndex", rm.boolt(at["events_present"][0])),
            "event_root": ix("HashOutTargetIndex", rm.hasht(at["event_root"])), "cast_root": ix("HashOutTargetIndex", rm.hasht(at["cast_root"]))})
        self.common = rm.Data("common", self.b)

    def out(self, proof, k):
        xs = rm.flat(self.W.I, proof.f["public_inputs"])
        r = [xs[i] for i in self.place[k]]
        return r[0] if len(r) == 1 else r


class Plain:
    """a circuit known only by its builder"""

    def __init__(self, W, b, v=UNIT):
        self.W, self.I, self.b, self.v = W, W.I, b, v


def verify_with(R, proof, verifier):
    """the circuit a proof is verified as is the one it was declared with"""
    c = proof.f["proof"].circ
    R.verifs.append((proof.f["proof"].name, tuple(verifier), c, c))


def embed(R, b, mg):
    """the events of two children, merged by a proof of the merge circuit"""
    c = b.c
    pf, part = c.get("events.targets.proof"), c.at("events.targets.partial")
    m = lambda k: c.child(pf, mg, "merge." + k)
    R.bool(part)
    R.bool(c.pi(EP))
    R.verify(pf, vk(mg), mg)
    R.eq(c.child(pf, mg, VER), vk(mg))
    R.eq(m("a_present"), b.l(EP))
    R.eq(m("b_present"), (1 - part) * b.r(EP))
    R.eq(m("a_hash"), b.l(EH))
    R.eq(m("b_hash"), [(1 - part) * x for x in b.r(EH)])
    R.eq(m("merged_present"), c.pi(EP))
    R.eq(m("merged_hash"), c.pi(EH))


def vp_leaf_ref(c, prog, er, zero):
    R = Ref()
    pf, ef = c.get("program_verifier.targets.program_proof"), c.get("event_verifier.targets.event_root_proof")
    verify_with(R, pf, c.at("program_verifier.targets.program_verifier"))
    p = c.pi(EP)
    R.bool(p)
    R.verify(ef, sel(p, vk(er), vk(zero)), er)
    e = lambda k: c.child(ef, er, k)
    R.eq([p * (x - y) for x, y in zip(e(VER), vk(er), strict=True)])
    R.eq(c.pi(PID), prog.out(pf, "program_hash"))
    R.eq(c.pi(PID), e("event_owner.values"))
    R.eq(p, prog.out(pf, "events_present"))
    R.eq(prog.out(pf, "event_root"), e("vm_hash.unpruned_hash"))
    R.eq(c.pi(EH), e("hash.unpruned_hash"))
    R.eq(c.pi(CL), prog.out(pf, "call_list"))
    R.eq(c.pi(CR), prog.out(pf, "cast_root"))
    return R


def zero_ref(W, er, zero):
    """without events the roots are those of nothing"""
    R = Ref()
    for k in ("hash.unpruned_hash", "vm_hash.unpruned_hash"):
        R.eq([zero.pis[i] for i in er.idx(k)])
    return R


def vp_branch_ref(c, leaf, mg):
    R = Ref()
    b = Branch(R, c, leaf)
    b.unbounded()
    b.unpruned(PID, vm=True, partial="program_id.targets.extension.partial")
    embed(R, b, mg)
    R.eq(c.at("events.targets.partial"), c.at("program_id.targets.extension.partial"))
    b.propagate(CL)
    b.propagate(CR)
    return R


def vt_leaf_ref(c, vp):
    R = Ref()
    pf = c.get("program_verifier.targets.program_set_proof")
    R.verify(pf, vk(vp), vp)
    v = lambda k: c.child(pf, vp, k)
    R.eq(v(VER), vk(vp))
    R.eq(v(CR), v(PID))
    R.eq(c.pi(EH), v(EH))
    R.bool(c.pi(EP))
    R.eq(c.pi(EP), v(EP))
    return R


def vt_branch_ref(c, leaf, mg):
    R = Ref()
    b = Branch(R, c, leaf)
    b.unbounded()
    embed(R, b, mg)
    return R


BP = ["block." + k for k in ("verifier", "base_state_root", "state_root", "block_height")]


def vb_ref(c, vt, md, su, dummy):
    R = Ref()
    prev = c.get("block.prev_proof")
    was = lambda k: c.child(prev, c, k)
    me, base, state, height = [c.pi(k) for k in BP]
    chained = 1 - eqz(was(BP[3]))
    verify_with(R, prev, sel(chained, me, vk(dummy)))
    R.eq(was(BP[0]), me)
    R.eq(height, was(BP[3]) + 1)
    R.eq(was(BP[1]), base)
    R.eq([(1 - chained) * (x - y) for x, y in zip(was(BP[2]), was(BP[1]), strict=True)])
    tx, m, s = c.get("tx.targets.proof"), c.get("match_delta.targets.proof"), c.get("state_update.targets.proof")
    for pf, of in ((tx, vt), (m, md), (s, su)):
        R.verify(pf, vk(of), of)
    R.eq(c.child(tx, vt, VER), vk(vt))
    R.eq(c.child(m, md, VER), vk(md))
    R.eq(c.child(tx, vt, EH), c.child(m, md, P30.EV))
    R.eq(c.child(m, md, P30.BH), height)
    R.eq(c.child(m, md, P30.SH), c.child(s, su, "summarized.summary_hash"))
    R.eq(c.child(s, su, "summarized.summary_hash_present"), 1)
    R.eq(c.child(s, su, "address.node_address"), 0)
    R.eq(c.child(s, su, "old.unpruned_hash"), was(BP[2]))
    R.eq(c.child(s, su, "new.unpruned_hash"), state)
    return R


def conversions(ctx, W, name, mod, adt, left, right, where):
    """a reference to either kind of proof is of the kind, and to the proof, it was made from"""
    head = (rm.C,) + mod + (adt,)
    from interp import Env
    tags = {}
    for n, im in enumerate(i for i in W.P.impls.get(head, []) if i.trait and i.trait[-1]["id"] == "From" and "from" in i.fns):
        ty = im.trait[-1]["a"][0]
        while ty["k"] == "TRef":
            ty = ty["ty"]
        kinds = [kind(a, left, right) for a in (ty["segs"][-1]["a"] or [])] if ty["segs"][-1]["id"] == "Either" else None
        one = kind(ty, left, right)
        todo = [(one, None)] if kinds is None else [(kinds[0], "Left"), (kinds[1], "Right")]
        for k, side in todo:
            p = StructV(W.adt("circuits", "Proof")["path"], {"proof": rm.proof_value(("conv", name, n, side), 1, rm.B(W)), "tag": UNIT, "indices": mkT("var", ("indices", n, str(side)))})
            v = W.ref(p) if side is None or not outer_ref(im) else p
            if side is not None:
                v = EnumV(("Either",), side, [v])
                v = W.ref(v) if outer_ref(im) else v
            st = ("adt", W.P.lookup_abs(head), [])
            r = W.I.deref(W.I.call_fn(im.fns["from"], [("v", v)], Env(None, im.mod, {}, st, impl=im), self_ty=st, impl=im))
            ok = isinstance(r, EnumV) and r.var == k and W.I.deref(r.p[0]).f["proof"].f["proof"].name == ("conv", name, n, side)
            ctx.ob(f"{name}:from:{n}:{side or 'one'}", ok, "a reference to either kind of proof says which kind it is", where, lambda: f"{k} becomes {getattr(r, 'var', r)}"[:200])
    for var, yes in ((left, True), (right, False)):
        p = StructV(W.adt("circuits", "Proof")["path"], {"proof": rm.proof_value(("conv", name, var), 1, rm.B(W)), "tag": UNIT, "indices": mkT("var", ("indices", var))})
        e = W.ref(EnumV(head, var, (W.ref(p),)))
        got = W.meth(head, "is_" + left.lower(), e)
        q = W.I.deref(W.meth(head, "proof", e))
        ctx.ob(f"{name}:{var}", got is yes and q.f["proof"].name == ("conv", name, var), "a reference to either kind of proof says which kind it is", where)


def outer_ref(im):
    return im.trait[-1]["a"][0]["k"] == "TRef"


def kind(ty, left, right):
    while ty["k"] == "TRef":
        ty = ty["ty"]
    for a in ty["segs"][-1]["a"] or []:
        if a["k"] == "TPath" and a["segs"][-1]["id"] in (left, right):
            return a["segs"][-1]["id"]
    for x in (left, right):
        if ty["segs"][-1]["id"].startswith(x):
            return x
    return None


def prove_vp(ctx, W, vl, vb, prog, er, mg, zero):
    P = Prover(ctx, W, "program", vl, VP)
    pf = StructV(("ProofWithPublicInputs",), dict(rm.proof_value(("given", "program"), len(prog.b.pis), prog.b).f))
    ver = rm.Data("verifier_only", prog.b)
    tp, te = vl.get("program_verifier.targets.program_proof"), vl.get("event_verifier.targets.event_root_proof")
    must = [(vl.pi(VER), const_verifier(vb)), (vl.at("program_verifier.targets.program_verifier"), rm.flat(W.I, rm.verifier_value(prog.b)))]
    ep = proof_of(W, er, "events")
    args = [W.ref(vb.v), W.ref(ver), W.ref(pf)]
    P.check("prove with events", "prove", args + [Ok(W.ref(ep))], must, [], [(tp, pf), (te, ep.f["proof"])])
    own = arg("owner", 4)
    n = len(zero.proved)
    zp = rm.proof_value(("proof", zero.uid, n + 1), len(zero.pis), zero)
    P.check("prove without events", "prove", args + [Err(VecV(list(own)))], must, [], [(tp, StructV(("ProofWithPublicInputs",), dict(pf.f))), (te, zp)])
    w = zero.proved[-1] if len(zero.proved) == n + 1 else None
    bad = ["the stand-in for no events is not proved once"] if w is None else []
    if w is not None:
        want = {t.key(): FPoly.const(0) for t in zero.pis}
        want.update({zero.pis[i].key(): x for i, x in zip(er.idx("event_owner.values"), own, strict=True)})
        bad = [f"{k} is {w.m.get(k)}, should be {v}" for k, v in want.items() if w.m.get(k) != v] + [f"{k} is assigned" for k in w.m if k not in want]
    ctx.ob("program:stand-in", not bad, "without events the stand-in proof is of this program and of nothing else", VP, lambda: "; ".join(bad[:3]))
    branch_prover(ctx, W, "programs", VP, vl, vb, mg, [EP])


def branch_prover(ctx, W, name, where, leaf, branch, mg, _):
    P = Prover(ctx, W, name, branch, where)
    mp = proof_of(W, mg, "merge")
    given = [(branch.get("events.targets.proof"), mp.f["proof"])]
    part = lambda v: [(branch.at("events.targets.partial"), FPoly.const(v))]
    lp = proof_of(W, leaf, "l")
    m, ps = unbounded_inputs(branch, True, True, lp, lp)
    P.check("prove one leaf", "prove_one", [W.ref(mp), leaf_or_branch(W, lp, True)], m + part(1), [], ps + given)
    for l, r, lp, rp in pairs_of(W, leaf, branch):
        m, ps = unbounded_inputs(branch, l, r, lp, rp)
        P.check(f"prove {'leaf' if l else 'branch'} {'leaf' if r else 'branch'}", "prove", [W.ref(mp), leaf_or_branch(W, lp, l), leaf_or_branch(W, rp, r)], m + part(0), [], ps + given)
    lp = proof_of(W, branch, "l")
    m, ps = unbounded_inputs(branch, False, False, lp, lp)
    P.check("prove one branch", "prove_one", [W.ref(mp), leaf_or_branch(W, lp, False)], m + part(1), [], ps + given)


def prove_vb(ctx, W, c, vt, md, su, dummy):
    d = W.P.lookup_abs((rm.C, "circuits", "verify_block", "BaseOrBlockRef"))
    n = len(dummy.proved)
    root = arg("root", 4)
    r = W.I.deref(W.meth((rm.C, "circuits", "verify_block", "Circuit"), "prove_base", W.ref(c.v), rm.hashv(root)))
    w = dummy.proved[-1] if len(dummy.proved) == n + 1 else None
    bad = ["the genesis stand-in is not proved once"] if w is None else []
    if w is not None:
        want = {t.key(): FPoly.const(0) for t in dummy.pis}
        for k, v in zip(BP, (const_verifier(c), root, root, [FPoly.const(0)])):
            want.update({dummy.pis[i].key(): lift(x) for i, x in zip(c.idx(k), v, strict=True)})
        bad = [f"{k} is {w.m.get(k)}, should be {v}" for k, v in want.items() if w.m.get(k) != v] + [f"{k} is assigned" for k in w.m if k not in want]
    ctx.ob("block:base", not bad, "a chain starts at height zero, from its base state, for this circuit", VB, lambda: "; ".join(bad[:3]))
    bp = W.I.deref(r.p[0]) if isinstance(r, EnumV) and r.var == "Ok" else r
    c.indices = W.I.deref(bp.f["indices"])
    dummy.verified.clear()
    W.meth((rm.C, "circuits", "verify_block", "Circuit"), "verify_base", W.ref(c.v), bp)
    ctx.ob("block:verify_base", [x.f["proof"].name for x in dummy.verified] == [bp.f["proof"].f["proof"].name], "a base is verified with the stand-in's circuit", VB)
    P = Prover(ctx, W, "block", c, VB)
    tp, mp, sp = proof_of(W, vt, "tx"), proof_of(W, md, "match"), proof_of(W, su, "state")
    for var in ("Base", "Block"):
        pp = proof_of(W, c, "prev")
        P.check(f"prove on {var}", "prove", [W.ref(tp), W.ref(mp), W.ref(sp), EnumV(d["path"], var, (W.ref(pp),))], [], [],
                [(c.get("tx.targets.proof"), tp.f["proof"]), (c.get("match_delta.targets.proof"), mp.f["proof"]), (c.get("state_update.targets.proof"), sp.f["proof"]), (c.get("block.prev_proof"), pp.f["proof"])])


def wires(ctx, name, b, where):
    """targets borrowed from another circuit exist in the stand-in"""
    vs = set()
    for p in b.pis + b.eqs:
        rm.collect(p, vs)
    bad = [rm.vname(v) for v in vs if rm.vname(v)[0] == "v" and rm.vname(v)[1] >= b.nvirt]
    ctx.ob(f"{name}:wires", not bad, "a stand-in circuit has every wire it uses", where, lambda: str(bad[:4]))


def run(ctx):
    W = rm.World()
    cfg = W.ref(rm.Config())
    el, eb, gl, gb = P29.build(W)
    al, ab, ml, mb = P30.build(W)
    sl = W.new("circuits::state_update::LeafCircuit", cfg)
    sb = W.new("circuits::state_update::BranchCircuit", cfg, W.ref(sl.v), fn="from_leaf")
    prog = Program(W, [None, "cast_root", "events_present", "call_list", None, "program_hash", "event_root"])
    pl = W.new("circuits::verify_program::LeafCircuit", cfg, W.ref(prog.indices), W.ref(prog.common), W.ref(eb.v))
    pb = W.new("circuits::verify_program::BranchCircuit", cfg, W.ref(gb.v), W.ref(pl.v))
    tl = W.new("circuits::verify_tx::LeafCircuit", cfg, W.ref(pb.v))
    tb = W.new("circuits::verify_tx::BranchCircuit", cfg, W.ref(gb.v), W.ref(tl.v))
    bc = W.new("circuits::verify_block::Circuit", cfg, W.ref(tb.v), W.ref(mb.v), W.ref(sb.v))
    zeros = [x for x in map(pl.I.deref, pl.get("event_verifier.targets").f.values()) if isinstance(x, rm.Data)]
    ctx.ob("no events:one", len(zeros) == 1, "one stand-in circuit for a program without events", VP)
    zero = zeros[0].circ
    dummy = bc.get("block.dummy").circ
    rm.compare(ctx, "program", pl, vp_leaf_ref(pl, prog, eb, Plain(W, zero)), VP)
    rm.compare(ctx, "no events", Plain(W, zero), zero_ref(W, eb, zero), VP)
    ctx.ob("no events:inputs", zero.pis == eb.b.pis, "the stand-in for no events has the public inputs of the circuit it stands for", VP)
    wires(ctx, "no events", zero, VP)
    rm.compare(ctx, "programs", pb, vp_branch_ref(pb, pl, gb), VP)
    rm.compare(ctx, "transaction", tl, vt_leaf_ref(tl, pb), VT)
    rm.compare(ctx, "transactions", tb, vt_branch_ref(tb, tl, gb), VT)
    rm.compare(ctx, "block", bc, vb_ref(bc, tb, mb, sb, Plain(W, dummy)), VB)
    rm.compare(ctx, "base", Plain(W, dummy), Ref(), VB)
    prev = bc.get("block.prev_proof").f["proof"].circ
    ctx.ob("base:inputs", dummy.pis[:len(bc.b.pis)] == bc.b.pis and len(prev.pis) == len(dummy.pis) == len(bc.b.pis), "the stand-in for no blocks has the public inputs of a block", VB)
    wires(ctx, "base", dummy, VB)
    same_indices(ctx, "programs", pb, pl, [VER, PID, EP, EH, CL, CR], VP)
    same_indices(ctx, "transactions", tb, tl, [VER, EP, EH], VT)
    P29.prove_er(Quiet(ctx), W, el, eb)
    P29.prove_mg(Quiet(ctx), W, gl, gb)
    P30.prove_md(Quiet(ctx), W, P30_indices(W, ctx, al, ab), ml, mb)
    Q = Quiet(ctx)
    Prover(Q, W, "", sl, "").check("", "prove", [rm.hashv(arg("old", 4)), rm.hashv(arg("new", 4)), NONE], [])
    Prover(Q, W, "", sb, "").check("", "prove", [W.ref(proof_of(W, sl)), W.ref(proof_of(W, sl))], [])
    prove_vp(ctx, W, pl, pb, prog, eb, gb, zero)
    P = Prover(ctx, W, "transaction", tl, VT)
    pp = proof_of(W, pb, "programs")
    P.check("prove", "prove", [W.ref(tb.v), W.ref(pp)], [(tl.pi(VER), const_verifier(tb))], [], [(tl.get("program_verifier.targets.program_set_proof"), pp.f["proof"])])
    branch_prover(ctx, W, "transactions", VT, tl, tb, gb, None)
    prove_vb(ctx, W, bc, tb, mb, sb, dummy)
    for nm, c, fns, mod, where in (("program", pl, 1, "verify_program", VP), ("programs", pb, 1, "verify_program", VP), ("transaction", tl, 0, "verify_tx", VT), ("transactions", tb, 0, "verify_tx", VT)):
        p = proof_of(W, c)
        for fn, path in [("verifier", VER), ("events_present", EP), ("events", EH)] + ([("program_id", PID), ("call_list", CL), ("cast_root", CR)] if fns else []):
            accessor(ctx, W, nm, fn, p, proof_pis(W, p, c, path), where, mod)
    p = proof_of(W, bc)
    for fn, path in zip(("verifier", "base_state", "state", "block_height"), BP):
        accessor(ctx, W, "block", fn, p, proof_pis(W, p, bc, path), VB, "verify_block")
    verifies(ctx, W, [("program", pl), ("programs", pb)], VP)
    verifies(ctx, W, [("transaction", tl), ("transactions", tb)], VT)
    verifies(ctx, W, [("block", bc)], VB)
    conversions(ctx, W, "leaf or branch", ("circuits",), "LeafOrBranchRef", "Leaf", "Branch", "recproofs/src/circuits/mod.rs")
    conversions(ctx, W, "base or block", ("circuits", "verify_block"), "BaseOrBlockRef", "Base", "Block", VB)
    ctx.saw(W.I)
    ctx.rule = "each circuit's constraints, as polynomials over its targets, span the same space as the reference's; every assignment of the prover is the argument it stands for"
    ctx.assumptions = ["the gadgets of the external plonky2 builder enforce what their names say", "the hash is collision free",
                       "the smaller circuits state what P28, P29 and P30 check", "no verifier data is itself the hash it would have to contain"]


class Quiet:
    """the same steps without their obligations: other properties' checks own them"""

    def __init__(self, ctx):
        self.tier = ctx.tier

    def ob(self, *a, **k):
        return True


def P30_indices(W, ctx, al, ab):
    P30.prove_acc(Quiet(ctx), W, al, ab, False)
    return ab
