"""Wrapping and shrinking recursive proofs keep their statement."""
import recmodel as rm
from field import FPoly
from interp import Dead, Env
from program import AnalysisError
from recmodel import Ref
from values import *

M = ("mozak_circuits", "stark", "recursive_verifier")
W3 = "circuits/src/stark/recursive_verifier.rs"


class World(rm.World):
    sizes = None
    count = None

    def __init__(self):
        super().__init__(("mozak_circuits",))

    def degree(self, b):
        if self.sizes is not None:
            self.depth[b] = k = 1 + max([self.depth.get(x[3], 0) for x in b.verifs] or [0])
            b.deg = self.sizes[min(k, len(self.sizes) - 1)]

    def attempt(self, f):
        """the value of a call, or None if it stops"""
        I = self.I
        n, pc = len(I.panics), I.pc
        I.pc = True
        try:
            v = f()
        except Dead:
            v = None
            if len(I.panics) == n:
                raise AnalysisError("a call ends without a result or a panic")
        live, ps = I.pc, I.panics[n:]
        I.pc = pc
        del I.panics[n:]
        if live is not True and live is not False:
            raise AnalysisError("stops only under some condition")
        if live is True and ps:
            raise AnalysisError("a call goes on after a panic")
        return None if live is False else I.deref(v)

    def fn(self, name, *args):
        d = self.P.lookup_abs(M + (name,))
        if d is None:
            raise AnalysisError(f"{name} is gone")
        return self.I.call_fn(d, [("v", a) for a in args], Env(None, d["mod"], {}, None))

    def inner(self, n, deg=1):
        """some circuit of another prover, with n public inputs"""
        b = rm.B(self)
        b.pis = [b.virt() for _ in range(n)]
        b.deg, b.built = deg, True
        return b

    def wrapper(self):
        return M + ("PlonkWrapperCircuit",)


def config():
    return rm.Config()


def wraps(W, b, of, n):
    """what is wrong with a circuit that should state exactly what the circuit `of` states"""
    bad = []
    if len(b.verifs) != 1:
        return [f"{len(b.verifs)} proofs are verified"]
    name, vk, common, circ = b.verifs[0]
    if common is not of or circ is not of:
        bad.append("the verified proof is of another shape of circuit")
    if list(vk) != rm.vk(Holder(W, of)):
        bad.append("the proof is not verified with the constant key of its circuit")
    if b.eqs or b.bools or b.ranges:
        bad.append("something else is enforced")
    own = [p for p in b.proofs if p.f["proof"].name == name]
    if not own or [p.key() for p in b.pis] != [x.key() for x in rm.flat(W.I, own[0].f["public_inputs"])]:
        bad.append("the public inputs are not those of the verified proof, in order")
    return bad


class Holder:
    def __init__(self, W, b):
        self.I, self.b = W.I, b


def wrapper(ctx, W):
    for n in (0, 1, 97):
        of = W.inner(n)
        k = len(W.builders)
        v = W.I.deref(W.meth(W.wrapper(), "new", rm.Data("verifier_only", of), rm.Data("common", of), config()))
        b = W.I.deref(v.f["circuit"]).circ
        bad = wraps(W, b, of, n) if b in W.builders[k:] else ["the circuit is not the one built"]
        ctx.ob(f"wrap:{n}", not bad, "a wrapping circuit states that the wrapped circuit's statement was proven, and nothing else", W3, lambda: "; ".join(bad))
        given = rm.proof_value(("given",), n, of)
        r = W.I.deref(W.meth(W.wrapper(), "prove", W.ref(v), W.ref(given)))
        ok = len(b.proved) == 1 and proved(b, b.proved[0], given) and same(W, r, b)
        ctx.ob(f"wrap:{n}:prove", ok, "its prover proves the proof it is given", W3)


def proved(b, w, p):
    """was exactly this proof put into the circuit's only proof target?"""
    t = b.verifs[0][0] if b.verifs else None
    return w.proofs == {t: p.f["proof"].name} and not w.twice


def same(W, r, b, k=None):
    r = W.I.deref(r)
    if isinstance(r, EnumV):
        if r.var != "Ok":
            return False
        r = W.I.deref(r.p[0])
    return isinstance(r, StructV) and "proof" in r.f and r.f["proof"].name == ("proof", b.uid, k or len(b.proved))


GOOD = ((13, (14, 13)), (13, (13, 13)), (13, (16, 14, 13)), (13, (17, 15, 14, 13)), (5, (20, 9, 8, 7, 6, 5)), (13, (15, 13, 12)))
BAD = ((13, (12, 11)), (13, (13, 12)), (13, (15, 14, 14, 14)), (13, (15, 15, 15)), (13, (16, 14, 12, 11)))


def shrink(ctx, W):
    for good, cases in ((True, GOOD), (False, BAD)):
        for target, sizes in cases:
            name = f"shrink:{'-'.join(map(str, sizes))}:{target}"
            with ctx.group(name):
                W.sizes, W.depth = sizes, {}
                of = W.inner(3, sizes[0])
                k = len(W.builders)
                given = rm.proof_value(("given",), 3, of)
                r = W.attempt(lambda: W.fn("shrink_to_target_degree_bits_circuit", rm.Data("verifier_only", of), rm.Data("common", of), W.ref(config()), Int(target, "usize"), W.ref(given)))
                W.sizes = None
                ok = isinstance(r, EnumV) and r.var == "Ok"
                if not good:
                    ctx.ob(name, not ok, "a proof that does not shrink to the size asked for is not returned", W3)
                    continue
                ctx.ob(f"{name}:done", ok, "a proof is wrapped until its circuit has the size asked for", W3, lambda: f"{r}"[:200])
                if not ok:
                    continue
                v = W.I.deref(r.p[0])
                c, p = W.I.deref(v[0]), W.I.deref(v[1])
                b = W.I.deref(c.f["circuit"]).circ
                ctx.ob(f"{name}:size", b.deg == target, "the circuit returned has the size asked for", W3, lambda: str(b.deg))
                ctx.ob(f"{name}:proof", same(W, p, b, 1) and len(b.proved) == 1, "the proof returned is of the circuit returned", W3)
                # from the last circuit back to the first
                bad, n = [], 0
                while b is not of and n < len(sizes) + 1:
                    n += 1
                    prev = b.verifs[0][3] if len(b.verifs) == 1 else None
                    bad += wraps(W, b, prev, 3) if prev else ["a circuit does not verify one proof"]
                    if not prev or bad:
                        break
                    if len(b.proved) != 1:
                        bad.append("a circuit is not proven once")
                    else:
                        want = given if prev is of else rm.proof_value(("proof", prev.uid, 1), 3, prev)
                        if not proved(b, b.proved[0], want):
                            bad.append("a circuit is not proven with the proof before it")
                    b = prev
                ctx.ob(f"{name}:chain", not bad and b is of, "every circuit wraps the one before it, the first the proof given", W3, lambda: "; ".join(bad[:3]))


def inside(ctx, W):
    """verification inside a further circuit"""
    for n, size in ((0, 6), (97, 7), (5, 9)):
        for base in (3, 70, 300):
            k = len(W.builders)
            W.count = base
            name = f"data:{n}:{size}:{base}"
            with ctx.group(name):
                old = rm.B.__init__

                def init(self, W_, old=old, base=base):
                    old(self, W_)
                    self.gates = base
                rm.B.__init__ = init
                try:
                    v = W.I.deref(W.fn("circuit_data_for_recursion", W.ref(config()), Int(size, "usize"), Int(n, "usize")))
                finally:
                    rm.B.__init__ = old
                b = v.circ
                ctx.ob(f"{name}:public inputs", isinstance(v, rm.Data) and v.what == "circuit" and len(b.pis) == n, "the circuit data has the number of public inputs asked for", W3, lambda: str(len(b.pis)))
                ctx.ob(f"{name}:size", b.gates == base > 1 << (size - 1) or base <= 1 << (size - 1) < b.gates <= 3 << (size - 2), "it is padded into the size asked for, and not further", W3, lambda: str(b.gates))
                ctx.ob(f"{name}:gates", len(b.verifs) == 1, "it has the gates of a verifying circuit", W3)
    for n in (0, 5, 97):
        out = rm.B(W)
        k = len(W.builders)
        r = W.I.deref(W.fn("verify_recursive_vm_proof", W.ref(out), Int(n, "usize"), W.ref(config()), Int(13, "usize")))
        p, vk = W.I.deref(r.f["proof_with_pis_target"]), rm.flat(W.I, r.f["vk_target"])
        ok = len(out.verifs) == 1 and not (out.eqs or out.bools or out.ranges or out.pis)
        if ok:
            name, key, common, circ = out.verifs[0]
            ok = p.f["proof"].name == name and [x.key() for x in key] == [x.key() for x in vk] and common is circ and len(common.pis) == n and len(rm.flat(W.I, p.f["public_inputs"])) == n
            ok = ok and all(rm.plain(x) for x in key) and len({x.key() for x in key}) == len(key)
        ctx.ob(f"inside:{n}", ok, "the proof returned is verified with the key returned, and nothing else is enforced", W3)


def run(ctx):
    W = World()
    wrapper(ctx, W)
    shrink(ctx, W)
    inside(ctx, W)
    ctx.saw(W.I)
    ctx.rule = "abstract interpretation of the wrapping circuits' builders: what each enforces, exposes and is proven with, followed from the final proof back to the first"
    ctx.assumptions = ["a circuit's size is any sequence of numbers the external builder may give; sequences enumerated", "the external builder's verify_proof accepts exactly the proofs of the circuit whose key it is given"]
