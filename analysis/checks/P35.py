"""A signature proof: knowledge of the private key behind exactly this public key, about exactly this message."""
import recmodel as rm
from builtins_rs import seq
from field import FPoly, fof, lift, vname
from interp import Env
from program import AnalysisError
from recmodel import Ref, bits_of, collect, flat, hash_n, hashv, ipoly, upoly, weigh
from values import *

S = "signatures"
DIR = "signatures/src/zk_friendly/"
N = 32
# the hash gadgets of plonky2_crypto: name -> (tag, bits of a block, are words big endian?)
GADGETS = {"sha256": (256, 512, True), "keccak256": (1600, 1088, False)}


def word(bs, big):
    r = FPoly.const(0)
    for j, b in enumerate(bs):
        r = r + b.scale(256 ** (3 - j if big else j))
    return r


def words(bs, big):
    return [word(bs[i:i + 4], big) for i in range(0, len(bs), 4)]


def digest(which, block):
    """the 32 bytes a hash makes of a padded input, given as words"""
    k = (ipoly(FPoly.const(GADGETS[which][0])),) + tuple(ipoly(w) for w in block)
    return [FPoly.var(("h", k, i)) for i in range(N)]


def padded(which, bs):
    """input bytes with their padding, as words"""
    tag, bits, big = GADGETS[which]
    c = FPoly.const
    n = bits // 8
    if len(bs) + (9 if big else 1) > n:
        raise AnalysisError("more than a block is hashed")
    if big:
        pad = [c(0x80)] + [c(0)] * (n - len(bs) - 9) + [c(x) for x in (8 * len(bs)).to_bytes(8, "big")]
    else:
        pad = [c(1)] + [c(0)] * (n - len(bs) - 1)
        pad[-1] = pad[-1] + 0x80
    return words(bs + pad, big)


class Hasher(DomainV):
    """a hash outside circuits"""

    def __init__(self, which, bs=()):
        self.which, self.bs = which, tuple(bs)

    def key(self):
        return ("hasher", self.which, tuple(b.key() for b in self.bs))

    def method(self, I, name, args, hint, place):
        if name in ("update", "chain_update", "chain"):
            v = Hasher(self.which, self.bs + tuple(flat(I, args[0])))
            if name != "update":
                return v
            if I.pc is not True or place is None:
                raise AnalysisError("input is only sometimes hashed")
            place.set(v)
            return UNIT
        if name == "finalize":
            return VecV(digest(self.which, padded(self.which, list(self.bs))))
        if name in ("clone", "by_ref", "borrow_mut"):
            return self
        return NotImplemented


class World(rm.World):
    def __init__(self):
        super().__init__((S,))
        x = self.I.intrinsics
        for t, which in (("Sha256", "sha256"), ("Keccak256", "keccak256")):
            x[t + "::new"] = x[t + "::default"] = lambda I, vs, h, e, n, w=which: Hasher(w)
            x[t + "::digest"] = lambda I, vs, h, e, n, w=which: VecV(digest(w, padded(w, flat(I, vs[0]))))
            x[t + "::new_with_prefix"] = lambda I, vs, h, e, n, w=which: Hasher(w, flat(I, vs[0]))
        x["PoseidonHash::hash_or_noop"] = x["PoseidonHash::hash_no_pad"] = lambda I, vs, h, e, n: hashv(hash_n(self.many(I, vs[0])))
        x["HashOut::from_bytes"] = lambda I, vs, h, e, n: hashv([sum_bytes(b) for b in eights(flat(I, vs[0]))])
        self.I.methods["to_bytes"] = self.m_bytes
        ext = self.I.B.ext_const

        def ext_const(I, full, segs, env, hint):
            if full[-1] == "KECCAK256_R":
                return Int(GADGETS["keccak256"][1], "usize")
            return ext(I, full, segs, env, hint)
        self.I.B.ext_const = ext_const

    def many(self, I, v):
        xs = flat(I, v)
        if len(xs) <= 4:
            raise AnalysisError("so few elements are not hashed")
        return xs

    def m_bytes(self, I, v, place, args, hint, node, env):
        v = I.deref(v)
        if isinstance(v, StructV) and v.path[-1] == "HashOut":
            return VecV([b for x in flat(I, v) for b in le_bytes(x)])
        return NotImplemented

    def gadget(self, b, I, name, a):
        if name == "add_virtual_hash_input_target":
            n, size = a[0].v, a[1].v
            limbs = VecV([u32(b.virt()) for _ in range(n * size // 32)])
            return StructV(("HashInputTarget",), {"input": StructV(("BigUintTarget",), {"limbs": limbs}), "input_bits": Int(n * size, "usize"),
                                                  "blocks": VecV([rm.boolt(b.virt()) for _ in range(n)])})
        if name in ("hash_sha256", "hash_keccak256"):
            which = name[5:]
            _, bits, big = GADGETS[which]
            t = a[0]
            ws = flat(I, t.f["input"])
            self.hashed.append((which, t, ws))
            if I.deref(t.f["input_bits"]).v % bits or I.deref(t.f["input_bits"]).v == 0:
                raise AnalysisError(f"{which} hashes blocks of {bits} bits, given {I.deref(t.f['input_bits']).v}")
            return StructV(("BigUintTarget",), {"limbs": VecV([u32(w) for w in words(digest(which, ws), big)])})
        return None

    hashed = ()

    def witness(self, w, I, name, a):
        for which, (_, _, big) in GADGETS.items():
            if name == f"set_{which}_input_target":
                ws = padded(which, flat(I, a[1]))
                ts = flat(I, a[0].f["input"])
                w.set(I, VecV(ts), VecV(ws + [FPoly.const(0)] * (len(ts) - len(ws))))
                for i, bt in enumerate(seq(I, a[0].f["blocks"])):
                    w.set(I, bt, FPoly.const(int(i == 0)))
                return True
            if name == f"set_{which}_output_target":
                for t, v in zip(flat(I, a[0]), words(flat(I, a[1]), big), strict=True):
                    self.outs.append((t, v))
                return True
        return False

    def signer(self, mod, name):
        d = self.P.lookup_abs((S, "zk_friendly", mod, name))
        if d is None:
            raise AnalysisError(f"{name} is gone")
        return ("adt", d, [])

    def call(self, st, fn, *args):
        I = self.I
        env = Env(None, st[1]["mod"], {}, st)
        f = I.assoc_value(st, {"id": fn}, env, [st[1]["n"], fn])
        return I.deref(I.call_value(f, [("v", a) for a in args], env, None, None))

    def key(self, kind, bs):
        d = self.P.lookup_abs((S, "zk_friendly", "sig", kind))
        if d is None:
            raise AnalysisError(f"{kind} is gone")
        return self.call(("adt", d, []), "new", VecV(bs))


def u32(p):
    return StructV(("U32Target",), {"0": p})


def sum_bytes(bs):
    r = FPoly.const(0)
    for i, b in enumerate(bs):
        r = r + b.scale(256 ** i)
    # as an element of the field: what comes back when its bytes are taken is its canonical form
    return r


def eights(bs):
    return [bs[i:i + 8] for i in range(0, len(bs), 8)]


def le_bytes(x):
    bs, _ = bits_of(x, 64)
    return [weigh(bs[8 * i:8 * i + 8]) for i in range(8)]


def subst(p, m, memo):
    """a polynomial with targets replaced by what they are assigned"""
    k = p.key()
    if k in memo:
        return memo[k]
    acc = FPoly.const(0)
    for mon, c in p.p.items():
        t = FPoly.const(c)
        for v in mon:
            n = vname(v)
            x = FPoly({(v,): 1})
            if x.key() in m:
                x = m[x.key()]
            elif n[0] == "h":
                x = FPoly.var(("h", tuple(ipoly(subst(upoly(i), m, memo)) for i in n[1]), n[2]))
            elif n[0] == "bit":
                x = bits_of(subst(upoly(n[1]), m, memo), n[3])[0][n[2]]
            t = t.mul(x)
        acc = acc + t
    memo[k] = acc
    return acc


def refold(p):
    """sums of all 64 bits of a value are that value"""
    groups = {}
    for m, c in p.p.items():
        if len(m) == 1 and vname(m[0])[0] == "bit" and vname(m[0])[3] == 64:
            groups.setdefault(vname(m[0])[1], {})[vname(m[0])[2]] = c
    for k, d in groups.items():
        if len(d) == 64:
            c0 = d[0]
            q = upoly(k).scale(c0) - weigh([FPoly.var(("bit", k, i, 64)) for i in range(64)]).scale(c0)
            p = p + q
    return p


class Sig:
    """a circuit as the public inputs and the prover's keys name it"""

    def __init__(self, W, b, w, v):
        self.W, self.I, self.b, self.w, self.v = W, W.I, b, w, v


def var(n, i):
    return FPoly.var(("arg", n, i))


def signs(ctx, W, mod, name):
    where = DIR + mod + ".rs"
    st = W.signer(mod, name)
    W.hashed, W.outs = [], []
    n0 = len(W.builders)
    sk, pk, ms = ([var(k, i) for i in range(N)] for k in ("private", "public", "message"))
    keys = [W.key(k, v) for k, v in (("PrivateKey", sk), ("PublicKey", pk), ("Message", ms))]
    r = W.call(st, "sign", rm.Config(), *[W.ref(k) for k in keys])
    bs = W.builders[n0:]
    if len(bs) != 1 or len(bs[0].proved) != 1:
        raise AnalysisError(f"{name}::sign does not build and prove one circuit")
    b, w = bs[0], bs[0].proved[0]
    c = Sig(W, b, w, StructV(("Keys",), {}))
    ctx.ob(f"{mod}:public inputs", len(b.pis) == 2 * N and len({p.key() for p in b.pis}) == 2 * N and all(plain(p) for p in b.pis),
           "the public inputs are the 32 limbs of the public key and the 32 of the message", where, lambda: f"{len(b.pis)} public inputs")
    if len(b.pis) != 2 * N:
        return
    PK, MS = b.pis[:N], b.pis[N:]
    at = {}
    for k, v in w.m.items():
        at.setdefault(v.key(), []).append(FPoly(dict(k[1])))
    SK = []
    ok = True
    for i, x in enumerate(sk):
        t = at.get(x.key(), [])
        ok = ok and len(t) == 1 and plain(t[0])
        SK += t[:1]
    ctx.ob(f"{mod}:private key", ok, "each limb of the private key is given to one target of its own", DIR + "sig.rs", lambda: str([len(at.get(x.key(), [])) for x in sk]))
    if not ok:
        return
    c.v = StructV(("Keys",), {"private": VecV(SK), "public": VecV(PK), "message": VecV(MS)})

    # what is enforced
    R = Ref()
    for t in SK + PK + MS:
        R.range(t, 8)
    if mod == "poseidon":
        for x, e in zip(hash_n(SK), eights(PK)):
            R.eq(x, sum_bytes(e))
    else:
        _, bits, big = GADGETS[mod]
        good = len(W.hashed) == 1 and W.hashed[0][0] == mod
        ctx.ob(f"{mod}:hash", good, f"{mod} is what is computed in the circuit, once", where, lambda: str([h[0] for h in W.hashed]))
        if not good:
            return
        ws = W.hashed[0][2]
        block = words(SK, big) + ws[8:]
        for x, y in zip(words(digest(mod, block), big), words(PK, big)):
            R.eq(x, y)
    rm.compare(ctx, mod, c, R, where)

    # an honest signer can always sign
    bad = []
    req = {t.key(): (l, x) for l, ts, xs in (("private key", SK, sk), ("public key", PK, pk), ("message", MS, ms)) for t, x in zip(ts, xs)}
    for k, (l, x) in req.items():
        if w.m.get(k) != x:
            bad.append(f"a limb of the {l} is assigned {w.m.get(k)}, should be {x}")
    if w.twice:
        bad.append("a target is assigned twice")
    ctx.ob(f"{mod}:assigned", not bad, "the public inputs are the public key and the message that were passed, in order", DIR + "sig.rs", lambda: "; ".join(bad[:3]))
    h = W.call(st, "hash_private_key", W.ref(keys[0]))
    if isinstance(h, StructV) and h.path[-1] == "HashOut":
        d = W.P.lookup_abs((S, "zk_friendly", "sig", "PublicKey"))
        h = W.call(("adt", d, []), "from", h)
    own = flat(W.I, h)
    ctx.ob(f"{mod}:key length", len(own) == N, "a public key has 32 limbs", where, lambda: str(len(own)))
    if len(own) != N:
        return
    m = dict(w.m)
    sub = {x.key(): y for x, y in zip(pk, own)}
    m = {k: subst(v, sub, {}) for k, v in m.items()}
    left, memo = [], {}
    for p in b.eqs:
        q = refold(subst(p, m, memo))
        if not q.p:
            continue
        # a variable the builder made and nobody assigned is free to take the value
        left.append(q)
    left = [p for p in rm.System(left, [], [], [], set(), set()).eqs if refold(p).p]
    lab = rm.Labels(c)
    ctx.ob(f"{mod}:own key", not left, "the public key that hash_private_key gives is the one the circuit demands, for every private key", where, lambda: "not zero: " + "; ".join(lab(p) for p in left[:2]))
    wrong = []
    for t, v in W.outs:
        q = refold(subst(t, m, memo) - subst(v, sub, {}))
        if q.p:
            wrong.append(q)
    ctx.ob(f"{mod}:hash output", not wrong, "what is assigned to the hash's output is its output", where, lambda: "; ".join(lab(p) for p in wrong[:2]))
    canon = [p for p in own if not byte_like(p)]
    ctx.ob(f"{mod}:bytes", not canon, "every limb of the public key is a byte", where, lambda: str(canon[:2]))

    # verification
    r = W.I.deref(r)
    circuit, sig = W.I.deref(r[0]), W.I.deref(r[1])
    good = isinstance(circuit, rm.Data) and circuit.circ is b and is_proof(sig, ("proof", b.uid, 1))
    ctx.ob(f"{mod}:result", good, "the circuit and the proof made with it are returned", DIR + "sig.rs", lambda: f"{circuit} {sig}"[:200])
    given = rm.proof_value(("given",), 2 * N, b)
    v = W.I.deref(W.call(st, "verify", rm.Data("circuit", b), given))
    ctx.ob(f"{mod}:verify", len(b.verified) == 1 and is_proof(b.verified[0], ("given",)) and isinstance(v, EnumV) and v.var == "Ok",
           "a signature verifies exactly when its proof does", DIR + "sig.rs", lambda: f"{b.verified} {v}"[:200])


def is_proof(v, name):
    return isinstance(v, StructV) and "proof" in v.f and isinstance(v.f["proof"], rm.Ptok) and v.f["proof"].name == name


def plain(p):
    return rm.plain(p)


def byte_like(p):
    """a byte of a digest, or 8 bits"""
    if plain(p) and vname(next(iter(p.p))[0])[0] == "h" and vname(next(iter(p.p))[0])[2] < N:
        return True
    return all(len(m) == 1 and vname(m[0])[0] == "bit" for m in p.p) and sorted(p.p.values()) == [1 << i for i in range(8)]


def run(ctx):
    W = World()
    for mod, name in (("poseidon", "ZkSigPoseidonSigner"), ("sha256", "ZkSigSha256Signer"), ("keccak256", "ZkSigKeccak256Signer")):
        signs(ctx, W, mod, name)
    # keys and messages keep what they are made of
    for kind in ("PrivateKey", "PublicKey", "Message"):
        xs = [var(kind, i) for i in range(N)]
        v = W.key(kind, xs)
        d = W.P.lookup_abs((S, "zk_friendly", "sig", kind))
        for fn in ("get_limbs", "get_limbs_field"):
            got = flat(W.I, W.call(("adt", d, []), fn, W.ref(v)))
            ctx.ob(f"{kind}:{fn}", got == xs, "limbs are given back in order", DIR + "sig.rs")
    ctx.saw(W.I)
    ctx.rule = "the signature circuits' constraints span the same space as the statement's; under the assignments of a signer who owns the key, every constraint is identically zero"
    ctx.assumptions = ["the gadgets of the external plonky2 and plonky2_crypto builders enforce what their names say",
                       "KECCAK256_R is the 1088 bits of a Keccak-256 block",
                       "the rest of the single hash block (the padding) is the signer's choice: the statement is about the block the key begins"]
