"""Model of the recursive-proof circuits' outside: a circuit builder that records what a circuit enforces, as polynomials over its targets."""
import bdd
import starkmodel as sm
from builtins_rs import seq
from field import FPoly, PR, Span, feq, fof, lift, mono_key, show, vid, vname
from interp import Env
from program import AnalysisError
from values import *

C = "mozak_recproofs"
_ids, _rev = {}, []
CAPS = 2


def intern(x):
    i = _ids.get(x)
    if i is None:
        i = _ids[x] = len(_rev)
        _rev.append(x)
    return i


def ipoly(p):
    """a polynomial as part of an atom's name"""
    return intern(p.key())


def upoly(i):
    return FPoly(dict(_rev[i][1]))


def monic(p):
    c = p.p[max(p.p, key=mono_key)]
    return p.scale(pow(c, PR - 2, PR))


def eqz(p):
    """1 if p is zero, else 0"""
    if not p.p:
        return FPoly.const(1)
    if len(p.p) == 1 and () in p.p:
        return FPoly.const(0)
    return FPoly.var(("eqz", ipoly(monic(p))))


def hash_n(xs):
    k = tuple(ipoly(x) for x in xs)
    return [FPoly.var(("h", k, i)) for i in range(4)]


def bits_of(p, n):
    """the n bits of a value: of a sum of distinct bits at distinct places, these bits"""
    if not any(m == () for m in p.p):
        at = {}
        for m, c in p.p.items():
            if len(m) != 1 or c & (c - 1) or not is_bit(vname(m[0])) or c.bit_length() - 1 in at:
                at = None
                break
            at[c.bit_length() - 1] = FPoly({m: 1})
        if at is not None and all(k < n for k in at):
            return [at.get(i, FPoly.const(0)) for i in range(n)], True
    k = ipoly(p)
    return [FPoly.var(("bit", k, i, n)) for i in range(n)], False


def is_bit(n):
    return isinstance(n, tuple) and n[0] in ("bit", "eqz")


def weigh(bs):
    r = FPoly.const(0)
    for i, b in enumerate(bs):
        r = r + b.scale(1 << i)
    return r


# ------------------------------------------------------------------- values
def boolt(p):
    return StructV(("BoolTarget",), {"target": p})


def hasht(xs):
    return StructV(("HashOutTarget",), {"elements": VecV(list(xs))})


def hashv(xs):
    return StructV(("HashOut",), {"elements": VecV(list(xs))})


def capt(hs):
    return StructV(("MerkleCapTarget",), {"0": VecV(list(hs))})


def verif(cap, digest, target=True):
    return StructV(("VerifierCircuitTarget" if target else "VerifierOnlyCircuitData",), {"constants_sigmas_cap": cap, "circuit_digest": digest})


def flat(I, v):
    """all field elements of a value, in order"""
    v = I.deref(v)
    p = fof(v) if not isinstance(v, Int) else None
    if p is not None:
        return [p]
    if v is DEFAULT:
        return [FPoly.const(0)]
    if isinstance(v, StructV):
        if v.path[-1] in ("VerifierCircuitTarget", "VerifierOnlyCircuitData"):
            return flat(I, v.f["circuit_digest"]) + flat(I, v.f["constants_sigmas_cap"])
        if v.path[-1] in ("HashOut", "HashOutTarget") and I.deref(v.f["elements"]) is DEFAULT:
            return [FPoly.const(0)] * 4
        return [x for k in v.f for x in flat(I, v.f[k])]
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in flat(I, y)]
    xs = seq(I, v)
    if xs is None:
        raise AnalysisError(f"not made of field elements: {v!r}"[:200])
    return [x for y in xs for x in flat(I, y)]


class Data(DomainV):
    """identity of a built circuit; its common data are equal when they say the same"""

    def __init__(self, what, circ):
        self.what, self.circ = what, circ

    def key(self):
        return (self.what, self.circ.uid)

    def __repr__(self):
        return f"<{self.what} {self.circ.uid}>"

    def field(self, I, name):
        c = self.circ
        if self.what == "circuit":
            if name in ("common", "verifier_only", "prover_only"):
                return Data(name, c)
        if self.what == "prover_only" and name == "public_inputs":
            return VecV(list(c.pis))
        if self.what == "common":
            if name == "num_public_inputs":
                return Int(len(c.pis), "usize")
            if name == "config":
                return Data("config", c)
            if name == "gates":
                return VecV([])
        if self.what == "config" and name == "fri_config":
            return Data("fri_config", c)
        if self.what == "fri_config" and name == "cap_height":
            return Int(CAPS.bit_length() - 1, "usize")
        if self.what == "verifier_only":
            v = verifier_value(c)
            if name in v.f:
                return v.f[name]
        return NotImplemented

    def binop(self, I, op, other, swapped):
        other = I.deref(other)
        if op in ("==", "!=") and isinstance(other, Data) and other.what == self.what:
            r = len(self.circ.pis) == len(other.circ.pis) if self.what == "common" else self.circ is other.circ
            return r == (op == "==")
        return NotImplemented

    def equals(self, o):
        return self.binop(None, "==", o, False)

    def method(self, I, name, args, hint, place):
        if name in ("clone", "to_owned", "borrow", "as_ref"):
            return self
        if self.what == "common" and name in ("degree", "degree_bits"):
            return Int(1 << self.circ.deg if name == "degree" else self.circ.deg, "usize")
        if self.what == "fri_config" and name == "num_cap_elements":
            return Int(CAPS, "usize")
        if self.what == "circuit" and name == "prove":
            w = I.deref(args[0])
            self.circ.proved.append(w)
            w.circ = self.circ
            return Ok(proof_value(("proof", self.circ.uid, len(self.circ.proved)), len(self.circ.pis), self.circ))
        if self.what == "circuit" and name == "verify":
            self.circ.verified.append(I.deref(args[0]))
            return Ok(UNIT)
        return NotImplemented


class Config(DomainV):
    def key(self):
        return ("config",)

    def method(self, I, name, args, hint, place):
        return self if name in ("clone", "to_owned") else NotImplemented


def verifier_value(c, target=False):
    h = lambda *n: (hasht if target else hashv)([FPoly.var(("vk", c.uid) + n + (i,)) for i in range(4)])
    cap = VecV([h("cap", j) for j in range(CAPS)])
    return verif(capt(cap.xs) if target else StructV(("MerkleCap",), {"0": cap}), h("digest"), target)


def proof_value(name, n, circ):
    return StructV(("ProofWithPublicInputs",), {"public_inputs": VecV([FPoly.var(("ppi", name, i)) for i in range(n)]), "proof": Ptok(name, circ)})


class Ptok(DomainV):
    def __init__(self, name, circ):
        self.name, self.circ = name, circ

    def key(self):
        return ("ptok", self.name)

    def __repr__(self):
        return f"<proof {self.name}>"

    def method(self, I, name, args, hint, place):
        return self if name in ("clone", "to_owned") else NotImplemented


def nobool(I, v, name):
    v = I.deref(v)
    if isinstance(v, StructV) and "target" in v.f and len(v.f) == 1:
        return lift(fof(I.deref(v.f["target"])))
    raise AnalysisError(f"{name} of something that is not a boolean target: {v!r}"[:160])


class B(DomainV):
    """circuit builder"""
    n = 0

    def __init__(self, W):
        B.n += 1
        self.W, self.uid = W, f"c{B.n}"
        self.nvirt = 0
        self.eqs, self.bools, self.verifs, self.ranges, self.pis = [], [], [], [], []
        self.proofs, self.proved, self.verified = [], [], []
        self.built, self.deg, self.gates = False, 1, None
        W.builders.append(self)

    def key(self):
        return ("builder", self.uid)

    def virt(self):
        self.nvirt += 1
        return FPoly.var(("v", self.nvirt - 1))

    def field(self, I, name):
        if name == "config":
            return Data("config", self)
        return NotImplemented

    def eq(self, I, p):
        if I.pc is not True:
            raise AnalysisError("a constraint is only sometimes imposed")
        self.eqs.append(p)

    def connect(self, I, a, b):
        x, y = flat(I, a), flat(I, b)
        if len(x) != len(y):
            raise AnalysisError("values of different shapes are connected")
        for p, q in zip(x, y):
            self.eq(I, p - q)

    def method(self, I, name, args, hint, place):
        a = [I.deref(x) for x in args]

        def f(i):
            p = fof(a[i])
            if p is None:
                raise AnalysisError(f"{name} of a non-field value {a[i]!r}"[:200])
            return p
        b = lambda i: nobool(I, a[i], name)
        if name in ("zero", "one", "two", "neg_one"):
            return FPoly.const({"zero": 0, "one": 1, "two": 2, "neg_one": -1}[name])
        if name in ("_false", "_true"):
            return boolt(FPoly.const(int(name == "_true")))
        if name == "constant":
            return f(0)
        if name == "constant_bool":
            v = a[0]
            return boolt(FPoly.const(int(v)))
        if name == "constant_hash":
            return hasht(flat(I, a[0]))
        if name == "add":
            return f(0) + f(1)
        if name == "sub":
            return f(0) - f(1)
        if name == "mul":
            return f(0) * f(1)
        if name == "neg":
            return -f(0)
        if name == "square":
            return f(0) * f(0)
        if name in ("add_const",):
            return f(0) + f(1)
        if name == "mul_const":
            return f(0) * f(1)
        if name in ("mul_const_add", "mul_add"):
            return f(0) * f(1) + f(2)
        if name == "mul_sub":
            return f(0) * f(1) - f(2)
        if name == "arithmetic":
            return f(0) * f(2) * f(3) + f(1) * f(4)
        if name in ("add_many", "mul_many"):
            r = FPoly.const(int(name == "mul_many"))
            for x in flat(I, a[0]):
                r = r + x if name == "add_many" else r * x
            return r
        if name in ("select", "_if"):
            return b(0) * (f(1) - f(2)) + f(2)
        if name in ("and", "or"):
            x, y = b(0), b(1)
            return boolt(x * y if name == "and" else x + y - x * y)
        if name == "not":
            return boolt(1 - b(0))
        if name == "is_equal":
            return boolt(eqz(f(0) - f(1)))
        if name == "is_nonzero":
            return boolt(1 - eqz(f(0)))
        if name == "is_zero":
            return boolt(eqz(f(0)))
        if name in ("div", "inverse"):
            x, y = (FPoly.const(1), f(0)) if name == "inverse" else (f(0), f(1))
            if not y.p:
                raise AnalysisError("division by zero")
            self.eq(I, eqz(y))
            c = y.p.get((), 0) if len(y.p) == 1 else 0
            if c:
                return x.scale(pow(c, PR - 2, PR))
            return FPoly.const(1) if x == y else x * FPoly.var(("inv", ipoly(y)))
        if name in ("assert_zero", "assert_one"):
            self.eq(I, f(0) - int(name == "assert_one"))
            return UNIT
        if name in ("connect", "connect_hashes", "connect_verifier_data", "connect_merkle_caps", "connect_array"):
            self.connect(I, a[0], a[1])
            return UNIT
        if name == "assert_bool":
            self.bools.append(b(0))
            return UNIT
        if name == "range_check":
            if not isinstance(a[1], Int):
                raise AnalysisError("range check of an unknown width")
            self.ranges.append((f(0), a[1].v))
            return UNIT
        if name == "split_le":
            bs, exact = bits_of(f(0), a[1].v)
            if not exact:
                self.ranges.append((f(0), a[1].v))
            return VecV([boolt(x) for x in bs])
        if name == "split_low_high":
            bs, exact = bits_of(f(0), a[2].v)
            if not exact:
                self.ranges.append((f(0), a[2].v))
            k = a[1].v
            return (weigh(bs[:k]), weigh(bs[k:]))
        if name == "le_sum":
            return weigh([nobool(I, x, name) for x in seq(I, a[0])])
        if name in ("hash_n_to_hash_no_pad", "hash_or_noop"):
            xs = flat(I, a[0])
            if name == "hash_or_noop" and len(xs) <= 4:
                return hasht(xs + [FPoly.const(0)] * (4 - len(xs)))
            return hasht(hash_n(xs))
        if name == "add_virtual_target":
            return self.virt()
        if name == "add_virtual_public_input":
            t = self.virt()
            self.pis.append(t)
            return t
        if name == "add_virtual_targets":
            return VecV([self.virt() for _ in range(a[0].v)])
        if name in ("add_virtual_bool_target_safe", "add_virtual_bool_target_unsafe"):
            t = self.virt()
            if name.endswith("_safe"):
                self.bools.append(t)
            return boolt(t)
        if name == "add_virtual_hash":
            return hasht([self.virt() for _ in range(4)])
        if name == "add_virtual_cap":
            return capt([hasht([self.virt() for _ in range(4)]) for _ in range(1 << a[0].v)])
        if name == "add_virtual_verifier_data":
            cap = capt([hasht([self.virt() for _ in range(4)]) for _ in range(1 << a[0].v)])
            return verif(cap, hasht([self.virt() for _ in range(4)]))
        if name == "add_virtual_proof_with_pis":
            c = a[0].circ
            n = len(self.proofs)
            p = StructV(("ProofWithPublicInputsTarget",), {"public_inputs": VecV([FPoly.var(("pi", self.uid, n, k)) for k in range(len(c.pis))]), "proof": Ptok(("target", self.uid, n), c)})
            self.proofs.append(p)
            return p
        if name == "constant_verifier_data":
            return verifier_value(a[0].circ, True)
        if name == "verify_proof":
            if I.pc is not True:
                raise AnalysisError("a proof is only sometimes verified")
            p = a[0]
            self.verifs.append((p.f["proof"].name, tuple(flat(I, a[1])), a[2].circ, p.f["proof"].circ))
            return UNIT
        if name == "register_public_input":
            self.pis.append(f(0))
            return UNIT
        if name == "register_public_inputs":
            self.pis += flat(I, a[0])
            return UNIT
        if name == "public_inputs":
            return VecV(list(self.pis))
        if name == "num_public_inputs":
            return Int(len(self.pis), "usize")
        if name == "num_gates":
            return Int(1 << 40 if self.gates is None else self.gates, "usize")
        if name == "add_gate" and self.gates is not None:
            if I.pc is not True:
                raise AnalysisError("a gate is only sometimes added")
            self.gates += 1
            return Int(self.gates - 1, "usize")
        if name in ("add_gate", "add_gate_to_gate_set", "print_gate_counts"):
            return UNIT
        if name == "build":
            self.built = True
            self.W.degree(self)
            return Data("circuit", self)
        g = self.W.gadget(self, I, name, a)
        if g is not None:
            return g
        if name in ("add_virtual_target_arr", "type_score", "borrow", "borrow_mut", "by_ref", "as_mut"):
            return NotImplemented
        raise AnalysisError(f"unknown circuit gadget {name}")


class Witness(DomainV):
    """what a prover puts into a circuit's targets"""

    def __init__(self, W=None):
        self.m, self.proofs, self.twice = {}, {}, []
        self.circ, self.W = None, W

    def key(self):
        return ("witness", id(self))

    def set(self, I, t, v):
        if I.pc is not True:
            raise AnalysisError("a target is only sometimes assigned")
        t = flat(I, t)
        v = [FPoly.const(0)] * len(t) if I.deref(v) is DEFAULT else flat(I, v)
        if len(t) != len(v):
            raise AnalysisError(f"{len(t)} targets are assigned {len(v)} values")
        for x, y in zip(t, v):
            old = self.m.get(x.key())
            if old is not None and old != y:
                self.twice.append(x)
            self.m[x.key()] = y

    def method(self, I, name, args, hint, place):
        a = [I.deref(x) for x in args]
        if name == "set_bool_target":
            v = a[1]
            if is_bool(v):
                v = FPoly.const(int(v)) if isinstance(v, bool) else bool_poly(v)
            self.set(I, a[0], v)
            return UNIT
        if name in ("set_target", "set_target_arr", "set_targets", "set_hash_target", "set_verifier_data_target", "set_cap_target"):
            v = a[1]
            if isinstance(v, Data):
                v = verifier_value(v.circ)
            self.set(I, a[0], v)
            return UNIT
        if name == "set_proof_with_pis_target":
            t, v = a[0].f["proof"].name, a[1].f["proof"].name
            if self.proofs.get(t, v) != v:
                self.twice.append(t)
            self.proofs[t] = v
            self.set(I, a[0].f["public_inputs"], a[1].f["public_inputs"])
            return UNIT
        if name == "try_get_target":
            v = self.m.get(fof(a[0]).key())
            return NONE if v is None else Some(v)
        if self.W is not None and self.W.witness(self, I, name, a):
            return UNIT
        if name == "type_score":
            return NotImplemented
        raise AnalysisError(f"unknown way to set a witness: {name}")


def bool_poly(c):
    """0/1 value of a condition that is a single atom (or its negation)"""
    for neg in (False, True):
        x = bdd.not_(c) if neg else c
        n = single(x)
        if n is not None:
            n = _rev[n]
            p = None
            if isinstance(n, tuple) and n[0] == "feq":
                q = FPoly(dict(n[1]))
                p = q + 1 if plain(q + 1) else 1 - q if plain(q) else None
            if p is None:
                p = FPoly.var(("cond", intern(n)))
            return 1 - p if neg else p
    return FPoly.var(("cond", intern(freeze(c))))


def isone(p):
    """the condition that a value is one"""
    return feq(p, FPoly.const(1))


def field_method(I, v, name, args, hint, place):
    if name in ("try_into", "try_from"):
        return EnumV(("Result",), "Ok", [v])      # a narrower integer: in range, or the caller stops
    if name in ("sub_one", "add_one"):
        return v - 1 if name == "sub_one" else v + 1
    if name in ("to_le_bytes", "to_be_bytes"):
        bs, _ = bits_of(v, 64)
        xs = [weigh(bs[8 * i:8 * i + 8]) for i in range(8)]
        return VecV(xs if name == "to_le_bytes" else xs[::-1])
    return sm.expr_method(I, v, name, args, hint, place)


def word(v):
    if isinstance(v, Int):
        return v.v
    if isinstance(v, FPoly) and all(m == () for m in v.p):
        return v.p.get((), 0)
    return None


class Length(Exception):
    def __init__(self, k, n):
        self.k, self.n = k, n


class Flags(DomainV):
    """a set of flags, by its bits"""

    def __init__(self, v):
        self.v = v

    def key(self):
        return ("flags", self.v if isinstance(self.v, int) else self.v.key())

    def __repr__(self):
        return f"<flags {self.v}>"

    def equals(self, o):
        return isinstance(o, Flags) and self.v == o.v

    def binop(self, I, op, other, swapped):
        a, b = flags_of(I, self), flags_of(I, other)
        if b is None or not isinstance(a, int) or not isinstance(b, int):
            return NotImplemented
        if op in ("==", "!="):
            return (a == b) == (op == "==")
        if op in ("|", "&", "^"):
            return Flags({"|": a | b, "&": a & b, "^": a ^ b}[op])
        if op == "-":
            return Flags(a & ~b)
        return NotImplemented

    def method(self, I, name, args, hint, place):
        if name in ("clone", "into", "copied", "borrow", "to_owned"):
            return self
        if name == "bits":
            return Int(self.v, "u8") if isinstance(self.v, int) else self.v
        if not isinstance(self.v, int):
            return NotImplemented
        if name == "len":
            return Int(bin(self.v).count("1"), "usize")
        if name == "is_empty":
            return self.v == 0
        if name in ("intersects", "contains"):
            o = flags_of(I, args[0])
            if isinstance(o, int):
                return bool(self.v & o) if name == "intersects" else self.v & o == o
        return NotImplemented


def flags_of(I, v):
    v = I.deref(v)
    if isinstance(v, Flags):
        return v.v
    if isinstance(v, EnumV) and v.path[-1] == "EventFlags":
        x = I.cast(v, ("p", "u8"))
        return x.v if isinstance(x, Int) else None
    return None


def single(c):
    s = bdd.support(c)
    if len(s) == 1:
        n = bdd.atom_of(next(iter(s)))
        if bdd.var(n) is c or bdd.var(n) == c:
            return intern(n)
    return None


# ------------------------------------------------------------------- world
class World:
    def __init__(self, crates=(C,)):
        self.P = P = sm.load(crates)
        self.I = I = sm.interp(P, exprs=False)
        I.pc = True
        I.fpoly_method = field_method
        self.builders = []
        x = I.intrinsics
        x["CircuitBuilder::new"] = lambda I_, vs, h, e, n: B(self)
        x["CircuitBuilder::hash_n_to_hash_no_pad"] = lambda I_, vs, h, e, n: I_.deref(vs[0]).method(I_, "hash_n_to_hash_no_pad", vs[1:], h, None)
        x["PartialWitness::new"] = x["PartialWitness::default"] = lambda I_, vs, h, e, n: Witness(self)
        x["BoolTarget::new_unsafe"] = lambda I_, vs, h, e, n: boolt(lift(fof(I_.deref(vs[0]))))
        x["HashOutTarget::from"] = lambda I_, vs, h, e, n: hasht(flat(I_, vs[0]))
        x["HashOut::from"] = lambda I_, vs, h, e, n: hashv(flat(I_, vs[0]))
        for n, k in (("MerkleCapTarget", "MerkleCapTarget"), ("MerkleCap", "MerkleCap")):
            x[n] = x["hash_types::" + n] = x["merkle_tree::" + n] = lambda I_, vs, h, e, n_, k=k: StructV((k,), {"0": VecV([I_.deref(v) for v in seq(I_, vs[0])])})
        x["Poseidon2Hash::hash_no_pad"] = lambda I_, vs, h, e, n: hashv(hash_n(flat(I_, vs[0])))
        x["array::from_fn"] = self.h_from_fn
        I.methods["add_virtual_target_arr"] = self.m_arr
        I.field_check, I.slice_check = self.settle, self.settle_slice
        self.guessed, self.lengths = [], {}
        infer = I.infer_const

        def infer_const(ty, v, ps, env):
            # a guessed length decides nothing: the other arguments do
            if isinstance(v, VecV) and any(g.xs == v.xs for g in self.guessed):
                self.pend = [q for q in self.pend if q[0] is env] + [(env, ty, v)]
                return
            infer(ty, v, ps, env)
            for e, t, g in self.pend:
                if e is env:
                    self.settle(I, "argument", I.ty(t, env), g)
        I.infer_const, self.pend = infer_const, []
        I.methods["into_iter_fixed"] = lambda I_, v, place, args, hint, node, env: I_.method(v, "into_iter", args, hint, node, env, place)

        def strict(v, name, args, hint, node, env, place):
            if isinstance(v, EnumV) and name in ("unwrap",):
                pass
            raise AnalysisError(f"unknown method {name} of {v!r} ({args})"[:300])
        I.opaque_method = strict
        I.methods["each_ref"] = lambda I_, v, place, args, hint, node, env: VecV([I_.deref(q) for q in seq(I_, v)])
        x["BitFlags::from_bits"] = lambda I_, vs, h, e, n: Some(Flags(fof(I_.deref(vs[0])) if word(I_.deref(vs[0])) is None else word(I_.deref(vs[0]))))
        x["BitFlags::empty"] = lambda I_, vs, h, e, n: Flags(0)
        bo = I.binop

        def binop(op, a, b, *rest):
            for v in (I.deref(a), I.deref(b)):
                if isinstance(v, EnumV) and v.path[-1] == "EventFlags" and op in ("|", "&", "^"):
                    return Flags(flags_of(I, a)).binop(I, op, b, False)
            if op in ("|", "&", "^"):
                x, y = word(I.deref(a)), word(I.deref(b))
                if x is not None and y is not None and FPoly in (type(I.deref(a)), type(I.deref(b))):
                    return FPoly.const({"|": x | y, "&": x & y, "^": x ^ y}[op])
            return bo(op, a, b, *rest)
        I.binop = binop
        mt = I.method

        def method(v, name, args, hint, node, env, place):
            w = I.deref(v)
            if isinstance(w, EnumV) and w.path[-1] == "EventFlags" and name in ("into", "bits", "intersects", "contains", "len"):
                r = Flags(flags_of(I, w)).method(I, name, args, hint, place)
                if r is not NotImplemented:
                    return r
            return mt(v, name, args, hint, node, env, place)
        I.method = method
        old = I.statics.get("assoc_const_hook")

        def const(I_, t, name, env, ids):
            if name == "ZERO" and (ids and ids[0] == "HashOut" or ids and len(ids) > 1 and ids[-2] == "HashOut" or t and t[0] == "ext" and t[1] == "HashOut"):
                return hashv([FPoly.const(0)] * 4)
            if ids and ids[0] == "BitFlags" and name in ("ALL", "EMPTY"):
                d = self.adt("EventFlags")
                return Flags(sum(flags_of(I_, EnumV(d["path"], v["n"], ())) for v in d["variants"]) if name == "ALL" else 0)
            if name == "NUM_HASH_OUT_ELTS":
                return Int(4, "usize")
            return old(I_, t, name, env, ids)
        I.statics["assoc_const_hook"] = const
        ext = I.B.ext_const

        def ext_const(I_, full, segs, env, hint):
            if tuple(full[-2:]) in (("BitFlags", "ALL"), ("BitFlags", "EMPTY")):
                return const(I_, None, full[-1], env, ["BitFlags"])
            return ext(I_, full, segs, env, hint)
        I.B.ext_const = ext_const

    def h_from_fn(self, I, vs, h, e, n):
        # the arrays built this way without a written length are the elements of hashes
        k = h[2] if h is not None and h[0] == "arr" and isinstance(h[2], int) else 4
        return VecV([I.call_value(vs[0], [("v", Int(i, "usize"))], e, None, n) for i in range(k)])

    def m_arr(self, I, v, place, args, hint, node, env):
        if not isinstance(v, B):
            return NotImplemented
        n = None
        tf = node.get("tf") if isinstance(node, dict) else None
        if tf:
            t = ("const", I.const_arg(tf[0], env)) if tf[0]["k"] == "TConst" else I.ty(tf[0], env)
            n = t[1] if t[0] == "const" else None
            if isinstance(n, Int):
                n = n.v
        elif hint is not None and hint[0] == "arr" and hint[2]:
            n = hint[2]()
        if isinstance(n, int):
            return VecV([v.virt() for _ in range(n)])
        # the length is inferred by rustc from a later use: taken to be that of a hash, and settled by the type of the field it ends up in
        k = len(self.guessed)
        r = VecV([v.virt() for _ in range(self.lengths.get(k, 4))])
        self.guessed.append(r)
        return r

    def settle(self, I, f, t, v):
        v = I.deref(v)
        if t is None:
            return
        t = I.strip(t)
        if t[0] == "arr" and t[2] and isinstance(v, VecV) and (n := t[2]()) is not None and len(v.xs) != n:
            for k, g in enumerate(self.guessed):
                if g.xs == v.xs:
                    raise Length(k, n)
            raise AnalysisError(f"field {f} is an array of {n}, given {len(v.xs)}")
        if t[0] == "adt" and isinstance(v, StructV) and t[1].get("k") == "ItemStruct" and v.path == t[1]["path"]:
            e = I.adt_env(t)
            for x in t[1]["fields"]["f"]:
                if "n" in x and x["n"] in v.f:
                    self.settle(I, f + "." + x["n"], I.ty(x["ty"], e), v.f[x["n"]])

    def settle_slice(self, v, n):
        for k, g in enumerate(self.guessed):
            if isinstance(v, VecV) and g.xs == v.xs:
                raise Length(k, n)

    def degree(self, b):
        """set how large a circuit has become"""

    def gadget(self, b, I, name, a):
        """a gadget of a further library"""

    def witness(self, w, I, name, a):
        """a way to set a witness of a further library"""

    # ---------------------------------------------------------- calling code
    def adt(self, *p):
        d = self.P.lookup_abs((C,) + p)
        if d is None:
            raise AnalysisError(f"{'::'.join(p)} is gone")
        return d

    def new(self, path, *args, fn="new"):
        """run a constructor; the value and the builder of the circuit"""
        n = len(self.builders)
        self.lengths = {}
        while True:
            self.guessed = []
            try:
                v = self.meth((C,) + tuple(path.split("::")), fn, *args)
                break
            except Length as e:
                if e.k in self.lengths:
                    raise AnalysisError(f"array of {e.n} and {self.lengths[e.k]} targets")
                self.lengths[e.k] = e.n
                del self.builders[n:]
        v = self.I.deref(v)
        circ = self.I.deref(v.f["circuit"]).circ
        return Circ(self, path, v, circ, self.builders[n:])

    def meth(self, head, name, *args, pick=None):
        ims = [im for im in self.P.impls.get(head, []) if name in im.fns and im.trait is None]
        if pick:
            ims = [im for im in ims if pick(im)]
        if not ims:
            raise AnalysisError(f"{'::'.join(head[1:])}::{name} is gone")
        im = ims[0]
        st = ("adt", self.P.lookup_abs(head), [])
        return self.I.call_fn(im.fns[name], [("v", a) for a in args], Env(None, im.mod, {}, st, impl=im), self_ty=st, impl=im)

    def ref(self, v):
        return RefV(self.I.temp(v))


class Circ:
    """a constructed circuit: its value, what it enforces, where its inputs are"""

    def __init__(self, W, path, v, b, all_builders):
        self.W, self.path, self.v, self.b = W, path, v, b
        self.others = [x for x in all_builders if x is not b]
        self.I = W.I
        self.name = path

    def get(self, path):
        v = self.v
        for k in path.split("."):
            v = self.I.get_field(self.I.deref(v), k)
        return self.I.deref(v)

    def at(self, path):
        """targets of the circuit by their place in the circuit's struct"""
        xs = flat(self.I, self.get(path))
        return xs[0] if len(xs) == 1 else xs

    def idx(self, path):
        sub, _, field = path.partition(".")
        v = self.get(f"{sub}.indices" + ("." + field if field else ""))
        return indexes(self.I, v)

    def pi(self, path):
        r = [self.b.pis[i] for i in self.idx(path)]
        return r[0] if len(r) == 1 else r

    def child(self, proof, of, path):
        """a public input of a proof this circuit verifies"""
        p = self.get(proof) if isinstance(proof, str) else proof
        xs = [self.I.deref(x) for x in self.I.deref(p.f["public_inputs"]).xs]
        r = [xs[i] for i in of.idx(path)]
        return r[0] if len(r) == 1 else r


def indexes(I, v):
    v = I.deref(v)
    if isinstance(v, Int):
        return [v.v]
    if isinstance(v, StructV):
        ks = list(v.f)
        if v.path[-1] == "VerifierCircuitTargetIndex":
            ks = ["circuit_digest", "constants_sigmas_cap"]
        return [i for k in ks for i in indexes(I, v.f[k])]
    xs = seq(I, v)
    if xs is None:
        raise AnalysisError(f"not an index: {v!r}"[:160])
    return [i for x in xs for i in indexes(I, x)]


# ---------------------------------------------------------- canonical systems
class System:
    """what a circuit enforces, normalised"""

    def __init__(self, eqs, bools, verifs, ranges, known, assumed):
        self.known = known            # variables the specification speaks about
        self.sub = {}
        self.boolvars = set()
        self.assumed = set(assumed)   # variables known to be 0 or 1 from elsewhere
        self.eqs, self.bools, self.verifs, self.ranges = list(eqs), list(bools), list(verifs), list(ranges)
        self.solve()

    def solve(self):
        for _ in range(200):
            self.memo = {}
            self.boolvars = {v for v in self.assumed} | {next(iter(p.p))[0] for p in (self.rw(b, False) for b in self.bools) if plain(p)}
            self.memo = {}
            eqs = []
            for p in self.eqs:
                q = self.rw(p)
                if q.p:
                    eqs.append(q)
            self.eqs = eqs
            if not self.step():
                break
        else:
            raise AnalysisError("constraints do not simplify")
        self.memo = {}
        self.bools = [self.rw(b) for b in self.bools]
        self.verifs = {(n, tuple(self.rw(x).key() for x in v), c.uid, d.uid) for n, v, c, d in self.verifs}
        self.ranges = {(self.rw(p).key(), n) for p, n in self.ranges}

    def step(self):
        """eliminate one variable"""
        for k, p in enumerate(self.eqs):
            cand = None
            for m, c in p.p.items():
                if len(m) == 1 and vname(m[0])[0] in ("v", "pi", "vk") and m[0] not in self.sub:
                    v = m[0]
                    if v in self.known:
                        continue
                    if any(v in mm for mm in p.p if mm != m) or any(mentions(mm, v) for mm in p.p):
                        continue
                    cand = (v, c)
                    break
            if cand:
                v, c = cand
                self.bind(v, FPoly({(v,): 1}) - p.scale(pow(c, PR - 2, PR)))
                self.eqs.pop(k)
                return True
        for k, p in enumerate(self.eqs):
            lin = [(m[0], c) for m, c in p.p.items() if len(m) == 1 and vname(m[0])[0] in ("v", "pi", "vk")]
            rest = [m for m in p.p if m and not (len(m) == 1 and vname(m[0])[0] in ("v", "pi", "vk"))]
            if rest or not lin:
                continue
            if len(lin) == 1 or len(lin) == 2 and () not in p.p and (lin[0][1] + lin[1][1]) % PR == 0:
                v, c = max(lin, key=lambda x: order(x[0]))
                if v in self.sub:
                    continue
                self.bind(v, FPoly({(v,): 1}) - p.scale(pow(c, PR - 2, PR)))
                self.eqs.pop(k)
                return True
        return False

    def bind(self, v, p):
        self.sub[v] = p
        if v in self.boolvars and plain(p):
            self.bools.append(p)

    def equalities(self):
        """named variables that are tied to another or to a constant"""
        self.memo = {}
        return {v: self.rw(FPoly({(v,): 1})).key() for v in self.sub if v in self.known}

    def rw(self, p, red=True):
        k = (p.key(), red)
        r = self.memo.get(k)
        if r is not None:
            return r
        acc = FPoly.const(0)
        for m, c in p.p.items():
            t = FPoly.const(c)
            for v in m:
                t = self.mul(t, self.rv(v, red), red)
            acc = acc + t
        self.memo[k] = acc
        return acc

    def mul(self, a, b, red):
        r = a.mul(b)
        return self.reduce(r) if red else r

    def isbool(self, v):
        return v in self.boolvars or is_bit(vname(v))

    def reduce(self, p):
        if all(len(m) < 2 for m in p.p):
            return p
        out = {}
        for m, c in p.p.items():
            if len(m) > 1:
                seen, mm, dead = set(), [], False
                for v in m:
                    if v in seen and self.isbool(v):
                        continue
                    seen.add(v)
                    mm.append(v)
                es = [v for v in mm if vname(v)[0] == "eqz"]
                for i in range(len(es)):
                    for j in range(i):
                        d = (upoly(vname(es[i])[1]) - upoly(vname(es[j])[1])).p
                        if d and set(d) == {()}:
                            dead = True
                if dead:
                    continue
                m = tuple(mm)
            x = (out.get(m, 0) + c) % PR
            if x:
                out[m] = x
            else:
                out.pop(m, None)
        return FPoly(out)

    def rv(self, v, red):
        k = ("v", v, red)
        r = self.memo.get(k)
        if r is not None:
            return r
        n = vname(v)
        if v in self.sub:
            r = self.rw(self.sub[v], red)
        elif n[0] == "h":
            r = FPoly.var(("h", tuple(ipoly(self.rw(upoly(i), red)) for i in n[1]), n[2]))
        elif n[0] == "inv":
            r = FPoly.var(("inv", ipoly(self.rw(upoly(n[1]), red))))
        elif n[0] == "bit":
            q = self.rw(upoly(n[1]), red)
            bs, _ = bits_of(q, n[3])
            r = bs[n[2]]
        elif n[0] == "eqz":
            r = self.eqz(self.rw(upoly(n[1]), red), red)
        else:
            r = FPoly({(v,): 1})
        self.memo[k] = r
        return r

    def eqz(self, p, red):
        vs = sorted({v for m in p.p for v in m})
        if red and vs and len(vs) <= 8 and all(self.isbool(v) for v in vs):
            acc = FPoly.const(0)
            for a in range(1 << len(vs)):
                on = {v for i, v in enumerate(vs) if a >> i & 1}
                if sum(c for m, c in p.p.items() if set(m) <= on) % PR == 0:
                    t = FPoly.const(1)
                    for v in vs:
                        x = FPoly({(v,): 1})
                        t = t.mul(x if v in on else FPoly.const(1) - x)
                    acc = acc + t
            return self.reduce(acc)
        return eqz(p)

    def implies(self, p):
        """is this 0 whenever the system holds? decided by running over the values of the flags, for each of which what remains is compared linearly"""
        flags = lambda q: {v for m in q.p for v in m if self.isbool(v)}
        over, eqs = flags(p), []
        for q in sorted(self.eqs, key=lambda q: len(flags(q) - over)):
            if flags(q) & over and len(flags(q) | over) <= 14 or flags(q) <= over:
                over |= flags(q)
                eqs.append(q)
        vs = sorted(over)
        if not vs or len(vs) > 14:
            return False

        def at(q, on):
            r = {}
            for m, c in q.p.items():
                if all(v in on for v in m if v in over):
                    k = tuple(v for v in m if v not in over)
                    x = (r.get(k, 0) + c) % PR
                    if x:
                        r[k] = x
                    else:
                        r.pop(k, None)
            return r
        for a in range(1 << len(vs)):
            on = {v for i, v in enumerate(vs) if a >> i & 1}
            goal = at(p, on)
            if not goal:
                continue
            rest = [r for r in (at(q, on) for q in eqs) if r]
            if any(set(r) == {()} for r in rest):
                continue
            zero = [(v, at(upoly(vname(v)[1]), on)) for v in vs if vname(v)[0] == "eqz"]
            sp = Span(rest + [r for v, r in zero if v in on and r])
            if sp.has({(): 1}) or any(v not in on and sp.has(r) for v, r in zero):
                continue
            if not sp.has(goal):
                return False
        return True

    def implied_bool(self, p):
        """is this 0 or 1 whenever the system holds?"""
        if not p.p or p == FPoly.const(1):
            return True
        if plain(p) and self.isbool(next(iter(p.p))[0]):
            return True
        if not (p * p - p).p or not self.reduce(p * p - p).p:
            return True
        if any(not self.reduce(p - b).p for b in self.bools):
            return True
        if plain(p):
            v = next(iter(p.p))[0]
            for e in self.eqs:
                c = e.p.get((v,))
                if c and not any(v in m for m in e.p if m != (v,)):
                    q = FPoly({(v,): 1}) - e.scale(pow(c, PR - 2, PR))
                    d = self.reduce(q * q - q)
                    if not d.p:
                        return True
        return False


def order(v):
    n = vname(v)
    return ({"vk": 0, "v": 1, "pi": 2}.get(n[0], 3), v)


def plain(p):
    return len(p.p) == 1 and next(iter(p.p.values())) == 1 and len(next(iter(p.p))) == 1


def mentions(m, v):
    """does an atom of a monomial have v inside?"""
    for x in m:
        n = vname(x)
        if n[0] == "h" and any(inside(i, v) for i in n[1]) or n[0] in ("eqz", "bit", "inv") and inside(n[1], v):
            return True
    return False


def inside(i, v):
    p = upoly(i)
    return any(v == x for m in p.p for x in m) or any(mentions(m, v) for m in p.p)


class Ref:
    """specification of a circuit"""

    def __init__(self):
        self.eqs, self.bools, self.verifs, self.ranges, self.assumed = [], [], [], [], []

    def eq(self, a, b=0):
        if isinstance(a, list):
            if not isinstance(b, list):
                b = [b] * len(a)
            for x, y in zip(a, b, strict=True):
                self.eqs.append(lift(x) - lift(y))
        else:
            self.eqs.append(lift(a) - lift(b))

    def bool(self, *xs):
        self.bools += xs

    def assume(self, *xs):
        """0 or 1 by the circuit of the proof they come from"""
        self.assumed += xs

    def verify(self, proof, verifier, circ):
        self.verifs.append((proof.f["proof"].name, tuple(verifier), circ.b, circ.b))

    def range(self, p, n):
        self.ranges.append((p, n))

    def vars(self):
        s = set()
        for p in self.eqs + self.bools + self.assumed + [p for p, _ in self.ranges] + [x for v in self.verifs for x in v[1]]:
            collect(p, s)
        return s


def collect(p, s):
    for m in p.p:
        for v in m:
            if v in s:
                continue
            n = vname(v)
            if n[0] == "h":
                for i in n[1]:
                    collect(upoly(i), s)
            elif n[0] in ("eqz", "bit", "inv"):
                collect(upoly(n[1]), s)
            s.add(v)


def vk(circ):
    """the constant verifier data of a circuit, flattened"""
    return flat(circ.I, verifier_value(circ.b, True))


def compare(ctx, name, circ, ref, where, eqs=None, builder=None):
    b = builder or circ.b
    known = ref.vars()
    for p in b.pis:
        collect(p, known)
    assumed = set()
    for p in ref.assumed:
        collect(p, assumed)
    got = System(b.eqs, b.bools, b.verifs, b.ranges, known, assumed)
    want = System(ref.eqs, ref.bools, ref.verifs, ref.ranges, known, assumed)
    label = Labels(circ)
    ge, we = got.equalities(), want.equalities()
    diff = [v for v in set(ge) | set(we) if ge.get(v) != we.get(v)]
    sg, sw = Span([p.p for p in got.eqs]), Span([p.p for p in want.eqs])
    miss = [p for p in want.eqs if not sg.has(p.p) and not got.implies(p)]
    extra = [p for p in got.eqs if not sw.has(p.p) and not want.implies(p)]
    tied = [v for v in diff if v in we and ge.get(v) != we[v]]
    ctx.ob(f"{name}:enforced", not miss and not tied, "everything the statement needs is enforced", where,
           lambda: "missing: " + "; ".join([label(p) for p in miss[:3]] + [f"{label(FPoly({(v,): 1}))} tied to {label(FPoly(dict(we[v][1])))} (circuit: {label(FPoly(dict(ge[v][1]))) if v in ge else 'free'})" for v in tied[:3]]))
    loose = [v for v in diff if v not in tied]
    ctx.ob(f"{name}:satisfiable", not extra and not loose, "nothing else is enforced, so every true statement can be proved", where,
           lambda: "extra: " + "; ".join([label(p) for p in extra[:3]] + [f"{label(FPoly({(v,): 1}))} tied to {label(FPoly(dict(ge[v][1])))}" for v in loose[:3]]))
    nb = [p for p in want.bools if not got.implied_bool(p)]
    ctx.ob(f"{name}:booleans", not nb, "every flag is constrained to be 0 or 1", where, lambda: "not boolean: " + "; ".join(label(p) for p in nb[:4]))
    xb = [p for p in got.bools if not want.implied_bool(p)]
    ctx.ob(f"{name}:flags", not xb, "only flags are constrained to be 0 or 1", where, lambda: "boolean: " + "; ".join(label(p) for p in xb[:4]))
    ctx.ob(f"{name}:proofs", got.verifs == want.verifs, "exactly the right proofs are verified, with the right verifier", where,
           lambda: f"missing {label.verifs(want.verifs - got.verifs)} extra {label.verifs(got.verifs - want.verifs)}"[:600])
    ctx.ob(f"{name}:ranges", got.ranges == want.ranges, "exactly the right values are range checked", where,
           lambda: f"missing {[(label(FPoly(dict(k[1]))), n) for k, n in want.ranges - got.ranges]} extra {[(label(FPoly(dict(k[1]))), n) for k, n in got.ranges - want.ranges]}"[:400])
    return got, want


class Labels:
    """readable names for reports"""

    def __init__(self, circ):
        self.names = {}
        self.walk(circ.v, "")

    def walk(self, v, path, depth=0):
        v = self_deref(v)
        if isinstance(v, FPoly):
            if plain(v):
                self.names.setdefault(next(iter(v.p))[0], path.replace("targets.", ""))
        elif isinstance(v, StructV) and depth < 12:
            for k, x in v.f.items():
                self.walk(x, f"{path}.{k}" if path else k, depth + 1)
        elif isinstance(v, VecV):
            for i, x in enumerate(v.xs):
                self.walk(x, f"{path}[{i}]", depth + 1)

    def var(self, v):
        n = vname(v)
        if v in self.names:
            return self.names[v]
        if n[0] == "h":
            return f"hash({', '.join(self(upoly(i)) for i in n[1])})[{n[2]}]"
        if n[0] == "eqz":
            return f"({self(upoly(n[1]))} == 0)"
        if n[0] == "bit":
            return f"bit {n[2]} of ({self(upoly(n[1]))})"
        return ".".join(map(str, n))

    def __call__(self, p):
        out = []
        for m, c in list(p.p.items())[:8]:
            c = c if c <= PR // 2 else c - PR
            out.append(f"{c:+d}" + "".join("*" + self.var(v) for v in m))
        return (" ".join(out) or "0")[:400]

    def verifs(self, s):
        return [(n, [self(FPoly(dict(k[1]))) for k in v[:1]], c) for n, v, c, d in s]


def self_deref(v):
    while isinstance(v, RefV):
        v = v.place.get()
    return v
