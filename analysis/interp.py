"""Abstract interpreter over the Rust syntax trees.

Flow-sensitive, with joins at control-flow merges (values become gated), loops
over statically known sequences unrolled and all other loops summarised as
`mu` terms over their update functions.  Nothing of the analysed program is
executed: values are the abstract values of values.py.
"""
import os
import sys
import time

import bdd
import terms
from bdd import and_, not_, or_
from program import PRIMS, AnalysisError, Mod
from terms import T, mkT
from values import *

sys.setrecursionlimit(200000)
DEADLINE = time.monotonic() + float(os.environ.get('VERIF_BUDGET', '720'))


class Dead(Exception):
    """Current control point is unreachable."""


class Env:
    __slots__ = ("vars", "parent", "mod", "gen", "self_ty", "fn", "items", "impl")

    def __init__(self, parent=None, mod=None, gen=None, self_ty=None, fn=None, impl=None):
        self.vars = {}
        self.parent = parent
        self.items = None
        if parent is not None:
            self.mod = mod or parent.mod
            self.gen = gen if gen is not None else parent.gen
            self.self_ty = self_ty or parent.self_ty
            self.fn = fn or parent.fn
            self.impl = impl or parent.impl
        else:
            self.mod, self.gen, self.self_ty, self.fn, self.impl = mod, gen or {}, self_ty, fn, impl

    def find(self, n):
        e = self
        while e is not None:
            r = e.vars.get(n)
            if r is not None:
                return r
            e = e.parent
        return None

    def find_item(self, n):
        e = self
        while e is not None:
            if e.items and n in e.items:
                return e.items[n]
            e = e.parent
        return None


class Frame:
    __slots__ = ("returns", "fn", "tryblock")

    def __init__(self, fn):
        self.returns, self.fn = [], fn


class LoopFrame:
    __slots__ = ("label", "breaks", "conts")

    def __init__(self, label):
        self.label, self.breaks, self.conts = label, [], []


# ------------------------------------------------------------------- places
class LocPlace:
    def __init__(self, I, loc):
        self.I, self.loc = I, loc

    def get(self):
        return self.I.store[self.loc]

    def set(self, v):
        self.I.store[self.loc] = v

    def key(self):
        return ("loc", self.loc)

    def mutable(self):
        return self.loc in self.I.mutlocs or isinstance(self.get(), RefV)


class FieldPlace:
    def __init__(self, I, p, n):
        self.I, self.p, self.n = I, p, n

    def get(self):
        return self.I.get_field(self.p.get(), self.n)

    def set(self, v):
        self.p.set(self.I.with_field(self.p.get(), self.n, v))

    def key(self):
        return ("f", self.p.key(), self.n)

    def mutable(self):
        return self.p.mutable()


class IndexPlace:
    def __init__(self, I, p, i):
        self.I, self.p, self.i = I, p, i

    def get(self):
        return self.I.get_index(self.p.get(), self.i)

    def set(self, v):
        self.p.set(self.I.with_index(self.p.get(), self.i, v))

    def key(self):
        return ("i", self.p.key(), freeze(self.i))

    def mutable(self):
        return self.p.mutable()


class PayPlace:
    def __init__(self, I, p, path, var, i):
        self.I, self.p, self.path, self.var, self.i = I, p, path, var, i

    def get(self):
        return self.I.payload(self.p.get(), self.path, self.var, self.i)

    def set(self, v):
        self._set(v)

    def _set(self, v):
        cur = self.p.get()

        def go(cur):
            if isinstance(cur, EnumV) and cur.var == self.var:
                if isinstance(cur.p, dict):
                    return EnumV(cur.path, cur.var, {**cur.p, self.i: v})
                return EnumV(cur.path, cur.var, tuple(v if k == self.i else x for k, x in enumerate(cur.p)))
            if isinstance(cur, GateV):
                return GateV(cur.c, go(cur.a), go(cur.b))
            if isinstance(cur, T):
                return mkT("withpay", (cur, self.var, self.i, freeze(v)))
            return cur
        self.p.set(go(cur))

    def key(self):
        return ("p", self.p.key(), self.var, self.i)

    def mutable(self):
        return self.p.mutable()


class SlicePlace:
    """Sub-slice [lo, hi) of a vector place with known bounds."""

    def __init__(self, I, p, lo, hi):
        self.I, self.p, self.lo, self.hi = I, p, lo, hi

    def get(self):
        return VecV(self.p.get().xs[self.lo:self.hi])

    def set(self, v):
        xs = self.p.get().xs
        self.p.set(VecV(xs[:self.lo] + tuple(v.xs) + xs[self.hi:]))

    def key(self):
        return ("sl", self.p.key(), self.lo, self.hi)

    def mutable(self):
        return self.p.mutable()


class GatePlace:
    """c ? a : b"""

    def __init__(self, I, c, a, b):
        self.I, self.c, self.a, self.b = I, c, a, b

    def get(self):
        return merge(self.c, self.a.get(), self.b.get())

    def set(self, v):
        self.a.set(merge(self.c, v, self.a.get()))
        self.b.set(merge(self.c, self.b.get(), v))

    def key(self):
        return ("g", self.c, self.a.key(), self.b.key())

    def mutable(self):
        return True


class NotAnInsertion(AnalysisError):
    pass


OPTION = ("Option",)
RESULT = ("Result",)
BUILTIN_ENUMS = {"SeekFrom": ["Start", "End", "Current"], "Option": ["None", "Some"], "Result": ["Err", "Ok"], "Ordering": ["Less", "Equal", "Greater"],
                 "Entry": ["Occupied", "Vacant"], "Either": ["Left", "Right"], "EitherOrBoth": ["Both", "Left", "Right"],
                 "Cow": ["Borrowed", "Owned"]}
BUILTIN_VARIANTS = {"Some": ("Option",), "None": ("Option",), "Ok": ("Result",), "Err": ("Result",)}

# opaque methods that never mutate their receiver
PURE = set("""len is_empty iter clone as_ref as_slice as_bytes to_vec get contains contains_key first last into_iter
to_string as_str to_owned borrow unwrap expect is_some is_none is_ok is_err map map_err and_then ok_or ok_or_else
unwrap_or unwrap_or_else unwrap_or_default copied cloned rev zip enumerate chain skip take step_by keys values
filter filter_map flat_map fold sum product max min any all find position count collect collect_vec deref try_into into
eq ne lt le gt ge cmp partial_cmp hash is_zero is_one to_canonical_u64 to_noncanonical_u64 exp_power_of_2 inverse
windows chunks tuple_windows cycle last_mut as_ptr leading_zeros trailing_zeros count_ones ok err is_some_and
to_le_bytes to_be_bytes split_at concat join inspect elements to_bytes starts_with ends_with flatten
checked_add checked_sub wrapping_add wrapping_sub overflowing_add abs unsigned_abs pow try_inverse bits chunks_exact
display with_context context each_ref as_deref lines trim split parse bytes chars read_link get_or sorted""".split())

CONTROL_EXC = (Dead,)


class Interp:
    def __init__(self, prog):
        self.P = prog
        self.store = {}
        self.mutlocs = set()
        self.nloc = 0
        self.pc = True
        self.frames = []
        self.closure_hint = {}
        self.loops = []
        self.panics = []      # (pc, kind, message, node, module)
        self.obl = []         # (pc, kind, data, node)
        self.visited = {}
        self.ncalls = 0
        self.depth = 0
        self.bind_depth = 0
        self.statics = {}
        self.field_check = None  # called with the name, type and value of each field of a struct literal
        self.slice_check = None  # called with the value and length of a slice pattern that does not match
        self.static_values = {}  # id of a `static mut` -> initial value
        self.intrinsics = {}  # 'a::b' suffix -> fn(I, args, hint, env, node)
        self.macros = {}
        self.methods = {}     # extra builtin methods: name -> fn(I, v, place, args, hint, node, env) or NotImplemented
        self.opaque_fns = set()
        self.effects = set()  # names of external functions with world effects
        self.unroll_limit = 100000
        self.track_overflow = False
        self.max_depth = 400
        self.stack = []
        self.fuel = 200_000_000
        self.on_call = None
        import builtins_rs
        self.B = builtins_rs
        builtins_rs.install(self)

    # ------------------------------------------------------------- utilities
    def err(self, msg, node=None, env=None):
        where = ""
        if env is not None and env.mod is not None:
            where = f" at {env.mod.file}:{(node or {}).get('ln', '?')}"
        if self.stack:
            where += " in " + "::".join(self.stack[-1][-2:])
        raise AnalysisError(msg + where, node)

    def new(self, v, mut=True):
        self.nloc += 1
        self.store[self.nloc] = v
        if mut:
            self.mutlocs.add(self.nloc)
        return self.nloc

    def temp(self, v):
        return LocPlace(self, self.new(v))

    def panic(self, kind, msg, node, env):
        self.panics.append((self.pc, kind, msg, node, env.mod if env else None, tuple(self.stack[-3:])))
        self.pc = False
        raise Dead()

    def panic_if(self, cond, kind, msg, node, env):
        """The path continues under !cond."""
        c = and_(self.pc, cond)
        if c is False:
            return
        self.panics.append((c, kind, msg, node, env.mod if env else None, tuple(self.stack[-3:])))
        self.pc = and_(self.pc, not_(cond))
        if self.pc is False:
            raise Dead()

    def assume(self, cond):
        self.pc = and_(self.pc, cond)
        if self.pc is False:
            raise Dead()

    def branch(self, cond, f, g):
        if cond is True:
            return f()
        if cond is False:
            return g()
        c1 = and_(self.pc, cond)
        c0 = and_(self.pc, not_(cond))
        if c1 is False:
            return g()
        if c0 is False:
            return f()
        s0 = self.store
        self.store = dict(s0)
        self.pc = c1
        try:
            v1 = f()
            l1 = True
        except Dead:
            l1 = False
        p1, s1 = self.pc, self.store
        self.store = dict(s0)
        self.pc = c0
        try:
            v0 = g()
            l0 = True
        except Dead:
            l0 = False
        p0, s2 = self.pc, self.store
        if not l1 and not l0:
            self.pc = False
            raise Dead()
        if not l1:
            self.store, self.pc = s2, p0
            return v0
        if not l0:
            self.store, self.pc = s1, p1
            return v1
        cond = bdd.restrict(cond, or_(p1, p0))
        self.store = self.merge_store(cond, s1, s2)
        self.pc = or_(p1, p0)
        return merge(cond, v1, v0)

    def merge_store(self, cond, s1, s2):
        out = {}
        for k, v in s1.items():
            w = s2.get(k, v)
            out[k] = v if v is w else self.merge_vals(cond, v, w)
        for k, w in s2.items():
            if k not in out:
                out[k] = w
        return out

    def merge_vals(self, c, a, b):
        if isinstance(a, RefV) and isinstance(b, RefV) and not val_is(a, b):
            return RefV(GatePlace(self, c, a.place, b.place))
        return merge(c, a, b)

    def join_exits(self, exits):
        """exits: [(pc, value, store)] disjoint -> sets state, returns value"""
        exits = [e for e in exits if e[0] is not False]
        if not exits:
            self.pc = False
            raise Dead()
        allpc = or_(*[e[0] for e in exits])
        pc, val, st = exits[-1]
        for p, v, s in reversed(exits[:-1]):
            c = bdd.restrict(p, allpc)
            val = self.merge_vals(c, v, val)
            st = self.merge_store(c, s, st)
        self.store, self.pc = st, allpc
        return val

    # ----------------------------------------------------------------- types
    def ty(self, n, env):
        """AST type -> type descriptor"""
        if n is None:
            return ("any",)
        k = n["k"]
        if k == "TPath":
            s = n["segs"]
            if n.get("qself") is not None:
                if n["qself"]["pos"] and s:
                    pass
                return self.ty_assoc(n, env)
            if len(s) == 1:
                nm = s[0]["id"]
                if nm == "Self":
                    return env.self_ty or ("any",)
                g = env.gen.get(nm) if env.gen else None
                if g is not None and not isinstance(g, Int):
                    return g
                if nm in PRIMS or nm in ("bool", "str", "char", "f64", "f32"):
                    return ("p", nm)
                li = env.find_item(nm)
                if li is not None and li["k"] in ("ItemStruct", "ItemEnum"):
                    return ("adt", li, [self.ty(a, env) for a in (s[0]["a"] or [])])
            elif s[0]["id"] == "Self" and len(s) == 2:
                return self.assoc_type(env.self_ty, s[1]["id"], env)
            if len(s) == 2 and s[0]["id"] == "Self" and env.impl is not None and s[1]["id"] in env.impl.types:
                return self.ty(env.impl.types[s[1]["id"]]["ty"], env)
            args = [self.ty(a, env) if a["k"] != "TConst" else ("const", self.const_arg(a, env)) for a in (s[-1]["a"] or []) if a["k"] not in ("TLife", "TAssoc", "TFn")]
            d = self.P.lookup(env.mod, [x["id"] for x in s])
            if isinstance(d, dict):
                if d["k"] in ("ItemStruct", "ItemEnum"):
                    # constants given as plain identifiers
                    return ("adt", d, args)
                if d["k"] == "ItemType":
                    g = {}
                    for p, a in zip([p for p in d["gen"]["params"] if p["g"] != "life"], args):
                        g[p["n"]] = a[1] if a[0] == "const" else a
                    return self.ty(d["ty"], Env(None, d["mod"], g, env.self_ty))
                if d["k"] == "ItemTrait":
                    return ("any",)
                if d["k"] == "ItemConst":
                    return ("const", self.const_item(d))
            if len(s) == 1 and s[0]["id"] in (env.gen or {}):
                return ("const", env.gen[s[0]["id"]])
            nm = self.P.ext_path(env.mod, [x["id"] for x in s])[-1]
            return ("ext", nm, args)
        if k == "TRef":
            return ("ref", n["mut"], self.ty(n["ty"], env))
        if k == "TPtr":
            return ("any",)
        if k == "TTuple":
            return ("tup", [self.ty(x, env) for x in n["elems"]])
        if k == "TArray":
            return ("arr", self.ty(n["ty"], env), lambda: self.const_usize(n["len"], env))
        if k == "TSlice":
            return ("slice", self.ty(n["ty"], env))
        if k == "TFn" or k in ("TImpl", "TDyn"):
            f = n if k == "TFn" else self.fn_bound(n["b"])
            if f is not None:
                r = self.ty(f["out"], env) if f["out"] is not None else ("tup", [])
                return ("fn", r) if self.plain(r) else ("any",)
        return ("any",)

    @staticmethod
    def fn_bound(bs):
        """the signature among bounds like `FnOnce(u32) -> u32`"""
        for b in bs or []:
            if b and b[-1]["id"] in ("Fn", "FnMut", "FnOnce") and b[-1]["a"] and b[-1]["a"][0]["k"] == "TFn":
                return b[-1]["a"][0]
        return None

    def plain(self, t):
        return t[0] == "p" or t[0] == "tup" and bool(t[1]) and all(self.plain(x) for x in t[1])

    def param_ty(self, d, n, env):
        """type of a parameter; one of a type bounded by a function trait is that function type"""
        if n["k"] == "TPath" and len(n["segs"]) == 1:
            nm = n["segs"][0]["id"]
            for g in d["gen"]["params"]:
                if g["g"] == "type" and g["n"] == nm and nm not in (env.gen or {}):
                    f = self.fn_bound(g["b"])
                    for w in d["gen"]["where"] or []:
                        if f is None and w.get("ty") and w["ty"]["k"] == "TPath" and [x["id"] for x in w["ty"]["segs"]] == [nm]:
                            f = self.fn_bound(w["b"])
                    if f is not None:
                        r = self.ty(f["out"], env) if f["out"] is not None else ("any",)
                        if self.plain(r):
                            return ("fn", r)
        return self.ty(n, env)

    def const_arg(self, a, env):
        return self.eval(a["e"], env)

    def const_usize(self, e, env):
        if e["k"] == "Path" and len(e["segs"]) == 1 and e["segs"][0]["id"] in (env.gen or {}):
            g = env.gen[e["segs"][0]["id"]]
            if isinstance(g, tuple) and g and g[0] == "const":
                g = g[1]
            if isinstance(g, Int):
                return g.v
        v = self.eval(e, Env(None, env.mod, env.gen, env.self_ty, env.fn, env.impl) if env.parent is None else env)
        if isinstance(v, Int):
            return v.v
        return None

    def ty_assoc(self, n, env):
        s = n["segs"]
        q = self.ty(n["qself"]["ty"], env)
        return self.assoc_type(q, s[-1]["id"], env)

    def assoc_type(self, t, name, env):
        if t and t[0] == "adt":
            for im in self.P.impls.get(t[1]["path"], []):
                if name in im.types:
                    g = self.bind_impl_gen(im, t)
                    return self.ty(im.types[name]["ty"], Env(None, im.mod, g, t, impl=im))
        return ("any",)

    def bind_impl_gen(self, im, t):
        g = {}
        if im.args and t[0] == "adt":
            for a, b in zip([a for a in im.args if a["k"] != "TLife"], t[2]):
                if a["k"] == "TPath" and len(a["segs"]) == 1 and a["segs"][0]["id"] in im.gen:
                    if b != ("any",):
                        g[a["segs"][0]["id"]] = b[1] if b[0] == "const" else b
        return g

    def strip(self, t):
        while t and t[0] == "ref":
            t = t[2]
        if t and t[0] == "ext" and t[1] in ("Box", "Rc", "Arc", "Cow", "ManuallyDrop", "MutexGuard") and t[2]:
            return self.strip(t[2][-1])
        return t

    def adt_env(self, t):
        d = t[1]
        g = {}
        for p, a in zip([p for p in d["gen"]["params"] if p["g"] != "life"], t[2]):
            g[p["n"]] = a[1] if a[0] == "const" else a
        return Env(None, d["mod"], g, t)

    def coerce(self, v, t):
        if t is None or t[0] == "any":
            return v
        t = self.strip(t)
        if isinstance(v, RefV) or t is None:
            return v
        k = t[0]
        if k == "p":
            n = t[1]
            if n in PRIMS:
                if isinstance(v, Int):
                    if v.ty == n:
                        return v
                    return Int(v.v, n) if v.ty is None else mkint(v.v, n)
                if isinstance(v, BV):
                    return v if v.ty == n else bv(term_of(v, n), n)
                if isinstance(v, T):
                    return bv(term_of(v, n), n)
                if v is DEFAULT:
                    return Int(0, n)
                if isinstance(v, GateV):
                    return merge(v.c, self.coerce(v.a, t), self.coerce(v.b, t))
            elif n == "bool":
                if isinstance(v, T):
                    return bdd.var(("b", v))
                if v is DEFAULT:
                    return False
            return v
        if k == "tup" and isinstance(v, tuple) and len(v) == len(t[1]):
            return tuple(self.coerce(x, y) for x, y in zip(v, t[1]))
        if k in ("arr", "slice") and isinstance(v, VecV):
            if k == "arr" and t[2] and (ln := t[2]()) is not None and ln != len(v.xs):
                raise AnalysisError(f"{len(v.xs)} elements where an array of {ln} is wanted")
            if t[1][0] in ("any",):
                return v
            return VecV(self.coerce(x, t[1]) for x in v.xs)
        if v is DEFAULT:
            return self.default_of(t)
        if isinstance(v, DefWith):
            d = self.default_of(t)
            if not isinstance(d, StructV):
                return v
            for n, x in v.f.items():
                d = self.with_field(d, n, x)
            return d
        if k == "ext" and t[1] in ("Option", "Result", "Vec") and t[2]:
            if isinstance(v, EnumV) and v.var in ("Some", "Ok") and v.p:
                return EnumV(v.path, v.var, (self.coerce(v.p[0], t[2][0]),))
            if isinstance(v, VecV) and t[1] == "Vec":
                return VecV(self.coerce(x, t[2][0]) for x in v.xs)
            if isinstance(v, GateV):
                return GateV(v.c, self.coerce(v.a, t), self.coerce(v.b, t))
        return v

    def default_of(self, t):
        t = self.strip(t) if t else t
        if not t or t[0] == "any":
            return DEFAULT
        k = t[0]
        if k == "p":
            if t[1] in PRIMS:
                return Int(0, t[1])
            if t[1] == "bool":
                return False
            return ""
        if k == "tup":
            return tuple(self.default_of(x) for x in t[1])
        if k == "arr":
            n = t[2]()
            if n is None:
                return DEFAULT
            return VecV([self.default_of(t[1])] * n)
        if k == "adt":
            d = t[1]
            ims = [im for im in self.P.impls.get(d["path"], []) if im.trait and im.trait[-1]["id"] == "Default" and "default" in im.fns]
            ims = [im for im in ims if im.node.get("from_macro") != "columns_view_impl"]
            if ims:
                return self.call_fn(ims[0].fns["default"], [], Env(None, ims[0].mod, self.bind_impl_gen(ims[0], t), t, impl=ims[0]), gen=self.bind_impl_gen(ims[0], t), self_ty=t)
            if d["k"] == "ItemStruct":
                env = self.adt_env(t)
                fs = d["fields"]
                if fs["s"] == "named":
                    return StructV(d["path"], {f["n"]: self.default_of(self.ty(f["ty"], env)) for f in fs["f"]}, t[2])
                return StructV(d["path"], {str(i): self.default_of(self.ty(f["ty"], env)) for i, f in enumerate(fs["f"])}, t[2])
            if d["k"] == "ItemEnum":
                for v in d["variants"]:
                    if "default" in v["attrs"]:
                        return EnumV(d["path"], v["n"])
            return DEFAULT
        if k == "ext":
            n = t[1]
            if n == "Option":
                return NONE
            if n in ("Vec", "VecDeque"):
                return VecV(())
            if n in ("HashMap", "BTreeMap", "IndexMap"):
                return MapV({}, map_kind(n))
            if n in ("HashSet", "BTreeSet"):
                return MapV({}, map_kind(n))
            if n in ("String",):
                return ""
            if n in ("PhantomData",):
                return StructV(("PhantomData",), {})
            if n in ("RefCell", "Cell", "Mutex", "RwLock"):
                return self.default_of(t[2][0]) if t[2] else DEFAULT
        return DEFAULT

    def symbolic(self, t, name):
        """A fresh abstract value of type t; leaves are named variables."""
        t = self.strip(t) if t else ("any",)
        k = t[0]
        if k == "p":
            if t[1] in PRIMS:
                return BV(terms.var(name, PRIMS[t[1]]), t[1])
            if t[1] == "bool":
                return bdd.var(("v", name))
            return mkT("var", (name,))
        if k == "tup":
            return tuple(self.symbolic(x, f"{name}.{i}") for i, x in enumerate(t[1]))
        if k == "arr":
            n = t[2]()
            if n is None or n > 4096:
                return mkT("var", (name,))
            return VecV(self.symbolic(t[1], f"{name}[{i}]") for i in range(n))
        if k == "adt" and t[1]["k"] == "ItemStruct":
            env = self.adt_env(t)
            fs = t[1]["fields"]
            nm = [f.get("n", str(i)) for i, f in enumerate(fs["f"])]
            return StructV(t[1]["path"], {n: self.symbolic(self.ty(f["ty"], env), f"{name}.{n}") for n, f in zip(nm, fs["f"])}, t[2])
        if k == "adt" and t[1]["k"] == "ItemEnum":
            return mkT("var", (name,))
        return mkT("var", (name,))

    # struct layouts (repr(C) column views) --------------------------------
    def layout(self, d, env=None):
        """[(path...)] leaf paths of a column view definition."""
        c = getattr(self, "_layouts", None)
        if c is None:
            c = self._layouts = {}
        if d["path"] not in c:
            c[d["path"]] = self._walk_view(d, lambda pre: pre, None)
        return c[d["path"]]

    def _walk_view(self, d, leaf, build):
        """visit the leaves of a column view in declaration order"""
        out = []

        def ty(n, pre, m, g):
            if n["k"] == "TArray":
                ln = self.const_usize(n["len"], Env(None, m))
                if ln is None:
                    raise AnalysisError(f"array length in {d['n']}")
                r = [ty(n["ty"], pre + (i,), m, g) for i in range(ln)]
                return VecV(r) if build else None
            if n["k"] == "TPath":
                s = n["segs"]
                if s[-1]["id"] == "PhantomData":
                    return StructV(("PhantomData",), {}) if build else None
                if len(s) == 1 and s[0]["id"] in g:
                    x = g[s[0]["id"]]
                    if x is not None:
                        return ty(x[0], pre, x[1], x[2])
                else:
                    q = self.P.lookup(m, [x["id"] for x in s])
                    if isinstance(q, dict) and q["k"] in ("ItemStruct", "ItemType") and s[-1]["a"]:
                        args = [a for a in s[-1]["a"] if a["k"] not in ("TLife",)]
                        ps = [p["n"] for p in q["gen"]["params"] if p["g"] == "type"]
                        g2 = {p: (a, m, g) for p, a in zip(ps, args)}
                        return adt(q, pre, g2) if q["k"] == "ItemStruct" else ty(q["ty"], pre, q["mod"], g2)
            x = leaf(pre)
            out.append(x)
            return x

        def adt(q, pre, g):
            f = {}
            for i, fd in enumerate(q["fields"]["f"]):
                n = fd.get("n", str(i))
                f[n] = ty(fd["ty"], pre + (n,), q["mod"], g)
            return StructV(q["path"], f) if build else None
        r = adt(d, (), {p["n"]: None for p in d["gen"]["params"] if p["g"] == "type"})
        return r if build else out

    def flatten(self, d, v):
        if v is DEFAULT:
            return VecV([DEFAULT] * len(self.layout(d)))
        out = []
        for p in self.layout(d):
            x = v
            for s in p:
                if x is DEFAULT:
                    break
                x = x.xs[s] if isinstance(s, int) and isinstance(x, VecV) else self.get_field(x, s) if not isinstance(s, int) else self.get_index(x, Int(s, "usize"))
            out.append(x)
        return VecV(out)

    def unflatten(self, d, xs, targs=None):
        lay = self.layout(d)
        if len(lay) != len(xs):
            raise AnalysisError(f"layout of {d['n']} has {len(lay)} columns, got {len(xs)} values")

        it = iter(xs)
        r = self._walk_view(d, lambda pre: next(it), True)
        return StructV(r.path, r.f, targs)

    # ---------------------------------------------------------- field access
    def get_field(self, v, n):
        if isinstance(v, StructV):
            if n in v.f:
                return v.f[n]
            ims = self.find_impl_method(v, "deref")
            if ims:
                return self.get_field(self.call_user(ims, [v], None, None, None), n)
            raise AnalysisError(f"no field {n} in {v.path[-1]}")
        if isinstance(v, tuple) and n.isdigit():
            return v[int(n)]
        if isinstance(v, RefV):
            return self.get_field(v.place.get(), n)
        if isinstance(v, GateV):
            return merge(v.c, self.get_field(v.a, n), self.get_field(v.b, n))
        if isinstance(v, T):
            if v.op == "ite":
                return merge(v.args[0], self.get_field(v.args[1], n), self.get_field(v.args[2], n)) if all(isinstance(x, T) for x in v.args[1:]) else mkT("field", (v, n))
            if v.op == "with":
                return v.args[2] if v.args[1] == n and isinstance(v.args[2], T) else (mkT("field", (v, n)) if v.args[1] == n else self.get_field(v.args[0], n))
            return mkT("field", (v, n))
        if isinstance(v, DomainV):
            r = v.field(self, n)
            if r is not NotImplemented:
                return r
        if v is DEFAULT:
            return DEFAULT
        if isinstance(v, DefWith):
            return v.f.get(n, DEFAULT)
        if isinstance(v, RangeV):
            return v.lo if n == "start" else v.hi
        raise AnalysisError(f"field .{n} of {type(v).__name__}")

    def with_field(self, v, n, x):
        if isinstance(v, StructV):
            if n not in v.f:
                raise AnalysisError(f"no field {n} in {v.path[-1]}")
            return StructV(v.path, {**v.f, n: x}, v.targs)
        if isinstance(v, tuple):
            i = int(n)
            return v[:i] + (x,) + v[i + 1:]
        if isinstance(v, GateV):
            return GateV(v.c, self.with_field(v.a, n, x), self.with_field(v.b, n, x))
        if isinstance(v, T):
            return mkT("with", (v, n, freeze(x)))
        if isinstance(v, RefV):
            v.place.set(self.with_field(v.place.get(), n, x))
            return v
        if v is DEFAULT:
            return DefWith({n: x})
        if isinstance(v, DefWith):
            return DefWith({**v.f, n: x})
        raise AnalysisError(f"assign field .{n} of {type(v).__name__}")

    def index_user(self, v, i, name):
        f = self.find_impl_method(v, name)
        return f

    def get_index(self, v, i):
        if isinstance(v, RefV):
            return self.get_index(v.place.get(), i)
        if isinstance(v, GateV):
            return merge(v.c, self.get_index(v.a, i), self.get_index(v.b, i))
        if isinstance(i, GateV):
            return merge(i.c, self.get_index(v, i.a), self.get_index(v, i.b))
        if isinstance(v, IterV):
            v = VecV(v.xs)
        if isinstance(v, str):
            return mkT("index", (freeze(v), freeze(i)))
        if isinstance(i, RangeV):
            if isinstance(v, VecV):
                lo = 0 if i.lo is None else i.lo.v if isinstance(i.lo, Int) else None
                hi = len(v.xs) if i.hi is None else i.hi.v if isinstance(i.hi, Int) else None
                if lo is not None and hi is not None:
                    hi += 1 if i.incl else 0
                    if lo > hi or hi > len(v.xs):
                        self.panic("slice", f"slice {lo}..{hi} of {len(v.xs)}", None, None)
                    return VecV(v.xs[lo:hi])
            if isinstance(v, T) and i.lo is None and i.hi is None:
                return v
            return mkT("slice", (freeze(v), freeze(i)))
        if isinstance(v, VecV):
            if isinstance(i, Int):
                if 0 <= i.v < len(v.xs):
                    return v.xs[i.v]
                self.panic("index", f"index {i.v} of {len(v.xs)}", None, None)
            if isinstance(i, BV):
                out = None
                for k in range(len(v.xs) - 1, -1, -1):
                    c = terms.eq(i.t, terms.const(k, i.t.w))
                    if c is False:
                        continue
                    out = v.xs[k] if out is None else merge(c, v.xs[k], out)
                if out is None:
                    self.panic("index", "index out of range", None, None)
                return out
        if isinstance(v, MapV):
            k = freeze(i)
            if k in v.d:
                return v.d[k][1]
        if isinstance(v, StructV):
            f = self.find_impl_method(v, "index", [i])
            if f:
                r = self.call_user(f, [v, i], None, None, None)
                return r.place.get() if isinstance(r, RefV) else r
            f = self.find_impl_method(v, "deref")
            if f:
                return self.get_index(self.call_user(f, [v], None, None, None), i)
        if isinstance(v, DomainV):
            r = v.method(self, "index", [i], None, None)
            if r is not NotImplemented:
                return r
        if v is DEFAULT:
            return DEFAULT
        return mkT("index", (opaque(v), freeze(i)))

    def with_index(self, v, i, x):
        if isinstance(v, RefV):
            v.place.set(self.with_index(v.place.get(), i, x))
            return v
        if isinstance(v, VecV) and isinstance(i, Int):
            if not 0 <= i.v < len(v.xs):
                self.panic("index", f"index {i.v} of {len(v.xs)}", None, None)
            return VecV(v.xs[:i.v] + (x,) + v.xs[i.v + 1:])
        if isinstance(v, VecV) and isinstance(i, BV):
            return VecV(merge(terms.eq(i.t, terms.const(k, i.t.w)), x, y) for k, y in enumerate(v.xs))
        if isinstance(v, VecV) and isinstance(i, RangeV) and isinstance(x, VecV):
            lo = 0 if i.lo is None else i.lo.v
            hi = len(v.xs) if i.hi is None else i.hi.v + (1 if i.incl else 0)
            return VecV(v.xs[:lo] + x.xs + v.xs[hi:])
        if isinstance(v, GateV):
            return GateV(v.c, self.with_index(v.a, i, x), self.with_index(v.b, i, x))
        if isinstance(v, MapV):
            return MapV({**v.d, freeze(i): (i, x)}, v.kind)
        if isinstance(v, StructV):
            f = self.find_impl_method(v, "index_mut", [i])
            if f:
                p = self.temp(v)
                r = self.call_user(f, [RefV(p), i], None, None, None)
                if isinstance(r, RefV):
                    r.place.set(x)
                    return p.get()
        if isinstance(v, DomainV):
            r = v.method(self, "set_index", [i, x], None, None)
            if r is not NotImplemented:
                return r
        return mkT("store", (opaque(v), freeze(i), freeze(x)))

    # -------------------------------------------------------------- variants
    def variants_of(self, path):
        if len(path) == 1 and path[0] in BUILTIN_ENUMS:
            return BUILTIN_ENUMS[path[0]]
        if path[-1] in BUILTIN_ENUMS and len(path) == 1:
            return BUILTIN_ENUMS[path[-1]]
        d = self.P.lookup_abs(path)
        if isinstance(d, dict) and d["k"] == "ItemEnum":
            return [v["n"] for v in d["variants"]]
        return None

    def is_variant(self, v, path, var):
        if isinstance(v, RefV):
            return self.is_variant(v.place.get(), path, var)
        if isinstance(v, EnumV):
            return v.var == var
        if isinstance(v, GateV):
            return bdd.ite(v.c, self.is_variant(v.a, path, var), self.is_variant(v.b, path, var))
        if isinstance(v, T):
            if v.op == "ite" and v.w is None:
                a, b = v.args[1], v.args[2]
                return bdd.ite(v.args[0], self.is_variant_frozen(a, path, var), self.is_variant_frozen(b, path, var))
            vs = self.variants_of(path)
            if vs is None:
                return bdd.var(("is", v, var))
            i = vs.index(var)
            nb = max(1, (len(vs) - 1).bit_length())

            def code(i):
                return and_(*[bdd.var(("disc", v, k)) if (i >> k) & 1 else not_(bdd.var(("disc", v, k))) for k in range(nb)])
            if i == len(vs) - 1:
                return not_(or_(*[code(k) for k in range(i)]))
            return code(i)
        if v is DEFAULT:
            return var == "None"
        if isinstance(v, DomainV):
            r = v.method(self, "is_variant", [path, var], None, None)
            if r is not NotImplemented:
                return r
        raise AnalysisError(f"variant test {var} on {v!r}"[:300])

    def is_variant_frozen(self, f, path, var):
        if isinstance(f, T):
            return self.is_variant(f, path, var)
        if isinstance(f, tuple) and f and f[0] == "E":
            return f[2] == var
        return bdd.var(("is", mkT("froz", (f,)), var))

    def payload(self, v, path, var, i):
        if isinstance(v, RefV):
            return self.payload(v.place.get(), path, var, i)
        if isinstance(v, EnumV):
            if v.var != var:
                return mkT("nopay", ())
            if isinstance(v.p, dict):
                return v.p[i]
            return v.p[i]
        if isinstance(v, GateV):
            a = self.payload(v.a, path, var, i)
            b = self.payload(v.b, path, var, i)
            if isinstance(a, T) and a.op == "nopay":
                return b
            if isinstance(b, T) and b.op == "nopay":
                return a
            return merge(v.c, a, b)
        if isinstance(v, T):
            r = mkT("pay", (v, var, i))
            d = self.P.lookup_abs(path) if len(path) > 1 else None
            if isinstance(d, dict) and d["k"] == "ItemEnum":
                for vv in d["variants"]:
                    if vv["n"] == var:
                        fs = vv["fields"]["f"]
                        for k, f in enumerate(fs):
                            if f.get("n", k) == i:
                                return self.coerce(r, self.ty(f["ty"], Env(None, d["mod"])))
            return r
        if v is DEFAULT:
            return DEFAULT
        if isinstance(v, DomainV):
            r = v.method(self, "payload", [path, var, i], None, None)
            if r is not NotImplemented:
                return r
        raise AnalysisError(f"payload {var}.{i} of {v!r}"[:300])

    # -------------------------------------------------------------- patterns
    def variant_path(self, segs, env):
        """Resolve a pattern/expression path to (enum path, variant) or None."""
        ids = [s["id"] for s in segs]
        if ids[0] == "Self" and env.self_ty and env.self_ty[0] == "adt":
            d = env.self_ty[1]
            if len(ids) == 2 and d["k"] == "ItemEnum":
                return d["path"], ids[1]
            return None
        r = self.P.lookup(env.mod, ids)
        if isinstance(r, tuple) and r[0] == "assoc" and isinstance(r[1], dict):
            d = r[1]
            if d["k"] == "ItemType":
                t = self.ty(d["ty"], Env(None, d["mod"]))
                if t[0] == "adt":
                    d = t[1]
            if d["k"] == "ItemEnum" and len(r[2]) == 1 and any(v["n"] == r[2][0] for v in d["variants"]):
                return d["path"], r[2][0]
        if r is None:
            if ids[-1] in BUILTIN_VARIANTS:
                return BUILTIN_VARIANTS[ids[-1]], ids[-1]
            if len(ids) >= 2 and ids[-2] in BUILTIN_ENUMS and ids[-1] in BUILTIN_ENUMS[ids[-2]]:
                return (ids[-2],), ids[-1]
            ext = self.P.ext_path(env.mod, ids)
            if len(ext) >= 2 and ext[-2] in BUILTIN_ENUMS and ext[-1] in BUILTIN_ENUMS[ext[-2]]:
                return (ext[-2],), ext[-1]
        return None

    def const_path(self, segs, env):
        """constant named by a pattern path, else None"""
        ids = [s["id"] for s in segs]
        if len(ids) == 1:
            li = env.find_item(ids[0])
            if li is not None and li["k"] == "ItemConst":
                return self.eval(li["e"], env)
        if ids[0] == "Self" and len(ids) == 2:
            return self.eval({"k": "Path", "segs": segs, "qself": None, "ln": 0}, env)
        r = self.P.lookup(env.mod, ids, want="value")
        if isinstance(r, dict) and r["k"] in ("ItemConst", "ItemStatic"):
            return self.const_item(r)
        if isinstance(r, tuple) and r[0] == "assoc":
            v = self.eval({"k": "Path", "segs": segs, "qself": None, "ln": 0}, env)
            return v
        return None

    def bind(self, p, v, env, out, place=None, mutdecl=None):
        """Match pattern p against v; collects bindings; returns condition."""
        k = p["k"]
        if isinstance(v, RefV) and k not in ("PIdent", "PWild", "PType"):
            place = v.place
            v = place.get()
            while isinstance(v, RefV):
                place = v.place
                v = place.get()
        if k == "PWild" or k == "PRest":
            return True
        if k == "PIdent":
            if p["sub"] is None and not p["ref"] and not p["mut"]:
                segs = [{"id": p["n"], "a": None}]
                if p["n"][0].isupper():
                    vp = self.variant_path(segs, env)
                    if vp:
                        return self.is_variant(v, *vp)
                    c = self.const_path(segs, env)
                    if c is not None:
                        return self.equal(v, c)
                    # unit struct?
            cond = True
            if p["sub"] is not None:
                cond = self.bind(p["sub"], v, env, out, place)
            if place is not None and not isinstance(v, RefV):
                out.append((p["n"], RefV(place), False))
            else:
                out.append((p["n"], v, p["mut"]))
            return cond
        if k == "PType":
            return self.bind(p["p"], self.coerce(v, self.ty(p["ty"], env)), env, out, place)
        if k == "PRef":
            return self.bind(p["p"], v, env, out, None)
        if k == "PTuple":
            return self.bind_seq(p["elems"], v, env, out, place, "tuple")
        if k == "PSlice":
            return self.bind_seq(p["elems"], v, env, out, place, "slice")
        if k == "PLit":
            return self.equal(v, self.eval(p["e"], env))
        if k == "PRange":
            c = True
            if p["lo"] is not None:
                c = and_(c, self.binop(">=", v, self.eval(p["lo"], env), p, env))
            if p["hi"] is not None:
                c = and_(c, self.binop("<=" if p["incl"] else "<", v, self.eval(p["hi"], env), p, env))
            return c
        if k == "POr":
            # bindings in or-patterns: merge by condition
            conds, outs = [], []
            for q in p["cases"]:
                o = []
                conds.append(self.bind(q, v, env, o, place))
                outs.append(o)
            if outs[0]:
                for (n, x, m) in outs[0]:
                    val = None
                    for c, o in reversed(list(zip(conds, outs))):
                        y = next(z for z in o if z[0] == n)[1]
                        val = y if val is None else self.merge_vals(c, y, val)
                    out.append((n, val, m))
            return or_(*conds)
        if k == "PPath":
            vp = self.variant_path(p["path"], env)
            if vp:
                return self.is_variant(v, *vp)
            c = self.const_path(p["path"], env)
            if c is not None:
                return self.equal(v, c)
            if p.get("qself"):
                return self.equal(v, self.eval({"k": "Path", "segs": p["path"], "qself": p["qself"], "ln": p["ln"]}, env))
            ids = [s["id"] for s in p["path"]]
            c = self.eval({"k": "Path", "segs": p["path"], "qself": None, "ln": p["ln"]}, env)
            return self.equal(v, c)
        if k == "PTupleStruct":
            vp = self.variant_path(p["path"], env)
            if vp:
                path, var = vp
                cond = self.is_variant(v, path, var)
                if cond is False:
                    self.bind_dead(p["elems"], env, out)
                    return False
                if any(e["k"] == "PRest" for e in p["elems"]):
                    return cond
                for i, e in enumerate(p["elems"]):
                    sub = PayPlace(self, place, path, var, i) if place is not None else None
                    cond = and_(cond, self.bind(e, self.payload(v, path, var, i), env, out, sub))
                return cond
            # tuple struct
            cond = True
            for i, e in enumerate(p["elems"]):
                sub = FieldPlace(self, place, str(i)) if place is not None else None
                cond = and_(cond, self.bind(e, self.get_field(v, str(i)), env, out, sub))
            return cond
        if k == "PStruct":
            vp = self.variant_path(p["path"], env)
            cond = True
            if vp:
                path, var = vp
                cond = self.is_variant(v, path, var)
                if cond is False:
                    self.bind_dead([f[1] for f in p["fields"]], env, out)
                    return False
            for n, e in p["fields"]:
                if vp:
                    sub = PayPlace(self, place, vp[0], vp[1], n) if place is not None else None
                    cond = and_(cond, self.bind(e, self.payload(v, vp[0], vp[1], n), env, out, sub))
                else:
                    sub = FieldPlace(self, place, n) if place is not None else None
                    cond = and_(cond, self.bind(e, self.get_field(v, n), env, out, sub))
            return cond
        self.err(f"pattern {k}", p, env)

    def bind_dead(self, elems, env, out):
        for e in elems:
            for n in pat_names(e):
                out.append((n, mkT("nopay", ()), False))

    def bind_seq(self, elems, v, env, out, place, what):
        if isinstance(v, GateV):
            # distribute
            o1, o2 = [], []
            c1 = self.bind_seq(elems, v.a, env, o1, place, what)
            c2 = self.bind_seq(elems, v.b, env, o2, place, what)
            for (n, x, m), (_, y, _) in zip(o1, o2):
                out.append((n, self.merge_vals(v.c, x, y), m))
            return bdd.ite(v.c, c1, c2)
        n = len(elems)
        rest = next((i for i, e in enumerate(elems) if e["k"] == "PRest" or (e["k"] == "PIdent" and e["sub"] and e["sub"]["k"] == "PRest")), None)
        if isinstance(v, (VecV, tuple, IterV)):
            xs = v if isinstance(v, tuple) else v.xs
            if rest is None:
                if len(xs) != n:
                    if what == "slice":
                        if self.slice_check is not None:
                            self.slice_check(v, n)
                        self.bind_dead(elems, env, out)
                        return False
                    raise AnalysisError("tuple pattern arity")
                idx = list(range(n))
            else:
                if len(xs) < n - 1:
                    self.bind_dead(elems, env, out)
                    return False
                idx = list(range(rest)) + [None] + list(range(len(xs) - (n - rest - 1), len(xs)))
            cond = True
            for e, i in zip(elems, idx):
                if i is None:
                    if e["k"] == "PIdent":
                        out.append((e["n"], VecV(xs[rest:len(xs) - (n - rest - 1)]), e["mut"]))
                    continue
                sub = None
                if place is not None:
                    sub = FieldPlace(self, place, str(i)) if isinstance(v, tuple) else IndexPlace(self, place, Int(i, "usize"))
                cond = and_(cond, self.bind(e, xs[i], env, out, sub))
            return cond
        if isinstance(v, T) or v is DEFAULT or isinstance(v, DomainV):
            cond = True
            if what == "slice" and isinstance(v, T):
                ln = n - (rest is not None)
                L = BV(mkT("len", (v,), 64), "usize")
                cond = self.binop("==" if rest is None else ">=", L, Int(ln, "usize"), None, env)
            for i, e in enumerate(elems):
                if i == rest:
                    if e["k"] == "PIdent":
                        out.append((e["n"], mkT("rest", (v, i)), e["mut"]))
                    continue
                if what == "slice":
                    x = self.get_index(v, Int(i, "usize")) if rest is None or i < rest else mkT("index_back", (v, n - i))
                else:
                    x = self.get_field(v, str(i))
                cond = and_(cond, self.bind(e, x, env, out, FieldPlace(self, place, str(i)) if place is not None and what == "tuple" else None))
            return cond
        if isinstance(v, StructV) and all(k.isdigit() for k in v.f):
            return self.bind_seq(elems, tuple(v.f[str(i)] for i in range(len(v.f))), env, out, place, what)
        raise AnalysisError(f"sequence pattern on {v!r}"[:200])

    def declare(self, env, binds):
        for n, v, m in binds:
            env.vars[n] = self.new(v, m or isinstance(v, RefV))

    def equal(self, a, b):
        a = self.deref(a)
        b = self.deref(b)
        if isinstance(a, GateV):
            return bdd.ite(a.c, self.equal(a.a, b), self.equal(a.b, b))
        if isinstance(b, GateV):
            return self.equal(b, a)
        if is_bool(a) and is_bool(b):
            return bdd.iff(a, b)
        if (is_bool(a) and isinstance(b, T)) or (is_bool(b) and isinstance(a, T)):
            a = bdd.var(("b", a)) if isinstance(a, T) else a
            b = bdd.var(("b", b)) if isinstance(b, T) else b
            return bdd.iff(a, b)
        if is_int(a) or is_int(b):
            if isinstance(a, Int) and isinstance(b, Int):
                return a.v == b.v
            if is_int(a) and is_int(b):
                ty = a.ty or b.ty
                if isinstance(a, BV) and isinstance(b, BV) and width(a.ty) != width(b.ty):
                    ty = a.ty if width(a.ty) > width(b.ty) else b.ty
                if isinstance(a, Int) and isinstance(b, BV):
                    ty = b.ty
                return terms.eq(term_of(a, ty), term_of(b, ty))
            i, o = (a, b) if is_int(a) else (b, a)
            if isinstance(o, T):
                if i.ty:
                    return terms.eq(term_of(i, i.ty), term_of(o, i.ty))
                return bdd.var(("eq", o, ("i", i.v)))
            if o is DEFAULT:
                return self.equal(i, Int(0, i.ty))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return and_(*[self.equal(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
        if isinstance(a, (VecV, IterV)) and isinstance(b, (VecV, IterV)):
            return and_(*[self.equal(x, y) for x, y in zip(a.xs, b.xs)]) if len(a.xs) == len(b.xs) else False
        if isinstance(a, StructV) and isinstance(b, StructV):
            f = self.find_impl_method(a, "eq")
            if f:
                return self.truth(self.call_user(f, [a, b], None, None, None))
            return and_(*[self.equal(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            if a.var != b.var:
                return False
            if isinstance(a.p, dict):
                return and_(*[self.equal(a.p[k], b.p[k]) for k in a.p])
            return and_(*[self.equal(x, y) for x, y in zip(a.p, b.p)])
        if isinstance(a, EnumV) and isinstance(b, T):
            a, b = b, a
        if isinstance(a, T) and isinstance(b, EnumV):
            c = self.is_variant(a, b.path, b.var)
            if isinstance(b.p, dict):
                for k, x in b.p.items():
                    c = and_(c, self.equal(self.payload(a, b.path, b.var, k), x))
            else:
                for i, x in enumerate(b.p):
                    c = and_(c, self.equal(self.payload(a, b.path, b.var, i), x))
            return c
        if isinstance(a, T) and isinstance(b, T):
            if a is b:
                return True
            for x, y in ((a, b), (b, a)):
                if x.op == "ite" and not x.w:
                    return bdd.ite(x.args[0], self.equal(x.args[1], y), self.equal(x.args[2], y))
            x, y = sorted((a, b), key=lambda t: t.id)
            return bdd.var(("eq", x, y))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, DomainV):
            r = a.binop(self, "==", b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, DomainV) and not isinstance(a, DomainV):
            return self.equal(b, a)
        if isinstance(a, T) or isinstance(b, T):
            t, o = (a, b) if isinstance(a, T) else (b, a)
            return bdd.var(("eq", t, freeze(o)))
        fa, fb = freeze(a), freeze(b)
        if fa == fb:
            return True
        x, y = sorted((fa, fb), key=repr)
        return bdd.var(("eq", x, y))

    def deref(self, v):
        while isinstance(v, RefV):
            v = v.place.get()
        return v

    def truth(self, v):
        v = self.deref(v)
        if is_bool(v):
            return v
        if isinstance(v, GateV):
            return bdd.ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, T):
            return bdd.var(("b", v))
        if v is DEFAULT:
            return False
        raise AnalysisError(f"boolean expected, got {v!r}"[:200])

    # ------------------------------------------------------------ expressions
    def eval(self, n, env, hint=None):
        self.fuel -= 1
        if self.fuel & 4095 == 0 and (self.fuel < 0 or time.monotonic() > DEADLINE):
            raise AnalysisError("analysis budget exhausted (the analysed code may not terminate)")
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            self.err(f"expression {n['k']}", n, env)
        return m(n, env, hint)

    def evalv(self, n, env, hint=None):
        """value with references removed"""
        return self.deref(self.eval(n, env, hint))

    def e_Lit(self, n, env, hint):
        t = n["t"]
        if t == "int":
            ty = n["s"] or None
            if ty in PRIMS:
                return Int(int(n["v"]), ty)
            if hint:
                h = self.strip(hint)
                if h and h[0] == "p" and h[1] in PRIMS:
                    return Int(int(n["v"]), h[1])
            return Int(int(n["v"]), None)
        if t == "bool":
            return n["v"]
        if t in ("str", "char"):
            return n["v"]
        if t == "bytestr":
            return VecV(Int(b, "u8") for b in n["v"])
        if t == "float":
            return mkT("float", (n["v"],))
        self.err("literal", n, env)

    def e_Path(self, n, env, hint):
        segs = n["segs"]
        if len(segs) == 1 and not n.get("qself"):
            loc = env.find(segs[0]["id"])
            if loc is not None:
                return self.store[loc]
        return self.path_value(n, env, hint)

    def path_value(self, n, env, hint=None):
        segs = n["segs"]
        ids = [s["id"] for s in segs]
        q = n.get("qself")
        if q is not None:
            t = self.ty(q["ty"], env)
            if q["pos"] == 0:
                return self.assoc_value(t, segs[-1], env, ids)
            trait = ids[:q["pos"]]
            return self.assoc_value(t, segs[-1], env, ids, trait)
        if ids == ["self"]:
            self.err("self outside method", n, env)
        if len(ids) == 1:
            li = env.find_item(ids[0])
            if li is not None:
                if li["k"] == "Fn":
                    return FnV("item", li, env, tuple(ids))
                if li["k"] == "ItemStatic" and li.get("mut"):
                    return self.const_item(li)
                if li["k"] in ("ItemConst", "ItemStatic"):
                    return self.coerce(self.eval(li["e"], env, self.ty(li["ty"], env)), self.ty(li["ty"], env))
                if li["k"] == "ItemStruct":
                    return FnV("ctor", li, env, (ids[0],))
            if env.gen and ids[0] in env.gen:
                g = env.gen[ids[0]]
                if isinstance(g, tuple) and g and g[0] == "const":
                    return g[1]
                if isinstance(g, tuple) and g and g[0] == "arr":
                    pass
                return g if isinstance(g, Int) else TypeV(g)
            if ids[0] == "Self" and env.self_ty and env.self_ty[0] == "adt":
                d = env.self_ty[1]
                if d["k"] == "ItemStruct" and not d["fields"]["f"] and d.get("path"):
                    return StructV(d["path"], {})
                return FnV("ctor", d, env, ("Self",))
        if ids[0] == "Self" and len(ids) >= 2:
            t = env.self_ty
            if len(ids) == 3 and env.impl is not None and ids[1] in env.impl.types:
                t = self.ty(env.impl.types[ids[1]]["ty"], env)
            elif len(ids) == 3:
                t = self.assoc_type(env.self_ty, ids[1], env)
            return self.assoc_value(t or ("any",), segs[-1], env, ids)
        if len(ids) >= 2 and env.gen and ids[0] in env.gen and not isinstance(env.gen[ids[0]], Int):
            t = env.gen[ids[0]]
            if len(ids) == 3:
                t = self.assoc_type(t, ids[1], env)
            return self.assoc_value(t, segs[-1], env, ids)
        vp = self.variant_path(segs, env)
        if vp:
            path, var = vp
            return self.variant_ctor(path, var)
        if len(ids) >= 2:
            li = env.find_item(ids[0])
            if li is not None and li["k"] in ("ItemStruct", "ItemEnum"):
                return self.assoc_value(("adt", li, []), segs[-1], env, ids)
        r = self.P.lookup(env.mod, ids, want="value")
        if isinstance(r, dict):
            k = r["k"]
            if k == "Fn":
                return FnV("item", r, Env(None, r["mod"]), tuple(ids))
            if k in ("ItemConst", "ItemStatic"):
                return self.const_item(r)
            if k == "ItemStruct":
                return FnV("ctor", r, env, tuple(ids))
            if k == "ItemType":
                t = self.ty(r["ty"], Env(None, r["mod"]))
                if t[0] == "adt":
                    return FnV("ctor", t[1], env, tuple(ids))
            if k == "ItemTrait":
                return TypeV(("any",))
        if isinstance(r, tuple) and r[0] == "assoc":
            d, rest = r[1], r[2]
            # type arguments given on the type segment
            tseg = segs[len(ids) - len(rest) - 1]
            args = [self.ty(a, env) if a["k"] != "TConst" else ("const", self.const_arg(a, env)) for a in (tseg["a"] or []) if a["k"] != "TLife"]
            if d["k"] in ("ItemStruct", "ItemEnum"):
                t = ("adt", d, args)
            elif d["k"] == "ItemType":
                g = {p["n"]: a[1] if a[0] == "const" else a for p, a in zip([p for p in d["gen"]["params"] if p["g"] != "life"], args)}
                t = self.ty(d["ty"], Env(None, d["mod"], g))
            elif d["k"] == "ItemTrait":
                return self.trait_fn(d, rest[-1], env, segs)
            else:
                t = ("any",)
            return self.assoc_value(t, segs[-1], env, ids)
        if isinstance(r, Mod):
            return TypeV(("mod", r))
        # external
        if len(ids) >= 2:
            p = ids[-2]
            if p in PRIMS or p in ("bool", "str", "char"):
                return self.assoc_value(("p", p), segs[-1], env, ids)
        return self.ext_value(self.P.ext_path(env.mod, ids), segs, env, hint)

    def ext_value(self, full, segs, env, hint=None):
        v = self.B.ext_const(self, full, segs, env, hint)
        if v is not None:
            return v
        return FnV("ext", tuple(full), env, tuple(full)) if segs is None else self._extfn(full, segs, env)

    def _extfn(self, full, segs, env):
        f = FnV("ext", tuple(full), env, tuple(full))
        f = FnV("ext", (tuple(full), segs, env), env, tuple(full))
        return f

    def trait_fn(self, d, name, env, segs):
        return FnV("traitm", (d, name), env, (d["n"], name))

    def variant_ctor(self, path, var):
        if len(path) == 1:
            if var in ("None",) or path[0] == "Ordering":
                return EnumV(path, var)
            return FnV("variant", (path, var), None, (path[-1], var))
        d = self.P.lookup_abs(path)
        for v in d["variants"]:
            if v["n"] == var:
                if v["fields"]["s"] == "unit":
                    return EnumV(path, var)
                return FnV("variant", (path, var), None, (path[-1], var))

    def const_item(self, d):
        k = id(d)
        if k in self.statics:
            v = self.statics[k]
            if isinstance(v, tuple) and v and v[0] == "loc":
                return self.store.get(v[1]) if v[1] in self.store else mkT("var", ("static " + d["n"],))
            return v
        self.statics[k] = mkT("var", ("static " + d["n"],))
        if d["k"] == "ItemStatic" and d.get("mut"):
            loc = 10_000_000 + len(self.statics)
            t = self.ty(d["ty"], Env(None, d["mod"]))
            if k in self.static_values:
                v = self.static_values[k]
            else:
                v = self.symbolic(t, "static." + d["n"])
            self.store[loc] = v
            self.mutlocs.add(loc)
            self.statics[k] = ("loc", loc)
            d["_loc"] = loc
            return v
        env = Env(None, d["mod"], None, None)
        if d.get("impl"):
            im = d["impl"]
            env = Env(None, d["mod"], {}, ("adt", self.P.lookup_abs(im.head), []) if isinstance(im.head, tuple) else None, impl=im)
        t = self.ty(d["ty"], env)
        s, pc = self.store, self.pc
        self.pc = True
        if d["e"] is None:
            return mkT("var", ("const " + d["n"],))
        v = self.coerce(self.eval(d["e"], env, t), t)
        self.pc = pc
        self.statics[k] = v
        return v

    def impls_for_type(self, t):
        k = t[0]
        if k == "adt":
            return self.P.impls.get(t[1]["path"], [])
        if k == "p":
            return self.P.impls.get(t[1], [])
        if k in ("arr", "slice"):
            return self.P.impls.get("[]", [])
        if k == "ext":
            return self.P.impls.get(t[1], [])
        if k == "tup":
            return self.P.impls.get("()", [])
        return []

    def assoc_value(self, t, seg, env, ids, trait=None):
        name = seg["id"]
        t = self.strip(t) if t else ("any",)
        cands = []
        for im in self.impls_for_type(t):
            if trait and im.trait and im.trait[-1]["id"] != trait[-1]:
                continue
            if name in im.fns:
                cands.append(im)
            elif name in im.consts:
                c = im.consts[name]
                e = Env(None, im.mod, self.bind_impl_gen(im, t), t, impl=im)
                if e.gen:
                    return self.coerce(self.eval(c["e"], e, self.ty(c["ty"], e)), self.ty(c["ty"], e))
                return self.const_item_in(c, e)
        if cands:
            return FnV("assoc", (t, name, cands), env, (self.tyname(t), name))
        if t[0] == "adt" and t[1]["k"] == "ItemEnum":
            for v in t[1]["variants"]:
                if v["n"] == name:
                    return self.variant_ctor(t[1]["path"], name)
        # trait defaults
        if t[0] == "adt":
            for im in self.impls_for_type(t):
                if im.trait:
                    d = self.P.lookup(im.mod, [s["id"] for s in im.trait])
                    if isinstance(d, dict) and d["k"] == "ItemTrait":
                        for f in d["items"]:
                            if f.get("n") == name:
                                if f["k"] == "Fn" and f["b"] is not None:
                                    return FnV("traitdef", (t, f), env, (self.tyname(t), name))
                                if f["k"] == "ItemConst" and f["e"] is not None:
                                    return self.const_item_in(f, Env(None, d["mod"], {}, t))
        # blanket impls
        for im in self.P.impls.get("*", []):
            if name in im.fns and (t[0] != "any") and not self.B.has_static(t, name):
                return FnV("assoc", (t, name, [im]), env, (self.tyname(t), name))
        v = self.B.assoc_const(self, t, name, env, ids)
        if v is not None:
            return v
        return FnV("tassoc", (t, name, ids), env, (self.tyname(t) if t[0] != "any" else ids[-2] if len(ids) > 1 else "?", name))

    def const_item_in(self, c, env):
        t = self.ty(c["ty"], env)
        if c["e"] is None:
            return mkT("var", ("const " + c["n"],))
        return self.coerce(self.eval(c["e"], env, t), t)

    def tyname(self, t):
        if t[0] == "adt":
            return t[1]["n"]
        if t[0] in ("p", "ext"):
            return t[1]
        return t[0]

    def e_Binary(self, n, env, hint):
        op = n["op"]
        if op in ("&&", "||"):
            a = self.truth(self.eval(n["l"], env))
            if op == "&&":
                return self.truth(self.branch(a, lambda: self.truth(self.eval_cond_rhs(n["r"], env)), lambda: False))
            return self.truth(self.branch(a, lambda: True, lambda: self.truth(self.eval(n["r"], env))))
        if op.endswith("=") and op not in ("==", "<=", ">=", "!="):
            p = self.place(n["l"], env)
            cur = p.get()
            while isinstance(cur, RefV):
                p = cur.place
                cur = p.get()
            r = self.evalv(n["r"], env, self.type_of(cur))
            f = self.find_impl_method(cur, OPNAMES_ASSIGN.get(op, "?"), [r]) if isinstance(cur, (StructV, EnumV)) else None
            if f:
                self.call_user(f, [RefV(p), r], None, n, env)
                return UNIT
            v = self.binop(op[:-1], cur, r, n, env)
            p.set(v)
            return UNIT
        h = hint if op not in ("==", "!=", "<", ">", "<=", ">=") else None
        a = self.evalv(n["l"], env, h)
        b = self.evalv(n["r"], env, self.type_of(a) or (h if op not in ("<<", ">>") else None))
        return self.binop(op, a, b, n, env)

    def eval_cond_rhs(self, n, env):
        return self.eval(n, env)

    def type_of(self, v):
        if isinstance(v, (Int, BV)) and v.ty:
            return ("p", v.ty)
        if isinstance(v, (StructV, EnumV)) and len(v.path) > 1:
            d = self.P.lookup_abs(v.path)
            if isinstance(d, dict) and d.get("k") in ("ItemStruct", "ItemEnum"):
                return ("adt", d, getattr(v, "targs", None) or [])
        return None

    def binop(self, op, a, b, n=None, env=None):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, GateV) and not isinstance(b, DomainV):
            return merge(a.c, self.binop(op, a.a, b, n, env), self.binop(op, a.b, b, n, env))
        if isinstance(b, GateV) and not isinstance(a, DomainV):
            return merge(b.c, self.binop(op, a, b.a, n, env), self.binop(op, a, b.b, n, env))
        if isinstance(a, DomainV):
            r = a.binop(self, op, b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, DomainV):
            r = b.binop(self, op, a, True)
            if r is not NotImplemented:
                return r
        if op == "==":
            return self.equal(a, b)
        if op == "!=":
            return not_(self.equal(a, b))
        if isinstance(a, (StructV, EnumV)) or isinstance(b, (StructV, EnumV)):
            r = self.user_binop(op, a, b, n, env)
            if r is not NotImplemented:
                return r
        if a is DEFAULT and op in "+-*" and b is DEFAULT:
            return DEFAULT
        if a is DEFAULT and op == "+":
            return b
        if b is DEFAULT and op in ("+", "-"):
            return a
        if (a is DEFAULT or b is DEFAULT) and op == "*":
            return DEFAULT
        if is_bool(a) and is_bool(b):
            if op == "&":
                return and_(a, b)
            if op == "|":
                return or_(a, b)
            if op == "^":
                return bdd.xor(a, b)
            if op == "<":
                return and_(not_(a), b)
            if op == ">":
                return and_(a, not_(b))
        if isinstance(a, T) and is_bool(b) and op in "&|^":
            return self.binop(op, bdd.var(("b", a)), b, n, env)
        if is_bool(a) and isinstance(b, T) and op in "&|^":
            return self.binop(op, a, bdd.var(("b", b)), n, env)
        if isinstance(a, (Int, BV)) and isinstance(b, (Int, BV)):
            return self.B.int_binop(self, op, a, b, n, env)
        if (isinstance(a, BV) or (isinstance(a, Int) and a.ty)) and isinstance(b, T):
            if op in ("<<", ">>"):
                return self.B.int_binop(self, op, a, bv(term_of(b, "u32"), "u32"), n, env)
            return self.B.int_binop(self, op, a, bv(term_of(b, a.ty), a.ty), n, env)
        if (isinstance(b, BV) or (isinstance(b, Int) and b.ty)) and isinstance(a, T) and op not in ("<<", ">>"):
            return self.B.int_binop(self, op, bv(term_of(a, b.ty), b.ty), b, n, env)
        if isinstance(a, MapV) and isinstance(b, MapV) and op in "|-&":
            if op == "|":
                return MapV({**a.d, **b.d}, a.kind)
            if op == "-":
                return MapV({k: x for k, x in a.d.items() if k not in b.d}, a.kind)
            return MapV({k: x for k, x in a.d.items() if k in b.d}, a.kind)
        if isinstance(a, str) or isinstance(b, str):
            return mkT("strop", (op, freeze(a), freeze(b)))
        fa, fb = opaque(a), opaque(b)
        if op in ("<", ">", "<=", ">="):
            if op == ">":
                return bdd.var(("lt", fb, fa))
            if op == "<":
                return bdd.var(("lt", fa, fb))
            if op == "<=":
                return not_(bdd.var(("lt", fb, fa)))
            return not_(bdd.var(("lt", fa, fb)))
        if op in ("+", "*", "&", "|", "^"):
            fa, fb = sorted((fa, fb), key=lambda x: (0, x.id) if isinstance(x, T) else (1, repr(x)))
        return mkT("op" + op, (fa, fb))

    def user_binop(self, op, a, b, n, env):
        if op in ("<", ">", "<=", ">="):
            for cmpname in ("cmp", "partial_cmp"):
                f = self.find_impl_method(a, cmpname, [b]) if isinstance(a, (StructV, EnumV)) else None
                if f:
                    r = self.call_user(f, [a, b], None, n, env)
                    if cmpname == "partial_cmp":
                        r = self.payload(r, OPTION, "Some", 0)
                    less = self.is_variant(r, ("Ordering",), "Less")
                    gr = self.is_variant(r, ("Ordering",), "Greater")
                    return {"<": less, ">": gr, "<=": not_(gr), ">=": not_(less)}[op]
            # derived lexicographic order on structs with known fields
            if isinstance(a, StructV) and isinstance(b, StructV):
                return bdd.var(("lt" if op in "<>=" else "lt", freeze(a), freeze(b))) if op == "<" else (
                    bdd.var(("lt", freeze(b), freeze(a))) if op == ">" else
                    not_(bdd.var(("lt", freeze(b), freeze(a)))) if op == "<=" else not_(bdd.var(("lt", freeze(a), freeze(b)))))
            return NotImplemented
        m = OPNAMES.get(op)
        tr = OPTRAITS.get(op)
        best = None
        heads = []
        if isinstance(a, (StructV, EnumV)):
            heads.append(a.path)
        elif is_int(a):
            heads += [a.ty] if a.ty else ["i64", "u64", "u32", "i32", "usize"]
        elif isinstance(a, VecV):
            heads.append("[]")
        elif isinstance(a, T):
            heads.append("*")
        elif isinstance(a, DomainV) and isinstance(b, (StructV, EnumV)):
            heads.append("i64")
        cands = []
        for h in heads:
            for im in self.P.impls.get(h, []):
                if m in im.fns and im.trait and im.trait[-1]["id"] == tr:
                    s = self.impl_score(im, m, a, [b])
                    if s:
                        cands.append((s, im))
        if not cands:
            return NotImplemented
        cands.sort(key=lambda c: -c[0])
        im = cands[0][1]
        return self.call_user((im, im.fns[m]), [a, b], None, n, env)

    def impl_score(self, im, name, selfv, args):
        """Does impl `im` apply to receiver selfv and args? 0 = no."""
        f = im.fns[name]
        env = Env(None, im.mod, {}, None, impl=im)
        g = set(im.gen) | {p["n"] for p in f["gen"]["params"]}
        s = 1
        if selfv is not None and im.node["ty"]["k"] != "TRef":
            m = self.ty_score(im.self_node, im, g, selfv)
            if m == 0:
                return 0
            s += m
        elif selfv is not None:
            m = self.ty_score(im.self_node, im, g, selfv)
            if m == 0:
                return 0
            s += m
        ps = [p for p in f["params"] if not p["self"]]
        if len(ps) != len(args):
            return 0
        for p, a in zip(ps, args):
            m = self.ty_score(p["ty"], im, g, a)
            if m == 0:
                return 0
            s += m
        return s

    def ty_score(self, n, im, gen, v, selfty=None):
        """0 mismatch, 1 weak, 3 exact"""
        v = self.deref(v)
        while n["k"] in ("TRef", "TPtr"):
            n = n["ty"]
        k = n["k"]
        if isinstance(v, GateV):
            return min(self.ty_score(n, im, gen, v.a), self.ty_score(n, im, gen, v.b))
        if isinstance(v, (T, ClosureV, FnV)) or v is DEFAULT:
            if isinstance(v, T) and k == "TPath" and n["segs"][-1]["id"] in PRIMS and len(n["segs"]) == 1:
                return 1
            return 1
        if k in ("TImpl", "TDyn", "TInfer", "TOther", "TFn", "TMacro"):
            return 1
        if k in ("TArray", "TSlice"):
            if isinstance(v, (VecV, IterV)):
                if v.xs and self.ty_score(n["ty"] if "ty" in n else n["e"], im, gen, v.xs[0]) == 0:
                    return 0
                if k == "TArray":
                    try:
                        t = self.ty(n, Env(None, im.mod, {}, None, impl=im))
                        ln = t[2]() if t[0] == "arr" else None
                    except (AnalysisError, KeyError, TypeError):
                        ln = None
                    if ln is not None:
                        return 4 if ln == len(v.xs) else 0
                return 2
            return 0
        if k == "TTuple":
            if isinstance(v, tuple) and len(v) == len(n["elems"]):
                sc = [self.ty_score(x, im, gen, y) for x, y in zip(n["elems"], v)]
                return 0 if 0 in sc else 2
            return 0
        if k == "TPath":
            s = n["segs"]
            nm = s[-1]["id"]
            if len(s) == 1 and nm in gen:
                # bounded generic: obvious impossibilities only
                return 1
            if nm == "Self" and len(s) == 1:
                return self.ty_score(im.self_node, im, gen, v) if im.self_node is not n else 1
            if nm in PRIMS and len(s) == 1:
                if is_int(v):
                    return 3 if v.ty == nm else (2 if v.ty is None else 0)
                if isinstance(v, DomainV):
                    r = v.method(self, "type_score", [nm], None, None)
                    return 1 if r is NotImplemented else r
                return 0
            if nm == "bool":
                return 3 if is_bool(v) else 0
            if nm in ("str", "String", "char"):
                return 3 if isinstance(v, str) else 0
            if len(s) > 1 and (s[0]["id"] in gen or s[0]["id"] == "Self"):
                return 1
            if n.get("qself"):
                return 1
            h = self.P.type_head(n, im.mod, gen)
            if isinstance(v, (StructV, EnumV)):
                if isinstance(h, tuple):
                    if h == v.path:
                        # compare concrete type arguments when both known
                        if getattr(v, "targs", None) and s[-1]["a"]:
                            return 3
                        return 3
                    return 0
                if h == v.path[-1]:
                    return 3
                if isinstance(v, EnumV) and len(v.path) == 1:
                    return 0
                return 0 if h in BUILTIN_ENUMS or h in ("Vec", "String", "HashMap") else (1 if h not in ("Vec",) and not v.path[-1] in self.P.adt_names else 0)
            if isinstance(v, (VecV, IterV)):
                return 3 if h in ("Vec", "VecDeque", "SmallVec", "Box") else (1 if not isinstance(h, tuple) else 0)
            if isinstance(v, MapV):
                return 3 if h in ("HashMap", "BTreeMap", "HashSet", "BTreeSet") else 0
            if isinstance(v, DomainV):
                r = v.method(self, "type_score", [h], None, None)
                return 1 if r is NotImplemented else r
            if is_int(v) or is_bool(v) or isinstance(v, (str, tuple)):
                return 0 if (isinstance(h, tuple) or h in ("Vec", "Option", "Result")) else 1
            return 1
        return 1

    def e_Unary(self, n, env, hint):
        op = n["op"]
        if op == "*":
            v = self.eval(n["e"], env)
            if isinstance(v, RefV):
                return v.place.get()
            if isinstance(v, StructV):
                f = self.find_impl_method(v, "deref")
                h = self.strip(hint) if hint else None
                if f and h and h[0] != "adt":   # a plain value stands for a shared reference to it, unless the context wants its contents
                    r = self.call_user(f, [v], None, n, env)
                    return self.deref(r)
            return v
        v = self.evalv(n["e"], env, hint)
        return self.unop(op, v, n, env)

    def unop(self, op, v, n, env):
        if isinstance(v, GateV):
            return merge(v.c, self.unop(op, v.a, n, env), self.unop(op, v.b, n, env))
        if isinstance(v, DomainV):
            r = v.unop(self, op)
            if r is not NotImplemented:
                return r
        if op == "!":
            if is_bool(v):
                return not_(v)
            if isinstance(v, Int) and v.ty:
                return mkint(~v.v, v.ty)
            if isinstance(v, BV):
                return bv(terms.bnot(v.t), v.ty)
            if isinstance(v, T):
                return not_(bdd.var(("b", v)))
        if op == "-":
            if isinstance(v, Int):
                return mkint(-v.v, v.ty) if v.ty else Int(-v.v)
            if isinstance(v, BV):
                return bv(terms.neg(v.t), v.ty)
        if v is DEFAULT and op == "-":
            return DEFAULT
        if isinstance(v, (StructV, EnumV)):
            m = {"-": "neg", "!": "not"}[op]
            f = self.find_impl_method(v, m, [])
            if f:
                return self.call_user(f, [v], None, n, env)
        if isinstance(v, T):
            return mkT("un" + op, (v,))
        self.err(f"unary {op} on {v!r}"[:200], n, env)

    def e_Ref(self, n, env, hint):
        h = hint[2] if hint and hint[0] == "ref" else hint
        if n["mut"]:
            p = self.place(n["e"], env)
            v = p.get()
            if isinstance(v, RefV):
                return v
            return RefV(p)
        v = self.eval(n["e"], env, h)
        return v

    def e_Cast(self, n, env, hint):
        t = self.ty(n["ty"], env)
        v = self.evalv(n["e"], env)
        return self.cast(v, t, n, env)

    def cast(self, v, t, n=None, env=None):
        if isinstance(v, GateV):
            return merge(v.c, self.cast(v.a, t, n, env), self.cast(v.b, t, n, env))
        if t[0] == "p" and t[1] in PRIMS:
            ty = t[1]
            if isinstance(v, Int):
                return mkint(v.v, ty)
            if isinstance(v, BV):
                return bv(term_of(v, ty), ty)
            if is_bool(v):
                return bv(terms.from_bool(v, PRIMS[ty]), ty)
            if isinstance(v, EnumV):
                d = self.enum_disc(v)
                if d is not None:
                    return mkint(d, ty)
            if isinstance(v, T):
                return bv(mkT("int", (v,), PRIMS[ty]), ty)
            if isinstance(v, str) and len(v) == 1:
                return mkint(ord(v), ty)
            if v is DEFAULT:
                return Int(0, ty)
            if isinstance(v, (VecV, FnV, StructV, IterV)):
                return bv(mkT("int", (mkT("addr", (freeze(v),)),), PRIMS[ty]), ty)
        return v

    def enum_disc(self, v):
        d = self.P.lookup_abs(v.path)
        if not isinstance(d, dict):
            return None
        cur = -1
        for x in d["variants"]:
            if x["d"] is not None:
                e = self.eval(x["d"], Env(None, d["mod"]))
                cur = e.v
            else:
                cur += 1
            if x["n"] == v.var:
                return cur
        return None

    def e_Tuple(self, n, env, hint):
        hs = hint[1] if hint and hint[0] == "tup" and len(hint[1]) == len(n["elems"]) else [None] * len(n["elems"])
        return tuple(self.eval(e, env, h) for e, h in zip(n["elems"], hs))

    def elem_hint(self, hint):
        if not hint:
            return None
        h = self.strip(hint)
        if not h:
            return None
        if h[0] in ("arr", "slice"):
            return h[1]
        if h[0] == "ext" and h[1] in ("Vec", "Option", "Box") and h[2]:
            return h[2][0]
        return None

    def e_Array(self, n, env, hint):
        h = self.elem_hint(hint)
        return VecV(self.eval(e, env, h) for e in n["elems"])

    def e_Repeat(self, n, env, hint):
        k = self.evalv(n["n"], env)
        v = self.eval(n["e"], env, self.elem_hint(hint))
        if isinstance(k, Int):
            return VecV([v] * cap(k))
        return mkT("repeat", (freeze(v), freeze(k)))

    def e_Range(self, n, env, hint):
        lo = self.evalv(n["lo"], env) if n["lo"] is not None else None
        hi = self.evalv(n["hi"], env, self.type_of(lo) if lo is not None else None) if n["hi"] is not None else None
        if isinstance(lo, Int) and lo.ty is None and hi is not None and is_int(hi):
            lo = Int(lo.v, hi.ty)
        return RangeV(lo, hi, n["incl"])

    def e_Field(self, n, env, hint):
        v = self.eval(n["e"], env)
        return self.get_field(v, n["n"]) if not isinstance(v, RefV) else self.place_field(v.place, n["n"]).get()

    def place_field(self, p, name):
        v = p.get()
        while isinstance(v, RefV):
            p = v.place
            v = p.get()
        return FieldPlace(self, p, name)

    def e_Index(self, n, env, hint):
        b = self.evalv(n["e"], env)
        i = self.evalv(n["i"], env)
        return self.get_index(b, i)

    # ----------------------------------------------------------------- places
    def place(self, n, env):
        k = n["k"]
        if k == "Path" and len(n["segs"]) == 1 and not n.get("qself"):
            loc = env.find(n["segs"][0]["id"])
            if loc is not None:
                return LocPlace(self, loc)
        if k == "Path":
            r = env.find_item(n["segs"][0]["id"]) if len(n["segs"]) == 1 else None
            r = r or self.P.lookup(env.mod, [s["id"] for s in n["segs"]], want="value")
            if isinstance(r, dict) and r["k"] == "ItemStatic" and r.get("mut"):
                self.const_item(r)
                return LocPlace(self, r["_loc"])
        if k == "Field":
            p = self.place(n["e"], env)
            return self.place_field(p, n["n"])
        if k == "Index":
            p = self.place(n["e"], env)
            v = p.get()
            while isinstance(v, RefV):
                p = v.place
                v = p.get()
            i = self.evalv(n["i"], env)
            if isinstance(v, StructV):
                f = self.find_impl_method(v, "index_mut", [i])
                if f:
                    r = self.call_user(f, [RefV(p), i], None, n, env)
                    if isinstance(r, RefV):
                        return r.place
            if isinstance(i, RangeV) and isinstance(v, VecV):
                lo = 0 if i.lo is None else i.lo
                hi = len(v.xs) if i.hi is None else i.hi
                lo = lo.v if isinstance(lo, Int) else lo
                hi = hi.v + (1 if i.incl else 0) if isinstance(hi, Int) else hi
                if isinstance(lo, int) and isinstance(hi, int):
                    return SlicePlace(self, p, lo, hi)
            return IndexPlace(self, p, i)
        if k == "Unary" and n["op"] == "*":
            v = self.eval(n["e"], env)
            if isinstance(v, RefV):
                return v.place
            p = self.place(n["e"], env)
            w = p.get()
            if isinstance(w, StructV):
                f = self.find_impl_method(w, "deref_mut") or self.find_impl_method(w, "deref")
                if f:
                    r = self.call_user(f, [RefV(p)], None, n, env)
                    if isinstance(r, RefV):
                        return r.place
                    return self.temp(r)
            return p
        if k == "Ref":
            return self.place(n["e"], env)
        v = self.eval(n, env)
        if isinstance(v, RefV):
            return v.place
        return self.temp(v)

    def e_Assign(self, n, env, hint):
        l = n["l"]
        if l["k"] == "Infer":
            self.eval(n["r"], env)
            return UNIT
        if l["k"] in ("Tuple", "Array"):
            v = self.evalv(n["r"], env)
            xs = v if isinstance(v, tuple) else v.xs if isinstance(v, VecV) else [self.get_field(v, str(i)) for i in range(len(l["elems"]))]
            for e, x in zip(l["elems"], xs):
                if e["k"] != "Infer":
                    self.assign(self.place(e, env), x)
            return UNIT
        if l["k"] == "Path" and len(l["segs"]) == 1 and l["segs"][0]["id"] == "_":
            self.eval(n["r"], env)
            return UNIT
        p = self.place(l, env)
        cur = None
        try:
            cur = p.get()
        except AnalysisError:
            pass
        v = self.eval(n["r"], env, self.type_of(cur) if cur is not None and not isinstance(cur, RefV) else None)
        p = self.place(l, env) if l["k"] != "Path" else p
        if isinstance(v, Int) and v.ty is None and isinstance(cur, (Int, BV)) and cur.ty:
            v = Int(v.v, cur.ty)
        if l["k"] == "Path":
            p.set(v)      # rebinding of a (possibly reference) variable
        else:
            self.assign(p, v)
        return UNIT

    def assign(self, p, v):
        p.set(v)

    # ------------------------------------------------------------ struct/call
    def e_Struct(self, n, env, hint):
        segs = n["path"]
        vp = self.variant_path(segs, env) if not n.get("qself") else None
        if vp:
            path, var = vp
            d = self.P.lookup_abs(path)
            ftys = {}
            if isinstance(d, dict):
                for v in d["variants"]:
                    if v["n"] == var:
                        ftys = {f["n"]: self.ty(f["ty"], Env(None, d["mod"])) for f in v["fields"]["f"] if "n" in f}
            return EnumV(path, var, {f: self.coerce(self.eval(e, env, ftys.get(f)), ftys.get(f)) for f, e in n["fields"]})
        t = self.ty({"k": "TPath", "segs": segs, "qself": n.get("qself")}, env)
        t = self.strip(t)
        if t[0] != "adt":
            # external struct: opaque record
            f = {f: self.eval(e, env) for f, e in n["fields"]}
            nm = segs[-1]["id"]
            if n["rest"] is not None:
                base = self.evalv(n["rest"], env)
                if isinstance(base, StructV):
                    f = {**base.f, **f}
                elif base is not DEFAULT:
                    f = {**f, "..": base}
            return StructV((nm,), f)
        d = t[1]
        genv = self.adt_env(t)
        # bind const/type params from hint
        if hint and self.strip(hint) and self.strip(hint)[0] == "adt" and self.strip(hint)[1] is d and not t[2]:
            genv = self.adt_env(self.strip(hint))
        ftys = {f["n"]: self.ty(f["ty"], genv) for f in d["fields"]["f"] if "n" in f}
        fv = {}
        for f, e in n["fields"]:
            x = self.eval(e, env, ftys.get(f))
            if self.field_check is not None:
                self.field_check(self, f, ftys.get(f), x)
            fv[f] = self.coerce(x, ftys.get(f))
        if n["rest"] is not None:
            base = self.evalv(n["rest"], env, ("adt", d, t[2]))
            if base is DEFAULT:
                base = self.default_of(("adt", d, t[2]))
            if base is DEFAULT:
                for f in ftys:
                    fv.setdefault(f, DEFAULT)
            elif isinstance(base, GateV) or isinstance(base, T) or isinstance(base, StructV):
                for f in ftys:
                    if f not in fv:
                        fv[f] = self.get_field(base, f)
        return StructV(d["path"], fv, t[2])

    def e_Call(self, n, env, hint):
        fn = n["f"]
        f = self.eval(fn, env, None)
        f = self.deref(f)
        if isinstance(f, FnV):
            return self.call_value(f, [("n", a) for a in n["args"]], env, hint, n)
        args = [self.eval(a, env) for a in n["args"]]
        return self.call_value(f, [("v", a) for a in args], env, hint, n)

    def force(self, a, env, hint=None):
        return self.eval(a[1], env, hint) if a[0] == "n" else a[1]

    def call(self, f, args, hint=None, node=None, env=None):
        """call any callable value with values"""
        return self.call_value(f, [("v", a) for a in args], env, hint, node)

    def call_value(self, f, args, env, hint=None, node=None):
        f = self.deref(f)
        if isinstance(f, ClosureV):
            vs = [self.force(a, env) for a in args]
            return self.call_closure(f, vs, hint)
        if isinstance(f, GateV):
            vs = [("v", self.force(a, env)) for a in args]
            return self.branch(f.c, lambda: self.call_value(f.a, vs, env, hint, node), lambda: self.call_value(f.b, vs, env, hint, node))
        if isinstance(f, FnV):
            k = f.kind
            if k == "item":
                d = f.x
                tenv = f.env if f.env is not None and f.env.parent is not None else Env(None, d["mod"])
                if f.env is not None and f.env.find_item(d["n"]) is d:
                    tenv = f.env
                gen = self.turbofish_gen(d, node, env)
                return self.call_fn(d, args, tenv, hint=hint, cenv=env, node=node, gen=gen)
            if k == "ctor":
                d = f.x
                if d["fields"]["s"] == "unit":
                    return StructV(d["path"], {})
                genv = Env(None, d["mod"])
                if f.segs == ("Self",) and f.env.self_ty and f.env.self_ty[0] == "adt":
                    genv = self.adt_env(f.env.self_ty)
                out = {}
                for i, (a, fd) in enumerate(zip(args, d["fields"]["f"])):
                    t = self.ty(fd["ty"], genv)
                    out[str(i)] = self.coerce(self.force(a, env, t), t)
                return StructV(d["path"], out)
            if k == "variant":
                path, var = f.x
                if len(path) == 1:
                    h = None
                    sh = self.strip(hint) if hint else None
                    if sh and sh[0] == "ext" and sh[2]:
                        h = sh[2][1] if var == "Err" and len(sh[2]) > 1 else sh[2][0]
                    return EnumV(path, var, tuple(self.coerce(self.force(a, env, h), h) for a in args))
                d = self.P.lookup_abs(path)
                vd = next(v for v in d["variants"] if v["n"] == var)
                ts = [self.ty(x["ty"], Env(None, d["mod"])) for x in vd["fields"]["f"]]
                return EnumV(path, var, tuple(self.coerce(self.force(a, env, t), t) for a, t in zip(args, ts)))
            if k == "assoc":
                t, name, cands = f.x
                return self.call_assoc(t, name, cands, args, env, hint, node)
            if k == "traitdef":
                t, d = f.x
                return self.call_fn(d, args, Env(None, d["mod"], {}, t), hint=hint, cenv=env, node=node, self_ty=t)
            if k == "traitm":
                d, name = f.x
                vs = [self.force(a, env) for a in args]
                return self.method(vs[0], name, vs[1:], hint, node, env, None)
            if k in ("ext", "tassoc"):
                return self.B.call_ext(self, f, args, env, hint, node)
            if k == "py":
                vs = [self.force(a, env) for a in args]
                return f.x(*vs)
        if isinstance(f, TypeV):
            vs = [self.force(a, env) for a in args]
            return mkT("call", (freeze(f),) + tuple(freeze(v) for v in vs))
        if isinstance(f, DomainV):
            r = f.method(self, "call", [self.force(a, env) for a in args], hint, None)
            if r is not NotImplemented:
                return r
        if isinstance(f, T):
            vs = [self.force(a, env) for a in args]
            return self.opaque_call(f, vs, node)
        self.err(f"call of {f!r}"[:200], node, env)

    def opaque_call(self, f, vs, node):
        name = f if not isinstance(f, (list,)) else tuple(f)
        r = mkT("call", (name,) + tuple(freeze(v) for v in vs))
        for i, v in enumerate(vs):
            if isinstance(v, RefV):
                v.place.set(mkT("out", (r, i)))
        return r

    def turbofish_gen(self, d, node, env):
        g = {}
        if node is None or node.get("k") != "Call" or node["f"]["k"] != "Path":
            return g
        a = node["f"]["segs"][-1]["a"]
        if a:
            ps = [p for p in d["gen"]["params"] if p["g"] != "life"]
            for p, x in zip(ps, [x for x in a if x["k"] != "TLife"]):
                if x["k"] == "TInfer":
                    continue
                if p["g"] == "const":
                    if x["k"] == "TConst":
                        g[p["n"]] = self.eval(x["e"], env)
                    else:
                        t = self.ty(x, env)
                        g[p["n"]] = t[1] if t[0] == "const" else t
                else:
                    t = self.ty(x, env)
                    if t != ("any",):
                        g[p["n"]] = t
        return g

    def call_assoc(self, t, name, cands, args, env, hint, node):
        if len(cands) == 1:
            im = cands[0]
        else:
            vs = [self.force(a, env) for a in args]
            args = [("v", v) for v in vs]
            best, bs = None, 0
            for im in cands:
                f = im.fns[name]
                has_self = bool(f["params"]) and f["params"][0]["self"]
                s = self.impl_score(im, name, vs[0] if has_self else None, vs[1:] if has_self else vs)
                if s and t[0] == "adt" and t[2] and not has_self:
                    s2 = self.targ_score(im, t)
                    if s2 == 0:
                        s = 0
                    else:
                        s += s2
                if s > bs:
                    best, bs = im, s
            if best is None:
                best = cands[0]
            im = best
        d = im.fns[name]
        if t[0] == "adt" and not t[2] and im.args and hint is not None and d["ret"] is not None:
            h = self.strip(hint)
            if h and h[0] == "adt" and h[1] is t[1] and h[2]:
                t = h
        gen = self.bind_impl_gen(im, t)
        gen.update(self.turbofish_gen(d, node, env) if node is not None else {})
        return self.call_fn(d, args, Env(None, im.mod, gen, t, impl=im), hint=hint, cenv=env, node=node, gen=gen, self_ty=t, impl=im)

    def targ_score(self, im, t):
        """type arguments of impl vs requested type"""
        if not im.args:
            return 1
        s = 1
        for a, b in zip([a for a in im.args if a["k"] != "TLife"], t[2]):
            if a["k"] == "TPath" and len(a["segs"]) == 1 and a["segs"][0]["id"] in im.gen:
                continue
            if b == ("any",):
                continue
            at = self.ty(a, Env(None, im.mod)) if a["k"] != "TConst" else None
            if at and at[0] in ("p", "adt") and b[0] in ("p", "adt"):
                if at[0] != b[0] or (at[0] == "p" and at[1] != b[1]) or (at[0] == "adt" and at[1] is not b[1]):
                    return 0
                s += 1
        return s

    def call_user(self, f, args, hint, node, env):
        im, d = f
        t = None
        gen = {}
        if im is not None:
            if isinstance(im.head, tuple):
                x = self.P.lookup_abs(im.head)
                if isinstance(x, dict):
                    v = self.deref(args[0]) if args else None
                    ta = getattr(v, "targs", None)
                    t = ("adt", x, ta or [])
                    gen = self.bind_impl_gen(im, t) if ta else {}
            elif isinstance(im.head, str) and im.head in PRIMS:
                t = ("p", im.head)
        return self.call_fn(d, [("v", a) for a in args], Env(None, d["mod"], gen, t, impl=im), hint=hint, cenv=env, node=node, gen=gen, self_ty=t, impl=im)

    def call_fn(self, d, args, denv, hint=None, cenv=None, node=None, gen=None, self_ty=None, impl=None):
        path = d.get("path", (d["n"],))
        full = "::".join(path)
        ov = self.intrinsics.get(full) or self.intrinsics.get("::".join(path[-2:]))
        if ov is None and len(path) > 3:
            for x in self.P.reexports(path):
                ov = ov or self.intrinsics.get(x)
        if ov is not None:
            vs = [self.force(a, cenv) for a in args]
            r = ov(self, vs, hint, cenv, node)
            if r is not NotImplemented:
                return r
            args = [("v", v) for v in vs]
        if d["b"] is None:
            vs = [self.force(a, cenv) for a in args]
            return self.B.foreign_call(self, d, vs, node, cenv)
        self.ncalls += 1
        self.visited[full] = self.visited.get(full, 0) + 1
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise AnalysisError(f"recursion too deep in {full}")
        env = Env(denv, d["mod"], gen if gen is not None else denv.gen, self_ty or denv.self_ty, d, impl or denv.impl)
        # const generics from array arguments; types for hints
        gparams = {p["n"] for p in d["gen"]["params"] if p["g"] == "const"}
        tparams = {p["n"] for p in d["gen"]["params"] if p["g"] == "type"}
        vals = []
        if gparams or tparams:
            env.gen = dict(env.gen or {})
        for a, p in zip(args, d["params"]):
            if p["self"]:
                v = self.force(a, cenv)
                vals.append(v)
                continue
            t = self.param_ty(d, p["ty"], env)
            v = self.coerce(self.force(a, cenv, t), t)
            vals.append(v)
            if gparams:
                self.infer_const(p["ty"], v, gparams, env)
            if tparams:
                self.infer_type(p["ty"], v, tparams, env)
        if len(args) != len(d["params"]):
            raise AnalysisError(f"arity mismatch calling {full}")
        if self.on_call is not None:
            self.on_call(self, d, vals, node, cenv)
        self.frames.append(Frame(d))
        saved_loops, self.loops = self.loops, []
        self.stack.append(path)
        pc0 = self.pc
        try:
            ret_t = self.ty(d["ret"], env) if d["ret"] is not None else ("tup", [])
            if d["ret"] is not None and d["ret"]["k"] == "TPath" and len(d["ret"]["segs"]) == 1 and d["ret"]["segs"][0]["id"] in tparams and hint:
                env.gen.setdefault(d["ret"]["segs"][0]["id"], hint)
                ret_t = hint
            elif d["ret"] is not None and tparams and hint:
                self.infer_ret(d["ret"], hint, tparams, env)
                ret_t = self.ty(d["ret"], env)
            live = True
            try:
                for v, p in zip(vals, d["params"]):
                    if p["self"]:
                        mut = p["mut"]
                        env.vars["self"] = self.new(v, mut or isinstance(v, RefV))
                        continue
                    out = []
                    self.bind(p["p"], v, env, out)
                    self.declare(env, out)
                val = self.coerce(self.eval_block(d["b"], env, ret_t), ret_t)
            except Dead:
                live = False
                val = None
            fr = self.frames[-1]
            exits = [(p, self.coerce(v, ret_t), s) for p, v, s in fr.returns]
            if live:
                exits.append((self.pc, val, self.store))
            return self.join_exits(exits)
        finally:
            self.stack.pop()
            self.frames.pop()
            self.loops = saved_loops
            self.depth -= 1

    def infer_const(self, t, v, names, env):
        v = self.deref(v)
        while t["k"] == "TRef":
            t = t["ty"]
        if t["k"] == "TArray":
            e = t["len"]
            if e["k"] == "Path" and len(e["segs"]) == 1 and e["segs"][0]["id"] in names and isinstance(v, VecV):
                env.gen.setdefault(e["segs"][0]["id"], Int(len(v.xs), "usize"))
            if isinstance(v, VecV) and v.xs:
                self.infer_const(t["ty"], v.xs[0], names, env)

    def infer_ret(self, n, h, names, env):
        h = self.strip(h)
        while n["k"] == "TRef":
            n = n["ty"]
        if h is None or h[0] == "any":
            return
        if n["k"] == "TPath" and not n.get("qself"):
            s = n["segs"]
            if len(s) == 1 and s[0]["id"] in names:
                env.gen.setdefault(s[0]["id"], h)
            elif s[-1]["a"] and h[0] in ("adt", "ext"):
                nm = h[1]["n"] if h[0] == "adt" else h[1]
                if nm == s[-1]["id"]:
                    for a, b in zip([a for a in s[-1]["a"] if a["k"] not in ("TLife", "TAssoc")], h[2]):
                        if b[0] != "const":
                            self.infer_ret(a, b, names, env)
        elif n["k"] == "TTuple" and h[0] == "tup":
            for a, b in zip(n["elems"], h[1]):
                self.infer_ret(a, b, names, env)

    def infer_type(self, t, v, names, env):
        while t["k"] == "TRef":
            t = t["ty"]
        if t["k"] == "TPath" and len(t["segs"]) == 1 and t["segs"][0]["id"] in names:
            n = t["segs"][0]["id"]
            v = self.deref(v)
            if n not in env.gen:
                if isinstance(v, (Int, BV)) and v.ty:
                    env.gen[n] = ("p", v.ty)
                elif isinstance(v, StructV):
                    d = self.P.lookup_abs(v.path) if len(v.path) > 1 else None
                    if isinstance(d, dict):
                        env.gen[n] = ("adt", d, v.targs or [])

    # ------------------------------------------------------------------ methods
    def e_MCall(self, n, env, hint):
        rc = n["recv"]
        if hint is not None and n["m"] in ("unwrap", "expect", "unwrap_or_default") and rc["k"] == "MCall" and rc["m"] in ("try_into", "parse"):
            p = self.temp(self.eval(rc, env, ("ext", "Result", [hint])))
        elif hint is not None and n["m"] == "ok" and rc["k"] == "MCall" and rc["m"] in ("try_into", "parse") and hint[0] == "ext" and hint[1] == "Option" and hint[2]:
            p = self.temp(self.eval(rc, env, ("ext", "Result", [hint[2][0]])))
        else:
            if n["m"] == "collect" and rc["k"] == "MCall" and rc["m"] in ("map", "filter_map") and len(rc["args"]) == 1 and rc["args"][0]["k"] == "Closure":
                # what the closure yields is what the collection holds
                sh = self.strip(hint) if hint is not None else None
                if sh and sh[0] == "ext" and sh[1] in ("Vec", "HashSet", "BTreeSet", "VecDeque") and len(sh[2]) == 1 and sh[2][0][0] == "p":
                    self.closure_hint[id(rc["args"][0])] = sh[2][0] if rc["m"] == "map" else ("ext", "Option", [sh[2][0]])

            p = self.place(rc, env)
        v = p.get()
        while isinstance(v, RefV):
            p = v.place
            v = p.get()
        tf = [self.ty(a, env) for a in n["tf"] if a["k"] != "TLife"] if n["tf"] else None
        name = n["m"]
        # user method first to get parameter hints
        if not isinstance(v, GateV):
            f = self.user_method(v, name, n, env, p)
            if f is not None:
                return f[0](n, hint)
        h = tf[0] if tf else hint
        args = [self.eval(a, env, self.B.arg_hint(self, v, name, i, hint)) for i, a in enumerate(n["args"])]
        return self.method(v, name, args, h, n, env, p)

    def user_method(self, v, name, n, env, p):
        """thunk evaluating a repository-defined method, or None"""
        ims = self.method_candidates(v, name)
        if not ims:
            return None
        if len(ims) == 1:
            def run(n, hint):
                return self.invoke(ims[0], v, p, [("n", a) for a in n["args"]], hint, n, env)
            return (run,)

        def run2(n, hint):
            vs = [self.eval(a, env) for a in n["args"]]
            best, bs = None, 0
            for im, f, t in ims:
                s = self.impl_score(im, name, v, vs) if im is not None else 1
                if s > bs:
                    best, bs = (im, f, t), s
            if best is None:
                best = ims[0]
            return self.invoke(best, v, p, [("v", x) for x in vs], hint, n, env)
        return (run2,)

    def invoke(self, c, v, p, args, hint, n, env):
        im, d, t = c
        gen = {}
        if im is not None and t is not None and t[0] == "adt":
            gen = self.bind_impl_gen(im, t)
        if n is not None and n.get("k") == "MCall" and n.get("tf"):
            ps = [q for q in d["gen"]["params"] if q["g"] != "life"]
            for q, a in zip(ps, n["tf"]):
                if a["k"] == "TInfer":
                    continue
                tt = self.ty(a, env) if a["k"] != "TConst" else self.eval(a["e"], env)
                gen[q["n"]] = tt[1] if isinstance(tt, tuple) and tt[0] == "const" else tt
        sp = d["params"][0]
        if not sp["self"]:
            return self.err(f"method {d['n']} has no self", n, env)
        wants_mut = sp["mut"] and sp["ref"] or (sp["ty"]["k"] == "TRef" and sp["ty"]["mut"])
        recv = RefV(p) if wants_mut and p is not None else v
        if wants_mut and p is None:
            recv = RefV(self.temp(v))
        if t is None and isinstance(v, (Int, BV)) and v.ty:
            t = ("p", v.ty)
        return self.call_fn(d, [("v", recv)] + args, Env(None, d["mod"], gen, t, impl=im), hint=hint, cenv=env, node=n, gen=gen, self_ty=t, impl=im)

    def method_candidates(self, v, name):
        out = []
        if isinstance(v, (StructV, EnumV)):
            heads = [v.path]
            d = self.P.lookup_abs(v.path) if len(v.path) > 1 else None
            t = ("adt", d, getattr(v, "targs", None) or []) if isinstance(d, dict) else None
            if t is None:
                heads = [v.path[-1]]
            for h in heads:
                for im in self.P.impls.get(h, []):
                    if name in im.fns and im.fns[name]["params"] and im.fns[name]["params"][0]["self"]:
                        out.append((im, im.fns[name], t))
            if len(out) > 1:
                inh = [o for o in out if o[0].trait is None]
                if len(inh) == 1:
                    # inherent methods take precedence
                    out = inh
            if len(out) > 1 and t is not None and t[2]:
                sc = [(self.targ_score(o[0], t), o) for o in out]
                out = [o for s, o in sc if s] or out
            if not out and t is not None:
                for im in self.P.impls.get(v.path, []):
                    if im.trait:
                        tr = self.P.lookup(im.mod, [s["id"] for s in im.trait])
                        if isinstance(tr, dict) and tr["k"] == "ItemTrait":
                            for f in tr["items"]:
                                if f["k"] == "Fn" and f["n"] == name and f["b"] is not None:
                                    return [(None, f, t)]
            if not out and name not in self.B.DERIVED:
                for im in self.P.impls.get("*", []):
                    if name in im.fns and im.fns[name]["params"] and im.fns[name]["params"][0]["self"]:
                        out.append((im, im.fns[name], t))
            if not out and t is not None and name not in self.B.DERIVED:
                for im in self.P.impls.get(v.path, []):
                    if im.trait and im.trait[-1]["id"] == "Deref":
                        return []
            return out
        if isinstance(v, (Int, BV)):
            for im in self.P.impls.get(v.ty, []):
                if name in im.fns and im.fns[name]["params"] and im.fns[name]["params"][0]["self"]:
                    out.append((im, im.fns[name], ("p", v.ty)))
            return out
        if isinstance(v, (VecV,)):
            for h in ("[]", "Vec"):
                for im in self.P.impls.get(h, []):
                    if name in im.fns and im.fns[name]["params"] and im.fns[name]["params"][0]["self"]:
                        out.append((im, im.fns[name], None))
            if not out and not self.B.has_method(name):
                for im in self.P.impls.get("*", []):
                    if name in im.fns and im.fns[name]["params"] and im.fns[name]["params"][0]["self"]:
                        out.append((im, im.fns[name], None))
            return out
        head = getattr(v, "head", None) if isinstance(v, DomainV) else None
        if head is not None and name not in v.own:
            # a type of an outside library that the repository extends with traits
            for h, ims in self.P.impls.items():
                if h == head or isinstance(h, tuple) and h[-1] == head:
                    for im in ims:
                        if name in im.fns and im.fns[name]["params"] and im.fns[name]["params"][0]["self"]:
                            out.append((im, im.fns[name], ("ext", head)))
                        elif im.trait:
                            tr = self.P.lookup(im.mod, [s["id"] for s in im.trait])
                            if isinstance(tr, dict) and tr["k"] == "ItemTrait":
                                for f in tr["items"]:
                                    if f["k"] == "Fn" and f["n"] == name and f["b"] is not None:
                                        out.append((None, f, ("ext", head)))
            return out
        if isinstance(v, (IterV, InfIter, RangeV, tuple, T)) and not self.B.has_method(name) and name not in PURE:
            for im in self.P.impls.get("*", []):
                if name in im.fns and im.fns[name]["params"] and im.fns[name]["params"][0]["self"]:
                    out.append((im, im.fns[name], None))
            if isinstance(v, tuple):
                for im in self.P.impls.get("()", []):
                    if name in im.fns and im.fns[name]["params"] and im.fns[name]["params"][0]["self"]:
                        out.append((im, im.fns[name], None))
            return out
        return out

    def find_impl_method(self, v, name, args=None):
        c = [x for x in self.method_candidates(v, name) if x[0] is not None]
        if not c:
            return None
        if args is not None and len(c) > 0:
            sc = sorted(((self.impl_score(im, name, v, args), i) for i, (im, f, t) in enumerate(c)), key=lambda z: (-z[0], z[1]))
            if sc[0][0] == 0:
                return None
            im, f, t = c[sc[0][1]]
            return (im, f)
        return (c[0][0], c[0][1])

    def method(self, v, name, args, hint, node, env, place):
        """method call on a value with evaluated args"""
        if place is None:
            place = v.place if isinstance(v, RefV) else None
        v = self.deref(v)
        if isinstance(v, GateV):
            if place is None:
                place = self.temp(v)

            def arm(x):
                def go():
                    place.set(x)
                    return self.method(x, name, args, hint, node, env, place)
                return go
            if place.mutable() or True:
                before = place.get()
                r = self.branch(v.c, arm(v.a), arm(v.b))
                return r
        if isinstance(v, T) and v.op == "ite" and v.w is None and name in ("is_some", "is_none"):
            pass
        if isinstance(v, DomainV):
            r = v.method(self, name, args, hint, place)
            if r is not NotImplemented:
                return r
        ims = self.method_candidates(v, name)
        if ims:
            best = ims[0]
            if len(ims) > 1:
                sc = [(self.impl_score(im, name, v, args) if im else 1, -i) for i, (im, f, t) in enumerate(ims)]
                best = ims[-max(sc)[1]]
            return self.invoke(best, v, place, [("v", a) for a in args], hint, node, env)
        f = self.methods.get(name)
        if f is not None:
            r = f(self, v, place, args, hint, node, env)
            if r is not NotImplemented:
                return r
        r = self.B.method(self, v, name, args, hint, node, env, place)
        if r is not NotImplemented:
            return r
        # Deref to a wrapped value
        if isinstance(v, StructV):
            c = [x for x in self.method_candidates(v, "deref")]
            if c:
                dm = [x for x in self.method_candidates(v, "deref_mut")]
                if dm and place is not None:
                    w = self.invoke(dm[0], v, place, [], None, node, env)
                    return self.method(w, name, args, hint, node, env, w.place if isinstance(w, RefV) else None)
                w = self.invoke(c[0], v, place, [], None, node, env)
                return self.method(w, name, args, hint, node, env, None)
        return self.opaque_method(v, name, args, hint, node, env, place)

    def opaque_method(self, v, name, args, hint, node, env, place):
        if isinstance(v, (StructV, EnumV)) and len(v.path) > 1 and v.path[0] in ("mozak_runner", "mozak_sdk", "mozak_circuits", "expr", "mozak_recproofs") and name not in PURE and not self.lenient(v, name):
            self.err(f"unknown method {v.path[-1]}.{name}", node, env)
        fv = opaque(v)
        fargs = []
        for a in args:
            fargs.append(self.lam(a) if isinstance(self.deref(a), (ClosureV,)) else freeze(a))
        r = mkT("m:" + name, (fv,) + tuple(fargs))
        if name not in PURE and place is not None and place.mutable():
            place.set(mkT("upd:" + name, (fv,) + tuple(fargs)))
        for i, a in enumerate(args):
            if isinstance(a, RefV):
                a.place.set(mkT("out", (r, i)))
        if hint and hint[0] == "p":
            return self.coerce(r, hint)
        return r

    def lenient(self, v, name):
        return True

    def lam(self, f, nparams=1):
        """normal form of a closure as an opaque function"""
        f = self.deref(f)
        if isinstance(f, ClosureV):
            n = len(f.node["params"])
            self.bind_depth += 1
            ps = [mkT("elem", (self.bind_depth, i)) for i in range(n)]
            try:
                try:
                    r = self.isolated(lambda: self.call_closure(f, ps))
                except Dead:
                    r = mkT("never", ())
            finally:
                self.bind_depth -= 1
            return mkT("lam", (n, freeze(r)))
        if isinstance(f, FnV) and f.kind == "item":
            n = len(f.x["params"])
            self.bind_depth += 1
            ps = [mkT("elem", (self.bind_depth, i)) for i in range(n)]
            try:
                r = self.isolated(lambda: self.call(f, ps))
            except Dead:
                r = mkT("never", ())
            finally:
                self.bind_depth -= 1
            return mkT("lam", (n, freeze(r)))
        return freeze(f)

    def isolated(self, fn):
        """Evaluate fn for its value; afterwards the path condition is that of
        before (a panic inside is still recorded)."""
        pc = self.pc
        try:
            return fn()
        finally:
            self.pc = pc

    def e_Closure(self, n, env, hint):
        h = self.strip(hint) if hint else None
        return ClosureV(n, env, h[1] if h and h[0] == "fn" else None)

    def call_closure(self, f, vs, hint=None):
        n = f.node
        if len(vs) != len(n["params"]):
            raise AnalysisError(f"closure arity {len(vs)} != {len(n['params'])}")
        env = Env(f.env)
        self.frames.append(Frame(None))
        saved, self.loops = self.loops, []
        try:
            live = True
            try:
                for p, v in zip(n["params"], vs):
                    out = []
                    self.bind(p, v, env, out)
                    self.declare(env, out)
                rt = self.ty(n["ret"], env) if n["ret"] is not None else hint if hint is not None else f.ret if f.ret is not None else self.closure_hint.get(id(n))
                val = self.eval(n["b"], env, rt)
                if n["ret"] is not None or rt is f.ret:
                    val = self.coerce(val, rt)
            except Dead:
                live = False
            fr = self.frames[-1]
            exits = list(fr.returns)
            if live:
                exits.append((self.pc, val, self.store))
            return self.join_exits(exits)
        finally:
            self.frames.pop()
            self.loops = saved

    # ------------------------------------------------------------- statements
    def eval_block(self, b, env, hint=None):
        return self.e_Block(b, env, hint)

    def e_Block(self, n, env, hint):
        if not self.P.ok(n.get("attrs")):
            return UNIT
        env = Env(env)
        if n.get("label"):
            fr = LoopFrame(n["label"])
            self.loops.append(fr)
            try:
                live = True
                try:
                    v = self.run_stmts(n["stmts"], env, hint)
                except Dead:
                    live = False
                ex = list(fr.breaks)
                if live:
                    ex.append((self.pc, v, self.store))
                return self.join_exits(ex)
            finally:
                self.loops.pop()
        return self.run_stmts(n["stmts"], env, hint)

    def run_stmts(self, stmts, env, hint):
        last = UNIT
        ns = len(stmts)
        for s in stmts:
            if s["k"] == "SItem":
                it = s["item"]
                if not self.P.ok(it.get("attrs")):
                    continue
                if it["k"] == "ItemUse":
                    # local imports: remember on a per-env module overlay
                    self.local_use(env, it)
                    continue
                it.setdefault("mod", env.mod)
                if env.items is None:
                    env.items = {}
                if it.get("n"):
                    env.items[it["n"]] = it
                    if it["k"] in ("ItemStruct", "ItemEnum"):
                        it["path"] = env.mod.path + (it["n"],)
                    if it["k"] == "Fn":
                        it["path"] = env.mod.path + (it["n"],)
        stmts = [s for s in stmts if s["k"] == "SItem" or self.P.ok(s.get("attrs") or (s.get("e") or {}).get("attrs"))]
        ns = len(stmts)
        for i, s in enumerate(stmts):
            k = s["k"]
            last = UNIT
            if k == "SItem":
                continue
            if k == "SLet":
                self.st_let(s, env)
            else:
                v = self.eval(s["e"], env, hint if i == ns - 1 and not s["semi"] else None)
                if not s["semi"]:
                    last = v
        return last

    def local_use(self, env, it):
        m = env.mod
        key = ("\0local", m.path, it["ln"])
        import program
        nm = program.Mod(m.path, m.file)
        nm.items, nm.globs, nm.macros = m.items, list(m.globs), m.macros
        nm.uses = {k: list(v) for k, v in m.uses.items()}
        nm.local_globs = list(m.local_globs)
        for u in it["uses"]:
            if u["as"] == "*":
                nm.globs.append(u["path"])
                nm.local_globs.insert(0, u["path"])
            elif u["as"] != "_":
                nm.uses[u["as"]] = [u["path"]] + nm.uses.get(u["as"], [])
        env.mod = nm

    def st_let(self, s, env):
        p = s["p"]
        if s["init"] is None:
            for n in pat_names(p):
                env.vars[n] = self.new(mkT("uninit", ()), True)
            return
        t = self.ty(p["ty"], env) if p["k"] == "PType" else None
        if t == ("any",):
            t = None
        if t is None and p["k"] == "PStruct" and self.variant_path(p["path"], env) is None:
            t = self.strip(self.ty({"k": "TPath", "segs": p["path"], "qself": None}, env))
            t = t if t and t[0] == "adt" else None
        v = self.eval(s["init"], env, t)
        out = []
        cond = self.bind(p, v, env, out)
        if s["else"] is not None:
            def bad():
                self.eval(s["else"], env)
                raise AnalysisError("let-else falls through")
            if cond is False:
                bad()
            self.branch(cond, lambda: UNIT, bad)
        self.declare(env, out)

    def e_If(self, n, env, hint):
        c = n["c"]
        env2 = Env(env)
        return self.if_chain(c, n, env2, env, hint)

    def if_chain(self, c, n, env2, env, hint):
        conds = flatten_and(c)
        els = (lambda: self.eval(n["e"], env, hint)) if n["e"] is not None else (lambda: UNIT)
        if len(conds) == 1 or not any(x["k"] == "Let" for x in conds):
            cond, binds = self.cond(c, env2)

            def then():
                self.declare(env2, binds)
                return self.eval(n["t"], env2, hint)
            return self.branch(cond, then, els)

        def step(i, e):
            if i == len(conds):
                return self.eval(n["t"], e, hint)
            cond, binds = self.cond(conds[i], e)

            def then():
                e3 = Env(e)
                self.declare(e3, binds)
                return step(i + 1, e3)
            return self.branch(cond, then, els)
        return step(0, env2)

    def cond(self, c, env):
        if c["k"] == "Let":
            v = self.eval(c["e"], env)
            if not isinstance(v, RefV) and c["e"]["k"] in ("Path", "Field") and False:
                pass
            out = []
            cond = self.bind(c["p"], v, env, out)
            return cond, out
        return self.truth(self.eval(c, env)), []

    def e_Let(self, n, env, hint):
        cond, binds = self.cond(n, env)
        self.declare(env, binds)
        return cond

    def e_Match(self, n, env, hint):
        v = self.eval(n["e"], env)
        return self.match_arms(n, v, env, hint)

    def match_arms(self, n, v, env, hint):
        if isinstance(v, GateV) and False:
            pass
        arms = [a for a in n["arms"] if self.P.ok(a.get("attrs"))]

        def step(i):
            if i == len(arms):
                # exhaustive by the type checker
                self.pc = False
                raise Dead()
            a = arms[i]
            e = Env(env)
            out = []
            cond = self.bind(a["p"], v, e, out)
            if cond is False:
                return step(i + 1)
            if a["g"] is None:
                def then():
                    self.declare(e, out)
                    return self.eval(a["b"], e, hint)
                if i == len(arms) - 1:
                    # last arm: exhaustive
                    return then()
                return self.branch(cond, then, lambda: step(i + 1))

            def guarded():
                self.declare(e, out)
                if a["g"]["k"] == "Let":
                    c2, b2 = self.cond(a["g"], e)
                    self.declare(e, b2)
                else:
                    c2 = self.truth(self.eval(a["g"], e))
                return self.branch(c2, lambda: self.eval(a["b"], e, hint), lambda: step(i + 1))
            return self.branch(cond, guarded, lambda: step(i + 1))
        return step(0)

    def e_Return(self, n, env, hint):
        fr = self.frames[-1]
        t = None
        if fr.fn is not None and fr.fn["ret"] is not None:
            t = self.ty(fr.fn["ret"], env)
        v = self.eval(n["e"], env, t) if n["e"] is not None else UNIT
        fr.returns.append((self.pc, v, self.store))
        self.pc = False
        raise Dead()

    def e_Try(self, n, env, hint):
        h = None
        if hint is not None and n["e"]["k"] == "MCall" and n["e"]["m"] == "try_into":
            h = ("ext", "Result", [hint])
        v = self.evalv(n["e"], env, h)
        return self.try_value(v, n, env)

    def try_value(self, v, n, env):
        opt = self.result_kind(v)
        if opt == "domain":
            return v
        okv, bad = (("Some", "None") if opt == "Option" else ("Ok", "Err"))
        path = (opt,)
        c = self.is_variant(v, path, okv)

        def fail():
            if opt == "Option":
                r = NONE
            else:
                r = Err(self.try_err(self.payload(v, path, "Err", 0), env))
            self.frames[-1].returns.append((self.pc, r, self.store))
            self.pc = False
            raise Dead()
        return self.branch(c, lambda: self.payload(v, path, okv, 0), fail)

    def try_err(self, e, env):
        return e

    def result_kind(self, v):
        if isinstance(v, EnumV):
            return v.path[-1]
        if isinstance(v, GateV):
            return self.result_kind(v.a)
        if isinstance(v, DomainV):
            return "domain"
        # opaque: decide by the enclosing function's return type
        fr = self.frames[-1].fn if self.frames else None
        if fr is not None and fr["ret"] is not None and fr["ret"]["k"] == "TPath" and fr["ret"]["segs"][-1]["id"] == "Option":
            return "Option"
        return "Result"

    def find_loop(self, label):
        if label is None:
            for l in reversed(self.loops):
                if l.label != "\0block":
                    return l
        for l in reversed(self.loops):
            if l.label == label:
                return l
        raise AnalysisError("break outside loop")

    def e_Break(self, n, env, hint):
        v = self.eval(n["e"], env) if n["e"] is not None else UNIT
        self.find_loop(n["label"]).breaks.append((self.pc, v, self.store))
        self.pc = False
        raise Dead()

    def e_Continue(self, n, env, hint):
        self.find_loop(n["label"]).conts.append((self.pc, UNIT, self.store))
        self.pc = False
        raise Dead()

    # -------------------------------------------------------------------- loops
    def e_For(self, n, env, hint):
        it = self.eval(n["e"], env)
        items = self.iter_items(it, n, env)
        if items is None:
            d = self.deref(it)
            if isinstance(d, DomainV) and hasattr(d, "generic"):
                return self.generic_for(n, env, d)
            return self.summarise_for(n, d, env, isinstance(it, RefV))
        fr = LoopFrame(n["label"])
        self.loops.append(fr)
        try:
            live = True
            for x in items:
                fr.conts = []
                try:
                    e = Env(env)
                    out = []
                    self.bind(n["p"], x, e, out)
                    self.declare(e, out)
                    self.eval(n["b"], e)
                except Dead:
                    live = False
                ex = list(fr.conts)
                if live:
                    ex.append((self.pc, UNIT, self.store))
                if not ex:
                    live = False
                    break
                self.join_exits(ex)
                live = True
            ex = list(fr.breaks)
            if live:
                ex.append((self.pc, UNIT, self.store))
            self.join_exits(ex)
            return UNIT
        finally:
            self.loops.pop()

    def generic_for(self, n, env, src):
        """Loop over an abstract collection seen at one generic element: allowed effects are insertions into collections that were
        empty before or are of the same abstract kind; anything else is refused."""
        st = dict(self.store), self.pc, len(self.panics)
        try:
            return self.generic_loop(n, env, src, False)
        except NotAnInsertion:
            self.store, self.pc = st[0], st[1]
            del self.panics[st[2]:]
            return self.generic_loop(n, env, src, True)

    def generic_loop(self, n, env, src, deep):
        x, cond, acc = src.generic(self)
        s0, pc0 = dict(self.store), self.pc

        def opened(v):
            if isinstance(v, MapV) and not v.d or isinstance(v, VecV) and not v.xs or deep and v is DEFAULT:
                return acc()
            if deep and type(v) is StructV:
                f = {k: opened(y) for k, y in v.f.items()}
                if any(f[k] is not v.f[k] for k in f):
                    return StructV(v.path, f)
            return v

        def closed(w, v, old):
            """the value after any number of rounds"""
            if w is v or val_is(w, v):
                return old
            if type(v) is StructV and type(w) is StructV and w.path == v.path and set(w.f) == set(v.f):
                return StructV(v.path, {k: closed(w.f[k], v.f[k], old.f[k]) for k in v.f})
            if not isinstance(w, acc.kind):
                raise NotAnInsertion(f"effect of a loop over an abstract collection is not an insertion (line {n['ln']})")
            r = merge(cond, w, v)
            if not isinstance(r, acc.kind):
                raise AnalysisError(f"effect of a loop over an abstract collection is not pointwise (line {n['ln']})")
            return r

        for l, v in s0.items():
            w = opened(v)
            if w is not v:
                self.store[l] = w
        start = dict(self.store)
        nret = [len(f.returns) for f in self.frames]
        fr = LoopFrame(n["label"])
        self.loops.append(fr)
        live = True
        self.pc = and_(pc0, cond)
        try:
            e = Env(env)
            out = []
            self.bind(n["p"], x, e, out)
            self.declare(e, out)
            self.eval(n["b"], e)
        except Dead:
            live = False
        finally:
            self.loops.pop()
        if fr.breaks or [len(f.returns) for f in self.frames] != nret:
            raise AnalysisError(f"loop over an abstract collection is left early (line {n['ln']})")
        ex = list(fr.conts) + ([(self.pc, UNIT, self.store)] if live else [])
        if ex:
            self.join_exits(ex)
        end = self.store
        res = dict(s0)
        for l, v in start.items():
            w = end.get(l, v)
            r = closed(w, v, s0[l])
            if r is not s0[l]:
                res[l] = r
        self.store, self.pc = res, pc0
        return UNIT

    def iter_items(self, it, n, env):
        """list of items, or None when the sequence is not statically known"""
        return self.B.items(self, it)

    def run_unrolled(self, n, env, test):
        fr = LoopFrame(n["label"])
        self.loops.append(fr)
        try:
            live = True
            count = 0
            while True:
                if test is not None:
                    e = Env(env)
                    c, binds = self.cond(test, e)
                    if c is False or and_(self.pc, c) is False:
                        break
                    if c is not True and and_(self.pc, not_(c)) is not False:
                        if count > 64:
                            raise AnalysisError("loop with symbolic bound did not terminate in 64 rounds")
                        # split: leave under !c
                        fr.breaks.append((and_(self.pc, not_(c)), UNIT, dict(self.store)))
                        self.pc = and_(self.pc, c)
                    self.declare(e, binds)
                else:
                    e = Env(env)
                count += 1
                if count > self.unroll_limit:
                    raise AnalysisError("loop bound exceeded")
                fr.conts = []
                try:
                    self.eval(n["b"], e)
                    live = True
                except Dead:
                    live = False
                ex = list(fr.conts)
                if live:
                    ex.append((self.pc, UNIT, self.store))
                if not ex:
                    live = False
                    break
                self.join_exits(ex)
                live = True
            ex = list(fr.breaks)
            if live and self.pc is not False and test is not None:
                ex.append((self.pc, UNIT, self.store))
            return self.join_exits(ex)
        finally:
            self.loops.pop()

    def e_While(self, n, env, hint):
        s, pc, nl = dict(self.store), self.pc, self.nloc
        np, no = len(self.panics), len(self.obl)
        nr = [len(f.returns) for f in self.frames]
        e = Env(env)
        try:
            c, _ = self.cond(n["c"], e)
        except Dead:
            raise
        self.store, self.pc = dict(s), pc
        if c is True or c is False:
            try:
                return self.run_unrolled(n, env, n["c"])
            except AnalysisError as ex:
                if "symbolic bound" not in ex.msg:
                    raise
                self.store, self.pc = dict(s), pc
                del self.panics[np:]
                for f, k in zip(self.frames, nr):
                    del f.returns[k:]
        return self.summarise_while(n, env)

    def e_Loop(self, n, env, hint):
        s, pc = dict(self.store), self.pc
        np = len(self.panics)
        nr = [len(f.returns) for f in self.frames]
        lim, self.unroll_limit = self.unroll_limit, 200
        try:
            return self.run_unrolled(n, env, None)
        except AnalysisError as ex:
            if "bound exceeded" not in ex.msg and "symbolic bound" not in ex.msg:
                raise
            self.store, self.pc = dict(s), pc
            del self.panics[np:]
            for f, k in zip(self.frames, nr):
                del f.returns[k:]
        finally:
            self.unroll_limit = lim
        return self.summarise_while(n, env)

    # Summaries ---------------------------------------------------------------
    def summarise_for(self, n, it, env, byref):
        src = freeze(it)
        if isinstance(src, T) and src.op in ("m:iter", "m:into_iter", "m:iter_mut", "m:by_ref"):
            src = src.args[0]

        def enter(e):
            x = mkT("elem", (self.bind_depth, 0))
            x = self.elem_value(it, x)
            out = []
            c = self.bind(n["p"], x, e, out)
            self.declare(e, out)
            return True
        return self.summarise("for", src, enter, n, env)

    def elem_value(self, it, x):
        """abstract element of an iterator whose length is unknown"""
        if isinstance(it, RangeV):
            ty = (it.lo.ty if is_int(it.lo) else None) or (it.hi.ty if is_int(it.hi) else None) or "usize"
            return bv(mkT("int", (x,), PRIMS[ty]), ty)
        return self.B.elem(self, it, x)

    def summarise_while(self, n, env):
        def enter(e):
            if n["k"] == "Loop":
                return True
            c, binds = self.cond(n["c"], e)
            self.declare(e, binds)
            return c
        return self.summarise("while", ("loop",), enter, n, env)

    def summarise(self, kind, src, enter, n, env):
        self.bind_depth += 1
        try:
            s0, pc0 = self.store, self.pc
            changed = {}   # loc -> phi value
            for rnd in range(12):
                self.store = dict(s0)
                for l, v in changed.items():
                    self.store[l] = v
                self.pc = pc0
                fr = LoopFrame(n["label"])
                self.loops.append(fr)
                nret = [len(f.returns) for f in self.frames]
                npan, nobl = len(self.panics), len(self.obl)
                nbr = [(len(l.breaks), len(l.conts)) for l in self.loops[:-1]]
                live = True
                cond = True
                try:
                    e = Env(env)
                    cond = enter(e)
                    if cond is not True:
                        self.pc = and_(self.pc, cond)
                        if self.pc is False:
                            raise Dead()
                    self.eval(n["b"], e)
                except Dead:
                    live = False
                finally:
                    self.loops.pop()
                ex = list(fr.conts)
                if live:
                    ex.append((self.pc, UNIT, self.store))
                end = None
                if ex:
                    self.join_exits(ex)
                    end = self.store
                new = dict(changed)
                stores = [end] if end is not None else []
                stores += [b[2] for b in fr.breaks]
                for st in stores:
                    for l, v in s0.items():
                        cur = changed.get(l, v)
                        w = st.get(l, cur)
                        if w is not cur and not val_is(w, cur):
                            if l in changed and rnd < 8:
                                nv = self.widen(v, w, changed[l], l)
                            else:
                                nv = self.widen(v, w, None, l)
                            if l not in changed or not val_is(nv, changed[l]):
                                new[l] = nv
                stable = new.keys() == changed.keys() and all(val_is(new[k], changed[k]) for k in new)
                if stable:
                    break
                # discard effects of this exploratory round
                for f, k in zip(self.frames, nret):
                    del f.returns[k:]
                del self.panics[npan:]
                del self.obl[nobl:]
                for l, (b, c) in zip(self.loops, nbr):
                    del l.breaks[b:]
                    del l.conts[c:]
                changed = new
            else:
                raise AnalysisError(f"loop summary did not stabilise (line {n['ln']})")
            # final state of the last round
            cond = bdd.restrict(cond, pc0) if pc0 is not True else cond
            brk = [(bdd.restrict(b[0], pc0), b[1], b[2]) for b in fr.breaks]
            upd = {}
            for l in changed:
                init = s0[l]
                step = end.get(l, changed[l]) if end is not None else changed[l]
                bs = tuple((b[0], freeze(b[2].get(l, changed[l]))) for b in brk)
                upd[l] = (freeze(init), freeze(step), bs)
            names = {}
            for l in changed:
                for p in phis(changed[l]):
                    names[p] = l
            out = dict(s0)
            for l in changed:
                out[l] = self.mu_value(kind, src, cond, l, changed, upd, names, s0[l])
            # exits through return/outer break inside the body depend on the loop
            exits = False
            for f, k in zip(self.frames, nret):
                for i in range(k, len(f.returns)):
                    p, v, st = f.returns[i]
                    a = bdd.var(("exit", kind, src, bdd.restrict(p, pc0), tuple(sorted(((freeze(upd[l][1])) for l in upd), key=repr)) if False else 0))
                    st2 = dict(out)
                    for l, w in st.items():
                        if l not in changed and l in s0 and s0[l] is not w:
                            st2[l] = w
                    f.returns[i] = (and_(pc0, a), v, st2)
                    exits = or_(exits, a)
            for l_, (b, c) in zip(self.loops, nbr):
                for lst, k in ((l_.breaks, b), (l_.conts, c)):
                    for i in range(k, len(lst)):
                        p, v, st = lst[i]
                        a = bdd.var(("exit", kind, src, bdd.restrict(p, pc0), 0))
                        lst[i] = (and_(pc0, a), v, dict(out))
                        exits = or_(exits, a)
            self.store = out
            val = UNIT
            if n["k"] == "Loop":
                if not brk:
                    self.pc = False
                    raise Dead()
                val = UNIT if all(b[1] == UNIT for b in brk) else mkT("loopval", (kind, tuple((b[0], freeze(b[1])) for b in brk), tuple(sorted((upd[l][1] for l in upd), key=repr))))
            self.pc = and_(pc0, not_(exits))
            if self.pc is False:
                raise Dead()
            return val
        finally:
            self.bind_depth -= 1

    def widen(self, old, new, prev, loc, path=()):
        """phi value for a location changed by a loop body"""
        if val_is(old, new) and prev is None:
            return old
        if isinstance(old, StructV) and isinstance(new, StructV) and old.path == new.path and old.f.keys() == new.f.keys() \
                and (prev is None or isinstance(prev, StructV)):
            return StructV(old.path, {k: self.widen(x, new.f[k], prev.f[k] if prev else None, loc, path + (k,)) if not (val_is(x, new.f[k]) and (prev is None or val_is(prev.f[k], x))) else x for k, x in old.f.items()}, old.targs)
        if isinstance(old, tuple) and isinstance(new, tuple) and len(old) == len(new) and old and (prev is None or isinstance(prev, tuple)):
            return tuple(self.widen(x, y, prev[i] if prev else None, loc, path + (i,)) if not (val_is(x, y) and (prev is None or val_is(prev[i], x))) else x for i, (x, y) in enumerate(zip(old, new)))
        if isinstance(old, VecV) and isinstance(new, VecV) and len(old.xs) == len(new.xs) and (prev is None or isinstance(prev, VecV)) and len(old.xs) <= 64:
            return VecV(self.widen(x, y, prev.xs[i] if prev else None, loc, path + (i,)) if not (val_is(x, y) and (prev is None or val_is(prev.xs[i], x))) else x for i, (x, y) in enumerate(zip(old.xs, new.xs)))
        ty = None
        if is_int(old) or is_int(new):
            ty = (old.ty if is_int(old) else None) or (new.ty if is_int(new) else None) or "i32"
            return BV(mkT("phi", (loc, path, self.bind_depth), PRIMS[ty]), ty)
        if is_bool(old) and is_bool(new):
            return bdd.var(("phi", loc, path, self.bind_depth))
        if isinstance(old, RefV):
            return old
        return mkT("phi", (loc, path, self.bind_depth))

    def mu_value(self, kind, src, cond, loc, changed, upd, names, init):
        """closed, location-independent normal form of the value after the loop"""
        order = [loc]
        seen = {loc}
        i = 0
        deps = [cond] if cond is not True else []
        q = [loc]
        # DFS over dependencies for a canonical numbering
        num = {}

        def visit(l):
            if l in num:
                return
            num[l] = len(num)
            init_, step, bs = upd[l]
            for p in phi_list((cond if kind == "while" else (), step, bs)):
                if p[0] in upd:
                    visit(p[0])
        visit(loc)
        key = sorted(num, key=lambda l: num[l])

        def ren(t):
            return rename_phi(t, num)
        body = tuple((ren(upd[l][0]), ren(upd[l][1]), ren(upd[l][2])) for l in key)
        mu = mkT("mu", (kind, src, ren(cond) if kind == "while" else (), body))
        return self.mu_shape(changed[loc], mu, loc)

    def mu_shape(self, v, mu, loc, path=()):
        if isinstance(v, StructV):
            return StructV(v.path, {k: self.mu_shape(x, mu, loc, path + (k,)) for k, x in v.f.items()}, v.targs)
        if isinstance(v, tuple):
            return tuple(self.mu_shape(x, mu, loc, path + (i,)) for i, x in enumerate(v))
        if isinstance(v, VecV):
            return VecV(self.mu_shape(x, mu, loc, path + (i,)) for i, x in enumerate(v.xs))
        if isinstance(v, BV) and v.t.op == "phi" and v.t.args[0] == loc:
            return BV(mkT("muout", (mu, path), v.t.w), v.ty)
        if isinstance(v, T) and v.op == "phi" and v.args[0] == loc:
            return mkT("muout", (mu, path))
        if isinstance(v, bdd.B):
            s = [bdd.atom_of(x) for x in bdd.support(v)]
            if len(s) == 1 and s[0][0] == "phi" and s[0][1] == loc:
                return bdd.var(("muout", mu, path))
        return v

    # ------------------------------------------------------------------- macros
    def e_Macro(self, n, env, hint):
        m = n["m"]
        name = m["path"][-1]["id"]
        f = self.macros.get(name)
        if f is not None:
            r = f(self, m, env, hint, n)
            if r is not NotImplemented:
                return r
        d = env.find_item(name)
        if d is not None and d["k"] == "ItemMacro":
            pass
        else:
            d = self.P.find_macro(env.mod, name)
        if d is not None:
            import macros
            toks = macros.expand(d, m["toks"])
            if toks is not None:
                key = (id(m),)
                cache = getattr(self, "_mexp", None)
                if cache is None:
                    cache = self._mexp = {}
                if key not in cache:
                    import program
                    j = program.dump_source("fn __m() { " + toks + " }")
                    cache[key] = j["items"][0]["b"]
                return self.eval(cache[key], env, hint)
        self.err(f"macro {name}!", n, env)

    def e_Infer(self, n, env, hint):
        return mkT("infer", ())

    def e_EOther(self, n, env, hint):
        self.err("unsupported expression " + n["v"][:80], n, env)


OPNAMES = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "&": "bitand", "|": "bitor", "^": "bitxor", "<<": "shl", ">>": "shr"}
OPTRAITS = {"+": "Add", "-": "Sub", "*": "Mul", "/": "Div", "%": "Rem", "&": "BitAnd", "|": "BitOr", "^": "BitXor", "<<": "Shl", ">>": "Shr"}
OPNAMES_ASSIGN = {k + "=": v + "_assign" for k, v in OPNAMES.items()}


def flatten_and(c):
    if c["k"] == "Binary" and c["op"] == "&&":
        return flatten_and(c["l"]) + flatten_and(c["r"])
    return [c]


def pat_names(p):
    k = p["k"]
    if k == "PIdent":
        return [p["n"]] + (pat_names(p["sub"]) if p["sub"] else [])
    out = []
    for f in ("elems", "cases"):
        for x in p.get(f) or []:
            out += pat_names(x)
            if f == "cases":
                break
    for n, x in p.get("fields") or []:
        out += pat_names(x)
    if k in ("PRef", "PType"):
        out += pat_names(p["p"])
    return out


def phis(v, acc=None):
    acc = set() if acc is None else acc
    for p in phi_list(freeze(v)):
        acc.add(p)
    return acc


def phi_list(x):
    """phi keys (loc, path) in deterministic first-visit order"""
    out, seen, sb = [], set(), set()

    def bd(b):
        if isinstance(b, bool) or b.id in sb:
            return
        sb.add(b.id)
        a = bdd.atom_of(b.v)
        if a[0] == "phi":
            k = (a[1], a[2])
            if k not in seen:
                seen.add(k)
                out.append(k)
        else:
            go(a)
        bd(b.hi)
        bd(b.lo)

    def go(t):
        if isinstance(t, T):
            if ("t", t.id) in seen:
                return
            seen.add(("t", t.id))
            if t.op == "phi":
                k = (t.args[0], t.args[1])
                if k not in seen:
                    seen.add(k)
                    out.append(k)
                return
            for a in t.args:
                go(a)
        elif isinstance(t, tuple):
            for a in t:
                go(a)
        elif isinstance(t, bdd.B):
            bd(t)
    go(x)
    return out


def rename_phi(x, num):
    memo, bm = {}, {}

    def bd(b):
        if isinstance(b, bool):
            return b
        r = bm.get(b.id)
        if r is not None:
            return r
        a = bdd.atom_of(b.v)
        if a[0] == "phi" and a[1] in num:
            na = ("phi", ("#", num[a[1]]), a[2], a[3])
        else:
            na = tuple(go(y) for y in a)
        r = bdd.ite(bdd.var(na), bd(b.hi), bd(b.lo))
        bm[b.id] = r
        return r

    def go(t):
        if isinstance(t, T):
            if t.op == "phi":
                if t.args[0] in num:
                    return mkT("phi", (("#", num[t.args[0]]),) + t.args[1:], t.w)
                return t
            return terms.rebuild(t, go, bd, memo)
        if isinstance(t, tuple):
            return tuple(go(y) for y in t)
        if isinstance(t, bdd.B):
            return bd(t)
        return t
    return go(x)
