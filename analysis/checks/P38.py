"""Every serialised type writes all of its state in a form that reads back as the same value (serde, JSON), and guest and host
agree on the layout of every archived type (rkyv).  A type-level analysis of derive declarations and their attributes."""
from framework import rel
from program import PRIMS, AnalysisError, Mod, Program, eval_cfg

CRATES = ("mozak_sdk", "mozak_runner", "mozak_circuits", "mozak_node", "mozak_recproofs", "signatures", "expr", "mozak_cli")
FEATURES = ("std", 'feature="')
HOST = lambda s: eval_cfg(s, lambda a: a.startswith(FEATURES))
GUEST = lambda s: eval_cfg(s, lambda a: a.startswith(FEATURES) or a == 'target_os="mozakvm"')
HEX = {"SerHex": "str", "SerHexSeq": "str"}
STRICT = ("Strict", "StrictPfx", "StrictCap", "StrictCapPfx")
SEQ = ("Vec", "VecDeque", "HashSet", "BTreeSet", "LinkedList", "BinaryHeap", "Vector", "OrdSet", "AlignedVec")
MAPS = ("HashMap", "BTreeMap", "OrdMap", "IndexMap")
THROUGH = ("Box", "Rc", "Arc", "Cow", "Wrapping", "Reverse")
SHARED = ("RefCell", "Cell", "Mutex", "RwLock", "OnceCell", "PhantomData")
KEEP = ("Inline", "Boxed", "BoxedInline", "AsBox", "AsOwned", "AsString", "AsVec", "Identity", "CopyOptimize", "Niche", "Lock")


def split(s, sep=","):
    out, d, cur, q = [], 0, "", False
    for c in s:
        if c == '"':
            q = not q
        if not q:
            d += c in "([{<"
            d -= c in ")]}>"
            if c == sep and d == 0:
                out.append(cur)
                cur = ""
                continue
        cur += c
    return [x for x in out + [cur] if x]


def active(attrs, cfg):
    """the attributes in force, conditional ones resolved"""
    out = []
    for a in attrs or []:
        if a.startswith("cfg_attr("):
            parts = split(a[len("cfg_attr("):-1])
            if cfg(parts[0]):
                out += active(parts[1:], cfg)
        else:
            out.append(a)
    return out


def metas(attrs, name):
    """the items of every #[name(...)]"""
    return [x for a in attrs if a.startswith(name + "(") for x in split(a[len(name) + 1:-1])]


def derives(attrs):
    out = set()
    for x in metas(attrs, "derive"):
        out.add(tuple(x.split("::")))
    return out


class Types:
    def __init__(self, prog, cfg):
        self.P, self.cfg, self.forms = prog, cfg, {}
        self.all = [(it, m) for m in prog.mods.values() for xs in list(m.items.values()) for it in xs
                    if isinstance(it, dict) and it.get("k") in ("ItemStruct", "ItemEnum")]
        self.all.sort(key=lambda x: x[0]["path"])

    def leads(self, path, m):
        """the crate a derive name comes from"""
        if len(path) > 1:
            return path[0]
        for u in m.uses.get(path[0], []):
            return u[0]
        for g in m.globs:
            if g and g[0] in ("serde", "rkyv"):
                return g[0]
        return None

    def kinds(self, it, m):
        ds = derives(active(it["attrs"], self.cfg))
        got = set()
        for d in ds:
            if d[-1] in ("Serialize", "Deserialize", "Archive"):
                lead = self.leads(d, m) or ("rkyv" if d[-1] == "Archive" else "serde")
                got.add((("rkyv" if lead == "rkyv" else "serde"), d[-1]))
        return got


def variants(it, T):
    return [(None, it)] if it["k"] == "ItemStruct" else [(v["n"], v) for v in it["variants"] if T.cfg_ok(v)]


def serde_items(attrs):
    return metas(attrs, "serde")


def is_in(t, names):
    """does the type mention one of the names (at its head or inside smart pointers)?"""
    if t["k"] == "TPath":
        h = t["segs"][-1]
        return h["id"] in names or any(is_in(a, names) for a in (h.get("a") or []) if isinstance(a, dict) and h["id"] in THROUGH + ("Option",))
    return False


class Form:
    """the shape a value takes in a self-describing format"""

    def __init__(self, ty, ctx):
        self.T, self.ctx, self.busy = ty, ctx, {}

    def item(self, it, m):
        key = it["path"]
        if key not in self.busy:
            self.busy[key] = "any"
            self.busy[key] = self._item(it, m)
        return self.busy[key]

    def _item(self, it, m):
        at = active(it["attrs"], self.T.cfg)
        if ("serde", "Serialize") not in self.T.kinds(it, m):
            return "any"
        if it["k"] == "ItemEnum":
            return "str" if all(v["fields"]["s"] == "unit" for _, v in variants(it, self.T)) else "map"
        fs = [f for f in it["fields"]["f"] if not self.skipped(f) and self.T.cfg_ok(f)]
        if it["fields"]["s"] == "unit":
            return "unit"
        if "transparent" in serde_items(at) and len(fs) == 1 or it["fields"]["s"] == "tuple" and len(it["fields"]["f"]) == 1 and fs:
            return self.field(fs[0], m, [p["n"] for p in it["gen"]["params"]])
        return "seq" if it["fields"]["s"] == "tuple" else "map"

    def skipped(self, f):
        s = serde_items(active(f["attrs"], self.T.cfg))
        return any(x in ("skip", "skip_serializing", "skip_deserializing") for x in s)

    def field(self, f, m, gen):
        for x in serde_items(active(f["attrs"], self.T.cfg)):
            if x.startswith("with="):
                w = x[5:].strip('"')
                h = [x for x in w.partition("<")[0].split("::") if x]
                h = self.T.P.ext_path(m, h)[-1] if h else ""
                return HEX.get(h, "seq" if h == "BigArray" else "any")
        return self.ty(f["ty"], m, gen)

    def ty(self, t, m, gen):
        k = t["k"]
        if k == "TTuple":
            return "seq" if t["elems"] else "unit"
        if k in ("TArray", "TSlice"):
            return "seq"
        if k == "TRef":
            return self.ty(t["ty"], m, gen)
        if k != "TPath" or t.get("qself"):
            return "any"
        h, args = t["segs"][-1]["id"], [a for a in (t["segs"][-1].get("a") or []) if isinstance(a, dict) and a.get("k", "").startswith("T")]
        if len(t["segs"]) == 1 and h in gen:
            return "any"
        d = self.T.P.lookup(m, [x["id"] for x in t["segs"]])
        if isinstance(d, dict) and d["k"] in ("ItemStruct", "ItemEnum"):
            return self.item(d, d["mod"])
        if isinstance(d, dict) and d["k"] == "ItemType":
            return self.ty(d["ty"], d["mod"], [p["n"] for p in d["gen"]["params"]])
        if h in PRIMS:
            return "int"
        if h in ("f32", "f64"):
            return "float"
        if h in ("String", "str", "char"):
            return "str"
        if h == "bool":
            return "bool"
        if h == "PhantomData":
            return "unit"
        if h in THROUGH and args:
            return self.ty(args[-1], m, gen)
        if h == "Option" and args:
            return "opt:" + self.ty(args[0], m, gen)
        if h == "Result":
            return "map"
        if h in SEQ:
            return "seq"
        if h in MAPS:
            return "map"
        return "any"

    def inside(self, t, m, gen, out):
        """every type written inside a field's type"""
        if not isinstance(t, dict):
            return
        out.append(t)
        k = t.get("k")
        if k == "TTuple":
            for e in t["elems"]:
                self.inside(e, m, gen, out)
        elif k in ("TArray", "TSlice", "TRef"):
            self.inside(t["ty"], m, gen, out)
        elif k == "TPath":
            for s in t["segs"]:
                for a in s.get("a") or []:
                    if isinstance(a, dict) and str(a.get("k", "")).startswith("T"):
                        self.inside(a, m, gen, out)


def text(t, T, m, gen=()):
    """a type, its names resolved (so that guest and host can be compared)"""
    k = t["k"]
    if k == "TTuple":
        return "(" + ",".join(text(e, T, m, gen) for e in t["elems"]) + ")"
    if k == "TArray":
        return "[" + text(t["ty"], T, m, gen) + ";" + expr(t["len"], T, m) + "]"
    if k in ("TSlice", "TRef"):
        return k + text(t["ty"], T, m, gen)
    if k != "TPath":
        return k
    d = T.P.lookup(m, [x["id"] for x in t["segs"]])
    if isinstance(d, dict) and d["k"] == "ItemType":
        return text(d["ty"], T, d["mod"], gen)
    n = "::".join(d["path"]) if isinstance(d, dict) and d.get("path") else t["segs"][-1]["id"]
    args = [text(a, T, m, gen) for a in (t["segs"][-1].get("a") or []) if isinstance(a, dict) and str(a.get("k", "")).startswith("T")]
    return n + ("<" + ",".join(args) + ">" if args else "")


def expr(e, T, m, depth=0):
    """a length: a literal, or the constant it names"""
    if e["k"] == "Lit":
        return str(e["v"])
    if e["k"] == "Path" and depth < 5:
        segs = [x["id"] for x in e["segs"]]
        d = T.P.lookup(m, segs, want="value")
        if isinstance(d, dict) and d["k"] == "ItemConst":
            return expr(d["e"], T, d["mod"], depth + 1)
        return "::".join(segs[-1:])
    import json
    return json.dumps({k: v for k, v in e.items() if k != "ln"}, sort_keys=True, default=str)[:200]


def check_serde(ctx, T, F, it, m):
    name = "::".join(it["path"])
    where = f"{rel(m.file)}:{it.get('ln', '?')}"
    gen = [p["n"] for p in it["gen"]["params"]]
    at = serde_items(active(it["attrs"], T.cfg))
    key = "serde:" + name
    ok_container = ("bound", "crate", "deny_unknown_fields", "rename_all", "rename", "default", "transparent", "expecting", "tag", "content", "rename_all_fields")
    for x in at:
        n = x.split("=")[0].split("(")[0]
        sym = not ("(" in x and n.startswith("rename") and len(set(y.split("=", 1)[-1] for y in split(x[x.index("(") + 1:-1]))) > 1)
        ctx.ob(f"{key}:container:{n}", n in ok_container and sym, "how a type is written is how it is read", where, x)
    final = {}
    for vn, v in variants(it, T):
        vat = serde_items(active(v["attrs"], T.cfg)) if vn else []
        if vn:
            check_names(ctx, key, where, vn, vat, final, "variant")
            for x in vat:
                n = x.split("=")[0].split("(")[0]
                ctx.ob(f"{key}:{vn}:{n}", n in ("rename", "alias", "bound", "rename_all", "deserialize_with", "serialize_with") and n not in ("deserialize_with", "serialize_with"),
                       "every variant of a serialised type can be written and read back", where, x)
        fin = {}
        fs = v["fields"]["f"]
        for i, f in enumerate(fs):
            if not T.cfg_ok(f):
                continue
            fn = f.get("n") or str(i)
            label = f"{vn}.{fn}" if vn else fn
            fa = serde_items(active(f["attrs"], T.cfg))
            check_names(ctx, key, where, fn, fa, fin, "field")
            shared = is_in(f["ty"], SHARED) or is_in(resolve(f["ty"], T, m), SHARED)
            for x in fa:
                n, _, val = x.partition("=")
                n = n.split("(")[0]
                val = val.strip('"')
                if n in ("skip", "skip_serializing", "skip_deserializing"):
                    ok = shared and (n == "skip" or {"skip_serializing", "skip_deserializing"} <= set(fa))
                elif n == "with":
                    ok = with_ok(val, T, m)
                elif n in ("rename", "alias", "bound", "default", "borrow"):
                    ok = True
                elif n == "skip_serializing_if":
                    h = f["ty"]["segs"][-1]["id"] if f["ty"]["k"] == "TPath" else ""
                    ok = (val.split("::")[-1], h) in (("is_none", "Option"),) or val.split("::")[-1] == "is_empty" and "default" in fa and h in SEQ + MAPS + ("String",)
                else:
                    ok = False
                ctx.ob(f"{key}:{label}:{n}", ok, "every field of a serialised type is written and read back in the same form", where,
                       f"#[serde({x})] on {label}: {'not written or not read back' if 'skip' in n else 'not a form known to read back as what was written'}")
            ctx.ob(f"{key}:{label}", True, "field written and read back", where)
            if any(x.startswith(("with=", "skip")) and not x.startswith("skip_serializing_if") for x in fa):
                continue
            parts = []
            F.inside(f["ty"], m, gen, parts)
            for t in parts:
                if t.get("k") != "TPath":
                    continue
                h = t["segs"][-1]["id"]
                args = [a for a in (t["segs"][-1].get("a") or []) if isinstance(a, dict) and str(a.get("k", "")).startswith("T")]
                if h in MAPS and args:
                    kf = F.ty(args[0], m, gen)
                    ctx.ob(f"{key}:{label}:map key", kf in ("str", "int", "bool", "any"), "the keys of a written map are strings or numbers (JSON has no others)", where,
                           f"{label}: keys are written as {kf}")
                elif h == "Option" and args:
                    of = F.ty(args[0], m, gen)
                    ctx.ob(f"{key}:{label}:option", not of.startswith("opt:") and of != "unit", "an absent value cannot be mistaken for a present one", where, f"{label}: an option of {of}")
                elif h in ("f32", "f64"):
                    ctx.fail(f"{key}:{label}:float", "every value of a written number reads back", where, "infinities and NaN are written as null")


def check_names(ctx, key, where, n, attrs, taken, what):
    wr = rd = n
    for x in attrs:
        if x.startswith("rename="):
            wr = rd = x[7:].strip('"')
        elif x.startswith("rename("):
            for y in split(x[7:-1]):
                a, _, b = y.partition("=")
                if a == "serialize":
                    wr = b.strip('"')
                elif a == "deserialize":
                    rd = b.strip('"')
    al = {x[6:].strip('"') for x in attrs if x.startswith("alias=")}
    ctx.ob(f"{key}:name:{n}", wr == rd or wr in al, f"a {what} is read under the name it is written under", where, f"{n}: written as {wr}, read as {rd}")
    for x in {wr, rd} | al:
        ctx.ob(f"{key}:name:{n}:{x}", taken.get(x, n) == n, f"no two {what}s share a name", where, f"{n} and {taken.get(x)} are both called {x}")
        taken[x] = n


def with_ok(w, T, m):
    def last(p):
        p = [x for x in p.strip(":").split("::") if x]
        return T.P.ext_path(m, p)[-1] if p else ""
    head, _, arg = w.partition("<")
    if last(head) in HEX:
        return last(arg.rstrip(">")) in STRICT
    return last(head) in ("BigArray", "serde_bytes", "hex")


def resolve(t, T, m):
    if t["k"] == "TPath":
        d = T.P.lookup(m, [x["id"] for x in t["segs"]])
        if isinstance(d, dict) and d["k"] == "ItemType":
            return resolve(d["ty"], T, d["mod"])
    return t


def check_rkyv(ctx, T, it, m):
    name = "::".join(it["path"])
    where = f"{rel(m.file)}:{it.get('ln', '?')}"
    for vn, v in variants(it, T):
        for i, f in enumerate(v["fields"]["f"]):
            if not T.cfg_ok(f):
                continue
            fn = (vn + "." if vn else "") + (f.get("n") or str(i))
            fa = active(f["attrs"], T.cfg)
            ws = metas(fa, "with") + [x.partition("=")[2].strip('"') for x in metas(fa, "rkyv") if x.startswith("with=")]
            bad = [w for w in ws if w.replace("::<", "<").split("<")[0].split("::")[-1] not in KEEP]
            ctx.ob(f"rkyv:{name}:{fn}", not bad, "every field of an archived type is in the archive, as itself", where, f"{fn} is archived through {bad}")


def layout(T, it, m):
    out = []
    at = active(it["attrs"], T.cfg)
    for vn, v in variants(it, T):
        fs = [(f.get("n") or str(i), text(f["ty"], T, m), sorted(metas(active(f["attrs"], T.cfg), "with")))
              for i, f in enumerate(v["fields"]["f"]) if T.cfg_ok(f)]
        out.append((vn, expr(v["d"], T, m) if vn and v.get("d") else None, fs))
    return sorted(x for x in at if x.startswith(("repr(", "archive(as", "rkyv(as", "archive(with"))), out


def manual(T):
    """hand-written halves of a serialisation"""
    for m in T.P.mods.values():
        for it in m.items.get("\0impls", []):
            tr = it.get("trait")
            if not tr:
                continue
            segs = tr if isinstance(tr, list) else tr.get("segs") or tr.get("path") or []
            n = segs[-1]["id"] if segs and isinstance(segs[-1], dict) else None
            if n in ("Serialize", "Deserialize", "Archive", "SerializeWith", "DeserializeWith", "ArchiveWith"):
                h = T.P.type_head(it["ty"], m, [p["n"] for p in it["gen"]["params"]])
                if isinstance(h, tuple):
                    yield n, h, it, m


def run(ctx):
    ctx.rule = ("for every type deriving both halves of a serialisation: each field written and read under one name in one form, none left out but shared run-time "
                "cells; forms JSON can hold; for every archived type: nothing left out, and the same layout under the host's and the guest's configuration")
    ctx.assumptions = ["serde, serde_json, serde-hex, serde-big-array and rkyv derive what their attributes say",
                       "types of other crates (plonky2's proofs) read back as written"]
    ctx.trusted = ["astdump (syn 2 parser) and name resolution in /verif/analysis", "the list of serde and rkyv attributes that keep a value"]
    hosts = None
    with ctx.group("host"):
        P = Program([c for c in CRATES], cfg=HOST)
        hosts = T = Types(P, HOST)
        T.cfg_ok = lambda f: P.ok(f["attrs"])
        F = Form(T, ctx)
        both = arch = 0
        for it, m in T.all:
            k = T.kinds(it, m)
            if {("serde", "Serialize"), ("serde", "Deserialize")} <= k:
                both += 1
                ctx.functions.add("type " + "::".join(it["path"]))
                check_serde(ctx, T, F, it, m)
            if ("rkyv", "Archive") in k:
                arch += 1
                ctx.functions.add("type " + "::".join(it["path"]))
                check_rkyv(ctx, T, it, m)
        for n, h, it, m in manual(T):
            ctx.fail(f"manual:{n}:{'::'.join(h)}", "what is written reads back as the same value", f"{rel(m.file)}:{it.get('ln', '?')}", f"hand-written {n} of {h[-1]}: not decided")
        ctx.floor("types written and read back", both, 20)
        ctx.floor("archived types", arch, 9)
    with ctx.group("guest"):
        P2 = Program(["mozak_sdk"], cfg=GUEST)
        G = Types(P2, GUEST)
        G.cfg_ok = lambda f: P2.ok(f["attrs"])
        ours = {it["path"]: (it, m) for it, m in hosts.all}
        n = 0
        for it, m in G.all:
            if ("rkyv", "Archive") not in G.kinds(it, m):
                continue
            n += 1
            check_rkyv(ctx, G, it, m)
            nm = "::".join(it["path"])
            h = ours.get(it["path"])
            ctx.ob(f"layout:{nm}:host", h is not None and ("rkyv", "Archive") in hosts.kinds(*h), "what the guest reads is a type the host archives", rel(m.file))
            if h:
                a, b = layout(G, it, m), layout(hosts, *h)
                ctx.ob(f"layout:{nm}", a == b, "guest and host give an archived type the same layout", f"{rel(m.file)}:{it.get('ln', '?')}", f"guest {a} host {b}"[:600])
        ctx.floor("archived types of the guest", n, 9)
