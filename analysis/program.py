"""Loads Rust sources through astdump and indexes items, modules and impls."""
import json
import os
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisError(Exception):
    """The analyser met something it cannot model (fail closed)."""

    def __init__(self, msg, node=None, file=None):
        self.msg, self.node, self.file = msg, node, file
        super().__init__(msg)


def astdump_bin():
    d = os.path.join(VERIF, "astdump")
    b = os.path.join(d, "target", "release", "astdump")
    src = os.path.join(d, "src", "main.rs")
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(src):
        env = dict(os.environ, CARGO_NET_OFFLINE="true")
        env.pop("RUSTUP_TOOLCHAIN", None)
        env.pop("CARGO_TARGET_DIR", None)
        subprocess.run(["cargo", "+stable", "build", "--release", "--offline", "--locked", "-q"], cwd=d, env=env, check=True)
    return b


def dump(files):
    p = subprocess.run([astdump_bin()] + list(files), capture_output=True, text=True)
    out = []
    for line in p.stdout.splitlines():
        j = json.loads(line)
        if "error" in j:
            raise AnalysisError(f"cannot parse {j['file']}: {j['error']}")
        out.append(j)
    if p.returncode not in (0, 3):
        raise AnalysisError(f"astdump failed: {p.stderr[-300:]}")
    return out


def dump_source(text):
    with tempfile.NamedTemporaryFile("w", suffix=".rs", delete=False) as f:
        f.write(text)
    try:
        return dump([f.name])[0]
    finally:
        os.unlink(f.name)


def type_text(t):
    """source text of a path type"""
    if t["k"] != "TPath":
        raise AnalysisError("only path types can be proving tables")
    return "::".join(x["id"] + ("<" + ", ".join(type_text(a) for a in x["a"]) + ">" if x["a"] else "") for x in t["segs"])


class Mod:
    def __init__(self, path, file):
        self.path, self.file = path, file
        self.items = {}      # name -> [item node] (types, values share)
        self.uses = {}       # alias -> path list
        self.local_globs = []   # glob imports of an enclosing block: they shadow the module's own names
        self.globs = []
        self.macros = {}
        self.itemmacros = []

    def __repr__(self):
        return "::".join(self.path)


class Impl:
    __slots__ = ("node", "mod", "trait", "fns", "consts", "types", "gen", "head", "args", "self_node")


CRATES = {
    "mozak_runner": "runner/src",
    "mozak_sdk": "sdk/src",
    "mozak_circuits": "circuits/src",
    "mozak_recproofs": "recproofs/src",
    "expr": "expr/src",
    "mozak_node": "node/src",
    "mozak_cli": "cli/src",
    "mozak_circuits_derive": "circuits/derive/src",
    "signatures": "signatures/src",
}
PRIMS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
         "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


class Impls(dict):
    """the impls of a type, by any path it is known under"""

    def __init__(self, prog):
        self.prog = prog

    def __missing__(self, head):
        d = self.prog.lookup_abs(head) if isinstance(head, tuple) and len(head) > 1 else None
        if isinstance(d, dict) and d.get("path") != head and d.get("k") in ("ItemStruct", "ItemEnum") and d.get("path") in self:
            return self[d["path"]]
        raise KeyError(head)

    def get(self, head, default=None):
        try:
            return self[head]
        except KeyError:
            return default


class Program:
    def __init__(self, crates=None, cfg=None, extra_files=None):
        """crates: names to load; cfg: function(str)->bool for cfg predicates."""
        self.mods = {}
        self.impls = Impls(self)      # head -> [Impl]
        self.files = []
        self.cfg = cfg or default_cfg
        self.crates = {}
        self.functions = 0
        self.adt_names = {}
        self._reexp = {}
        todo = []
        for c in crates or []:
            root = os.path.join(REPO, CRATES[c])
            if not os.path.isdir(root):
                raise AnalysisError(f"crate source directory missing: {root}")
            for dp, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith(".rs"):
                        todo.append((c, root, os.path.join(dp, f)))
        for c, root, f in (extra_files or []):
            todo.append((c, root, f))
        js = dump([t[2] for t in todo])
        for (c, root, f), j in zip(todo, js):
            rel = os.path.relpath(f, root)[:-3].split(os.sep)
            if rel[-1] in ("mod", "lib", "main") and (rel[-1] == "mod" or len(rel) == 1):
                rel = rel[:-1]
            path = (c,) + tuple(rel)
            self.files.append(f)
            self._load(path, f, j["items"])
        self._cfg_prune_mods()
        self._expand()
        self._index_impls()
        import values
        values.CANON.clear()
        values.CANON.prog = self

    # ------------------------------------------------------------ load items
    def ok(self, attrs):
        for a in attrs or []:
            if a.startswith("cfg(") and not self.cfg(a[4:-1]):
                return False
            if a == "test":
                return False
        return True

    def _load(self, path, file, items):
        m = self.mods.get(path)
        if m is None:
            m = self.mods[path] = Mod(path, file)
        for it in items:
            self._item(m, it)

    def _item(self, m, it):
        k = it["k"]
        if not self.ok(it.get("attrs")):
            if k == "ItemMod" and it.get("items") is None:
                m.items.setdefault("\0dead:" + it["n"], []).append(it)
            return
        it["mod"] = m
        if k == "ItemUse":
            for u in it["uses"]:
                if u["as"] == "*":
                    m.globs.append(u["path"])
                elif u["as"] != "_":
                    m.uses.setdefault(u["as"], []).append(u["path"])
        elif k == "ItemMod":
            if it["items"] is not None:
                self._load(m.path + (it["n"],), m.file, it["items"])
            m.items.setdefault(it["n"], []).append(it)
        elif k == "ItemImpl":
            m.items.setdefault("\0impls", []).append(it)
        elif k == "ItemMacro":
            nm = it["m"]["path"][-1]["id"]
            if nm == "macro_rules" and it.get("n"):
                m.macros[it["n"]] = it
            else:
                m.itemmacros.append(it)
        elif k == "ItemForeign":
            for f in it["items"]:
                if f["k"] == "Fn":
                    f["mod"] = m
                    f["foreign"] = True
                    m.items.setdefault(f["n"], []).append(f)
        elif "n" in it and it["n"]:
            m.items.setdefault(it["n"], []).append(it)
            if k in ("ItemStruct", "ItemEnum"):
                it["path"] = m.path + (it["n"],)
                self.adt_names.setdefault(it["n"], []).append(it)
            if k == "ItemTrait":
                it["path"] = m.path + (it["n"],)
                for f in it["items"]:
                    f["mod"] = m
                    f["trait"] = it
                    if f.get("n"):
                        f["path"] = it["path"] + (f["n"],)
            if k == "Fn":
                it["path"] = m.path + (it["n"],)

    def _cfg_prune_mods(self):
        dead = []
        for p, m in self.mods.items():
            for n in m.items:
                if n.startswith("\0dead:") and n[6:] not in m.items:
                    dead.append(p + (n[6:],))
        for d in dead:
            for p in [p for p in self.mods if p[:len(d)] == d]:
                del self.mods[p]

    # ------------------------------------------------------- macro_rules items
    def find_macro(self, m, name):
        p = m.path
        for q in ([p[:i] for i in range(len(p), 0, -1)]):
            mm = self.mods.get(q)
            if mm and name in mm.macros:
                return mm.macros[name]
        if name in m.uses:
            for u in m.uses[name]:
                base = self.abs_path(m, u)
                if base:
                    mm = self.mods.get(base[:-1])
                    if mm and base[-1] in mm.macros:
                        return mm.macros[base[-1]]
        c = [x.macros[name] for x in self.mods.values() if name in x.macros]
        return c[0] if len(c) == 1 else None

    def abs_path(self, m, segs):
        segs = list(segs)
        if not segs:
            return None
        if segs[0] == "crate" or segs[0] == "$crate":
            return (m.path[0],) + tuple(segs[1:])
        if segs[0] == "self":
            return m.path + tuple(segs[1:])
        if segs[0] == "super":
            p = m.path
            while segs and segs[0] == "super":
                p = p[:-1]
                segs = segs[1:]
            return p + tuple(segs)
        if segs[0] in CRATES:
            return tuple(segs)
        return None

    def _expand(self):
        import macros
        for rounds in range(4):
            texts, owners = [], []
            for m in list(self.mods.values()):
                pend, m.itemmacros = m.itemmacros, []
                for it in pend:
                    nm = it["m"]["path"][-1]["id"]
                    d = self.find_macro(m, nm)
                    if d is None and nm == "tt_call":
                        t = self._stark_set(m, it["m"]["toks"])
                        if t is not None:
                            texts.append(t)
                            owners.append((m, nm))
                            continue
                    if d is None and nm == "bitfield":
                        t = macros.bitfield(it["m"]["toks"])
                        texts.append(t)
                        owners.append((m, nm))
                        continue
                    if d is None:
                        m.items.setdefault("\0macro:" + nm, []).append(it)
                        continue
                    t = macros.expand(d, it["m"]["toks"])
                    if t is None:
                        m.items.setdefault("\0macro:" + nm, []).append(it)
                        continue
                    texts.append(t)
                    owners.append((m, nm))
            if not texts:
                return
            with tempfile.TemporaryDirectory() as td:
                fs = []
                for i, t in enumerate(texts):
                    p = os.path.join(td, f"{i}.rs")
                    open(p, "w").write(t)
                    fs.append(p)
                try:
                    js = dump(fs)
                except AnalysisError as e:
                    raise AnalysisError(f"macro expansion does not parse: {e}")
            for (m, nm), j in zip(owners, js):
                for it in j["items"]:
                    self._mark(it, nm)
                    self._item(m, it)

    def _stark_set(self, m, toks):
        """derive(StarkSet): the tagged fields of the struct, in declaration order, handed to the helper macro"""
        import macros
        import re
        txt = macros.render(toks)
        r = re.match(r"\s*macro\s*=\s*\[\s*\{\s*(\w+)\s*\}\s*\]\s*~~>\s*(\w+)\s*$", txt)
        if not r:
            return None
        for xs in m.items.values():
            for d in xs:
                if d.get("k") == "ItemStruct" and any(a.replace(" ", "") == f'StarkSet(macro_name="{r[1]}")' for a in d.get("attrs") or []):
                    fs = []
                    for f in d["fields"]["f"]:
                        k = [re.match(r'StarkSet\(stark_kind="(\w+)"\)$', a.replace(" ", "")) for a in f.get("attrs") or []]
                        k = [x[1] for x in k if x]
                        if k:
                            fs.append((k[0], f["n"], type_text(f["ty"])))
                    j = " ".join
                    src = (f"kind_names = [{{ {j(k for k, _, _ in fs)} }}] kind_vals = [{{ {j(str(i) for i in range(len(fs)))} }}] count = [{{ {len(fs)} }}] "
                           f"tys = [{{ {j(t for _, _, t in fs)} }}] fields = [{{ {j(n for _, n, _ in fs)} }}]")
                    d2 = self.find_macro(m, r[2])
                    ts = dump_source("__m! { " + src + " }")["items"][0]["m"]["toks"]
                    return macros.expand(d2, ts) if d2 else None
        return None

    def _mark(self, it, nm):
        it["from_macro"] = nm

    # ----------------------------------------------------------------- impls
    def _index_impls(self):
        for m in self.mods.values():
            for it in m.items.get("\0impls", []):
                im = Impl()
                im.node, im.mod, im.trait = it, m, it["trait"]
                im.gen = [p["n"] for p in it["gen"]["params"] if p["g"] != "life"]
                t = it["ty"]
                while t["k"] == "TRef":
                    t = t["ty"]
                im.self_node = t
                im.head = self.type_head(t, m, im.gen)
                im.args = t["segs"][-1]["a"] if t["k"] == "TPath" else None
                im.fns, im.consts, im.types = {}, {}, {}
                for x in it["items"]:
                    if not self.ok(x.get("attrs")):
                        continue
                    x["mod"] = m
                    x["impl"] = im
                    if x["k"] == "Fn":
                        im.fns[x["n"]] = x
                        x["path"] = m.path + (str(im.head[-1] if isinstance(im.head, tuple) else im.head), x["n"])
                    elif x["k"] == "ItemConst":
                        im.consts[x["n"]] = x
                    elif x["k"] == "ItemType":
                        im.types[x["n"]] = x
                self.impls.setdefault(im.head, []).append(im)

    def type_head(self, t, m, gen=()):
        """ADT path tuple, primitive name, '[]', '()' or '*' (generic)."""
        k = t["k"]
        if k == "TRef":
            return self.type_head(t["ty"], m, gen)
        if k in ("TArray", "TSlice"):
            return "[]"
        if k == "TTuple":
            return "()"
        if k == "TPath":
            s = t["segs"]
            if len(s) == 1 and s[0]["id"] in gen:
                return "*"
            if t.get("qself"):
                return "?"
            d = self.lookup(m, [x["id"] for x in s])
            if d is not None and isinstance(d, dict):
                if d["k"] in ("ItemStruct", "ItemEnum"):
                    return d["path"]
                if d["k"] == "ItemType":
                    return self.type_head(d["ty"], d["mod"], [p["n"] for p in d["gen"]["params"]])
                if d["k"] == "ItemTrait":
                    return d["path"]
            return s[-1]["id"]
        return "?"

    # ------------------------------------------------------------ resolution
    def lookup(self, m, segs, seen=None, want=None):
        """Resolve a path of identifiers from module m to an item node or Mod.
        Returns None when it is external/unknown."""
        seen = seen or set()
        key = (m.path, tuple(segs), want)
        if key in seen:
            return None
        seen = seen | {key}
        segs = list(segs)
        a = self.abs_path(m, segs)
        if a is not None:
            return self.lookup_abs(a, seen, want)
        r = self._in_mod(m, segs[0], seen, want if len(segs) == 1 else "scope")
        if r is None:
            return None
        return self._walk(r, segs[1:], seen, want)

    def lookup_abs(self, p, seen=None, want=None):
        # longest module prefix
        for i in range(len(p), 0, -1):
            mm = self.mods.get(tuple(p[:i]))
            if mm is not None:
                if i == len(p):
                    # maybe an item with the same name in the parent (fn vs mod)
                    if want == "value" and i > 1:
                        par = self.mods.get(tuple(p[:i - 1]))
                        if par:
                            r = self._in_mod(par, p[-1], seen or set(), "value")
                            if r is not None:
                                return r
                    return mm
                r = self._in_mod(mm, p[i], seen or set(), want if i + 1 == len(p) else "scope")
                return self._walk(r, p[i + 1:], seen or set(), want) if r is not None else None
        return None

    def _walk(self, r, rest, seen, want):
        for i, s in enumerate(rest):
            if isinstance(r, Mod):
                r = self._in_mod(r, s, seen, want if i + 1 == len(rest) else "scope")
            else:
                return ("assoc", r, list(rest[i:]))
            if r is None:
                return None
        return r

    def _in_mod(self, m, name, seen, want=None):
        for g in m.local_globs:
            if g[-1] == name:
                continue
            a = self.abs_path(m, g)
            t = self.lookup_abs(a, seen) if a else (self.lookup(m, g, seen) if len(g) else None)
            if isinstance(t, dict) and t["k"] == "ItemEnum" and any(v["n"] == name for v in t["variants"]):
                return ("assoc", t, [name])
        c = [x for x in m.items.get(name, [])]
        if c:
            def rank(x):
                k = x["k"]
                if want == "value":
                    return {"Fn": 0, "ItemConst": 0, "ItemStatic": 0, "ItemStruct": 1}.get(k, 2)
                if want == "scope":
                    return {"ItemMod": 0, "ItemEnum": 0, "ItemStruct": 0, "ItemTrait": 0, "ItemType": 0}.get(k, 2)
                return {"ItemStruct": 0, "ItemEnum": 0, "ItemTrait": 0, "ItemType": 0}.get(k, 1)
            x = sorted(c, key=rank)[0]
            if x["k"] == "ItemMod":
                return self.mods.get(m.path + (name,))
            return x
        sub = self.mods.get(m.path + (name,))
        if sub is not None:
            return sub
        if name in m.uses:
            best = None
            for u in m.uses[name]:
                a = self.abs_path(m, u)
                if a is not None:
                    r = self.lookup_abs(a, seen, want)
                elif u and u[0] == name and len(u) == 1:
                    r = None
                else:
                    r = self.lookup(m, u, seen, want)
                if r is not None:
                    best = r
                    if not (want == "value" and isinstance(r, Mod)):
                        return r
            if best is not None:
                return best
        for g in m.globs:
            a = self.abs_path(m, g)
            t = self.lookup_abs(a, seen) if a else (self.lookup(m, g, seen) if len(g) else None)
            if isinstance(t, Mod) and t is not m:
                key = (t.path, name, "glob")
                if key in seen:
                    continue
                seen = seen | {key}
                r = self._in_mod(t, name, seen, want)
                if r is not None:
                    return r
            elif isinstance(t, dict) and t["k"] == "ItemEnum":
                for v in t["variants"]:
                    if v["n"] == name:
                        return ("assoc", t, [name])
        return None

    def reexports(self, path):
        """the names a function of a submodule also has in the modules above it, in full and as module::function"""
        if path not in self._reexp:
            out = []
            n = path[-1]
            for k in range(len(path) - 2, 0, -1):
                mm = self.mods.get(path[:k])
                if mm is not None and (n in mm.uses or mm.globs) and not mm.items.get(n):
                    d = self._in_mod(mm, n, set(), "value")
                    if isinstance(d, dict) and d.get("path") == path:
                        out += ["::".join(path[:k] + (n,)), f"{path[k - 1]}::{n}"]
            self._reexp[path] = out
        return self._reexp[path]

    def ext_path(self, m, segs, depth=0):
        """Path after following `use` aliases out of the repository."""
        if segs and depth < 8:
            u = m.uses[segs[0]][0] if segs[0] in m.uses else None
            if u is not None and u[0] not in ("crate", "self", "super") and u[0] not in CRATES:
                if len(u) > 1 or u[0] == segs[0]:
                    return tuple(u) + tuple(segs[1:])
                u = None
            p = self.abs_path(m, u if u is not None else segs[:-1] if len(segs) > 1 else [])
            if u is None and p:
                p = tuple(p) + (segs[-1],)
            mm = self.mods.get(tuple(p[:-1])) if p else None
            if mm is not None and p[-1] in mm.uses and (mm is not m or u is not None):
                return self.ext_path(mm, [p[-1]] + (list(segs[1:]) if u is not None else []), depth + 1)
        return tuple(segs)

    def fn(self, path):
        """Item by absolute path string 'crate::mod::name' or 'crate::mod::Type::name'."""
        p = tuple(path.split("::"))
        r = self.lookup_abs(p, want="value")
        if isinstance(r, tuple) and r[0] == "assoc":
            d = r[1]
            for im in self.impls.get(d.get("path"), []):
                if r[2][0] in im.fns:
                    return im.fns[r[2][0]]
            if d["k"] == "ItemTrait":
                for f in d["items"]:
                    if f.get("n") == r[2][0]:
                        return f
            return None
        if isinstance(r, dict):
            return r
        return None


def default_cfg(s):
    return eval_cfg(s, lambda a: a in ("std",) or a.startswith("feature=\"std\"") or False)


def eval_cfg(s, atom):
    s = s.strip()
    for op in ("not", "all", "any"):
        if s.startswith(op + "("):
            inner = s[len(op) + 1:-1]
            parts, d, cur = [], 0, ""
            for ch in inner:
                if ch == "," and d == 0:
                    parts.append(cur)
                    cur = ""
                    continue
                d += ch == "("
                d -= ch == ")"
                cur += ch
            if cur.strip():
                parts.append(cur)
            vs = [eval_cfg(p, atom) for p in parts]
            return (not vs[0]) if op == "not" else all(vs) if op == "all" else any(vs)
    return atom(s)
