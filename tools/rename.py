#!/usr/bin/env python3
"""Renames what is private, one kind and one file at a time, in copies of /repo; no check may notice.
usage: rename.py [-j N] [--kinds fn,const,struct,field,local] [--only substr] [--checks P01,..]"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
arg = lambda n, d=None: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
kinds = arg("--kinds", "fn,const,struct,field").split(",")
only = arg("--only", "")
ids = (arg("--checks") or ",".join(c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"])).split(",")
DIRS = ["runner/src", "sdk/src", "circuits/src", "expr/src", "recproofs/src", "node/src", "cli/src", "signatures/src"]
files = []
for d in DIRS:
    for dp, _, fs in os.walk("/repo/" + d):
        if "tests" in dp.split("/"): continue
        files += [os.path.join(dp, f)[6:] for f in fs if f.endswith(".rs")]
files.sort()
text = {f: open("/repo/" + f).read() for f in files}
def nontest(s):
    i = re.search(r"#\[cfg\(test\)\]\s*(#\[[^\]]*\]\s*)*(pub )?mod ", s)
    return s[:i.start()] if i else s
def used_elsewhere(n, f):
    r = re.compile(r"\b" + n + r"\b")
    return any(g != f and r.search(t) for g, t in text.items())
def names(f, kind):
    s = nontest(text[f])
    out = []
    if kind == "fn":
        for m in re.finditer(r"^(\s*)(?:const |unsafe |extern \"C\" )*fn (\w+)", s, re.M):
            if not re.search(r"\bpub (?:const |unsafe )*fn " + m.group(2) + r"\b", s): out.append(m.group(2))
        # trait and trait-impl methods keep their names
        for m in re.finditer(r"^(?:pub )?(?:unsafe )?(?:trait \w+|impl\b[^{;]*\bfor\b)", s, re.M):
            j = s.find("{", m.start()); d = 0; k = j
            while k < len(s):
                d += {"{": 1, "}": -1}.get(s[k], 0)
                if d == 0: break
                k += 1
            for x in re.finditer(r"fn (\w+)", s[j:k]):
                out = [o for o in out if o != x.group(1)]
    elif kind == "const":
        out = [m.group(1) for m in re.finditer(r"^(?:const|static) (\w+):", s, re.M)]
    elif kind == "struct":
        out = [m.group(1) for m in re.finditer(r"^(?:struct|enum|trait|type) (\w+)", s, re.M)]
    elif kind == "field":
        for m in re.finditer(r"^\s*(?:pub )?struct \w+[^;{(]*\{(.*?)^\}", s, re.M | re.S):
            if "Serialize" in s[max(0, m.start() - 300):m.start()] or "repr(C)" in s[max(0, m.start() - 300):m.start()]: continue
            out += [x.group(1) for x in re.finditer(r"^\s+(\w+):", m.group(1), re.M)]
    out = sorted({n for n in out if len(n) > 2 and n not in ("main", "_start", "panic") and not used_elsewhere(n, f)})
    return out
work = []
for f in files:
    if only and only not in f: continue
    for k in kinds:
        n = names(f, k)
        if n: work.append((f, k, n))
tl = threading.local(); copies = []
def copy():
    if not hasattr(tl, "d"):
        tl.d = tempfile.mkdtemp(prefix="rename."); copies.append(tl.d)
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "target", "/repo/", tl.d + "/"], check=True)
        os.makedirs(tl.d + "/.ev")
    return tl.d
def new(n, k):
    return n + "_2" if k in ("fn", "field") else n + "_2" if k == "const" else n + "2"
def run(w):
    f, k, ns = w
    d = copy()
    s = text[f]
    for n in ns: s = re.sub(r"\b" + n + r"\b(?!!)", new(n, k), s)
    # strings and macro-made names are left to the reader of the output
    open(d + "/" + f, "w").write(s)
    bad = []
    for i in ids:
        r = subprocess.run(["python3", V + "/analysis/check.py", i], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/.ev"), capture_output=True, text=True)
        if r.returncode != 0: bad.append((i, [l[:300] for l in r.stdout.splitlines()[1:4]]))
    open(d + "/" + f, "w").write(text[f])
    return f, k, ns, bad
if "--list" in sys.argv:
    for w in work: print(w)
    sys.exit()
print(len(work), "renamings", flush=True)
with cf.ThreadPoolExecutor(int(arg("-j", "4"))) as ex:
    for f, k, ns, bad in ex.map(run, work):
        print(("ALARM " if bad else "quiet ") + f, k, ",".join(ns), flush=True)
        for i, l in bad: print("    ", i, *l, sep="\n       ", flush=True)
for d in copies: shutil.rmtree(d)
