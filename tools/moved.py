#!/usr/bin/env python3
"""Moves every free function (or type) of a file into a submodule that is re-exported, one file and kind at a time, in copies of /repo;
no check may notice.  usage: moved.py [-j N] [--kinds fn,type] [--only substr] [--checks P01,..] [--each]"""
import concurrent.futures as cf, json, os, re, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
arg = lambda n, d=None: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
kinds = arg("--kinds", "fn,type").split(",")
only = arg("--only", "")
ids = (arg("--checks") or ",".join(c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"])).split(",")
DIRS = ["runner/src", "sdk/src", "circuits/src", "expr/src", "recproofs/src", "node/src", "cli/src", "signatures/src"]
files = []
for d in DIRS:
    for dp, _, fs in os.walk("/repo/" + d):
        if "tests" in dp.split("/"): continue
        files += [os.path.join(dp, f)[6:] for f in fs if f.endswith(".rs")]
HEAD = {"fn": re.compile(r"^(pub(?:\([a-z]+\))? )?(?:const |unsafe )*fn (\w+)"), "type": re.compile(r"^(pub(?:\([a-z]+\))? )?(?:struct|enum) (\w+)")}
def split(s, kind, names=None):
    """the text without the items, and the items"""
    ls = s.split("\n"); keep = []; out = []; i = 0; test = False
    while i < len(ls):
        if re.match(r"^(pub )?mod (test|tests)\b", ls[i]): test = True
        m = None if test else HEAD[kind].match(ls[i])
        if m and m.group(2) != "main" and (names is None or m.group(2) in names):
            a = i
            pre = []
            while keep and (keep[-1].startswith(("#[", "///", "//")) or keep[-1].startswith("#[") or keep[-1].startswith((")]", "    ")) and block(keep)):
                if keep[-1].startswith((")]", "    ")):
                    while not keep[-1].startswith("#["): pre.insert(0, keep.pop())
                pre.insert(0, keep.pop())
            if any(x.startswith("#[panic") or "no_mangle" in x or x.startswith("#[cfg(test") or "global_alloc" in x for x in pre):
                keep += pre; keep.append(ls[i]); i += 1; continue
            j = i
            while not (ls[j].startswith("}") or ls[j].rstrip().endswith("}") and j == i or ls[j].rstrip().endswith(";") and not ls[j].startswith(" ") or ls[j].startswith(")") and ls[j].rstrip().endswith(";")): j += 1
            body = "\n".join(ls[i:j + 1])
            body = re.sub(r"\bsuper::", "super::super::", body)
            if not m.group(1): body = "pub(super) " + body
            cf = "".join(x + " " for x in pre if x.startswith("#[cfg("))
            out.append((m.group(2), cf + (m.group(1) or ""), "\n".join(pre + [body])))
            i = j + 1; continue
        keep.append(ls[i]); i += 1
    return "\n".join(keep), out
def block(keep):
    for x in reversed(keep):
        if x.startswith("#["): return True
        if not x.startswith((")]", "    ")): return False
    return False
def moved(s, kind, names=None):
    t, xs = split(s, kind, names)
    if not xs: return None
    uses = "\n".join(f"{v}use moved_items::{n};" for n, v, _ in xs)
    t = t.rstrip("\n")
    i = re.search(r"^#\[cfg\(test\)\]", t, re.M)
    at = i.start() if i else len(t)
    blk = f"\n{uses}\nmod moved_items {{\n    use super::*;\n" + "\n".join(x for _, _, x in xs) + "\n}\n"
    return t[:at] + blk + t[at:] + "\n"
tl = threading.local(); copies = []
def copy():
    if not hasattr(tl, "d"):
        tl.d = tempfile.mkdtemp(prefix="rename."); copies.append(tl.d)
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "target", "/repo/", tl.d + "/"], check=True)
        os.makedirs(tl.d + "/.ev")
    return tl.d
def run(w):
    f, k, n = w; d = copy(); s = open("/repo/" + f).read()
    open(d + "/" + f, "w").write(moved(s, k, n))
    bad = []
    for i in ids:
        r = subprocess.run(["timeout", "800", "python3", V + "/analysis/check.py", i], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/.ev"), capture_output=True, text=True)
        if r.returncode != 0: bad.append((i, [l[:300] for l in r.stdout.splitlines()[1:4]]))
    open(d + "/" + f, "w").write(s)
    return w, bad
after = arg("--after", "")
work = []
for f in sorted(files):
    if only and only not in f or f < after: continue
    s = open("/repo/" + f).read()
    for k in kinds:
        t, xs = split(s, k)
        if xs: work += [(f, k, [x[0]]) for x in xs] if "--each" in sys.argv else [(f, k, None)]
if "--show" in sys.argv:
    for w in work: print(w); print(moved(open("/repo/" + w[0]).read(), w[1], w[2]))
    sys.exit()
print(len(work), "moves", flush=True)
with cf.ThreadPoolExecutor(int(arg("-j", "3"))) as ex:
    for w, bad in ex.map(run, work):
        print("quiet" if not bad else "ALARM", *w[:2], w[2] or "", flush=True)
        for b in bad[:4]: print("    ", b, flush=True)
for d in copies: subprocess.run(["rm", "-rf", d])
