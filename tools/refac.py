#!/usr/bin/env python3
"""Behaviour-preserving edits: apply each group of edits to /repo, confirm it still compiles, run the checks, expect silence.
usage: refac.py SPEC.py [--only NAME] [--nobuild] [--checks P01,P02]   (SPEC defines R = {name: [(file, old, new), ...]})"""
import concurrent.futures as cf, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
s = {}
exec(open(sys.argv[1]).read(), s)
arg = lambda n: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else None
ids = arg("--checks").split(",") if arg("--checks") else [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
import shutil, tempfile
def run(name, edits):
    T = tempfile.mkdtemp(prefix="refac.", dir="/tmp")
    try:
        sh(f"rsync -a --exclude .git --exclude target /repo/ {T}/repo/ || (mkdir -p {T}/repo && cd /repo && git ls-files -z | xargs -0 cp --parents -t {T}/repo)")
        for f, a, b in edits:
            p = f"{T}/repo/{f}"; t = open(p).read()
            if t.count(a) != 1: return name + " EDIT " + repr((f, t.count(a), a))
            open(p, "w").write(t.replace(a, b))
        al = []
        for c in ids:
            r = sh(f"timeout 800 python3 {V}/analysis/check.py {c}", cwd=V, env={**os.environ, "VERIF_REPO": T + "/repo"})
            if r.returncode: al.append((c, r.returncode, " ; ".join(l.strip()[:260] for l in r.stdout.splitlines()[1:3])))
        return name + (" quiet" if not al else " ALARM\n" + "\n".join("     " + " ".join(map(str, a)) for a in al[:4]))
    finally:
        shutil.rmtree(T)
good = []
if "--nobuild" not in sys.argv:
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
for name, edits in s["R"].items():
    if arg("--only") and name not in arg("--only").split(","): continue
    if "--nobuild" in sys.argv: good.append(name); continue
    try:
        bad = None
        for f, a, b in edits:
            p = "/repo/" + f; t = open(p).read()
            if t.count(a) != 1: bad = (f, t.count(a), a); break
            open(p, "w").write(t.replace(a, b))
        if bad: print(name, "EDIT", bad); continue
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: print(name, "BUILD", "\n".join(l for l in r.stderr.splitlines() if "error" in l or "-->" in l)[:800]); continue
        if any(f.startswith("runner/") for f, _, _ in edits):
            r = sh("cargo +stable check -q --offline", cwd=V + "/demokit", env={**{k: v for k, v in os.environ.items() if k not in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTFLAGS")}, "CARGO_TARGET_DIR": "/tmp/demo-target-demokit", "RUSTFLAGS": "-Awarnings"})
            if r.returncode: print(name, "KIT", r.stderr[:1500]); continue
        good.append(name)
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
print("built:", len(good), flush=True)
with cf.ThreadPoolExecutor(int(arg("-j") or 6)) as ex:
    for r in ex.map(lambda n: run(n, s["R"][n]), good): print(r, flush=True)
