#!/usr/bin/env python3
"""Make and confirm a planted bug.  usage: plant.py SPEC.py...   (each SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO=rust or DEMO_SH)
Works on a scratch copy of /repo (never on /repo itself) except for the build/test step, which needs /repo and is undone."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: behaviour is right; non-zero: broken.  Everything is built in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
cp -r "$D/kit" "$T/kit" && cp "$D/demo.rs" "$T/kit/src/demo.rs" && cd "$T/kit" || exit 3
env -u RUSTUP_TOOLCHAIN -u RUSTC_WRAPPER -u RUSTFLAGS CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$T/target}" RUSTFLAGS=-Awarnings cargo +stable run -q --offline
'''
# the demonstration is a unit test of a crate built against the stand-ins of minikit: it is put after a copy of one source file
SHTEST = '''#!/bin/bash
# exit 0: behaviour is right; non-zero: broken.  Everything is built in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
cp -r "$D/kit" "$T/kit" && cp -r /repo/CRATE/src "$T/kit/copied" && (echo; cat "$D/demo.rs") >> "$T/kit/copied/FILE" || exit 3
cd "$T/kit" && sed -i "s#/repo/CRATE/src#$T/kit/copied#" stubs/*/Cargo.toml || exit 3
env -u RUSTC_WRAPPER RUSTUP_TOOLCHAIN=nightly-2024-04-24 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$T/target}" RUSTFLAGS='-Awarnings --cap-lints=warn' cargo test -q --offline -p PKG --lib demo_check > "$T/out" 2>&1
R=$?
cat "$T/out" >&2
grep -q "1 passed" "$T/out" || R=1
rm -rf "$T"
exit $R
'''
PKG = {"signatures": "signatures", "node": "mozak-node", "recproofs": "mozak-recproofs", "sdk": "mozak-sdk"}
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(spec):
    s = {}
    exec(open(spec).read(), s)
    d = os.path.join(V, "seeded", s["ID"])
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    try:
        for f, a, b in s["EDITS"]:
            p = os.path.join("/repo", f); t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, "w").write(t.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if s.get("APPEND"):
            c, f = s["APPEND"]
            s["KIT"] = "minikit"
            s["DEMO_SH"] = SHTEST.replace("CRATE", c).replace("FILE", f).replace("PKG", PKG[c])
            s["DEMO"] = "#[cfg(test)]\nmod demo_check {\n    use super::*;\n" + s["DEMO"] + "}\n"
        if s.get("DEMO_SH"):
            open(os.path.join(d, "demo.sh"), "w").write(s["DEMO_SH"])
        else:
            open(os.path.join(d, "demo.sh"), "w").write(SH if s.get("KIT") != "minikit" else SH.replace("env -u RUSTUP_TOOLCHAIN -u RUSTC_WRAPPER -u RUSTFLAGS", "env -u RUSTC_WRAPPER RUSTUP_TOOLCHAIN=nightly-2024-04-24").replace("-Awarnings cargo +stable", "'-Awarnings --cap-lints=warn' cargo"))
        kit = s.get("KIT", "demokit")
        if kit:
            shutil.copytree(os.path.join(V, kit), os.path.join(d, "kit"), ignore=shutil.ignore_patterns("target"))
        if s.get("DEMO"):
            open(os.path.join(d, "demo.rs"), "w").write(s["DEMO"])
        for n, t in s.get("FILES", {}).items():
            open(os.path.join(d, n), "w").write(t)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(s["ID"], "BUILD FAILS", b.stderr[-1500:]); return
        sh("bash /opt/vp/test.sh /tmp/plant_out.json")
        o = json.load(open("/tmp/plant_out.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        res = o.get("tests", o)
        passed = set(o.get("passed", [])) or {k for k, v in res.items() if v in ("pass", "passed", True, "ok")}
        miss = [t for t in base if t not in passed]
        env = dict(os.environ, DEMO_TARGET_DIR="/tmp/demo-target-" + (kit or "x"))
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo", env=env)
        c = sh(f"python3 {V}/analysis/check.py {s['PROP']}", cwd=V)
        allv = []
        if "--all" in sys.argv:
            m = json.load(open(os.path.join(V, "MANIFEST.json")))
            for ch in m["checks"]:
                if sh(ch["quick_cmd"], cwd=V).returncode == 1: allv.append(ch["property"])
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo", env=env)
    print(s["ID"], "tests missing:", len(miss), "| demo buggy rc", r1.returncode, "clean rc", r0.returncode, "| check", s["PROP"], "rc", c.returncode, allv)
    if miss or r1.returncode == 0 or r0.returncode != 0:
        print("   NOT CONFIRMED", miss[:3], r0.stderr[-1800:] if r0.returncode else "", r1.stdout[-300:] if r1.returncode == 0 else "")
    else:
        print("   demo says:", (r1.stderr.strip().splitlines() or [""])[-3:][:2])
    if c.returncode != 1: print("   MISSED", c.stdout[-300:])
    else: print("   ", "\n    ".join(c.stdout.splitlines()[1:3]))
for a in sys.argv[1:]:
    if not a.startswith("--"): main(a)
