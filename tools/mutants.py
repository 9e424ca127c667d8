#!/usr/bin/env python3
"""Systematic source mutation of the code the checks reason about; lists the mutants no check reports.
usage: mutants.py OUT FILE... [-j N] [--checks P01,..] [--second P07]
A mutant that survives is triaged by hand (does it compile?  does it change behaviour a property states?)."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
arg = lambda n, d=None: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
out = sys.argv[1]
files = []
for a in sys.argv[2:]:
    if a.startswith("-"): break
    files.append(a)
ids = (arg("--checks") or ",".join(c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"])).split(",")
second = [x for x in (arg("--second") or "").split(",") if x]
ids = [i for i in ids if i not in second]
SW = [(r"(?<![=!<>+\-*/&|^%])==(?!=)", ["!="]), (r"!=", ["=="]), (r" < ", [" <= ", " >= "]), (r" > ", [" >= ", " <= "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
      (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" & ", [" | "]), (r" \| (?!\|)", [" & "]), (r" \^ ", [" | "]), (r" << ", [" >> "]), (r" >> ", [" << "]),
      (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
      (r"wrapping_add", ["wrapping_sub"]), (r"wrapping_sub", ["wrapping_add"]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\.rev\(\)", [""]), (r"\.\.=", [".."]),
      (r"(?<=[\w\)\]])\.\.(?=[\w\(])", ["..="]), (r"is_some\(\)", ["is_none()"]), (r"is_none\(\)", ["is_some()"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
      (r"\brs1\b", ["rs2"]), (r"\brs2\b", ["rs1"]), (r"\blv\b", ["nv"]), (r"\bnv\b", ["lv"]), (r"to_le_bytes", ["to_be_bytes"]), (r"from_le_bytes", ["from_be_bytes"]),
      (r"\bone\(\)", ["zero()"]), (r"\bONE\b", ["ZERO"]), (r"\bZERO\b", ["ONE"]), (r"is_zero\(\)", ["is_nonzero()"]), (r"is_nonzero\(\)", ["is_zero()"]),
      (r"\.chain\(", [".zip("]), (r"as i32 as i64", ["as i64"]), (r"\bi16\b", ["u16"]), (r"\bi8\b", ["u8"]), (r"(?<=\()!(?=\w)|(?<= )!(?=\w)", [""]),
      (r"\bleft_", ["right_"]), (r"\bright_", ["left_"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"\bold_", ["new_"]), (r"\bnew_", ["old_"]), (r"\.and\(", [".or("]), (r"\.or\(", [".and("]),
      (r"\ba_", ["b_"]), (r"\bb_", ["a_"]), (r"\bvm_hash\b", ["hash"]), (r"\.hash\b", [".vm_hash"]), (r"_present\b", [""][:0]), (r"checked_sub", ["checked_add"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"insert\(0", ["insert(1"]), (r"\bSome\(", ["None.or(Some("][:0]), (r"unwrap_or_default\(\)", ["unwrap_or(1)"][:0])]
def nontest(s):
    i = re.search(r"#\[cfg\(test\)\]\s*(#\[[^\]]*\]\s*)*(pub )?mod ", s)
    return s[:i.start()] if i else s
def mutants(f):
    s = open("/repo/" + f).read(); body = nontest(s)
    off = 0; block = False
    for ln, line in enumerate(body.split("\n"), 1):
        t = line.strip(); start = off; off += len(line) + 1
        if t.startswith(("//", "use ", "#[", "#![", "pub mod", "mod ", "log::", "debug!", "info!", "trace!", "where", "impl", "pub use", "type ", "*", "/*")): continue
        if "u8;" in line or "u16;" in line or re.match(r"^(pub(\([a-z]+\))? )?\w+: [^=]*,$", t): continue
        code = line.split("//")[0]
        strs = [m.span() for m in re.finditer(r'"(?:[^"\\]|\\.)*"', code)]
        ins = lambda p: any(a <= p < b for a, b in strs)
        def mk(a, b, new): return (f, ln, code.strip()[:110], code[a:b] + " => " + new, s[:start + a] + new + s[start + b:])
        for rx, news in SW:
            for m in re.finditer(rx, code):
                if ins(m.start()): continue
                for n in news: yield mk(m.start(), m.end(), n)
        for m in re.finditer(r"(?<![\w.'])(0x[0-9A-Fa-f_]+|0b[01_]+|\d[\d_]*)(?=(_?[ui](8|16|32|64|128|size))?\b)", code):
            if ins(m.start()): continue
            v = int(m.group(1).replace("_", ""), 0)
            for n in {v + 1, max(v - 1, 0)} - {v}: yield mk(m.start(), m.end(), str(n))
        if re.match(r"^\s*[\w\.\[\]\*\(&].*;$", code) and not re.match(r"^\s*(let|return|const|pub|static|type|break|continue|\}|fn|extern|unsafe fn)\b", code) and code.count("(") == code.count(")") and code.count("{") == code.count("}"):
            a = len(code) - len(code.lstrip()); yield mk(a, len(code), "")
        if t.endswith(",") and re.match(r"^\s*[\w\.]+\(.*\),$|^\s*\.\w+\(.*\)$", code): pass
        m = re.match(r"^(\s*)(\.\w+\(.*\))$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"): yield mk(m.start(2), m.end(2), "")
def stmts(f):
    """statements of several lines, left out"""
    s = open("/repo/" + f).read(); body = nontest(s)
    for m in re.finditer(r"^( *)((?:[\w\.]+)(?:::<[^>]*>)?\([^;{}]*?\);)$", body, re.M | re.S):
        if "\n" in m.group(2) and not m.group(2).startswith(("let ", "return")):
            yield (f, body.count("\n", 0, m.start()) + 1, " ".join(m.group(2).split())[:110], "statement left out", s[:m.start(2)] + s[m.end(2):])
ms = [m for f in files for g in (mutants, stmts) for m in g(f)]
print(len(ms), "mutants", flush=True)
loc = threading.local(); dirs = []
def T():
    if not getattr(loc, "d", None):
        loc.d = tempfile.mkdtemp(prefix="mutants.", dir="/tmp"); dirs.append(loc.d)
        subprocess.run(f"mkdir -p {loc.d}/repo && cd /repo && git ls-files -z | xargs -0 cp --parents -t {loc.d}/repo", shell=True)
    return loc.d + "/repo"
order = {}
def one(m):
    f, ln, code, d, txt = m; t = T(); p = f"{t}/{f}"
    open(p, "w").write(txt)
    try:
        pr = sorted(ids, key=lambda i: -order.get((f, i), 0)) + second
        und = []
        for i in pr:
            try: r = subprocess.run(["python3", V + "/analysis/check.py", i], capture_output=True, text=True, cwd=V, env={**os.environ, "VERIF_REPO": t, "VERIF_FIRST": "1", "VERIF_EVIDENCE": t + "/../ev"}, timeout=600)
            except subprocess.TimeoutExpired: und.append(i); continue
            if r.returncode:
                order[f, i] = order.get((f, i), 0) + 1
                return f, ln, code, d, i
        return f, ln, code, d, None
    finally:
        shutil.copy("/repo/" + f, p)
with cf.ThreadPoolExecutor(int(arg("-j", "6"))) as ex, open(out, "w") as o:
    n = k = 0
    for r in ex.map(one, ms):
        n += 1; k += r[4] is not None
        o.write(json.dumps(r) + "\n"); o.flush()
        if r[4] is None: print(f"{r[0]}:{r[1]}: {r[2]}   [{r[3]}]", flush=True)
print(n, "run", k, "reported")
for d in dirs: shutil.rmtree(d)
