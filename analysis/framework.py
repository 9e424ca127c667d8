"""Obligation bookkeeping, known findings, evidence and replay files."""
import contextlib
import json
import os
import sys
import time
import traceback

import bdd
from program import AnalysisError, REPO, VERIF

KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obs = []            # (key, ok)
        self.viol = []           # dicts
        self.samples = []
        self.functions = set()
        self.counts = {}
        self.assumptions = []
        self.t0 = time.time()
        self.rule = ""
        self.trusted = []
        self.level = "proof"
        self.explanation = ""

    # ------------------------------------------------------------ obligations
    def ob(self, key, ok, desc="", where="", detail=None, sample=None):
        """One decided obligation.  `key` is stable under reformatting."""
        self.obs.append((key, bool(ok)))
        if ok:
            if sample is not None or len(self.samples) < 12:
                self.samples.append({"obligation": key, "decided": desc[:300], "where": where})
        else:
            self.viol.append({"key": key, "rule": desc, "where": where,
                              "detail": detail() if callable(detail) else (detail or "")})
            if os.environ.get("VERIF_FIRST") and key not in self.known():   # campaigns only: the first violation settles it
                sys.exit(self.finish())
        return bool(ok)

    def known(self):
        if not os.path.exists(KNOWN):
            return {}
        with open(KNOWN) as f:
            return {k["key"]: k for k in json.load(f)["findings"] if k.get("property") == self.prop and k.get("status") == "known"}

    def fail(self, key, desc, where="", detail=""):
        return self.ob(key, False, desc, where, detail)

    @contextlib.contextmanager
    def group(self, name):
        """Fail closed: what the analyser cannot model is reported."""
        try:
            yield
        except AnalysisError as e:
            self.fail(f"analysis:{name}", f"analysis of {name} could not be completed", "", str(e)[:600])
        except bdd.Budget as e:
            self.fail(f"analysis:{name}", f"analysis of {name} could not be completed", "", str(e))
        except RecursionError as e:
            self.fail(f"analysis:{name}", f"analysis of {name} could not be completed", "", f"recursion limit {e}")
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.fail(f"analysis:{name}", f"analysis of {name} could not be completed", "",
                      f"{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")

    def floor(self, what, n, least):
        """Instance-count floor: a rule that matches too little is a failure."""
        self.counts[what] = n
        return self.ob(f"floor:{what}", n >= least, f"at least {least} {what} analysed", "", f"only {n} {what} found")

    def saw(self, I):
        for k, v in getattr(I, "visited", {}).items():
            self.functions.add(k if isinstance(k, str) else "::".join(map(str, k)) if isinstance(k, tuple) else str(k))

    # ----------------------------------------------------------------- finish
    def finish(self):
        kk = self.known()
        hit, bad = [], []
        for v in self.viol:
            (hit if v["key"] in kk else bad).append(v)
        for k in dict.fromkeys(v["key"] for v in hit):
            print(f"KNOWN-FINDING: property={self.prop} {kk[k]['what']}")
        evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
        rp = os.path.join(evd, "replay", f"{self.prop}.json")
        cov = {
            "obligations": len(self.obs),
            "discharged": sum(1 for _, o in self.obs if o) ,
            "checker_cmd": f"python3 /verif/analysis/check.py {self.prop} --tier {self.tier}",
            "trusted_base": self.trusted or ["astdump (syn 2 parser) and the abstract interpreter in /verif/analysis",
                                             "the reference tables in /verif/analysis/checks"],
            "rule": self.rule,
            "functions_analysed": len(self.functions),
            "functions": sorted(self.functions)[:400],
            "counts": self.counts,
            "samples": self.samples[:40],
            "known_findings_hit": [v["key"] for v in hit],
            "explanation": self.explanation or self.rule,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(bad)}
        with open(os.path.join(evd, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print(f"{self.prop}: {cov['discharged']}/{cov['obligations']} obligations discharged, "
              f"{len(self.functions)} functions analysed, {len(hit)} known findings, {ev['wall_s']}s")
        if bad:
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "violations": bad}, f, indent=1, default=str)
                f.write("\n")
            for v in bad[:30]:
                print(f"  [{v['key']}] {v['where']} {v['rule']}\n      {str(v['detail'])[:700]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        if os.path.exists(rp):
            os.unlink(rp)
        return 0


def rel(f):
    return os.path.relpath(f, REPO) if f else "?"


def at(d):
    """file:line of a definition dict (item with 'mod' and 'node')."""
    try:
        return f"{rel(d['mod'].file)}:{d['node'].get('ln', '?')}"
    except Exception:
        return "?"
