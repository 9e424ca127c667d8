"""Single source of properties.jsonl and MANIFEST.json (python3 spec/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
ALL = ["inputs", "programs"]


def prop(id, title, statement, over, text, why, files, mech, technique, level="proof", note="", state=(), observe=()):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        p["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    PROPS.append((p, technique, level, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    PROPS.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                   "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}, None, None, None))
    NA.append({"property": id, "reason": reason})


AI = "abstract interpretation of the parsed source (symbolic value numbering with joins, no path enumeration)"
exec(open(os.path.join(HERE, "spec", "list.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, *_ in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, tech, level, note in PROPS:
        if tech is None:
            continue
        checks.append({"property": p["id"], "quick_cmd": f"python3 analysis/check.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3 analysis/check.py {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": tech, "level": level, "level_note": note})
    m = {"version": 1, "setup_cmd": "cd astdump && env -u RUSTUP_TOOLCHAIN cargo +stable build --release --offline --locked",
         "checks": checks, "not_applicable": NA}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
