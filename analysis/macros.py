"""A small macro_rules! expander (token trees in, source text out)."""

CLOSE = {"(": ")", "{": "}", "[": "]", "": ""}


def render(ts):
    out = []
    for t in ts:
        k = t["t"]
        if k == "g":
            out.append(t["d"] + " " + render(t["v"]) + " " + CLOSE[t["d"]])
            out.append(" ")
        elif k == "p":
            out.append(t["v"])
            if not t.get("j"):
                out.append(" ")
        else:
            if out and out[-1] == "'":
                out.append(t["v"] + " ")
            else:
                out.append(t["v"] + " ")
    return "".join(out)


def is_p(t, c):
    return t["t"] == "p" and t["v"] == c


def split_rules(toks):
    rules, i = [], 0
    while i < len(toks):
        pat = toks[i]
        i += 1
        while not (is_p(toks[i], "=")):
            i += 1
        i += 2  # => is two puncts
        body = toks[i]
        i += 1
        if i < len(toks) and is_p(toks[i], ";"):
            i += 1
        rules.append((pat["v"], body["v"]))
    return rules


def parse_pat(ts):
    """-> list of ('lit',tok) ('frag',name,kind) ('grp',d,pat) ('rep',pat,sep,op)"""
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if is_p(t, "$") and i + 1 < len(ts):
            n = ts[i + 1]
            if n["t"] == "id" and i + 3 < len(ts) and is_p(ts[i + 2], ":"):
                out.append(("frag", n["v"], ts[i + 3]["v"]))
                i += 4
                continue
            if n["t"] == "g" and n["d"] == "(":
                sep = None
                j = i + 2
                if not (ts[j]["t"] == "p" and ts[j]["v"] in "*+?"):
                    sep = ts[j]
                    j += 1
                out.append(("rep", parse_pat(n["v"]), sep, ts[j]["v"]))
                i = j + 1
                continue
        if t["t"] == "g":
            out.append(("grp", t["d"], parse_pat(t["v"])))
        else:
            out.append(("lit", t))
        i += 1
    return out


def same(a, b):
    return a["t"] == b["t"] and a["v"] == b["v"]


def is_id(t, v):
    return t["t"] == "id" and t["v"] == v


def turbofish(ts, j, i):
    return ts[j]["v"] == "<" and (j - 2 >= i and is_p(ts[j - 1], ":") and is_p(ts[j - 2], ":") or j == i)


def match_frag(kind, ts, i, follow):
    """-> new index or None"""
    if i >= len(ts):
        return None
    if kind in ("ident", "lifetime"):
        return i + 1 if ts[i]["t"] == "id" else None
    if kind == "tt":
        return i + 1
    if kind == "literal":
        return i + 1 if ts[i]["t"] == "lit" else None
    if kind in ("block",):
        return i + 1 if ts[i]["t"] == "g" and ts[i]["d"] == "{" else None
    # expr, ty, path, pat, stmt, item: up to a top-level separator
    j, depth = i, 0
    if kind == "ty" and ts[i]["t"] == "id":
        # a path type ends after its last segment
        while True:
            j += 1
            if j < len(ts) and is_p(ts[j], "<"):
                d = 0
                while j < len(ts):
                    d += is_p(ts[j], "<") - (is_p(ts[j], ">") and not is_p(ts[j - 1], "-"))
                    j += 1
                    if d == 0:
                        break
            if j + 2 < len(ts) and is_p(ts[j], ":") and is_p(ts[j + 1], ":"):
                j += 2
                continue
            break
        if ts[i]["v"] not in ("dyn", "impl", "fn", "unsafe", "extern", "for"):
            return j
        j = i
    isexpr = kind in ("expr", "stmt")
    while j < len(ts):
        t = ts[j]
        if isexpr and is_p(t, "|") and (j == i or is_id(ts[j - 1], "move") or (ts[j - 1]["t"] == "p" and ts[j - 1]["v"] in "=(,&|!+-*/")) \
                and not (follow is not None and is_p(follow, "|")):
            # closure parameters
            k = j + 1
            while k < len(ts) and not is_p(ts[k], "|"):
                k += 1
            j = k + 1
            continue
        if t["t"] == "p":
            if isexpr and t["v"] in "<>" and not turbofish(ts, j, i) and depth == 0:
                j += 1
                continue
            if t["v"] == "<":
                depth += 1
            elif t["v"] == ">" and not (j > 0 and is_p(ts[j - 1], "-")) and not (j > 0 and is_p(ts[j - 1], "=")):
                depth -= 1
            elif depth <= 0 and t["v"] in ",;":
                break
            elif depth <= 0 and follow is not None and follow["t"] == "p" and t["v"] == follow["v"] and t["v"] in "=|":
                break
        j += 1
    return j if j > i else None


def do_match(pat, ts, i=0):
    b = {}
    for pi, p in enumerate(pat):
        if p[0] == "lit":
            if i >= len(ts) or not same(p[1], ts[i]):
                return None, i
            i += 1
        elif p[0] == "grp":
            if i >= len(ts) or ts[i]["t"] != "g" or ts[i]["d"] != p[1]:
                return None, i
            s, j = do_match(p[2], ts[i]["v"])
            if s is None or j != len(ts[i]["v"]):
                return None, i
            b.update(s)
            i += 1
        elif p[0] == "frag":
            follow = pat[pi + 1][1] if pi + 1 < len(pat) and pat[pi + 1][0] == "lit" else None
            j = match_frag(p[2], ts, i, follow)
            if j is None:
                return None, i
            b[p[1]] = ts[i:j]
            i = j
        else:
            reps = []
            while i < len(ts):
                k = i
                if reps and p[2] is not None:
                    if not same(p[2], ts[k]):
                        break
                    k += 1
                s, j = do_match(p[1], ts, k)
                if s is None or j == k:
                    break
                reps.append(s)
                i = j
                if p[3] == "?":
                    break
            if p[3] == "+" and not reps:
                return None, i
            b[("rep", tuple(sorted(names(p[1]))))] = reps
    return b, i


def names(pat):
    out = set()
    for p in pat:
        if p[0] == "frag":
            out.add(p[1])
        elif p[0] == "grp":
            out |= names(p[2])
        elif p[0] == "rep":
            out |= names(p[1])
    return out


def used(ts):
    out = set()
    for i, t in enumerate(ts):
        if is_p(t, "$") and i + 1 < len(ts) and ts[i + 1]["t"] == "id":
            out.add(ts[i + 1]["v"])
        if t["t"] == "g":
            out |= used(t["v"])
    return out


def subst(ts, b):
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if is_p(t, "$") and i + 1 < len(ts):
            n = ts[i + 1]
            if n["t"] == "id":
                if n["v"] == "crate":
                    out.append({"t": "id", "v": "crate"})
                    i += 2
                    continue
                if n["v"] in b:
                    v = b[n["v"]]
                    out.extend(v)
                    i += 2
                    continue
            if n["t"] == "g" and n["d"] == "(":
                j = i + 2
                sep = None
                if not (ts[j]["t"] == "p" and ts[j]["v"] in "*+?"):
                    sep = ts[j]
                    j += 1
                us = used(n["v"])
                groups = [v for k, v in b.items() if isinstance(k, tuple) and set(k[1]) & us]
                if not groups:
                    # a repetition of a macro this one defines
                    out.extend([t, {"t": "g", "d": "(", "v": subst(n["v"], b)}])
                    i += 2
                    continue
                if len({len(v) for v in groups}) != 1:
                    raise ValueError("macro repetitions of different lengths")
                reps = [{k: v for d in z for k, v in d.items()} for z in zip(*groups)]
                for q, r in enumerate(reps):
                    if q and sep is not None:
                        out.append(sep)
                    out.extend(subst(n["v"], {**b, **r}))
                i = j + 1
                continue
        if t["t"] == "g":
            out.append({"t": "g", "d": t["d"], "v": subst(t["v"], b)})
        else:
            out.append(t)
        i += 1
    return out


def expand_tokens(defn, toks):
    for pat, body in split_rules(defn["m"]["toks"]):
        b, j = do_match(parse_pat(pat), toks)
        if b is not None and j == len(toks):
            return subst(body, b)
    return None


def expand(defn, toks):
    try:
        t = expand_tokens(defn, toks)
    except (ValueError, IndexError, KeyError):
        return None
    return None if t is None else render(t)


def bitfield(toks):
    """expansion of bitfield!{ pub struct N(u32); .. ty; pub name, setter: msb, lsb; }"""
    stm, cur = [], []
    i = 0
    while i < len(toks):
        t = toks[i]
        if is_p(t, "#"):
            i += 2
            continue
        if is_p(t, ";"):
            stm.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur:
        stm.append(cur)
    name = base = ty = None
    out = []
    for s in stm:
        if not s:
            continue
        if any(x["t"] == "id" and x["v"] == "struct" for x in s):
            k = next(i for i, x in enumerate(s) if x["t"] == "id" and x["v"] == "struct")
            name = s[k + 1]["v"]
            base = ty = render(s[k + 2]["v"]).strip()
        elif s[0]["t"] == "id" and s[0]["v"] == "impl":
            continue
        elif len(s) == 1:
            ty = s[0]["v"]
        else:
            s = [x for x in s if not (x["t"] == "id" and x["v"] == "pub")]
            c = next(i for i, x in enumerate(s) if is_p(x, ":"))
            getter = s[0]["v"]
            rng = render(s[c + 1:])
            msb, lsb = [x.strip() for x in rng.split(",")][:2] if "," in rng else (rng, rng)
            if getter != "_":
                out.append(f"pub fn {getter}(&self) -> {ty} {{ let w: {base} = self.0; let r: {ty} = w.bit_range({msb}, {lsb}); r }}")
    return f"pub struct {name}(pub {base}); impl {name} {{ {' '.join(out)} }}"
