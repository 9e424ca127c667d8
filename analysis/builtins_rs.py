"""Models of the Rust standard library (and a few crates) for the interpreter."""
import bdd
import terms
from bdd import and_, not_, or_
from program import PRIMS, AnalysisError
from terms import T, mkT
from values import *

DERIVED = {"clone", "eq", "ne", "fmt", "default", "hash", "cmp", "partial_cmp", "to_owned", "borrow", "as_ref", "into", "try_into", "to_string"}
GOLDILOCKS = 0xFFFFFFFF00000001


# ------------------------------------------------------------------ integers
def pick_ty(a, b):
    if isinstance(a, BV):
        return a.ty
    if isinstance(b, BV):
        return b.ty
    return a.ty or b.ty


def int_binop(I, op, a, b, n, env):
    if op in ("<<", ">>"):
        return shift(I, op, a, b, n, env)
    ty = pick_ty(a, b)
    if isinstance(a, Int) and isinstance(b, Int):
        return concrete(I, op, a.v, b.v, ty, n, env)
    w = PRIMS[ty]
    x, y = term_of(a, ty), term_of(b, ty)
    sg = signed(ty)
    if op in ("<", ">", "<=", ">="):
        lt = terms.slt if sg else terms.ult
        return {"<": lambda: lt(x, y), ">": lambda: lt(y, x), "<=": lambda: not_(lt(y, x)), ">=": lambda: not_(lt(x, y))}[op]()
    if op == "&":
        return bv(terms.band(x, y), ty)
    if op == "|":
        return bv(terms.bor(x, y), ty)
    if op == "^":
        return bv(terms.bxor(x, y), ty)
    if op in "+-*":
        if I.track_overflow:
            overflow(I, op, x, y, ty, n, env)
        return bv({"+": terms.add, "-": terms.sub, "*": terms.mul}[op](x, y), ty)
    if op in "/%":
        I.panic_if(terms.eq(y, terms.const(0, w)), "div0", "division by zero", n, env)
        if sg:
            mn = and_(terms.eq(x, terms.const(1 << (w - 1), w)), terms.eq(y, terms.const(-1, w)))
            I.panic_if(mn, "overflow", "signed division overflow", n, env)
        return bv(terms.divop(("s" if sg else "u") + ("div" if op == "/" else "rem"), x, y), ty)
    raise AnalysisError("integer operator " + op)


def overflow(I, op, x, y, ty, n, env):
    """record the condition under which the operation overflows"""
    w, sg = PRIMS[ty], signed(ty)
    (xl, xh), (yl, yh) = terms.rng(x, sg), terms.rng(y, sg)
    rs = {"+": (xl + yl, xh + yh), "-": (xl - yh, xh - yl)}.get(op) or (lambda c: (min(c), max(c)))([xl * yl, xl * yh, xh * yl, xh * yh])
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    if lo <= rs[0] and rs[1] <= hi:
        return
    ext = terms.sext if sg else terms.zext
    W = w + 1 if op != "*" else 2 * w
    f = {"+": terms.add, "-": terms.sub, "*": terms.mul}[op]
    wide = f(ext(x, W), ext(y, W))
    narrow = f(x, y)
    if sg:
        c = not_(terms.eq(wide, terms.sext(narrow, W)))
    elif op == "+":
        # carry: result < x
        c = terms.ult(narrow, x) if not terms.is_const(x) else terms.ult(narrow, y)
    elif op == "-":
        c = terms.ult(x, y)
    else:
        c = not_(terms.eq(wide, terms.zext(narrow, W)))
    I.panic_if(c, "overflow", f"{ty} {op} overflow", n, env)


def concrete(I, op, x, y, ty, n, env):
    if op == "<":
        return x < y
    if op == ">":
        return x > y
    if op == "<=":
        return x <= y
    if op == ">=":
        return x >= y
    if op in "/%":
        if y == 0:
            I.panic("div0", "division by zero", n, env)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        r = q if op == "/" else x - q * y
        return mkint(r, ty) if ty else Int(r)
    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]()
    if ty is None:
        return Int(r)
    v = mkint(r, ty)
    if v.v != r and op in "+-*":
        I.panic("overflow", f"{ty} {op} overflow", n, env)
    return v


def shift(I, op, a, b, n, env):
    ty = a.ty
    if isinstance(a, Int) and isinstance(b, Int):
        if ty is None:
            return Int(a.v << b.v if op == "<<" else a.v >> b.v)
        if not 0 <= b.v < PRIMS[ty]:
            I.panic("overflow", f"shift by {b.v}", n, env)
        return mkint(a.v << b.v if op == "<<" else a.v >> b.v, ty)
    if ty is None:
        ty = "i32"
    w = PRIMS[ty]
    x = term_of(a, ty)
    if isinstance(b, Int):
        if not 0 <= b.v < w:
            I.panic("overflow", f"shift by {b.v}", n, env)
        amt = b.v
        return bv(terms.shl(x, amt) if op == "<<" else (terms.ashr if signed(ty) else terms.lshr)(x, amt), ty)
    t = term_of(b, b.ty)
    oob = not_(terms.ult(t, terms.const(w, t.w))) if t.w > (w - 1).bit_length() else False
    if I.track_overflow:
        I.panic_if(oob, "overflow", "shift amount out of range", n, env)
    amt = terms.band(t, terms.const(w - 1, t.w))
    return wshift(op, x, amt, ty)


def wshift(op, x, amt, ty):
    amt = terms.zext(amt, 32) if amt.w < 32 else terms.trunc(amt, 32)
    name = "shl" if op == "<<" else ("ashr" if signed(ty) else "lshr")
    return bv(terms.vshift(name, x, amt), ty)


def overflowing(I, op, a, b, ty):
    """(wrapped, overflowed) with the condition kept as BDD"""
    x, y = term_of(a, ty), term_of(b, ty)
    f = {"+": terms.add, "-": terms.sub, "*": terms.mul}[op]
    r = f(x, y)
    w, sg = PRIMS[ty], signed(ty)
    if isinstance(a, Int) and isinstance(b, Int):
        e = {"+": a.v + b.v, "-": a.v - b.v, "*": a.v * b.v}[op]
        v = mkint(e, ty)
        return v, v.v != e
    if op == "-" and not sg:
        c = terms.ult(x, y)
    elif op == "+" and not sg:
        c = bdd.var(("carry", terms.T and min((x, y), key=lambda t: t.id), max((x, y), key=lambda t: t.id)))
        if terms.is_const(x) and terms.cval(x) == 0 or terms.is_const(y) and terms.cval(y) == 0:
            c = False
    else:
        W = 2 * w
        ext = terms.sext if sg else terms.zext
        wide = f(ext(x, W), ext(y, W))
        c = not_(terms.eq(wide, ext(r, W)))
    return bv(r, ty), c


def int_method(I, v, name, args, hint, node, env, place):
    ty = v.ty
    if ty is None and args and is_int(I.deref(args[0])):
        ty = I.deref(args[0]).ty
    if ty is None:
        h = I.strip(hint) if hint else None
        ty = h[1] if h and h[0] == "p" and h[1] in PRIMS else None
    a0 = I.deref(args[0]) if args else None
    if a0 is DEFAULT and len(args) == 1 and name.split("_")[-1] in ("add", "sub", "mul"):
        # zero of the receiver's own type
        a0 = Int(0, ty)
        args = [a0]
    if name in ("clone", "to_owned", "borrow", "as_ref", "copied", "cloned", "unwrap_or_clone"):
        return v
    if name in ("into", "try_into", "to_usize", "to_u32", "to_u64"):
        h = I.strip(hint) if hint else None
        if name == "try_into":
            if h and h[0] == "ext" and h[1] == "Result":
                h = I.strip(h[2][0])
            if h and h[0] == "p" and h[1] in PRIMS:
                return try_from(I, v, h[1])
            if isinstance(v, Int):
                return Ok(Int(v.v))
            return mkT("m:try_into", (freeze(v),))
        if h and h[0] == "p" and h[1] in PRIMS:
            return I.cast(v, h)
        if h and h[0] == "ext" and h[2] and name == "into":
            pass
        return into_value(I, v, h)
    w = PRIMS.get(ty, 64)
    if name.startswith(("wrapping_", "checked_", "overflowing_", "saturating_")) and a0 is not None and is_int(a0):
        pre, opn = name.split("_", 1)
        opn = opn.replace("_signed", "").replace("_unsigned", "")
        op = {"add": "+", "sub": "-", "mul": "*", "div": "/", "rem": "%", "shl": "<<", "shr": ">>"}.get(opn)
        if op in ("+", "-", "*"):
            r, c = overflowing(I, op, v, a0, ty or "i64")
            return {"wrapping": lambda: r, "overflowing": lambda: (r, c),
                    "checked": lambda: (NONE if c is True else Some(r) if c is False else GateV(c, NONE, Some(r))),
                    "saturating": lambda: merge(c, saturated(op, v, a0, ty, w), r)}[pre]()
        if op in ("/", "%"):
            x, y = term_of(v, ty), term_of(a0, ty)
            z = terms.eq(y, terms.const(0, w))
            ov = and_(terms.eq(x, terms.const(1 << (w - 1), w)), terms.eq(y, terms.const(-1, w))) if signed(ty) else False
            q = bv(terms.divop(("s" if signed(ty) else "u") + ("div" if op == "/" else "rem"), x, y), ty)
            wq = merge(ov, v if op == "/" else mkint(0, ty), q)
            if pre == "checked":
                c = or_(z, ov)
                return NONE if c is True else Some(q) if c is False else GateV(c, NONE, Some(q))
            I.panic_if(z, "div0", "division by zero", node, env)
            return (wq, ov) if pre == "overflowing" else wq
        if op in ("<<", ">>"):
            t = term_of(a0, a0.ty or "u32")
            r = wshift(op, term_of(v, ty), terms.band(t, terms.const(w - 1, t.w)), ty)
            c = not_(terms.ult(t, terms.const(w, t.w))) if t.w > (w - 1).bit_length() else False
            if pre == "wrapping":
                return r
            if pre == "overflowing":
                return (r, c)
            return NONE if c is True else Some(r) if c is False else GateV(c, NONE, Some(r))
    if name == "checked_neg":
        if isinstance(v, Int):
            e = -v.v
            return Some(mkint(e, ty)) if ty is None or mkint(e, ty).v == e else NONE
    if name in ("wrapping_neg", "overflowing_neg"):
        r = bv(terms.neg(term_of(v, ty)), ty)
        return r if name[0] == "w" else (r, terms.eq(term_of(v, ty), terms.const(1 << (w - 1) if signed(ty) else 0, w)) if signed(ty) else not_(terms.eq(term_of(v, ty), terms.const(0, w))))
    if name == "overflowing_abs":
        neg = terms.slt(term_of(v, ty), terms.const(0, w))
        return (merge(neg, bv(terms.neg(term_of(v, ty)), ty), v), terms.eq(term_of(v, ty), terms.const(1 << (w - 1), w)))
    if name == "abs" or name == "unsigned_abs" or name == "wrapping_abs":
        neg = terms.slt(term_of(v, ty), terms.const(0, w))
        r = merge(neg, bv(terms.neg(term_of(v, ty)), ty), v)
        return I.cast(r, ("p", "u" + ty[1:])) if name[0] == "u" else r
    if name == "abs_diff":
        x, y = term_of(v, ty), term_of(a0, ty)
        lt = (terms.slt if signed(ty) else terms.ult)(x, y)
        return bv(terms.ite(lt, terms.sub(y, x), terms.sub(x, y)), "u" + ty[1:])
    if name in ("min", "max"):
        ty = ty or "i64"
        x, y = term_of(v, ty), term_of(a0, ty)
        lt = (terms.slt if signed(ty) else terms.ult)(x, y)
        return merge(lt, bv(x, ty), bv(y, ty)) if name == "min" else merge(lt, bv(y, ty), bv(x, ty))
    if name == "is_power_of_two" and isinstance(v, Int):
        return v.v > 0 and v.v & (v.v - 1) == 0
    if name in ("pow",) and isinstance(v, Int) and isinstance(a0, Int):
        return mkint(v.v ** a0.v, ty)
    if name == "next_power_of_two" and isinstance(v, Int):
        return mkint(1 << max(0, (v.v - 1).bit_length()), ty)
    if name == "next_multiple_of" and isinstance(v, Int) and isinstance(a0, Int):
        return mkint(-(-v.v // a0.v) * a0.v, ty)
    if name == "next_multiple_of" and isinstance(a0, Int) and a0.v > 0 and a0.v & (a0.v - 1) == 0 and ty and ty[0] == "u" and not isinstance(v, Int):
        up = I.binop("+", v, mkint(a0.v - 1, ty), node, env)   # overflows exactly when the next multiple does
        return I.binop("&", up, mkint((1 << w) - a0.v, ty), node, env)
    if name in ("leading_zeros", "trailing_zeros", "count_ones", "ilog2") and isinstance(v, Int):
        x = v.v & ((1 << w) - 1)
        return Int({"leading_zeros": lambda: w - x.bit_length(), "trailing_zeros": lambda: (x & -x).bit_length() - 1 if x else w,
                    "count_ones": lambda: bin(x).count("1"), "ilog2": lambda: x.bit_length() - 1}[name](), "u32")
    if name == "next_power_of_two" and isinstance(v, BV) and not signed(ty):
        cs = terms.const_cases(v.t)
        if cs:
            r = None
            for k, c in cs.items():
                x = mkint(1 << max(0, (k - 1).bit_length()), ty)
                r = x if r is None else merge(c, x, r)
            return r
    if name in ("leading_zeros", "trailing_zeros", "ilog2") and isinstance(v, BV):
        t = v.t
        if t.op == "shl" and terms.is_const(t.args[0]) and terms.cval(t.args[0]) == 1 and terms.rng(t)[0] > 0:
            n = terms.trunc(terms.zext(t.args[1], 64), 32)   # the position of the only bit
            return bv(terms.sub(terms.const(w - 1, 32), n) if name == "leading_zeros" else n, "u32")
    if name in ("div_euclid", "rem_euclid") and not (isinstance(v, Int) and isinstance(a0, Int)):
        if not signed(ty):
            return I.binop("/" if name[0] == "d" else "%", v, a0, node, env)
        x, y = term_of(v, ty), term_of(a0, ty)
        z, one = terms.const(0, w), terms.const(1, w)
        I.binop("/", v, a0, node, env)   # panics as division does
        below = terms.slt(terms.divop("srem", x, y), z)
        if name == "div_euclid":
            q = terms.divop("sdiv", x, y)
            return bv(terms.ite(below, terms.ite(terms.slt(z, y), terms.sub(q, one), terms.add(q, one)), q), ty)
        r = terms.divop("srem", x, y)
        return bv(terms.ite(below, terms.add(r, terms.ite(terms.slt(z, y), y, terms.neg(y))), r), ty)
    if name in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
        x = term_of(v, ty)
        bs = [bv(terms.trunc(terms.lshr(x, 8 * i) if i else x, 8), "u8") for i in range(w // 8)]
        return VecV(bs if name != "to_be_bytes" else bs[::-1])
    if name in ("eq", "ne", "lt", "le", "gt", "ge"):
        return I.binop({"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[name], v, a0, node, env)
    if name in ("cmp", "partial_cmp"):
        x, y = term_of(v, ty), term_of(a0, ty)
        lt = (terms.slt if signed(ty) else terms.ult)(x, y)
        e = terms.eq(x, y)
        o = ("Ordering",)
        r = merge(lt, EnumV(o, "Less"), merge(e, EnumV(o, "Equal"), EnumV(o, "Greater")))
        return Some(r) if name[0] == "p" else r
    if name in ("add", "sub", "mul", "bitand", "bitor", "bitxor", "shl", "shr"):
        return I.binop({"add": "+", "sub": "-", "mul": "*", "bitand": "&", "bitor": "|", "bitxor": "^", "shl": "<<", "shr": ">>"}[name], v, a0, node, env)
    if name == "clamp":
        lo, hi = args[0], args[1]
        return int_method(I, int_method(I, v, "max", [lo], hint, node, env, place), "min", [hi], hint, node, env, place)
    if name == "is_positive":
        return terms.slt(terms.const(0, w), term_of(v, ty))
    if name == "div_ceil" and not signed(ty or "u64"):
        q = I.binop("/", v, a0, node, env)
        rest = I.binop("%", v, a0, node, env)
        return merge(I.equal(rest, Int(0, ty)), q, I.binop("+", q, Int(1, ty), node, env))
    if name == "is_multiple_of" and isinstance(a0, Int) and a0.v:
        return I.equal(I.binop("%", v, a0, node, env), Int(0, ty))
    if name in ("swap_bytes", "reverse_bits", "to_le", "to_be"):
        b = terms.bits(term_of(v, ty))
        if name == "reverse_bits":
            return bv(terms.from_bits(tuple(b[::-1])), ty)
        return v if name == "to_le" else bv(terms.from_bits(tuple(x for i in range(w - 8, -1, -8) for x in b[i:i + 8])), ty)
    if name in ("rotate_left", "rotate_right") and isinstance(a0, Int):
        b = terms.bits(term_of(v, ty))
        k = a0.v % w if name == "rotate_right" else -a0.v % w
        return bv(terms.from_bits(tuple(b[k:]) + tuple(b[:k])), ty)
    if name == "is_negative":
        return terms.slt(term_of(v, ty), terms.const(0, w))
    if name == "is_zero":
        return I.equal(v, Int(0, ty))
    if name == "is_one":
        return I.equal(v, Int(1, ty))
    if name == "bit_range" and len(args) == 2 and all(isinstance(I.deref(a), Int) for a in args):
        msb, lsb = I.deref(args[0]).v, I.deref(args[1]).v
        h = I.strip(hint) if hint else None
        oty = h[1] if h and h[0] == "p" and h[1] in PRIMS else ty
        x = term_of(v, ty)
        b = terms.bits(x)[lsb:msb + 1]
        ow = PRIMS[oty]
        return bv(terms.from_bits((b + (False,) * ow)[:ow]), oty)
    if name == "bit" and isinstance(a0, Int):
        return terms.bits(term_of(v, ty))[a0.v]
    if name == "then":
        pass
    if name in ("to_canonical_u64", "to_noncanonical_u64"):
        return I.cast(v, ("p", "u64"))
    return NotImplemented


def saturated(op, a, b, ty, w):
    """the bound an operation that overflows is held at"""
    if not signed(ty or "i64"):
        return mkint(0 if op == "-" else (1 << w) - 1, ty)
    z = terms.const(0, w)
    below = terms.slt(term_of(a, ty), z)
    if op == "*":
        c = terms.slt(term_of(b, ty), z)
        below = or_(and_(below, not_(c)), and_(not_(below), c))
    return merge(below, mkint(-(1 << (w - 1)), ty), mkint((1 << (w - 1)) - 1, ty))


def int_arm(I, v, name, k, args, hint, node, env, place):
    place.set(v)
    return I.method(v, name, [Int(k, "usize")] + list(args[1:]), hint, node, env, place)


def chain_arms(I, conds, fs):
    if len(fs) == 1:
        return fs[0]()
    return I.branch(conds[0], fs[0], lambda: chain_arms(I, conds[1:], fs[1:]))


def try_from(I, v, to):
    if isinstance(v, Int):
        return Ok(Int(v.v, to)) if mkint(v.v, to).v == v.v else Err(mkT("TryFromIntError", ()))
    r = bv(term_of(v, to), to)
    frm = v.ty
    w1, w2 = PRIMS[frm], PRIMS[to]
    if (not signed(frm) and (w2 > w1 or (w2 == w1 and not signed(to)))) or (signed(frm) and signed(to) and w2 >= w1):
        return Ok(r)
    W = max(w1, w2) + 1
    a = (terms.sext if signed(frm) else terms.zext)(v.t, W)
    b = (terms.sext if signed(to) else terms.zext)(term_of(r, to), W)
    c = terms.eq(a, b)
    return Ok(r) if c is True else GateV(c, Ok(r), Err(mkT("TryFromIntError", ())))


def into_value(I, v, h):
    """v.into() with target type h (descriptor or None)"""
    if h is None or h[0] == "any":
        return v
    if h[0] == "adt":
        cands = []
        for im in I.P.impls.get(h[1]["path"], []):
            if im.trait and im.trait[-1]["id"] == "From" and "from" in im.fns:
                s = I.impl_score(im, "from", None, [v])
                if s:
                    cands.append((s, im))
        if cands:
            cands.sort(key=lambda c: -c[0])
            im = cands[0][1]
            g = I.bind_impl_gen(im, h)
            from interp import Env
            return I.call_fn(im.fns["from"], [("v", v)], Env(None, im.mod, g, h, impl=im), hint=h, gen=g, self_ty=h, impl=im)
    if h[0] == "p" and h[1] in PRIMS and isinstance(v, StructV):
        c = user_from_prim(I, v, h[1])
        if c is not None:
            return c
    if h[0] == "p":
        return I.coerce(v, h) if not is_bool(v) else I.cast(v, h)
    if h[0] == "ext" and h[1] in ("Vec", "Option"):
        r = ext_from(I, v, h)
        if r is not None:
            return r
    if h[0] in ("arr", "slice", "ext") and isinstance(v, StructV):
        for head in ("[]", "Vec"):
            for im in I.P.impls.get(head, []):
                if im.trait and im.trait[-1]["id"] == "From" and "from" in im.fns and I.impl_score(im, "from", None, [v]):
                    return I.call_user((im, im.fns["from"]), [v], h, None, None)
    return v


def ext_from(I, v, h):
    """the repository's own `From<T> for Vec<X>` or `Option<X>`"""
    v = I.deref(v)
    if not (h and h[0] == "ext" and h[1] in ("Vec", "Option") and isinstance(v, (StructV, GateV))):
        return None
    from interp import Env
    for im in I.P.impls.get(h[1], []):
        if im.trait and im.trait[-1]["id"] == "From" and "from" in im.fns and I.impl_score(im, "from", None, [v]):
            st = I.ty(im.self_node, Env(None, im.mod, {}, None, impl=im))
            a, b = [x[2][0] if len(x) > 2 and x[2] else None for x in (h, st)]
            if a and b and a[0] == "adt" and b[0] == "adt" and a[1]["path"] != b[1]["path"]:
                continue
            return I.call_fn(im.fns["from"], [("v", v)], Env(None, im.mod, {}, h, impl=im), hint=h, self_ty=h, impl=im)
    return None


def user_from_prim(I, v, ty):
    for im in I.P.impls.get(ty, []):
        if im.trait and im.trait[-1]["id"] == "From" and "from" in im.fns and I.impl_score(im, "from", None, [v]):
            return I.call_user((im, im.fns["from"]), [v], ("p", ty), None, None)
    return None


# ----------------------------------------------------------------- sequences
def range_items(r):
    if isinstance(r.lo, Int) and isinstance(r.hi, Int):
        hi = r.hi.v + (1 if r.incl else 0)
        if hi - r.lo.v > 100000:
            return None
        ty = r.lo.ty or r.hi.ty
        return [Int(i, ty) for i in range(r.lo.v, hi)]
    return None


def open_range(I, r):
    """the i-th element of `lo..`"""
    lo = r.lo
    if isinstance(lo, Int):
        return lambda i: Int(lo.v + i, lo.ty)
    w = width(lo.ty)
    return lambda i: bv(terms.add(lo.t, terms.const(i, w)), lo.ty)


def items(I, it):
    byref = isinstance(it, RefV)
    place = it.place if byref else None
    v = I.deref(it)
    if isinstance(v, (VecV, IterV)):
        if byref and isinstance(v, VecV):
            from interp import IndexPlace
            return [RefV(IndexPlace(I, place, Int(i, "usize"))) for i in range(len(v.xs))]
        return list(v.xs)
    if isinstance(v, RangeV):
        return range_items(v)
    if isinstance(v, MapV):
        if v.is_set:
            return [k for k, _ in v.entries()]
        return [(k, x) for k, x in v.entries()]
    if isinstance(v, tuple) and v == ():
        return None
    if isinstance(v, EnumV) and v.path[-1] == "Option":
        return [] if v.var == "None" else [v.p[0]]
    if isinstance(v, StructV):
        for nm in ("into_iter", "iter"):
            f = I.find_impl_method(v, nm)
            if f:
                return items(I, I.call_user(f, [v], None, None, None))
        f = I.find_impl_method(v, "next")
        if f is None:
            f = I.find_impl_method(v, "deref")
            if f:
                return items(I, I.call_user(f, [v], None, None, None))
    if isinstance(v, DomainV):
        r = v.method(I, "items", [], None, None)
        if r is not NotImplemented:
            return r
    return None


def elem(I, it, x):
    v = I.deref(it)
    if isinstance(v, T):
        o = v.op
        if o == "m:enumerate":
            return (bv(mkT("int", (mkT("eidx", (x,)),), 64), "usize"), elem(I, v.args[0], x))
        if o == "m:zip":
            return (elem(I, v.args[0], x), mkT("elemof", (v.args[1], x)))
    return x


def seq(I, v):
    """list of items if known else None (values, refs stripped)"""
    r = items(I, I.deref(v))
    return r


ITER_ADAPT = {"iter", "into_iter", "iter_mut", "by_ref", "into_par_iter", "par_iter", "copied", "cloned", "peekable", "fuse", "drain",
              "as_slice", "to_vec", "into_boxed_slice", "as_ref", "as_mut", "collect", "collect_vec", "into_values", "each_ref", "try_collect", "with_min_len", "par_bridge",
              "into_inner", "to_owned", "clone", "borrow", "as_mut_slice", "as_bytes", "into_vec", "into_bytes"}


def to_kind(I, xs, hint, dflt=VecV):
    h = I.strip(hint) if hint else None
    if h and h[0] == "ext":
        if h[1] in ("HashMap", "BTreeMap", "IndexMap"):
            return MapV({freeze(I.deref(x)[0]): tuple(I.deref(x)) for x in xs}, map_kind(h[1]))
        if h[1] in ("HashSet", "BTreeSet", "IndexSet"):
            return MapV({freeze(I.deref(x)): (I.deref(x), UNIT) for x in xs}, map_kind(h[1]))
        if h[1] in ("Result", "Option"):
            inner = h[2][0] if h[2] else None
            okv = "Ok" if h[1] == "Result" else "Some"
            out, bad = [], None
            for x in xs:
                x = I.deref(x)
                c = I.is_variant(x, (h[1],), okv)
                out.append(I.payload(x, (h[1],), okv, 0))
                if c is not True:
                    b = x if isinstance(x, EnumV) else mkT("firsterr", (freeze(x),))
                    bad = (c, b) if bad is None else (and_(bad[0], c), merge(not_(bad[0]), bad[1], b))
            good = EnumV((h[1],), okv, (to_kind(I, out, inner),))
            if bad is None:
                return good
            if h[1] == "Option":
                return NONE if bad[0] is False else GateV(bad[0], good, NONE)
            e = bad[1] if isinstance(bad[1], EnumV) else Err(bad[1])
            return e if bad[0] is False else GateV(bad[0], good, e)
        if h[1] == "String":
            return mkT("concat", tuple(freeze(x) for x in xs))
    if h and h[0] == "adt":
        for im in I.P.impls.get(h[1]["path"], []):
            if im.trait and im.trait[-1]["id"] == "FromIterator" and "from_iter" in im.fns:
                if im.node.get("from_macro") == "columns_view_impl":
                    return I.unflatten(h[1], list(xs), h[2])
                from interp import Env
                g = I.bind_impl_gen(im, h)
                return I.call_fn(im.fns["from_iter"], [("v", IterV(xs))], Env(None, im.mod, g, h, impl=im), hint=h, gen=g, self_ty=h, impl=im)
    return dflt(xs)


def enum_head(v):
    if isinstance(v, EnumV):
        return v.path[-1]
    if isinstance(v, GateV):
        return enum_head(v.a) or enum_head(v.b)
    return None


def try_fold(I, acc, f, xs, hint, call):
    """folds while the step succeeds; the first failure is the result"""
    h = I.strip(hint) if hint else None
    r = Some(acc) if h and h[0] == "ext" and h[1] == "Option" else Ok(acc)
    if not xs:
        return r
    r = I.deref(call(f, acc, xs[0]))
    if len(xs) == 1:
        return r
    t = enum_head(r)
    path, good = (("Option",), "Some") if t == "Option" else (("Result",), "Ok")
    if t is None and not isinstance(r, T):
        raise AnalysisError(f"try_fold over {r!r}"[:100])
    return I.branch(I.is_variant(r, path, good), lambda: try_fold(I, I.payload(r, path, good, 0), f, xs[1:], hint, call), lambda: r)


def seq_method(I, v, xs, name, args, hint, node, env, place):
    n = len(xs)
    a0 = args[0] if args else None
    call = lambda f, *vs: I.call(f, list(vs), None, node, env)
    if name in ("iter", "into_iter", "by_ref", "into_par_iter", "par_iter", "peekable", "fuse", "par_bridge", "with_min_len"):
        return IterV(xs) if not (name == "by_ref" and place is not None) else RefV(place)
    if name in ("copied", "cloned"):
        return IterV([I.deref(x) for x in xs])
    if name == "iter_mut":
        if place is not None and isinstance(v, VecV):
            from interp import IndexPlace
            return IterV([RefV(IndexPlace(I, place, Int(i, "usize"))) for i in range(n)])
        return IterV(xs)
    if name in ("collect", "collect_vec", "to_vec", "try_collect", "into_vec"):
        return to_kind(I, xs, hint if name != "collect_vec" else None)
    if name in ("as_slice", "clone", "to_owned", "into_boxed_slice", "as_ref", "borrow", "as_mut", "as_mut_slice", "into_inner", "each_ref", "as_bytes", "into_bytes", "deref"):
        if name == "into_inner":
            return Ok(VecV(xs))
        if name in ("as_mut", "as_mut_slice") and place is not None:
            return RefV(place)
        return v if not isinstance(v, RangeV) else v
    if name == "map" and isinstance(v, VecV):
        return VecV([call(a0, x) for x in xs])
    if name == "flat_map_iter":
        name = "flat_map"
    if name in ("map", "flat_map", "filter_map", "for_each", "inspect", "filter", "scan", "map_while"):
        if name == "map":
            return IterV([call(a0, x) for x in xs])
        if name == "for_each":
            for x in xs:
                call(a0, x)
            return UNIT
        if name == "inspect":
            for x in xs:
                call(a0, x)
            return IterV(xs)
        if name == "flat_map":
            out = []
            for x in xs:
                y = call(a0, x)
                s = seq(I, y)
                if s is None:
                    return NotImplemented
                out += s
            return IterV(out)
        if name == "scan":
            st = I.temp(args[0])
            out = []
            for x in xs:
                r = call(args[1], RefV(st), x)
                c = I.is_variant(r, ("Option",), "Some")
                if c is False:
                    break
                if c is not True:
                    return NotImplemented
                out.append(I.payload(r, ("Option",), "Some", 0))
            return IterV(out)
        if name in ("filter", "filter_map"):
            out = []
            for x in xs:
                r = call(a0, x)
                c = I.truth(r) if name == "filter" else I.is_variant(r, ("Option",), "Some")
                if c is True:
                    out.append(x if name == "filter" else I.payload(r, ("Option",), "Some", 0))
                elif c is not False:
                    return mkT("m:" + name, (freeze(v), I.lam(a0)))
            return IterV(out)
        if name == "map_while":
            out = []
            for x in xs:
                r = call(a0, x)
                c = I.is_variant(r, ("Option",), "Some")
                if c is False:
                    break
                if c is not True:
                    return NotImplemented
                out.append(I.payload(r, ("Option",), "Some", 0))
            return IterV(out)
        return NotImplemented
    if name in ("take_while", "skip_while"):
        k = 0
        for x in xs:
            c = I.truth(call(a0, x))
            if c is False:
                break
            if c is not True:
                return NotImplemented
            k += 1
        return IterV(xs[:k] if name == "take_while" else xs[k:])
    if name == "try_for_each":
        return try_fold(I, UNIT, lambda _, x: call(a0, x), list(xs), hint, lambda f, *vs: f(*vs))
    if name in ("starts_with", "ends_with"):
        ys = seq(I, I.deref(a0))
        if ys is None:
            return NotImplemented
        k = len(ys)
        zs = xs[:k] if name[0] == "s" else xs[n - k:]
        return k <= n and and_(*[I.equal(I.deref(x), I.deref(y)) for x, y in zip(zs, ys)], True)
    if name == "split_off" and isinstance(I.deref(a0), Int) and place is not None:
        k = I.deref(a0).v
        if k > n:
            I.panic("index", "split_off", node, env)
        place.set(VecV(xs[:k]))
        return VecV(xs[k:])
    if name in ("split_at_mut", "chunks_mut", "chunks_exact_mut") and isinstance(I.deref(a0), Int) and place is not None and isinstance(v, VecV):
        from interp import SlicePlace
        k = I.deref(a0).v
        if name == "split_at_mut":
            if k > n:
                I.panic("slice", "split_at_mut", node, env)
            return (RefV(SlicePlace(I, place, 0, k)), RefV(SlicePlace(I, place, k, n)))
        return IterV([RefV(SlicePlace(I, place, i, min(i + k, n))) for i in range(0, n, k) if name == "chunks_mut" or i + k <= n])
    if name == "rchunks" and isinstance(I.deref(a0), Int):
        k = I.deref(a0).v
        return IterV([VecV(xs[max(0, i - k):i]) for i in range(n, 0, -k)])
    if name in ("max_by_key", "min_by_key") and xs:
        ks = [I.deref(call(a0, x)) for x in xs]
        if all(isinstance(k, Int) for k in ks):
            i = max(range(n), key=lambda i: (ks[i].v, i)) if name[1] == "a" else min(range(n), key=lambda i: (ks[i].v, i))
            return Some(xs[i])
    if name == "retain" and place is not None and isinstance(v, VecV):
        out = []
        for x in xs:
            c = I.truth(call(a0, RefV(I.temp(x))))
            if c is True:
                out.append(x)
            elif c is not False:
                return NotImplemented
        place.set(VecV(out))
        return UNIT
    if name == "partition":
        yes, no = [], []
        for x in xs:
            c = I.truth(call(a0, x))
            if c is not True and c is not False:
                return NotImplemented
            (yes if c else no).append(x)
        hs = hint[1] if hint and hint[0] == "tup" and len(hint[1]) == 2 else [None, None]
        return (to_kind(I, yes, hs[0]), to_kind(I, no, hs[1]))
    if name == "enumerate":
        return IterV([(Int(i, "usize"), x) for i, x in enumerate(xs)])
    if name == "rev":
        return IterV(xs[::-1])
    if name in ("zip", "zip_eq"):
        o = I.deref(a0)
        if isinstance(o, InfIter):
            return IterV([(x, o.fn(o.pos + i)) for i, x in enumerate(xs)])
        if isinstance(o, RangeV) and o.hi is None:
            nth = open_range(I, o)
            return IterV([(x, nth(i)) for i, x in enumerate(xs)])
        ys = items(I, a0)
        if ys is None:
            return NotImplemented
        return IterV(list(zip(xs, ys)))
    if name == "chain":
        o = I.deref(a0)
        if isinstance(o, InfIter):
            return InfIter(lambda i: xs[i] if i < n else o.fn(o.pos + i - n))
        ys = items(I, a0)
        if ys is None:
            return mkT("chain", (freeze(v), freeze(I.deref(a0))))
        return IterV(list(xs) + ys)
    if name in ("skip", "take") and isinstance(I.deref(a0), Int):
        k = I.deref(a0).v
        return IterV(xs[k:] if name == "skip" else xs[:k])
    if name == "step_by" and isinstance(I.deref(a0), Int):
        return IterV(xs[::I.deref(a0).v])
    if name in ("fold",):
        acc = args[0]
        for x in xs:
            acc = call(args[1], acc, x)
        return acc
    if name == "try_fold":
        return try_fold(I, args[0], args[1], list(xs), hint, call)
    if name == "reduce":
        if not xs:
            return NONE
        acc = xs[0]
        for x in xs[1:]:
            acc = call(a0, acc, x)
        return Some(acc)
    if name in ("sum", "product"):
        op = "+" if name == "sum" else "*"
        if not xs:
            h = I.strip(hint) if hint else None
            if h and h[0] == "p":
                return mkint(0 if op == "+" else 1, h[1])
            return DEFAULT if op == "+" else Int(1)
        acc = I.deref(xs[0])
        for x in xs[1:]:
            acc = I.binop(op, acc, I.deref(x), node, env)
        return acc
    if name in ("any", "all"):
        r = name == "all"
        for x in xs:
            c = I.truth(call(a0, x))
            r = and_(r, c) if name == "all" else or_(r, c)
        return r
    if name in ("len", "count"):
        return Int(n, "usize")
    if name == "is_empty":
        return n == 0
    if name in ("first", "last", "peek"):
        if name == "last" and isinstance(v, IterV) or True:
            return NONE if not n else Some(xs[0] if name in ("first", "peek") else xs[-1])
    if name in ("first_mut", "last_mut") and place is not None:
        from interp import IndexPlace
        return NONE if not n else Some(RefV(IndexPlace(I, place, Int(0 if name[0] == "f" else n - 1, "usize"))))
    if name == "next":
        if not n:
            return NONE
        if place is not None:
            place.set(IterV(xs[1:]))
        return Some(xs[0])
    if name == "next_back":
        if not n:
            return NONE
        if place is not None:
            place.set(IterV(xs[:-1]))
        return Some(xs[-1])
    if name == "nth" and isinstance(I.deref(a0), Int):
        k = I.deref(a0).v
        if place is not None:
            place.set(IterV(xs[k + 1:]))
        return Some(xs[k]) if k < n else NONE
    if name in ("get", "get_mut"):
        i = I.deref(a0)
        if isinstance(i, Int):
            if name == "get_mut" and place is not None:
                from interp import IndexPlace
                return Some(RefV(IndexPlace(I, place, i))) if 0 <= i.v < n else NONE
            return Some(xs[i.v]) if 0 <= i.v < n else NONE
        if isinstance(i, RangeV):
            lo = 0 if i.lo is None else i.lo.v if isinstance(i.lo, Int) else None
            hi = n if i.hi is None else i.hi.v + (1 if i.incl else 0) if isinstance(i.hi, Int) else None
            if lo is not None and hi is not None:
                return Some(VecV(xs[lo:hi])) if lo <= hi <= n else NONE
        if isinstance(i, BV):
            c = terms.ult(i.t, terms.const(n, i.t.w))
            if n == 0 or c is False:
                return NONE
            s = Some(I.get_index(VecV(xs), i))
            return s if c is True else GateV(c, s, NONE)
        return NotImplemented
    if name == "contains":
        x = I.deref(a0)
        if isinstance(v, RangeV):
            return and_(I.truth(I.binop(">=", x, v.lo, node, env)), I.truth(I.binop("<=" if v.incl else "<", x, v.hi, node, env)))
        return or_(*[I.equal(x, I.deref(y)) for y in xs]) if xs else False
    if name in ("position", "find", "find_map", "rposition", "find_or_first"):
        r = NONE
        seqx = list(enumerate(xs))
        for i, x in reversed(seqx):
            y = call(a0, x)
            if name == "find_map":
                c, val = I.is_variant(y, ("Option",), "Some"), y
            else:
                c, val = I.truth(y), Some(Int(i, "usize")) if name == "position" else Some(x)
            r = val if c is True else r if c is False else merge(c, val, r)
        return r
    if name in ("tuple_windows",):
        k = 2
        h = node
        return IterV([(xs[i], xs[i + 1]) for i in range(n - 1)])
    if name == "circular_tuple_windows":
        return IterV([(xs[i], xs[(i + 1) % n]) for i in range(n)])
    if name in ("windows", "chunks", "chunks_exact", "array_chunks", "par_chunks") and isinstance(I.deref(a0), Int):
        k = I.deref(a0).v
        if name == "windows":
            return IterV([VecV(xs[i:i + k]) for i in range(n - k + 1)])
        return IterV([VecV(xs[i:i + k]) for i in range(0, n, k) if name == "chunks" or i + k <= n])
    if name == "tuples":
        k = 2
        return IterV([tuple(xs[i:i + k]) for i in range(0, n - k + 1, k)])
    if name in ("push", "push_back"):
        if place is not None:
            place.set(VecV(tuple(xs) + (a0,)))
        return UNIT
    if name == "pop":
        if place is not None and n:
            place.set(VecV(xs[:-1]))
        return Some(xs[-1]) if n else NONE
    if name in ("extend", "extend_from_slice", "append"):
        ys = items(I, I.deref(a0))
        if ys is None:
            if place is not None:
                place.set(mkT("chain", (freeze(v), freeze(I.deref(a0)))))
            return UNIT
        if place is not None:
            place.set(VecV(tuple(xs) + tuple(ys)))
        return UNIT
    if name in ("resize",) and isinstance(I.deref(a0), Int) and place is not None:
        k = cap(I.deref(a0))
        place.set(VecV((tuple(xs) + (args[1],) * k)[:k] if k > n else xs[:k]))
        return UNIT
    if name in ("resize", "truncate") and isinstance(I.deref(a0), BV) and place is not None:
        cs = terms.const_cases(I.deref(a0).t)
        cs = cs and [(k, c) for k, c in cs.items() if and_(I.pc, c) is not False]
        if cs:
            fs = [lambda k=k: int_arm(I, v, name, k, args, hint, node, env, place) for k, _ in cs]
            return chain_arms(I, [c for _, c in cs], fs)
    if name in ("truncate",) and isinstance(I.deref(a0), Int) and place is not None:
        place.set(VecV(xs[:I.deref(a0).v]))
        return UNIT
    if name in ("reserve", "shrink_to_fit"):
        return UNIT
    if name == "clear" and place is not None:
        place.set(VecV(()))
        return UNIT
    if name == "reverse" and place is not None:
        place.set(VecV(xs[::-1]))
        return UNIT
    if name in ("rotate_left", "rotate_right") and place is not None and isinstance(I.deref(a0), Int):
        k = I.deref(a0).v
        if k > n:
            I.panic("slice", f"{name} by {k} of {n}", node, env)
            return UNIT
        if n:
            k = k if name == "rotate_left" else n - k
            place.set(VecV(tuple(xs[k:]) + tuple(xs[:k])))
        return UNIT
    if name in ("counts", "counts_by"):
        d = {}
        for x in xs:
            k = I.deref(x) if name == "counts" else I.deref(call(a0, I.deref(x)))
            f = freeze(k)
            if f not in d and any(I.equal(q, k) is not False for q, _ in d.values()):
                return NotImplemented
            d[f] = (k, Int((d[f][1].v if f in d else 0) + 1, "usize"))
        return MapV(d, "map")
    if name in ("into_group_map", "into_group_map_by"):
        d = {}
        for x in xs:
            x = I.deref(x)
            k, y = (x[0], x[1]) if name == "into_group_map" else (call(a0, I.deref(x)), x)
            d.setdefault(freeze(I.deref(k)), (k, []))[1].append(y)
        return MapV({f: (k, VecV(ys)) for f, (k, ys) in d.items()}, "map")
    if name == "swap" and place is not None and all(isinstance(I.deref(a), Int) for a in args):
        l = list(xs)
        i, j = I.deref(args[0]).v, I.deref(args[1]).v
        l[i], l[j] = l[j], l[i]
        place.set(VecV(l))
        return UNIT
    if name in ("copy_from_slice", "clone_from_slice") and place is not None:
        ys = seq(I, a0)
        if ys is not None:
            if len(ys) != n:
                I.panic("slice", f"copy_from_slice length {len(ys)} != {n}", node, env)
            place.set(VecV(ys))
            return UNIT
        place.set(mkT("copied", (freeze(v), freeze(I.deref(a0)))))
        return UNIT
    if name == "fill" and place is not None:
        place.set(VecV([a0] * n))
        return UNIT
    if name in ("split_at",) and isinstance(I.deref(a0), Int):
        k = I.deref(a0).v
        if k > n:
            I.panic("slice", "split_at", node, env)
        return (VecV(xs[:k]), VecV(xs[k:]))
    if name in ("split_first", "split_last"):
        if not n:
            return NONE
        return Some((xs[0], VecV(xs[1:]))) if name == "split_first" else Some((xs[-1], VecV(xs[:-1])))
    if name == "flatten_ok":
        out = []
        for x in xs:
            x = I.deref(x)
            if isinstance(x, EnumV) and x.var == "Err":
                out.append(x)
                continue
            ok = I.is_variant(x, ("Result",), "Ok")
            s = seq(I, I.payload(x, ("Result",), "Ok", 0))
            if s is None:
                return NotImplemented
            out += [EnumV(("Result",), "Ok", (y,)) for y in s] if ok is True else [merge(ok, EnumV(("Result",), "Ok", (y,)), x) for y in s]
        return IterV(out)
    if name in ("concat", "flatten"):
        out = []
        for x in xs:
            s = seq(I, x)
            if s is None:
                return NotImplemented
            out += s
        return VecV(out) if name == "concat" else IterV(out)
    if name == "try_into":
        h = I.strip(hint) if hint else None
        return Ok(VecV(xs))
    if name == "into":
        return into_value(I, v, I.strip(hint) if hint else None)
    if name in ("drain",):
        r = I.deref(a0)
        if isinstance(r, RangeV) and place is not None:
            lo = r.lo.v if isinstance(r.lo, Int) else 0
            hi = r.hi.v + (1 if r.incl else 0) if isinstance(r.hi, Int) else n
            place.set(VecV(tuple(xs[:lo]) + tuple(xs[hi:])))
            return IterV(xs[lo:hi])
    if name in ("min", "max") and xs and all(isinstance(I.deref(x), Int) for x in xs):
        f = min if name == "min" else max
        return Some(f((I.deref(x) for x in xs), key=lambda z: z.v))
    if name in ("min", "max") and not xs:
        return NONE
    if name == "unzip":
        ys = [I.deref(x) for x in xs]
        return (VecV([y[0] for y in ys]), VecV([y[1] for y in ys]))
    if name == "cycle":
        return InfIter(lambda i: xs[i % n])
    if name == "exactly_one" and n == 1:
        return Ok(xs[0])
    if name in SORTS or name in ("dedup", "unique"):
        if all(isinstance(I.deref(x), Int) for x in xs) and name in ("sorted", "sort", "sort_unstable"):
            ys = sorted((I.deref(x) for x in xs), key=lambda z: z.v)
            if name == "sorted":
                return IterV(ys)
            place.set(VecV(ys))
            return UNIT
        ys = constant_sort(I, xs, name, args)
        if ys is not None:
            if name.startswith("sorted") or isinstance(v, IterV):
                return IterV(ys)
            place.set(VecV(ys))
            return UNIT
        return NotImplemented
    if name in ("keys", "values", "values_mut", "into_values", "into_keys") and isinstance(v, MapV):
        return IterV([k if name.endswith("keys") else x for k, x in v.entries()])
    if name == "intersperse" and xs:
        out = [xs[0]]
        for x in xs[1:]:
            out += [a0, x]
        return IterV(out)
    if name in ("eq", "ne"):
        e = I.equal(v, a0)
        return e if name == "eq" else not_(e)
    if name == "join":
        return mkT("m:join", tuple(freeze(x) for x in xs) + tuple(freeze(a) for a in args))
    if name == "with_capacity":
        return VecV(())
    if name in ("start", "end") and isinstance(v, RangeV):
        return v.lo if name == "start" else v.hi
    if name == "insert" and isinstance(v, VecV) and isinstance(I.deref(a0), Int) and place is not None:
        k = I.deref(a0).v
        place.set(VecV(tuple(xs[:k]) + (args[1],) + tuple(xs[k:])))
        return UNIT
    if name == "remove" and isinstance(v, VecV) and isinstance(I.deref(a0), Int) and place is not None:
        k = I.deref(a0).v
        if k >= n:
            I.panic("index", "remove", node, env)
        place.set(VecV(tuple(xs[:k]) + tuple(xs[k + 1:])))
        return xs[k]
    if name == "iter_both":
        return IterV(xs)
    if name == "size_hint":
        return (Int(n, "usize"), Some(Int(n, "usize")))
    if name in ("chunk_by", "group_by"):
        groups = []
        for x in xs:
            k = I.deref(I.call(args[0], [x]))
            e = I.equal(groups[-1][0], k) if groups else False
            if e not in (True, False):
                return NotImplemented
            if e:
                groups[-1][1].append(x)
            else:
                groups.append((k, [x]))
        return Chunks([(k, tuple(g)) for k, g in groups])
    if name == "merge_join_by":
        ys = seq(I, a0)
        return NotImplemented if ys is None else merge_join(I, xs, ys, args[1])
    if name == "zip_longest":
        ys = seq(I, a0)
        if ys is not None:
            EB = ("EitherOrBoth",)
            return IterV([EnumV(EB, "Both", (xs[i], ys[i])) if i < n and i < len(ys) else EnumV(EB, "Left", (xs[i],)) if i < n else EnumV(EB, "Right", (ys[i],)) for i in range(max(n, len(ys)))])
    return NotImplemented


SORTS = tuple(p + u + by for p in ("sort", "sorted") for u in ("", "_unstable") for by in ("", "_by", "_by_key")) + ("sort_by_cached_key", "sorted_by_cached_key")


def same_key(x, y):
    return freeze(x) == freeze(y)


def ground(I, v):
    v = I.deref(v)
    if isinstance(v, StructV):
        return all(ground(I, x) for x in v.f.values())
    if isinstance(v, VecV):
        return all(ground(I, x) for x in v.xs)
    if isinstance(v, tuple):
        return all(ground(I, x) for x in v)
    return isinstance(v, (Int, bool))


def constant_sort(I, xs, name, args):
    """sort whose keys are all constants"""
    import functools
    if name in ("dedup", "unique"):
        ks = [I.deref(x) for x in xs]
        if not all(isinstance(k, Int) for k in ks):
            if not all(ground(I, k) for k in ks):
                return None
            fs = [freeze(k) for k in ks]
            return [x for i, x in enumerate(xs) if i == 0 or fs[i] not in ([fs[i - 1]] if name == "dedup" else fs[:i])]
        return [x for i, x in enumerate(xs) if i == 0 or ks[i].v not in ([ks[i - 1].v] if name == "dedup" else [k.v for k in ks[:i]])]
    try:
        if name.endswith("_key"):
            ks = [(sort_key(I.deref(I.call(args[0], [x]))), x) for x in xs]
            ys = sorted(ks, key=lambda t: t[0])
            if "unstable" in name and any(not a[0] < b[0] and not same_key(a[1], b[1]) for a, b in zip(ys, ys[1:])):
                return None
            return [x for _, x in ys]
        if name.endswith("_by"):
            def cmp(x, y):
                o = I.deref(I.call(args[0], [x, y]))
                if not (isinstance(o, EnumV) and o.path == ("Ordering",)):
                    raise AnalysisError("order not constant")
                return {"Less": -1, "Equal": 0, "Greater": 1}[o.var]
            return sorted(xs, key=functools.cmp_to_key(cmp))
        return [x for _, x in sorted(((sort_key(I.deref(x)), x) for x in xs), key=lambda t: t[0])]
    except (AnalysisError, TypeError):
        return None


def merge_join(I, xs, ys, f):
    EB = ("EitherOrBoth",)
    out, i, j = [], 0, 0
    while i < len(xs) or j < len(ys):
        if i == len(xs) or j == len(ys):
            o = "Greater" if i == len(xs) else "Less"
        else:
            c = I.deref(I.call(f, [xs[i], ys[j]]))
            if isinstance(c, EnumV) and c.path == ("Ordering",):
                o = c.var
            elif c is True or c is False:
                o = "Less" if c else "Greater"
            else:
                return NotImplemented
        out.append(EnumV(EB, "Both", (xs[i], ys[j])) if o == "Equal" else EnumV(EB, "Left", (xs[i],)) if o == "Less" else EnumV(EB, "Right", (ys[j],)))
        i += o != "Greater"
        j += o != "Less"
    return IterV(out)


def empty_like(I, old):
    """what `take` leaves behind"""
    v = I.deref(old)
    if isinstance(v, MapV):
        return MapV({}, v.kind)
    if isinstance(v, VecV) and not v.xs:
        return v
    if isinstance(v, EnumV) and v.path[-1] == "Option":
        return NONE
    return DEFAULT


class EntryV(DomainV):
    """the entry of a key in a map place"""

    def __init__(self, place, k, m, sub=None):
        self.place, self.k, self.m, self.sub = place, k, m, sub

    def key(self):
        return ("entry", self.place.key(), freeze(self.k))

    def default(self, I):
        from interp import FieldPlace
        if isinstance(self.place, FieldPlace):
            o = I.deref(self.place.p.get())
            d = I.P.lookup_abs(o.path) if isinstance(o, StructV) else None
            if isinstance(d, dict) and d["k"] == "ItemStruct":
                from interp import Env
                for i, f in enumerate(d["fields"]["f"]):
                    if (f.get("n") or str(i)) == self.place.n:
                        t = I.strip(I.ty(f["ty"], Env(None, d["mod"])))
                        if t[0] == "ext" and len(t[2]) > 1:
                            return I.default_of(t[2][1])
        return DEFAULT

    def method(self, I, name, args, hint, place):
        from interp import IndexPlace
        fk = freeze(self.k)
        if name == "is_variant":
            return (fk in self.m.d) == (args[1] == "Occupied")
        if name == "payload":
            return EntryV(self.place, self.k, self.m, args[1])
        if name == "key" and not args:
            return self.k
        if name in ("insert", "insert_entry"):
            m = I.deref(self.place.get())
            old = m.d.get(fk)
            self.place.set(MapV({**m.d, fk: (self.k, args[0])}, m.kind))
            if name == "insert_entry" or self.sub is None:
                return EntryV(self.place, self.k, I.deref(self.place.get()), "Occupied")
            return old[1] if fk in self.m.d else RefV(IndexPlace(I, self.place, self.k))
        if name in ("get", "get_mut", "into_mut") and fk in I.deref(self.place.get()).d:
            return RefV(IndexPlace(I, self.place, self.k))
        if name in ("remove", "remove_entry") and fk in I.deref(self.place.get()).d:
            m = I.deref(self.place.get())
            d = dict(m.d)
            k, x = d.pop(fk)
            self.place.set(MapV(d, m.kind))
            return x if name == "remove" else (k, x)
        if name in ("or_default", "or_insert", "or_insert_with"):
            if fk not in self.m.d:
                x = args[0] if name == "or_insert" else I.call(args[0], []) if name == "or_insert_with" else self.default(I)
                self.place.set(MapV({**self.m.d, fk: (self.k, x)}, self.m.kind))
            return RefV(IndexPlace(I, self.place, self.k))
        if name == "and_modify":
            if fk in self.m.d:
                I.call(args[0], [RefV(IndexPlace(I, self.place, self.k))])
                self.m = I.deref(self.place.get())
            return self
        return NotImplemented


def map_method(I, v, name, args, hint, node, env, place):
    a0 = I.deref(args[0]) if args else None
    known = lambda: True
    if name in ("get", "contains_key", "contains", "get_mut", "remove", "entry", "take"):
        k = freeze(a0)
        hit = k in v.d
        if not hit:
            # a symbolic key may coincide with a stored one
            sym = [x for x in v.d.values() if I.equal(x[0], a0) is not False]
            if sym:
                return NotImplemented
        if name in ("contains_key", "contains"):
            return hit
        if name == "entry" and place is not None:
            return EntryV(place, a0, v)
        if name == "get":
            return Some(v.d[k][1 if not v.is_set else 0]) if hit else NONE
        if name == "get_mut":
            from interp import IndexPlace
            return Some(RefV(IndexPlace(I, place, a0))) if hit else NONE
        if name in ("remove",):
            if hit and place is not None:
                d = dict(v.d)
                x = d.pop(k)
                place.set(MapV(d, v.kind))
                return Some(x[1]) if not v.is_set else True
            return NONE if not v.is_set else False
    if name == "insert":
        k = freeze(a0)
        old = v.d.get(k)
        if place is not None:
            place.set(MapV({**v.d, k: (a0, args[1] if len(args) > 1 else UNIT)}, v.kind))
        if v.is_set:
            return old is None
        return Some(old[1]) if old else NONE
    if name == "extend":
        ys = seq(I, args[0])
        if ys is not None and place is not None:
            d = dict(v.d)
            for y in ys:
                y = I.deref(y)
                if v.is_set:
                    d[freeze(y)] = (y, UNIT)
                else:
                    d[freeze(y[0])] = (y[0], y[1])
            place.set(MapV(d, v.kind))
            return UNIT
    if name in ("union", "difference", "intersection", "symmetric_difference") and isinstance(a0, MapV):
        if name == "union":
            return MapV({**v.d, **a0.d}, v.kind)
        if name == "difference":
            return MapV({k: x for k, x in v.d.items() if k not in a0.d}, v.kind)
        if name == "intersection":
            return MapV({k: x for k, x in v.d.items() if k in a0.d}, v.kind)
    if name in ("is_subset", "is_superset", "is_disjoint") and isinstance(a0, MapV):
        return {"is_subset": v.d.keys() <= a0.d.keys(), "is_superset": v.d.keys() >= a0.d.keys(), "is_disjoint": not (v.d.keys() & a0.d.keys())}[name]
    if name in ("clone", "to_owned", "as_ref", "borrow", "copied", "cloned"):
        return v
    xs = items(I, v)
    return seq_method(I, v, xs, name, args, hint, node, env, place)


# -------------------------------------------------------------- Option/Result
def enum_method(I, v, name, args, hint, node, env, place):
    kind = v.path[-1]
    a0 = args[0] if args else None
    call = lambda f, *vs: I.call(f, list(vs), None, node, env)
    if v.path == ("Either",) and v.var in ("Left", "Right"):
        left, x = v.var == "Left", v.p[0]
        if name in ("is_left", "is_right"):
            return left == (name == "is_left")
        if name in ("left", "right"):
            return Some(x) if left == (name == "left") else NONE
        if name in ("map_either",):
            return EnumV(v.path, v.var, (call(args[0 if left else 1], x),))
        if name in ("either",):
            return call(args[0 if left else 1], x)
        if name in ("map_left", "map_right"):
            return EnumV(v.path, v.var, (call(a0, x),)) if left == (name == "map_left") else v
        if name == "flip":
            return EnumV(v.path, "Right" if left else "Left", v.p)
        if name in ("left_or", "right_or", "left_or_else", "right_or_else"):
            return x if left == name.startswith("left") else a0 if name.endswith("_or") else call(a0, x)
        if name in ("unwrap_left", "unwrap_right", "expect_left", "expect_right"):
            if left == name.endswith("left"):
                return x
            I.panic("unwrap", f"{name} of the other side", node, env)
        if name in ("as_ref", "as_deref", "into_inner"):
            return x if name == "into_inner" else v
        if name in ("as_mut", "as_deref_mut") and place is not None:
            from interp import PayPlace
            return EnumV(v.path, v.var, (RefV(PayPlace(I, place, v.path, v.var, 0)),))
    if v.path == ("Cow",) and name in ("into_owned", "to_mut", "as_ref", "deref") and v.var in ("Owned", "Borrowed") and name != "to_mut":
        return v.p[0]
    if kind == "Option":
        some = v.var == "Some"
        x = v.p[0] if some else None
        if name in ("is_some", "is_none"):
            return some == (name == "is_some")
        if name in ("is_some_and", "is_none_or"):  # of a known option
            return I.truth(call(a0, x)) if some else name == "is_none_or"
        if name in ("unwrap", "expect"):
            if some:
                return x
            I.panic("unwrap", "unwrap of None", node, env)
        if name in ("unwrap_or", "unwrap_or_default", "unwrap_or_else"):
            if some:
                return x
            return a0 if name == "unwrap_or" else (I.default_of(hint) if hint else DEFAULT) if name == "unwrap_or_default" else call(a0)
        if name == "map":
            return Some(call(a0, x)) if some else NONE
        if name == "and_then":
            return call(a0, x) if some else NONE
        if name == "map_or":
            return call(args[1], x) if some else a0
        if name == "map_or_else":
            return call(args[1], x) if some else call(a0)
        if name in ("ok_or", "ok_or_else"):
            return Ok(x) if some else Err(a0 if name == "ok_or" else call(a0))
        if name in ("or", "or_else"):
            return v if some else (a0 if name == "or" else call(a0))
        if name == "filter":
            if not some:
                return NONE
            c = I.truth(call(a0, x))
            return v if c is True else NONE if c is False else GateV(c, v, NONE)
        if name in ("as_ref", "as_deref", "copied", "cloned", "clone", "as_slice", "to_owned"):
            return Some(I.deref(x)) if some and name in ("copied", "cloned", "clone") else v
        if name in ("as_mut", "as_deref_mut") and some and place is not None:
            from interp import PayPlace
            return Some(RefV(PayPlace(I, place, ("Option",), "Some", 0)))
        if name == "take":
            if place is not None:
                place.set(NONE)
            return v
        if name in ("insert", "replace", "get_or_insert", "get_or_insert_with"):
            if place is not None:
                if name.startswith("get_or"):
                    if not some:
                        place.set(Some(a0 if name == "get_or_insert" else call(a0)))
                    from interp import PayPlace
                    return RefV(PayPlace(I, place, ("Option",), "Some", 0))
                place.set(Some(a0))
            return v if name == "replace" else a0
        if name in ("iter", "into_iter"):
            return IterV((x,) if some else ())
        if name == "flatten":
            return x if some else NONE
        if name == "transpose":
            return NotImplemented
        if name == "zip":
            y = I.deref(a0)
            if isinstance(y, EnumV):
                return Some((x, y.p[0])) if some and y.var == "Some" else NONE
        if name in ("context", "with_context"):
            return Ok(x) if some else Err(mkT("anyhow", ()))
        if name == "inspect":
            return v
        if name in ("eq", "ne"):
            e = I.equal(v, a0)
            return e if name == "eq" else not_(e)
    if kind == "Result":
        ok = v.var == "Ok"
        x = v.p[0]
        if name in ("is_ok", "is_err"):
            return ok == (name == "is_ok")
        if name in ("unwrap", "expect"):
            if ok:
                return x
            I.panic("unwrap", "unwrap of Err", node, env)
        if name in ("unwrap_err", "expect_err"):
            if not ok:
                return x
            I.panic("unwrap", "unwrap_err of Ok", node, env)
        if name in ("unwrap_or", "unwrap_or_default", "unwrap_or_else"):
            if ok:
                return x
            return a0 if name == "unwrap_or" else DEFAULT if name == "unwrap_or_default" else call(a0, x)
        if name == "map":
            return Ok(call(a0, x)) if ok else v
        if name == "map_err":
            return v if ok else Err(call(a0, x))
        if name == "and_then":
            return call(a0, x) if ok else v
        if name == "or_else":
            return v if ok else call(a0, x)
        if name in ("ok", "err"):
            return Some(x) if ok == (name == "ok") else NONE
        if name in ("context", "with_context"):
            return v if ok else Err(mkT("anyhow", ()))
        if name in ("as_ref", "clone", "copied", "as_deref"):
            return v
        if name in ("map_or",):
            return call(args[1], x) if ok else a0
        if name == "iter":
            return IterV((x,) if ok else ())
        if name in ("eq", "ne"):
            e = I.equal(v, a0)
            return e if name == "eq" else not_(e)
    if kind == "EitherOrBoth":
        if name == "reduce":
            return call(a0, *v.p) if v.var == "Both" else v.p[0]
        if name in ("left", "right"):
            return Some(v.p[0 if name == "left" else -1]) if v.var in ("Both", name.capitalize()) else NONE
        if name in ("has_left", "has_right"):
            return v.var in ("Both", name[4:].capitalize())
        if name == "both":
            return Some((v.p[0], v.p[1])) if v.var == "Both" else NONE
    if kind == "Ordering":
        if name in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne"):
            return {"is_lt": v.var == "Less", "is_le": v.var != "Greater", "is_gt": v.var == "Greater", "is_ge": v.var != "Less", "is_eq": v.var == "Equal", "is_ne": v.var != "Equal"}[name]
        if name == "reverse":
            return EnumV(v.path, {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[v.var])
        if name in ("then", "then_with"):
            return v if v.var != "Equal" else (a0 if name == "then" else call(a0))
    return generic_method(I, v, name, args, hint, node, env, place)


def generic_method(I, v, name, args, hint, node, env, place):
    a0 = args[0] if args else None
    if name in ("clone", "to_owned", "borrow", "as_ref", "copied", "cloned", "deref", "lock", "by_ref", "as_deref"):
        return v
    if name in ("borrow_mut", "deref_mut", "as_mut", "get_mut") and not args:
        return RefV(place) if place is not None else v
    if name == "take" and not args and isinstance(v, (StructV,)) and place is not None:
        place.set(DEFAULT)
        return v
    if name in ("eq", "ne"):
        e = I.equal(v, a0)
        return e if name == "eq" else not_(e)
    if name == "into":
        return into_value(I, v, I.strip(hint) if hint else None)
    if name in ("add", "sub", "mul", "bitand", "bitor", "bitxor"):
        return I.binop({"add": "+", "sub": "-", "mul": "*", "bitand": "&", "bitor": "|", "bitxor": "^"}[name], v, a0, node, env)
    return NotImplemented


def field_ops(I, v, name, args, hint, node, env, place):
    return NotImplemented


SEQ_METHODS = None


def method(I, v, name, args, hint, node, env, place):
    if isinstance(v, (Int, BV)):
        return int_method(I, v, name, args, hint, node, env, place)
    if is_bool(v):
        return bool_method(I, v, name, args, hint, node, env, place)
    if isinstance(v, EnumV):
        return enum_method(I, v, name, args, hint, node, env, place)
    if isinstance(v, MapV):
        return map_method(I, v, name, args, hint, node, env, place)
    if isinstance(v, (VecV, IterV)):
        r = seq_method(I, v, list(v.xs), name, args, hint, node, env, place)
        if r is NotImplemented and name in ITER_ADAPT:
            return v
        return r
    if isinstance(v, RangeV):
        xs = range_items(v)
        if name == "contains":
            x = I.deref(args[0])
            c = True
            if v.lo is not None:
                c = and_(c, I.truth(I.binop(">=", x, v.lo, node, env)))
            if v.hi is not None:
                c = and_(c, I.truth(I.binop("<=" if v.incl else "<", x, v.hi, node, env)))
            return c
        if xs is None:
            if v.hi is None and isinstance(v.lo, (Int, BV)):
                return inf_method(I, InfIter(open_range(I, v)), name, args, hint, node, env, place)
            if name in ("clone", "into_iter", "iter"):
                return v
            return NotImplemented
        return seq_method(I, v, xs, name, args, hint, node, env, place)
    if isinstance(v, InfIter):
        return inf_method(I, v, name, args, hint, node, env, place)
    if isinstance(v, StructV):
        if name in ("iter", "into_iter", "map", "enumerate", "zip", "collect") and not I.method_candidates(v, "deref"):
            pass
        return generic_method(I, v, name, args, hint, node, env, place)
    if v is DEFAULT:
        if name in ("len",):
            return Int(0, "usize")
        if name == "is_empty":
            return True
        if name in ("push", "push_back") and place is not None:
            place.set(VecV((args[0],)))
            return UNIT
        if name == "insert" and len(args) == 2 and place is not None:
            place.set(MapV({freeze(I.deref(args[0])): (I.deref(args[0]), args[1])}, "map"))
            return NONE
        if name == "insert" and len(args) == 1 and place is not None:
            place.set(MapV({freeze(I.deref(args[0])): (I.deref(args[0]), UNIT)}, "set"))
            return True
        if name in ("extend",) and place is not None:
            ys = items(I, args[0])
            if ys is not None:
                place.set(VecV(ys))
                return UNIT
        if name in ("iter", "into_iter"):
            return IterV(())
        if name.startswith("checked_") and len(args) == 1 and isinstance(I.deref(args[0]), Int) and I.deref(args[0]).ty:
            # zero of the argument's own type
            return int_method(I, Int(0, I.deref(args[0]).ty), name, args, hint, node, env, place)
        return generic_method(I, v, name, args, hint, node, env, place)
    if isinstance(v, str):
        return str_method(I, v, name, args, hint, node, env, place)
    if isinstance(v, tuple):
        if name == "map_into" or name == "into":
            return v
        return generic_method(I, v, name, args, hint, node, env, place)
    if isinstance(v, (ClosureV, FnV)):
        if name in ("clone", "by_ref", "borrow"):
            return v
        if name in ("call", "call_once"):
            return I.call(v, list(args[0]) if isinstance(args[0], tuple) else list(args), hint, node, env)
        return NotImplemented
    if isinstance(v, T):
        return opaque_method(I, v, name, args, hint, node, env, place)
    return NotImplemented


def bool_method(I, v, name, args, hint, node, env, place):
    if name in ("then", "then_some"):
        if name == "then_some":
            return Some(args[0]) if v is True else NONE if v is False else GateV(v, Some(args[0]), NONE)
        return I.branch(v, lambda: Some(I.call(args[0], [], None, node, env)), lambda: NONE)
    if name in ("clone", "copied", "to_owned", "borrow"):
        return v
    if name == "into":
        h = I.strip(hint) if hint else None
        if h and h[0] == "p" and h[1] in PRIMS:
            return I.cast(v, h)
        return v
    if name == "not":
        return not_(v)
    if name in ("eq", "ne"):
        e = I.equal(v, args[0])
        return e if name == "eq" else not_(e)
    return NotImplemented


class Chunks(DomainV):
    """runs of elements with equal keys: [(key, elements)]; handed out in turn by whoever iterates"""

    def __init__(self, groups):
        self.groups = tuple(groups)

    def key(self):
        return ("chunks", tuple((freeze(k), tuple(freeze(x) for x in g)) for k, g in self.groups))

    def method(self, I, name, args, hint, place):
        if name in ("into_iter", "iter"):
            return ChunkIter(place or I.temp(self), ())
        if name == "items":
            return [(k, IterV(g)) for k, g in self.groups]
        return NotImplemented


class ChunkIter(DomainV):
    """the rest of the runs, with what is applied to each"""

    def __init__(self, place, fs):
        self.place, self.fs = place, fs

    def key(self):
        return ("chunkiter", id(self))

    def one(self, I):
        c = I.deref(self.place.get())
        if not c.groups:
            return None
        k, g = c.groups[0]
        self.place.set(Chunks(c.groups[1:]))
        x = (k, IterV(g))
        for f in self.fs:
            x = I.call(f, [x])
        return x

    def rest(self, I):
        xs = []
        while I.deref(self.place.get()).groups:
            xs.append(self.one(I))
        return xs

    def method(self, I, name, args, hint, place):
        if name in ("into_iter", "iter", "by_ref"):
            return self
        if name == "map":
            return ChunkIter(self.place, self.fs + (args[0],))
        if name == "next":
            x = self.one(I)
            return NONE if x is None else Some(x)
        if name == "items":
            return self.rest(I)
        return I.method(IterV(self.rest(I)), name, args, hint, None, None, None)


class IterEnd(AnalysisError):
    """an iterator of unknown length ends"""

    def __init__(self):
        super().__init__("iterator ended")


DRAINS = ("collect", "collect_vec", "count", "last", "fold", "for_each", "rev", "sum", "max", "min", "collect_tuple", "try_fold", "unzip", "chain")


def inf_method(I, v, name, args, hint, node, env, place):
    a0 = args[0] if args else None
    if name in ("iter", "into_iter", "by_ref", "clone"):
        return v
    if name == "map":
        return InfIter(lambda i: I.call(a0, [v.fn(v.pos + i)]))
    if name == "take" and isinstance(I.deref(a0), Int):
        return IterV([v.fn(v.pos + i) for i in range(I.deref(a0).v)])
    if name == "skip" and isinstance(I.deref(a0), Int):
        return InfIter(v.fn, v.pos + I.deref(a0).v)
    if name == "step_by" and isinstance(I.deref(a0), Int):
        k = I.deref(a0).v
        return InfIter(lambda i: v.fn(v.pos + i * k))
    if name == "next":
        try:
            x = v.fn(v.pos)
        except IterEnd:
            return NONE
        if place is not None:
            place.set(InfIter(v.fn, v.pos + 1))
        return Some(x)
    if name in ("zip",):
        o = I.deref(a0)
        if isinstance(o, InfIter):
            return InfIter(lambda i: (v.fn(v.pos + i), o.fn(o.pos + i)))
        ys = items(I, a0)
        if ys is not None:
            return IterV([(v.fn(v.pos + i), y) for i, y in enumerate(ys)])
    if name == "enumerate":
        return InfIter(lambda i: (Int(i, "usize"), v.fn(v.pos + i)))
    if name in DRAINS:
        xs = []
        try:
            while len(xs) < 4096:
                xs.append(v.fn(v.pos + len(xs)))
        except IterEnd:
            return I.method(IterV(xs), name, args, hint, node, env, place)
    return NotImplemented


def str_method(I, v, name, args, hint, node, env, place):
    if name in ("to_string", "to_owned", "as_str", "clone", "into", "as_ref", "borrow", "trim"):
        return v
    if name in ("as_bytes", "into_bytes", "bytes"):
        return VecV(Int(b, "u8") for b in v.encode())
    if name == "len":
        return Int(len(v.encode()), "usize")
    if name == "is_empty":
        return v == ""
    if name in ("eq", "ne"):
        e = I.equal(v, args[0])
        return e if name == "eq" else not_(e)
    if name == "push_str" and place is not None:
        o = I.deref(args[0])
        place.set(v + o if isinstance(o, str) else mkT("strcat", (v, freeze(o))))
        return UNIT
    if name == "split" and isinstance(I.deref(args[0]), str):
        return IterV(v.split(I.deref(args[0])))
    return NotImplemented


def opaque_method(I, v, name, args, hint, node, env, place):
    if name in ("clone", "to_owned", "borrow", "as_ref", "as_slice", "deref", "copied", "cloned", "as_deref", "iter", "into_iter", "by_ref", "as_mut_slice", "to_vec", "as_bytes", "into_boxed_slice", "as_str"):
        return v
    if name in ("borrow_mut", "as_mut", "deref_mut", "iter_mut") and not args:
        return RefV(place) if place is not None else v
    if name == "len":
        return BV(mkT("len", (v,), 64), "usize")
    if name == "count":
        return BV(mkT("len", (v,), 64), "usize")
    if name == "is_empty":
        return terms.eq(mkT("len", (v,), 64), terms.const(0, 64))
    if name in ("is_some", "is_none"):
        c = I.is_variant(v, ("Option",), "Some")
        return c if name == "is_some" else not_(c)
    if name in ("is_ok", "is_err"):
        c = I.is_variant(v, ("Result",), "Ok")
        return c if name == "is_ok" else not_(c)
    kindhint = None
    if name in ("map_err", "ok", "err", "unwrap_err", "or_else"):
        kindhint = "Result"
    if name in ("ok_or", "ok_or_else", "filter_some", "is_some_and"):
        kindhint = "Option"
    if name in ("unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "and_then", "context", "with_context") and kindhint is None:
        kindhint = "Result" if v.op in ("m:try_into", "m:parse", "m:lock") else "Option"
    if kindhint:
        path = (kindhint,)
        okv = "Some" if kindhint == "Option" else "Ok"
        bad = NONE if kindhint == "Option" else Err(mkT("pay", (v, "Err", 0)))
        good = EnumV(path, okv, (I.payload(v, path, okv, 0),))
        c = I.is_variant(v, path, okv)
        g = GateV(c, good, bad)
        if name in ("unwrap", "expect"):
            I.panic_if(not_(c), "unwrap", f"{name} may fail", node, env)
            return good.p[0]
        return I.method(g, name, args, hint, node, env, I.temp(g))
    if name == "get" and len(args) == 1:
        r = mkT("m:get", (v, freeze(I.deref(args[0]))))
        return r
    if name in ("eq", "ne"):
        e = I.equal(v, args[0])
        return e if name == "eq" else not_(e)
    if name in ("add", "sub", "mul"):
        return I.binop({"add": "+", "sub": "-", "mul": "*"}[name], v, args[0], node, env)
    if name == "into":
        h = I.strip(hint) if hint else None
        return into_value(I, v, h) if h else v
    if name == "push" and place is not None:
        place.set(mkT("chain", (v, ("V", freeze(args[0])))))
        return UNIT
    if name in ("extend", "extend_from_slice") and place is not None:
        place.set(mkT("chain", (v, freeze(I.deref(args[0])))))
        return UNIT
    if name == "chain" and len(args) == 1:
        return mkT("chain", (v, freeze(I.deref(args[0]))))
    if name in ("collect", "collect_vec", "collect_into"):
        h = I.strip(hint) if hint else None
        if h and h[0] == "ext" and h[1] not in ("Vec", "Box"):
            return mkT("m:collect", (v, h[1]))
        return v
    return NotImplemented


METHOD_NAMES = set()


def has_method(name):
    return name in KNOWN


KNOWN = set("""iter into_iter map filter fold sum enumerate zip chain rev collect collect_vec len is_empty push pop extend get get_mut first last
any all position find contains iter_mut by_ref skip take step_by windows chunks clone copied cloned flat_map filter_map flatten next unwrap
expect to_vec concat split_at copy_from_slice fill swap sort sorted insert remove keys values entry count min max product reduce
try_into into as_slice as_ref borrow tuple_windows unzip cycle for_each inspect resize truncate drain reverse eq ne""".split())


def has_static(t, name):
    return t[0] in ("p", "ext", "arr") and name in ("from", "default", "new", "try_from", "from_str_radix", "with_capacity", "from_le_bytes", "from_be_bytes", "from_fn", "from_iter")


def arg_hint(I, v, name, i, hint):
    v = I.deref(v)
    if isinstance(v, (Int, BV)) and v.ty:
        if name in ("checked_shl", "checked_shr", "wrapping_shl", "wrapping_shr", "pow", "overflowing_shl", "overflowing_shr"):
            return ("p", "u32")
        if name in ("wrapping_add_signed", "checked_add_signed"):
            return ("p", "i" + v.ty[1:])
        if name.endswith(("_add", "_sub", "_mul", "_div", "_rem")) or name in ("min", "max", "eq", "abs_diff", "next_multiple_of"):
            return ("p", v.ty)
    if name in ("unwrap_or", "map_or", "get_or_insert"):
        return hint
    if name == "fold" and i == 0:
        return hint
    return None


# ------------------------------------------------------------ paths and calls
def ext_const(I, full, segs, env, hint):
    if len(full) >= 2 and full[-2] in PRIMS:
        return assoc_const(I, ("p", full[-2]), full[-1], env, list(full))
    f = I.statics.get("assoc_const_hook")
    if f and len(full) >= 2:
        return f(I, ("ext", full[-2], []), full[-1], env, list(full))
    if f:
        return f(I, None, full[-1], env, list(full))
    return None


def assoc_const(I, t, name, env, ids):
    if t[0] == "p" and t[1] in PRIMS:
        w = PRIMS[t[1]]
        if name == "MAX":
            return Int((1 << (w - 1)) - 1 if signed(t[1]) else (1 << w) - 1, t[1])
        if name == "MIN":
            return Int(-(1 << (w - 1)) if signed(t[1]) else 0, t[1])
        if name == "BITS":
            return Int(w, "u32")
    f = I.statics.get("assoc_const_hook")
    if f:
        return f(I, t, name, env, ids)
    return None


OPTRAIT_OPS = {"Add": ("+", "add"), "Sub": ("-", "sub"), "Mul": ("*", "mul"), "Div": ("/", "div"), "Rem": ("%", "rem"), "BitAnd": ("&", "bitand"),
               "BitOr": ("|", "bitor"), "BitXor": ("^", "bitxor"), "Shl": ("<<", "shl"), "Shr": (">>", "shr")}


def call_ext(I, f, args, env, hint, node):
    force = lambda i, h=None: I.force(args[i], env, h)
    if f.kind == "tassoc":
        t, name, ids = f.x
        return call_tassoc(I, t, name, ids, args, env, hint, node)
    full, segs, fenv = f.x if isinstance(f.x, tuple) and len(f.x) == 3 and isinstance(f.x[0], tuple) else (f.x, None, env)
    name = full[-1]
    key = "::".join(full[-2:])
    ov = I.intrinsics.get(key) or I.intrinsics.get("ext:" + name)
    if ov is not None:
        vs = [I.force(a, env) for a in args]
        r = ov(I, vs, hint, env, node)
        if r is not NotImplemented:
            return r
        args = [("v", v) for v in vs]
        force = lambda i, h=None: I.force(args[i], env, h)
    if len(full) >= 2 and full[-2] in OPTRAIT_OPS and len(args) == 2 and OPTRAIT_OPS[full[-2]][1] == name:
        return I.binop(OPTRAIT_OPS[full[-2]][0], force(0), force(1), node, env)
    if len(full) >= 2:
        ty = full[-2]
        tseg = segs[-2] if segs and len(segs) >= 2 else None
        targs = [I.ty(a, fenv or env) for a in (tseg["a"] or [])] if tseg and tseg["a"] and tseg["id"] == ty else []
        if ty[0].isupper() or ty in PRIMS:
            return call_tassoc(I, ("ext", ty, targs) if ty not in PRIMS else ("p", ty), name, list(full), args, env, hint, node)
    if name == "Reverse" and len(args) == 1:
        return StructV(("Reverse",), {"0": force(0)})
    if name in ("merge_join_by", "zip_eq", "interleave", "intersperse") and full[0] == "itertools" and len(args) >= 2:
        return I.method(force(0), name, [force(i) for i in range(1, len(args))], hint, node, env, None)
    if name in ("from_fn",) and len(args) == 1:
        g = force(0)
        h = I.strip(hint) if hint else None
        if h and h[0] == "arr":
            n = h[1 + 1]()
            if n is not None:
                return VecV([I.call(g, [Int(i, "usize")]) for i in range(n)])
        c = I.deref(g)
        if isinstance(c, ClosureV) and not c.node["params"]:
            got = []

            def pull(i):
                while len(got) <= i:
                    if got and got[-1] is None:
                        raise IterEnd()
                    x = I.deref(I.call(g, []))
                    if not (isinstance(x, EnumV) and x.var in ("Some", "None")):
                        raise AnalysisError("whether the iterator ends is unknown")
                    got.append(x.p[0] if x.var == "Some" else None)
                if got[i] is None:
                    raise IterEnd()
                return got[i]
            return InfIter(pull)
        return mkT("from_fn", (I.lam(g),))
    if name in ("repeat", "repeat_with"):
        x = force(0)
        return InfIter((lambda i: x) if name == "repeat" else (lambda i: I.call(x, [])))
    if name == "repeat_n":
        x, k = force(0), I.deref(force(1))
        if isinstance(k, Int):
            return IterV([x] * cap(k))
        return mkT("repeat", (freeze(x), freeze(k)))
    if name == "successors":
        first, fn = force(0), force(1)
        cache = [I.deref(first)]

        def nth(i):
            while len(cache) <= i:
                prev = cache[-1]
                if isinstance(prev, EnumV) and prev.var == "None":
                    raise IterEnd()
                cache.append(I.call(fn, [prev.p[0]]))
            x = cache[i]
            if isinstance(x, EnumV) and x.var == "None":
                raise IterEnd()
            if not (isinstance(x, EnumV) and x.var == "Some"):
                raise AnalysisError("whether the successors end is unknown")
            return x.p[0]
        return InfIter(nth)
    if name == "once":
        return IterV((force(0),))
    if name == "empty" and not args:
        return IterV(())
    if name == "chain" and len(args) == 2:
        a, b = force(0), force(1)
        return I.method(IterV(items(I, a)) if items(I, a) is not None else a, "chain", [b], None, node, env, None)
    if name in ("zip", "zip_eq") and len(args) == 2:
        a, b = force(0), force(1)
        return I.method(IterV(items(I, a)) if items(I, a) is not None else a, "zip", [b], None, node, env, None)
    if name in ("drop", "forget", "black_box"):
        v = force(0)
        return v if name == "black_box" else UNIT
    if name == "swap" and len(args) == 2:
        a, b = force(0), force(1)
        x, y = a.place.get(), b.place.get()
        a.place.set(y)
        b.place.set(x)
        return UNIT
    if name in ("replace", "take") and args:
        a = force(0)
        old = a.place.get()
        a.place.set(force(1) if name == "replace" else empty_like(I, old))
        return old
    if name in ("min", "max") and len(args) == 2:
        a, b = I.deref(force(0)), I.deref(force(1))
        return I.method(a, name, [b], hint, node, env, None)
    if name == "size_of":
        return size_of(I, segs, fenv or env)
    if name in ("assert_eq",):
        return UNIT
    if name == "type_name":
        return "type"
    if name in ("iter_mut", "from_mut") and args:
        return force(0)
    if name in ("from_ref",) and args:
        return force(0)
    if name == "catch_unwind":
        return I.call(force(0), [])
    vs = [I.force(a, env) for a in args]
    if I.on_ext is not None:
        r = I.on_ext(I, full, vs, node, env, hint)
        if r is not NotImplemented:
            return r
    return I.opaque_call("::".join(full[-2:]), vs, node)


def size_of(I, segs, env):
    a = segs[-1]["a"] if segs else None
    if not a:
        raise AnalysisError("size_of without type")
    return Int(size_ty(I, a[0], env), "usize")


def size_ty(I, n, env):
    t = I.ty(n, env)
    t = I.strip(t)
    if t[0] == "p":
        return {"bool": 1, "char": 4}.get(t[1]) or PRIMS[t[1]] // 8
    if t[0] == "adt":
        inner = t[2][0] if t[2] else None
        leaf = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}.get(inner[1], 1) if inner and inner[0] == "p" else 1
        if t[1]["gen"]["params"]:
            return len(I.layout(t[1])) * leaf
        s = 0
        for f in t[1]["fields"]["f"]:
            s += size_ty(I, f["ty"], I.adt_env(t))
        return s
    if t[0] == "arr":
        return t[2]() * 1
    raise AnalysisError(f"size_of {t}")


def call_tassoc(I, t, name, ids, args, env, hint, node):
    tn = I.tyname(t)
    force = lambda i, h=None: I.force(args[i], env, h)
    for key in (f"{tn}::{name}", f"*::{name}"):
        ov = I.intrinsics.get(key)
        if ov is not None:
            vs = [I.force(a, env) for a in args]
            r = ov(I, vs, hint, env, node)
            if r is not NotImplemented:
                return r
            args = [("v", v) for v in vs]
            force = lambda i, h=None: I.force(args[i], env, h)
    if name in ("try_into", "into", "iter", "len", "to_vec") and len(args) == 1 and t[0] in ("slice", "arr"):
        v = I.force(args[0], env)
        return I.method(I.deref(v), name, [], hint, node, env, v.place if isinstance(v, RefV) else None)
    if name in ("from", "into") and len(args) == 1 and t[0] == "ext" and tn in ("Vec", "Option", "Into"):
        to = t if tn != "Into" else I.strip(t[2][0]) if len(t) > 2 and t[2] else None
        v = force(0)
        r = ext_from(I, v, to)
        if r is not None:
            return r
        args = [("v", v)]
        force = lambda i, h=None: I.force(args[i], env, h)
        if tn == "Into" and to:
            hint = to
    if tn in PRIMS:
        ty = tn
        if name in ("from", "try_from"):
            v = I.deref(force(0))
            if isinstance(v, GateV):
                return merge(v.c, call_tassoc(I, t, name, ids, [("v", v.a)], env, hint, node), call_tassoc(I, t, name, ids, [("v", v.b)], env, hint, node))
            if name == "from":
                if isinstance(v, StructV):
                    r = user_from_prim(I, v, ty)
                    if r is not None:
                        return r
                if isinstance(v, DomainV):
                    r = v.method(I, "into_prim", [ty], None, None)
                    if r is not NotImplemented:
                        return r
                return I.cast(v, ("p", ty))
            if is_int(v):
                return try_from(I, v, ty)
            return mkT("tryfrom", (ty, freeze(v)))
        if name in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
            v = I.deref(force(0))
            xs = seq(I, v)
            if xs is None:
                return bv(mkT("int", (mkT(name, (freeze(v),)),), PRIMS[ty]), ty)
            xs = [I.deref(x) for x in xs]
            if name == "from_be_bytes":
                xs = xs[::-1]
            if len(xs) * 8 != PRIMS[ty]:
                raise AnalysisError("from_le_bytes arity")
            b = ()
            for x in xs:
                b += terms.bits(term_of(x, "u8"))
            return bv(terms.from_bits(b), ty)
        if name == "default":
            return Int(0, ty)
        if name in ("from_str_radix",):
            return mkT("call", ("from_str_radix", freeze(force(0))))
        if args:
            v = I.coerce(I.deref(force(0)), ("p", ty))
            rest = [force(i, ("p", ty)) for i in range(1, len(args))]
            return I.method(v, name, rest, hint, node, env, None)
    if tn in ("bool", "str", "String", "char") and name in ("from", "new", "default", "from_utf8"):
        if not args:
            return False if tn == "bool" else ""
        v = force(0)
        return v
    if tn in ("Vec", "VecDeque", "SmallVec", "ArrayVec") or t[0] in ("arr", "slice"):
        if name in ("new", "with_capacity", "default"):
            return VecV(())
        if name in ("from", "from_iter", "from_slice"):
            v = force(0)
            xs = seq(I, v)
            return VecV(xs) if xs is not None else v
    if tn in ("HashMap", "BTreeMap", "IndexMap", "HashSet", "BTreeSet"):
        kind = map_kind(tn)
        if name in ("new", "with_capacity", "default"):
            return MapV({}, kind)
        if name in ("from", "from_iter"):
            v = force(0)
            xs = seq(I, v)
            if xs is not None:
                return to_kind(I, xs, ("ext", tn, []))
            return v
    if tn in ("Box", "Rc", "Arc", "RefCell", "Cell", "Mutex", "Cow", "ManuallyDrop", "Wrapping", "Pin", "Reverse", "OnceCell"):
        if name in ("new", "from", "into_inner", "clone", "pin", "Borrowed", "Owned"):
            return force(0)
    if name == "clone" and len(args) == 1:
        return I.deref(force(0))
    if tn in ("Option", "Result"):
        if name in ("Some", "Ok"):
            return EnumV((tn,), name, (force(0),))
        if args:
            v = force(0)
            rest = [force(i) for i in range(1, len(args))]
            return I.method(v, name, rest, hint, node, env, None)
    if name == "default" and not args:
        return I.default_of(t) if t[0] != "any" else (I.default_of(hint) if hint else DEFAULT)
    if tn == "PhantomData":
        return StructV(("PhantomData",), {})
    if tn in ("Default",) and name == "default":
        return I.default_of(hint) if hint else DEFAULT
    if tn in ("Iterator", "IntoIterator", "Clone", "PartialEq", "Ord", "Add", "Sub", "Mul", "Into", "From", "TryInto", "TryFrom", "ToString", "AsRef", "Borrow", "Iter", "Itertools", "ToOwned", "Deref", "DerefMut", "AsMut", "BorrowMut", "Neg", "Not", "Ordering", "ParallelIterator"):
        if tn in ("From",) and name == "from":
            return into_value(I, force(0), I.strip(hint) if hint else None)
        if args:
            v = force(0)
            rest = [force(i) for i in range(1, len(args))]
            if tn in ("Add", "Sub", "Mul", "Neg", "Not"):
                ops = {"Add": "+", "Sub": "-", "Mul": "*"}
                if tn in ops:
                    return I.binop(ops[tn], v, rest[0], node, env)
                return I.unop({"Neg": "-", "Not": "!"}[tn], I.deref(v), node, env)
            return I.method(v, name, rest, hint, node, env, v.place if isinstance(v, RefV) else None)
    if t[0] == "ext" and name == "from" and len(args) == 1 and tn in ("String", "PathBuf"):
        return force(0)
    if name == "from" and len(args) == 1 and t[0] == "adt":
        v = force(0)
        return into_value(I, I.deref(v), t)
    # method call syntax  Type::method(recv, ..)
    if args and t[0] in ("adt",):
        v = force(0)
        dv = I.deref(v)
        if isinstance(dv, (StructV, EnumV)) and dv.path == t[1]["path"]:
            return I.method(v, name, [force(i) for i in range(1, len(args))], hint, node, env, v.place if isinstance(v, RefV) else None)
        args = [("v", v)] + list(args[1:])
        force = lambda i, h=None: I.force(args[i], env, h)
    vs = [I.force(a, env) for a in args]
    if vs and isinstance(I.deref(vs[0]), DomainV):
        r = I.deref(vs[0]).method(I, name, vs[1:], hint, None)
        if r is not NotImplemented:
            return r
    if I.on_ext is not None:
        r = I.on_ext(I, (tn, name), vs, node, env, hint)
        if r is not NotImplemented:
            return r
    return I.opaque_call(f"{tn}::{name}", vs, node)


def foreign_call(I, d, vs, node, env):
    if I.on_ext is not None:
        r = I.on_ext(I, (d["n"],), vs, node, env, None)
        if r is not NotImplemented:
            return r
    return I.opaque_call(d["n"], vs, node)


# -------------------------------------------------------------------- macros
def margs(m):
    f = m["form"]
    if f and f["f"] == "args":
        return f["a"]
    return None


def install(I):
    M = I.macros
    I.on_ext = None
    I.on_log = None

    def ignore(I, m, env, hint, n):
        return UNIT
    for k in "trace debug info warn error println eprintln print eprint log dbg debug_assert debug_assert_eq debug_assert_ne static_assertions const_assert const_assert_eq".split():
        M[k] = ignore

    def vec(I, m, env, hint, n):
        f = m["form"]
        h = I.elem_hint(hint)
        if f and f["f"] == "repeat":
            k = I.evalv(f["n"], env)
            v = I.eval(f["e"], env, h)
            if isinstance(k, Int):
                return VecV([v] * cap(k))
            return mkT("repeat", (freeze(v), freeze(k)))
        a = margs(m)
        if a is None:
            if not m["toks"]:
                return VecV(())
            return NotImplemented
        return VecV([I.eval(x, env, h) for x in a])
    M["vec"] = vec
    M["smallvec"] = vec

    def matches(I, m, env, hint, n):
        f = m["form"]
        v = I.eval(f["e"], env)
        from interp import Env
        e = Env(env)
        out = []
        c = I.bind(f["p"], v, e, out)
        if f["g"] is not None:
            I.declare(e, out)
            c = and_(c, I.truth(I.eval(f["g"], e)))
        return c
    M["matches"] = matches

    def assert_(I, m, env, hint, n):
        a = margs(m)
        c = I.truth(I.eval(a[0], env))
        I.panic_if(not_(c), "assert", "assertion", n, env)
        return UNIT
    M["assert"] = assert_

    def assert_eq(ne):
        def f(I, m, env, hint, n):
            a = margs(m)
            x = I.evalv(a[0], env)
            y = I.evalv(a[1], env, I.type_of(x))
            c = I.equal(x, y)
            I.panic_if(c if ne else not_(c), "assert", "assert_ne" if ne else "assert_eq", n, env)
            return UNIT
        return f
    M["assert_eq"], M["assert_ne"] = assert_eq(False), assert_eq(True)

    def panic(kind):
        def f(I, m, env, hint, n):
            I.panic(kind, kind, n, env)
        return f
    for k in ("panic", "unreachable", "unimplemented", "todo", "compile_error"):
        M[k] = panic(k)

    def fmt(I, m, env, hint, n):
        return mkT("fmt", ())
    for k in ("format", "concat", "stringify", "file", "line", "include_str", "env", "option_env", "format_args"):
        M[k] = fmt

    def write(I, m, env, hint, n):
        return Ok(UNIT)
    M["write"] = M["writeln"] = write
    M["anyhow"] = lambda I, m, env, hint, n: mkT("anyhow", ())

    def ret_err(I, env, n):
        I.frames[-1].returns.append((I.pc, Err(mkT("anyhow", ())), I.store))
        I.pc = False
        from interp import Dead
        raise Dead()

    def bail(I, m, env, hint, n):
        ret_err(I, env, n)
    M["bail"] = bail

    def ensure(I, m, env, hint, n):
        a = margs(m)
        c = I.truth(I.eval(a[0], env))
        I.obl.append((I.pc, "ensure", c, n))
        I.branch(c, lambda: UNIT, lambda: ret_err(I, env, n))
        return UNIT
    M["ensure"] = ensure

    def timed(I, m, env, hint, n):
        a = margs(m)
        if a is None:
            return NotImplemented
        return I.eval(a[-1], env, hint)
    M["timed"] = timed

    def izip(I, m, env, hint, n):
        a = margs(m)
        vs = [I.eval(x, env) for x in a]
        ls = []
        for v in vs:
            d = I.deref(v)
            if isinstance(d, RangeV) and d.hi is None:
                ls.append(("inf", open_range(I, d)))
            elif isinstance(d, InfIter):
                ls.append(("inf", (lambda d: lambda i: d.fn(d.pos + i))(d)))
            else:
                xs = items(I, v)
                if xs is None:
                    return mkT("izip", tuple(freeze(I.deref(v)) for v in vs))
                ls.append(("fin", xs))
        n_ = min(len(x) for k, x in ls if k == "fin")
        out = []
        for i in range(n_):
            t = tuple(x[i] if k == "fin" else x(i) for k, x in ls)
            out.append(t if len(t) > 1 else t[0])
        return IterV(out)
    M["izip"] = izip

    def chain(I, m, env, hint, n):
        a = margs(m)
        if a is None:
            return NotImplemented if m["toks"] else IterV(())
        out = []
        for x in a:
            v = I.eval(x, env)
            inf = I.deref(v)
            if isinstance(inf, InfIter) and x is a[-1]:
                return InfIter(lambda i: out[i] if i < len(out) else inf.fn(inf.pos + i - len(out)))
            xs = items(I, v)
            if xs is None:
                vs = [freeze(I.deref(v))] if False else None
                return mkT("chain", tuple(freeze(I.deref(I.eval(y, env))) for y in a))
            out += xs
        return IterV(out)
    M["chain"] = chain

    def iproduct(I, m, env, hint, n):
        import itertools
        ls = [items(I, I.eval(x, env)) for x in margs(m)]
        if any(l is None for l in ls):
            return mkT("iproduct", ())
        return IterV([tuple(t) for t in itertools.product(*ls)])
    M["iproduct"] = iproduct
    M["log_enabled"] = lambda I, m, env, hint, n: False
    M["cfg"] = lambda I, m, env, hint, n: I.P.cfg("".join(t.get("v", "") if isinstance(t.get("v"), str) else "" for t in m["toks"]))

    def transmute(I, vs, hint, env, node):
        v = I.deref(vs[0])
        h = I.strip(hint) if hint else None
        if h and h[0] == "adt":
            if isinstance(v, StructV) and v.path == h[1]["path"]:
                return v
            return I.unflatten(h[1], list(v.xs), h[2])
        if isinstance(v, StructV):
            d = I.P.lookup_abs(v.path)
            return I.flatten(d, v)
        return v
    I.intrinsics["columns_view::transmute_without_compile_time_size_checks"] = transmute
    I.intrinsics["columns_view::transmute_ref"] = transmute
