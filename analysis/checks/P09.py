"""ELF loading: validation, segment classification, image bytes, code map."""
import bdd
import program
import terms
import vmmodel as vm
from interp import Dead, Env, Interp
from symdom import SymMap
from terms import add, const, mkT
from values import *

W = "runner/src/elf.rs"
R, WR, X = 4, 2, 1


def consts(I):
    def hook(I_, t, name, env, ids):
        v = {"PF_NONE": 0, "PF_X": 1, "PF_W": 2, "PF_R": 4, "PT_LOAD": 1, "PT_NULL": 0, "PT_DYNAMIC": 2, "PT_INTERP": 3, "PT_NOTE": 4, "PT_TLS": 7}.get(name)
        if v is not None and "abi" in ids:
            return Int(v, "u32")
        if name in ("EM_RISCV", "ET_EXEC") and "abi" in ids:
            return Int({"EM_RISCV": 243, "ET_EXEC": 2}[name], "u16")
        if name in ("ELF32", "ELF64") and ids[-2] == "Class":
            return EnumV(("elf", "file", "Class"), name)
        if name.startswith(("EM_", "ET_")) and "abi" in ids:
            return BV(terms.var("abi." + name, 16), "u16")
        return None
    I.statics["assoc_const_hook"] = hook


class Segs(DomainV):
    def __init__(self, xs, n=None):
        self.xs, self.n = xs, n

    def key(self):
        return ("segs", id(self))

    def method(self, I, name, args, hint, place):
        if name == "iter" or name == "into_iter":
            return IterV(self.xs)
        if name == "len":
            return self.n if self.n is not None else Int(len(self.xs), "usize")
        if name in ("clone", "by_ref"):
            return self
        return NotImplemented


def header(typ, flags, filesz, memsz, off, vaddr):
    return StructV(("elf", "segment", "ProgramHeader"),
                   {"p_type": Int(typ, "u32"), "p_flags": Int(flags, "u32"), "p_filesz": Int(filesz, "u64"), "p_memsz": Int(memsz, "u64"),
                    "p_offset": Int(off, "u64"), "p_vaddr": vaddr if not isinstance(vaddr, int) else Int(vaddr, "u64"), "p_paddr": Int(0, "u64"),
                    "p_align": Int(0, "u64")})


def maps(I):
    """HashMap collected from pairs with symbolic keys"""
    def build(name, I_, v, place, args, hint, node, env):
        h = I_.strip(hint) if hint else None
        xs = v.xs if isinstance(v, IterV) else None
        if xs is None:
            return NotImplemented
        def pair(x):
            x = I_.deref(x)
            return x if isinstance(x, tuple) and len(x) == 2 and is_int(I_.deref(x[0])) else None
        oks = [I_.deref(x) for x in xs]
        if oks and all(isinstance(x, EnumV) and x.var == "Ok" for x in oks):
            inner = [pair(x.p[0]) for x in oks]
            if all(inner):
                return EnumV(("Result",), "Ok", (mk(I_, inner),))
        ps = [pair(x) for x in xs]
        if xs and all(ps) and isinstance(I_.deref(ps[0][1]), (BV, Int)) :
            return mk(I_, ps)
        if not xs and (name == "try_collect" or h and h[0] == "ext" and h[1] == "Result"):
            return EnumV(("Result",), "Ok", (mk(I_, []),))
        return NotImplemented

    def mk(I_, ps):
        m = empty()
        for k, x in ps:
            m = m.store(m.k(I_.deref(k)), I_.deref(x))
        return m
    for n in ("try_collect", "collect"):
        I.methods[n] = lambda *a, n=n: build(n, *a)
    for n in ("new", "default"):
        I.intrinsics["HashMap::" + n] = I.intrinsics["BTreeMap::" + n] = lambda I_, vs, h, e, n_: empty()


def empty():
    return SymMap("empty", "map", "u32", None, (), lambda k: False)


class Image(SymMap):
    """an image whose keys can be iterated generically"""

    def method(self, I, name, args, hint, place):
        if name in ("keys", "into_keys"):
            return Gen((BV(terms.var("k", 32), "u32")))
        return super().method(I, name, args, hint, place)


class Gen(DomainV):
    """iteration over an unknown collection: the expression computed for a generic element"""

    def __init__(self, e, cond=True):
        self.e, self.cond = e, cond

    def generic(self, I):
        acc = lambda: Gen(UNIT, False)
        acc.kind = Gen
        return self.e, self.cond, acc

    def merge(self, c, o, sw):
        if not isinstance(o, Gen):
            return NotImplemented
        if o.cond is False:
            return Gen(self.e, bdd.and_(c, self.cond))
        if self.cond is False:
            return Gen(o.e, bdd.and_(bdd.not_(c), o.cond))
        return NotImplemented

    def key(self):
        return ("gen", freeze(self.e), self.cond)

    def method(self, I, name, args, hint, place):
        if name in ("insert", "push") and place is not None and self.cond is False:
            place.set(Gen(args[0] if len(args) == 1 else (args[0], args[1]), True))
            return mkT("insert_result", (freeze(args[0]),))
        if name == "map":
            return Gen(I.call(args[0], [self.e]), self.cond)
        if name == "filter":
            return Gen(self.e, bdd.and_(self.cond, I.truth(I.call(args[0], [self.e]))))
        if name in ("collect", "into_iter", "iter", "copied", "cloned", "unique", "dedup", "sorted", "collect_vec", "by_ref", "sorted_unstable"):
            return self
        if name in ("flat_map",):
            return NotImplemented
        return NotImplemented


def run(ctx):
    ctx.rule = ("abstract interpretation of the loader: the condition under which parsing succeeds is compared (as a BDD) with the required "
                "validations; every combination of segment type and access flags is classified with symbolic contents and addresses; the code map "
                "is compared as a comprehension over a generic image byte")
    P = vm.load()
    validate(ctx, P)
    classify(ctx, P)
    code(ctx, P)
    words(ctx, P)


def elfval(I):
    eh = StructV(("elf", "file", "FileHeader"), {
        "class": mkT("var", ("ehdr.class",)), "e_machine": BV(terms.var("ehdr.e_machine", 16), "u16"), "e_type": BV(terms.var("ehdr.e_type", 16), "u16"),
        "e_entry": BV(terms.zext(terms.var("ehdr.e_entry", 32), 64), "u64")})
    return StructV(("elf", "ElfBytes"), {"ehdr": eh})


def validate(ctx, P):
    have = bdd.var(("v", "has_segments"))
    nseg = BV(terms.var("nseg", 64), "usize")

    def setup():
        I = Interp(P)
        consts(I)
        parse_ok = bdd.var(("v", "parses"))
        I.intrinsics["ElfBytes::minimal_parse"] = lambda I_, vs, h, e, n: merge(parse_ok, EnumV(("Result",), "Ok", (elfval(I_),)), EnumV(("Result",), "Err", (mkT("var", ("perr",)),)))
        segs = Segs([], nseg)
        I.intrinsics["Code::from"] = lambda I_, vs, h, e, n_: mkT("codeof", (freeze(I_.deref(vs[0])),))
        maps(I)
        I.methods["segments"] = lambda I_, v, place, args, hint, node, env: merge(have, Some(segs), NONE) if isinstance(v, StructV) and v.path[-1] == "ElfBytes" else NotImplemented
        return I, parse_ok
    for name in ("mozak_load_program", "vanilla_load_elf"):
        with ctx.group(name):
            I, parse_ok = setup()
            I.track_overflow = True
            d, im = vm.find_method(P, "Program", name)
            I.pc = True
            r = I.call_fn(d, [("v", mkT("var", ("input",)))], Env(None, im.mod), self_ty=("adt", P.lookup_abs(("mozak_runner", "elf", "Program")), {}), impl=im)
            ctx.saw(I)
            ok = bdd.and_(I.pc, I.is_variant(r, ("Result",), "Ok"))
            I.pc = True
            entry = terms.var("ehdr.e_entry", 32)
            cl = I.equal(mkT("var", ("ehdr.class",)), EnumV(("elf", "file", "Class"), "ELF32"))
            want = {"parses": parse_ok, "32-bit": cl, "RISC-V": terms.eq(terms.var("ehdr.e_machine", 16), const(243, 16)),
                    "executable": terms.eq(terms.var("ehdr.e_type", 16), const(2, 16)),
                    "aligned entry": terms.eq(terms.trunc(entry, 2), const(0, 2)), "has segments": have,
                    "at most 256 segments": bdd.not_(terms.ult(const(256, 64), terms.var("nseg", 64)))}
            allc = bdd.and_(*want.values())
            for n, c in want.items():
                ctx.ob(f"{name}:{n}", bdd.and_(ok, bdd.not_(c)) is False, f"an image is only loaded if: {n}", W)
            ctx.ob(f"{name}:complete", bdd.and_(allc, bdd.not_(ok)) is False, "every valid image is loaded", W,
                   lambda: "; ".join(p[2] for p in I.panics)[:300])


ENTRY = terms.from_bits((False, False) + tuple(terms.bits(terms.var("entry", 32))[2:]))


def load(I, P, name, hdrs, input_):
    """a valid image whose header table is `hdrs`, loaded through the public entry"""
    prog = P.lookup_abs(("mozak_runner", "elf", "Program"))
    d, im = vm.find_method(P, "Program", name)
    eh = StructV(("elf", "file", "FileHeader"), {
        "class": EnumV(("elf", "file", "Class"), "ELF32"), "e_machine": Int(243, "u16"), "e_type": Int(2, "u16"), "e_entry": BV(terms.zext(ENTRY, 64), "u64")})
    I.intrinsics["ElfBytes::minimal_parse"] = lambda I_, vs, h, e, n: EnumV(("Result",), "Ok", (StructV(("elf", "ElfBytes"), {"ehdr": eh}),))
    I.methods["segments"] = lambda I_, v, place, args, hint, node, env: Some(Segs(hdrs)) if isinstance(v, StructV) and v.path[-1] == "ElfBytes" else NotImplemented
    I.pc = True
    r = I.call_fn(d, [("v", input_)], Env(None, im.mod), self_ty=("adt", prog, {}), impl=im)
    return I.payload(r, ("Result",), "Ok", 0)


def image(I, P, hdrs, input_):
    return load(I, P, "mozak_load_program", hdrs, input_)


def vanilla(I, P, hdrs, input_):
    return load(I, P, "vanilla_load_elf", hdrs, input_)


def words(ctx, P):
    """images given as words: bytes little-endian at each address; conflicting or misaligned words refused"""
    val = lambda i: BV(terms.var(f"w{i}", 32), "u32")
    for typ in ("Program", "Data"):
        for addrs in ((), (0,), (8,), (8, 12), (0x1000, 8), (0xFFFFFFF0, 0, 4), (8, 9), (8, 10), (8, 11), (8, 11, 20), (2, 20, 23), (0xFFFFFF00, 0xFFFFFF03, 0), (9,), (9, 13), (10, 14, 6), (0xFFFFFFF8, 0xFFFFFFF4)):
            key = f"{typ}:{','.join(hex(a) for a in addrs)}"
            with ctx.group("words " + key):
                I = Interp(P)
                consts(I)
                maps(I)
                cm = ("mozak_runner", "code", "Code")
                I.intrinsics["Code::from"] = lambda I_, vs, h, e, n_: StructV(cm, {"0": I_.deref(vs[0])})
                m = MapV({freeze(Int(a, "u32")): (Int(a, "u32"), val(i)) for i, a in enumerate(addrs)})
                cands = [im for h, ims in P.impls.items() if isinstance(h, tuple) and h[-1] == typ and h[0] == "mozak_runner" for im in ims if "from" in im.fns]
                cands = [im for im in cands if im.mod == P.lookup_abs(("mozak_runner", "elf", typ))["mod"] and "u32, u32" in str(P.show_ty(im.fns["from"]["params"][0]["ty"]))] if hasattr(P, "show_ty") else cands
                ctx.ob(f"from:{typ}", len(cands) == 1, f"one conversion from words to {typ}", W)
                im = cands[0]
                I.pc = True
                try:
                    r = I.call_fn(im.fns["from"], [("v", m)], Env(None, im.mod), self_ty=("adt", P.lookup_abs(("mozak_runner", "elf", typ)), {}), impl=im)
                    refused = I.pc is False or bdd.or_(*[p[0] for p in I.panics] or [False])
                except Dead:
                    refused = True
                ctx.saw(I)
                aligned = all(a % 4 == 0 for a in addrs)
                apart = all(abs(a - b) >= 4 for a in addrs for b in addrs if a != b)
                ok = apart and (aligned or typ == "Data")
                ctx.ob(f"words:{key}:refused", refused == (not ok), f"words at {key} are {'accepted' if ok else 'refused'}", W, lambda: "; ".join(p[2] for p in I.panics))
                if not ok or refused:
                    continue
                img = empty()
                for i, a in enumerate(addrs):
                    for j in range(4):
                        img = img.store(const(a + j, 32), BV(terms.trunc(terms.lshr(terms.var(f"w{i}", 32), 8 * j), 8), "u8"))
                I.pc = True
                parts = {"rw_memory": img, "ro_memory": empty(), "ro_code": img} if typ == "Program" else {None: img}
                for f, want in parts.items():
                    got = I.get_field(I.get_field(r, f) if f else r, "0")
                    ctx.ob(f"words:{key}:{f}", same_map(got, want), "each word's bytes, lowest first, at its address" if want is img else "no read-only data", W, lambda: repr(got)[:300])
                if typ == "Program":
                    ctx.ob(f"words:{key}:entry", eqv(True, I.get_field(r, "entry_point"), Int(0, "u32")), "a bare image starts at address zero", W)


def same_map(got, want):
    if got is DEFAULT:
        return not want.writes
    if isinstance(got, MapV):
        m = empty()
        for k, v in got.d.values():
            m = m.store(m.k(k), v)
        got = m
    return isinstance(got, SymMap) and eqv(True, got, want)


def classify(ctx, P):
    n = 0
    inp = VecV(BV(terms.var(f"in[{i}]", 8), "u8") for i in range(12))
    va = BV(terms.zext(terms.var("vaddr", 32), 64), "u64")
    vb = BV(terms.zext(terms.var("vaddr2", 32), 64), "u64")
    dec = lambda I_, vs, h, e, n_: None
    for typ, tn in ((1, "LOAD"), (0x6474e551, "STACK")):
        for fl in range(8):
            for fs, ms in ((3, 3), (2, 5), (0, 2)):
                nm = "".join(c if fl & b else "-" for c, b in (("r", 4), ("w", 2), ("x", 1)))
                key = f"{tn}:{nm}:{fs}:{ms}"
                with ctx.group(key):
                    I = Interp(P)
                    consts(I)
                    maps(I)
                    I.track_overflow = False
                    codes = []
                    I.intrinsics["Code::from"] = lambda I_, vs, h, e, n_: (codes.append(I_.deref(vs[0])), StructV(("mozak_runner", "code", "Code"), {"0": I_.deref(vs[0])}))[1]
                    r = image(I, P, [header(typ, fl, fs, ms, 4, va)], inp)
                    ctx.saw(I)
                    n += 1
                    bytes_ = [inp.xs[4 + i] if i < fs else Int(0, "u8") for i in range(ms)]
                    img = empty()
                    for i, b in enumerate(bytes_):
                        img = img.store(add(terms.var("vaddr", 32), const(i, 32)), b)
                    load = tn == "LOAD"
                    exp = {"ro_memory": load and fl & 4 and not fl & 2, "rw_memory": load and fl & 4 and fl & 2, "ro_code": load and fl & 1}
                    for f, want in exp.items():
                        got = I.get_field(I.get_field(r, f), "0")
                        e = img if want else empty()
                        same = isinstance(got, MapV) and not got.d and not want or isinstance(got, SymMap) and eqv(True, got, e)
                        ctx.ob(f"{f}:{tn}:{nm}" if fs == 2 else f"{f}:{key}", same,
                               f"a {tn} segment with access {nm} ({fs} of {ms} bytes in the file) {'is' if want else 'is not'} part of {f}", W, lambda: repr(got)[:300])
                    ctx.ob(f"entry:{key}", eqv(True, I.get_field(r, "entry_point"), BV(ENTRY, "u32")), "the entry point is kept", W)
                    if fs != 2:
                        continue
                    r = vanilla(I, P, [header(typ, fl, fs, ms, 4, va)], inp)
                    for f, want in exp.items():
                        got = I.get_field(I.get_field(r, f), "0")
                        ctx.ob(f"vanilla:{f}:{tn}:{nm}", isinstance(got, MapV) and not got.d and not want or isinstance(got, SymMap) and eqv(True, got, img if want else empty()),
                               f"the plain loader {'puts' if want else 'does not put'} a {tn} segment with access {nm} into {f}", W, lambda: repr(got)[:300])
                    ctx.ob(f"vanilla:entry:{key}", eqv(True, I.get_field(r, "entry_point"), BV(ENTRY, "u32")), "the plain loader keeps the entry point", W)
    ctx.floor("segment kinds", n, 48)
    with ctx.group("two segments"):
        I = Interp(P)
        consts(I)
        maps(I)
        I.intrinsics["Code::from"] = lambda I_, vs, h, e, n_: StructV(("mozak_runner", "code", "Code"), {"0": I_.deref(vs[0])})
        r = image(I, P, [header(1, 5, 2, 2, 0, va), header(1, 6, 1, 2, 3, vb), header(1, 4, 2, 2, 6, vb)], inp)
        got = I.get_field(I.get_field(r, "ro_memory"), "0")
        e = empty()
        for k, i, b in (("vaddr", 0, 0), ("vaddr", 1, 1), ("vaddr2", 0, 6), ("vaddr2", 1, 7)):
            e = e.store(add(terms.var(k, 32), const(i, 32)), inp.xs[b])
        ctx.ob("several", isinstance(got, SymMap) and eqv(True, got, e), "all segments of a kind are loaded, each at its own address from its own file offset", W,
               lambda: repr(got)[:300])


def code(ctx, P):
    with ctx.group("code map"):
        I = Interp(P)
        img = Image("image", "map", "u32", lambda k: BV(mkT("byte", ("image", k), 8), "u8"))
        cands = [(im.fns["from"], im) for h, ims in P.impls.items() if isinstance(h, tuple) and h[-1] == "Code" for im in ims if "from" in im.fns]
        ctx.ob("code:from", len(cands) == 1, "one conversion from an image to code", "runner/src/code.rs")
        d, im = cands[0]
        log = []
        I.intrinsics["decode::decode_instruction"] = None
        dd = P.fn("mozak_runner::decode::decode_instruction")
        seen = []

        def oc(I_, d_, vs, *a):
            return None
        I.opaque_fns = {"decode_instruction"} if False else I.opaque_fns
        hooked = lambda I_, vs, h, e, n: mkT("decoded", (freeze(I_.deref(vs[0])), freeze(I_.deref(vs[1]))))
        I.intrinsics["decode::decode_instruction"] = hooked
        I.intrinsics["decode_instruction"] = hooked
        I.pc = True
        r = I.call_fn(d, [("v", RefV(I.temp(img)))], Env(None, im.mod), self_ty=("adt", P.lookup_abs(("mozak_runner", "code", "Code")), {}), impl=im)
        ctx.saw(I)
        got = I.get_field(r, "0")
        k4 = terms.and_(terms.var("k", 32), const(0xFFFFFFFC, 32)) if hasattr(terms, "and_") else None
        base = terms.shl(terms.lshr(terms.var("k", 32), 2), 2) if k4 is None else k4
        ctx.ob("code:shape", isinstance(got, Gen) and isinstance(got.e, tuple) and got.cond is True, "one code entry per word that holds any image byte", "runner/src/code.rs", lambda: repr(got)[:300])
        if isinstance(got, Gen) and isinstance(got.e, tuple):
            key, val = I.deref(got.e[0]), I.deref(got.e[1])
            ctx.ob("code:key", eqv(True, key, BV(base, "u32")), "code is keyed by the word's address", "runner/src/code.rs", lambda: repr(key))
            bits = ()
            for i in range(4):
                h, b = img.lookup(add(base, const(i, 32)))
                bits += terms.bits(term_of(merge(h, b, Int(0, "u8")), "u8"))
            word = BV(terms.from_bits(bits), "u32")
            want = mkT("decoded", (freeze(BV(base, "u32")), freeze(word)))
            ctx.ob("code:value", val is want, "the entry is the decoding of the little-endian word, absent bytes reading as zero", "runner/src/code.rs", lambda: f"{val!r} / {want!r}"[:600])
