"""The command-line tool reports success exactly for what it ran, proved, checked or wrote."""
import nodemodel as nm
import starkmodel as sm
from builtins_rs import items
from field import FPoly
from interp import Dead, Env
from program import AnalysisError
from values import *

CLI = "mozak_cli"
MAIN, RUN = "cli/src/main.rs", "cli/src/runner.rs"
TY = ("mozak_sdk", "common", "types")


class Thing(nm.Tok):
    """something a command was given, or got from the parts it calls"""

    def __init__(self, *k):
        self.k = tuple(x if isinstance(x, (str, tuple)) else freeze(x) for x in k)

    def __repr__(self):
        return repr(self.key())

    def method(self, I, name, args, hint, place):
        f = getattr(I.cli, "m_" + name, None)
        if f:
            return f(self, *[I.deref(a) if name != "read_to_end" else a for a in args])
        if name in ("as_bytes", "as_slice", "as_str", "to_vec", "into_bytes", "as_mut", "by_ref", "into_boxed_slice"):
            return self
        return super().method(I, name, args, hint, place)


def pid(k):
    """the program identifier of the k-th program"""
    return StructV(TY + ("program_identifier", "ProgramIdentifier"), {"0": StructV(TY + ("poseidon2hash", "Poseidon2Hash"), {"0": VecV(Int((7 * i + 3 + 50 * k) % 256, "u8") for i in range(32))})})


def text(k):
    return "MZK-" + "".join(f"{(7 * i + 3 + 50 * k) % 256:02x}" for i in range(32))


class World(nm.World):
    def __init__(self):
        super().__init__((CLI, "mozak_circuits", "mozak_sdk", "mozak_runner", "mozak_node"))
        self.I.cli = self
        self.public = 97
        self.printed = []
        self.surroundings()

    def load(self, crates):
        from program import Program, eval_cfg
        on = ("std", 'feature="std"', 'feature = "std"', 'feature="test"', 'feature = "test"')
        return Program(list(crates), cfg=lambda s: eval_cfg(s, lambda a: a.startswith(on)))

    # ------------------------------------------------------- what is called
    def did(self, *rec):
        """the next thing done that can fail: does it?"""
        self.log.append(tuple(freeze(self.I.deref(r)) if not isinstance(r, str) else r for r in rec))
        return len(self.log) - 1 == self.fail

    def res(self, what, v, *rec):
        if self.did(what, *rec):
            return Err(Thing("the error of", what))
        return Ok(v)

    def content(self, v):
        v = self.I.deref(v)
        if isinstance(v, Thing):
            return v
        xs = [self.I.deref(x) for x in items(self.I, v)]
        if len(xs) == 1 and isinstance(xs[0], Thing):
            return xs[0]
        raise AnalysisError(f"not what was read or made: {xs!r}"[:200])

    def m_read_to_end(self, f, buf):
        if self.did("read", f):
            return Err(Thing("the error of", "read"))
        buf = buf if isinstance(buf, RefV) else None
        if buf is None:
            raise AnalysisError("read into nothing")
        self.I.assign(buf.place, VecV(list(items(self.I, buf)) + [Thing("bytes", f)]))
        return Ok(Int(9, "usize"))

    def m_write_all(self, f, b):
        return self.res("write", UNIT, f, self.content(b))

    def m_flush(self, f):
        return self.res("flush", UNIT, f)

    def m_sync_all(self, f):
        return self.res("flush", UNIT, f)

    def m_path(self, f):
        return Thing("path", f)

    def m_join(self, d, p):
        return Thing("in", d, str(freeze(p)))

    def m_log_level_filter(self, f):
        return Thing("level")

    def m_filter_level(self, b, l):
        return b

    def m_init(self, b):
        return UNIT

    def m_len(self, f):
        return Int(5, "usize")

    def m_degree_bits(self, p, c):
        return Thing("degrees", p, freeze(c))

    def on(self, names, f):
        for n in names.split():
            self.I.intrinsics[n] = f

    def surroundings(self):
        I, P = self.I, self.P
        D = I.deref

        def call(path, f):
            """stands for another part of the code"""
            p = tuple(path.split("::"))
            if P.lookup_abs(p) is None and P.lookup_abs(p[:-1]) is None:
                raise AnalysisError(f"{path} is gone")
            g = lambda I_, vs, h, e, n: f(*[D(v) for v in vs])
            I.intrinsics[path] = g
            if P.lookup_abs(p) is None:
                I.intrinsics["::".join(p[-2:])] = g
        S = "mozak_circuits::stark::"
        R = S + "recursive_verifier::"
        call("mozak_runner::elf::Program::mozak_load_program", lambda b: self.res("load", self.program(self.content(b)), self.content(b)))
        call("mozak_cli::runner::raw_tapes_from_system_tape", lambda t, i: Thing("tapes", freeze(t), freeze(i)))
        call("mozak_runner::state::State::new", lambda p, t: Thing("start", self.name(p), freeze(t)))
        call("mozak_runner::vm::step", lambda p, s: self.res("run", StructV(("ExecutionRecord",), {"executed": Thing("executed", self.name(p), s), "last_state": Thing("end", self.name(p), s)}), self.name(p), s))
        call(S + "prover::prove", lambda p, r, s, c, pi, t: self.res("prove", Thing("proof", self.name(p), freeze(r), freeze(s), freeze(c), freeze(pi)), self.name(p), r, s, c, pi))
        call(S + "batch_prover::batch_prove", lambda p, r, s, k, c, pi, t: self.res("batch prove", VecV([Thing("batch proof", self.name(p), freeze(r), freeze(s), freeze(k), freeze(c), freeze(pi)), Thing("batch degrees", self.name(p), freeze(r), freeze(s), freeze(k), freeze(c), freeze(pi))]), self.name(p), r, s, k, c, pi))
        call(S + "verifier::verify_proof", lambda s, p, c: self.res("verify", UNIT, s, p, c))
        call(S + "batch_verifier::batch_verify_proof", lambda s, k, p, c, d: self.res("batch verify", UNIT, s, k, p, c, d))
        call(R + "recursive_batch_stark_circuit", lambda s, d, k, cc, c: self.outer(Thing("batch verifier circuit", *map(freeze, (s, d, k, cc, c)))))
        call(R + "recursive_mozak_stark_circuit", lambda s, d, cc, c: self.outer(Thing("verifier circuit", *map(freeze, (s, d, cc, c)))))
        call(R + "circuit_data_for_recursion", lambda cc, d, n: self.circuit(Thing("any circuit", *map(freeze, (cc, d, n))), D(n)))
        call(R + "shrink_to_target_degree_bits_circuit", self.shrink)
        call("mozak_circuits::memoryinit::generation::generate_elf_memory_init_trace", lambda p: Thing("memory rows", self.name(p)))
        call("mozak_circuits::program::generation::generate_program_rom_trace", lambda p: Thing("program rows", self.name(p)))
        call("mozak_circuits::storage_device::generation::generate_call_tape_trace", lambda x: Thing("call tape rows", x))
        call(S + "utils::trace_rows_to_poly_values", lambda x: Thing("columns", x))
        for k in ("default", "default_debug"):
            I.intrinsics["MozakStark::" + k] = lambda I_, vs, h, e, n, k=k: Thing("tables", k)
        I.intrinsics["StarkConfig::standard_fast_config"] = lambda I_, vs, h, e, n: self.config()
        I.intrinsics["CircuitConfig::standard_recursion_config"] = lambda I_, vs, h, e, n: Thing("recursion config")
        I.intrinsics["PolynomialBatch::from_values"] = lambda I_, vs, h, e, n: StructV(("PolynomialBatch",), {"merkle_tree": StructV(("MerkleTree",), {"cap": Thing("cap", *[freeze(D(v)) for v in vs[:4]])})})
        I.intrinsics["TimingTree::default"] = lambda I_, vs, h, e, n: Thing("timing")
        I.intrinsics["env_logger::Builder::new"] = I.intrinsics["Builder::new"] = lambda I_, vs, h, e, n: Thing("logger")
        I.intrinsics["Cli::parse"] = lambda I_, vs, h, e, n: self.cli
        I.intrinsics["VerifierOnlyCircuitData::from_bytes"] = lambda I_, vs, h, e, n: self.res("read key", Thing("key in", self.content(vs[0])), self.content(vs[0]))

        def proof_from(I_, vs, h, e, n):
            b = self.content(vs[0])
            return self.res("read proof", StructV(("ProofWithPublicInputs",), {"public_inputs": VecV(self.stated), "proof": Thing("proof in", b, freeze(D(vs[1])))}), b)
        I.intrinsics["ProofWithPublicInputs::from_bytes"] = proof_from
        to = lambda I_, vs, h, e, n: self.res("serialize", Thing("json", freeze(D(vs[0]))))
        for k in ("to_string", "to_string_pretty", "to_vec", "to_vec_pretty"):
            I.intrinsics["serde_json::" + k] = to
        for k in ("to_writer", "to_writer_pretty"):
            I.intrinsics["serde_json::" + k] = lambda I_, vs, h, e, n: self.res("write", UNIT, vs[0], Thing("json", freeze(D(vs[1]))))
        I.intrinsics["serde_json::from_slice"] = I.intrinsics["serde_json::from_str"] = lambda I_, vs, h, e, n: self.parse(self.content(vs[0]), h)
        I.intrinsics["serde_json::from_reader"] = lambda I_, vs, h, e, n: self.parse(Thing("bytes", D(vs[0])), h)

        def unhex(I_, vs, h, e, n):
            t = D(vs[0])
            t = t if isinstance(t, str) else getattr(t, "s", None)
            if not isinstance(t, str):
                raise AnalysisError(f"decoding {D(vs[0])!r}"[:200])
            try:
                return Ok(VecV(Int(b, "u8") for b in bytes.fromhex(t)))
            except ValueError:
                return Err(Thing("the error of", "hex"))
        I.intrinsics["hex::decode"] = unhex
        I.intrinsics["env::current_dir"] = lambda I_, vs, h, e, n: Ok(Thing("here"))
        I.intrinsics["File::open"] = lambda I_, vs, h, e, n: self.res("open", Thing("file", D(vs[0])), vs[0])
        I.intrinsics["Input::try_from"] = lambda I_, vs, h, e, n: self.res("open", Thing("file", D(vs[0])), vs[0])

        def to_bytes(I_, v, place, args, hint, node, env):
            if isinstance(v, StructV) and v.path == ("ProofWithPublicInputs",):
                return Thing("bytes", freeze(v))
            if isinstance(v, Thing):
                return self.res("serialize", Thing("bytes", v))
            return NotImplemented

        def prove(I_, v, place, args, hint, node, env):
            if isinstance(v, StructV) and v.path == ("Recursive",):
                a = D(args[0])
                return self.res("prove again", self.proof(Thing("recursive proof", freeze(v), freeze(a))), v, a)
            return NotImplemented

        def verify(I_, v, place, args, hint, node, env):
            if isinstance(v, StructV) and v.path == ("CircuitData",):
                return self.res("verify", UNIT, v, D(args[0]))
            return NotImplemented

        def set_extension(I_, v, place, args, hint, node, env):
            I_.assign(place, Thing("path", v, "with", str(freeze(D(args[0])))))
            return True

        def create(I_, v, place, args, hint, node, env):
            return self.res("create", Thing("file", v), v)
        # an absent entry, by its type's default: no bytes
        I.methods["to_vec"] = lambda I_, v, place, args, hint, node, env: VecV(()) if v is DEFAULT else NotImplemented
        for k, f in (("to_bytes", to_bytes), ("prove", prove), ("verify", verify), ("set_extension", set_extension), ("create", create)):
            I.methods[k] = f

        def println(I_, m, env, hint, n):
            import re
            from builtins_rs import margs
            from program import dump_source
            a = margs(m) or []
            if not a:
                return UNIT
            out = [D(I_.eval(x, env)) for x in a[1:]]
            for w in re.findall(r"\{(\w*)(?::[^}]*)?\}", str(a[0].get("v", a[0]))):
                if w and not w.isdigit():
                    e = dump_source("fn __m() { " + w + " }")["items"][0]["b"]
                    out.append(D(I_.eval(e, env)))
            self.printed.append([freeze(x) for x in out])
            return UNIT
        I.macros["println"] = println

        def get_program_id(entry, rom, mem):
            for k in range(6):
                e = Thing("bytes", put(f"program{k}"))
                if same(freeze(entry), freeze(FPoly.const(0x1000 + 16 * k))) and same(freeze(rom), freeze(cap_of(self, Thing("columns", Thing("program rows", e))))) \
                        and same(freeze(mem), freeze(cap_of(self, Thing("columns", Thing("memory rows", e))))):
                    return pid(k)
            return pid(7)
        call(S + "prover::get_program_id", get_program_id)

    # ------------------------------------------------------- what it answers
    def config(self):
        return StructV(("StarkConfig",), {"fri_config": StructV(("FriConfig",), {"rate_bits": Thing("rate bits"), "cap_height": Thing("cap height")}), "num_challenges": Thing("challenges"), "security_bits": Thing("security")})

    def program(self, b):
        k = next((i for i in range(9) if f"program{i}" in str(freeze(b))), 0)
        return StructV(("Program",), {"entry_point": Int(0x1000 + 16 * k, "u32"), "elf": b, "k": k})

    def name(self, p):
        p = self.I.deref(p)
        if not (isinstance(p, StructV) and p.path == ("Program",)):
            raise AnalysisError(f"not a program: {p!r}"[:100])
        return p.f["elf"]

    def circuit(self, what, n=None):
        return StructV(("CircuitData",), {"verifier_only": Thing("key of", what), "common": StructV(("Common",), {"of": what, "num_public_inputs": n or Int(self.public, "usize")})})

    def outer(self, what):
        return StructV(("Recursive",), {"circuit": self.circuit(what)})

    def proof(self, what):
        return StructV(("ProofWithPublicInputs",), {"public_inputs": VecV(self.stated), "proof": what})

    def shrink(self, key, common, cc, bits, proof):
        self.bits = bits
        w = Thing("shrunk", *map(freeze, (key, common, cc, bits, proof)))
        return self.res("shrink", VecV([self.outer(w), self.proof(Thing("proof by", w))]), key, common, cc, bits, proof)

    def parse(self, b, hint):
        if self.did("parse", b):
            return Err(Thing("the error of", "parse"))
        for k, v in self.json.items():
            if k in str(freeze(b)):
                return Ok(v(hint))
        return Ok(Thing("parsed", b))

    # ------------------------------------------------------- the command
    def command(self, var, fields, debug=False, fail=None, stated=None, json=None, wrap=None, main=(CLI,)):
        I = self.I
        t = I.ty(next(f["ty"] for f in self.adt(CLI, "Cli")["fields"]["f"] if f["n"] == "command"), Env(None, self.adt(CLI, "Cli")["mod"]))
        head = tuple(t[1]["path"])
        c = EnumV(head, var, [StructV((CLI, wrap), fields)]) if wrap else EnumV(head, var, fields)
        self.cli = StructV((CLI, "Cli"), {"verbose": Thing("verbose"), "command": c, "debug": debug})
        if var is None:
            self.cli = StructV(main + ("Cli",), {"verbose": Thing("verbose"), **fields})
        self.log, self.fail, self.json, self.printed = [], fail, json or {}, []
        self.stated = stated if stated is not None else self.statement(0)
        r, stops = self.attempt(lambda: self.fn(main + ("main",)))
        r = I.deref(r) if r is not None else None
        if stops:
            return "stop"
        if r is UNIT:
            return "Ok"
        if not (isinstance(r, EnumV) and r.var in ("Ok", "Err")):
            raise AnalysisError(f"main ends with {r!r}"[:100])
        return r.var

    def none(self):
        return EnumV(("Option",), "None")

    def const(self, *p):
        I, d = self.I, self.P.lookup_abs(p)
        if d is None:
            raise AnalysisError(f"{'::'.join(p)} is gone")
        return I.deref(I.eval(d["node"]["e"] if "node" in d else d["e"], Env(None, d["mod"], {}, None)))

    def vm_config(self):
        return Thing("recursion config")

    def public_tables(self):
        return self.const("mozak_circuits", "stark", "mozak_stark", "PUBLIC_TABLE_KINDS")

    shrunk = None

    def statement(self, k):
        xs = [FPoly.const(0x1000 + 16 * k)] + [FPoly.const((7 * i + 3 + 50 * k) % 256) for i in range(32)]
        return xs + [FPoly.const((11 * i + 5) % 256) for i in range(self.public - len(xs))]




def put(k):
    return Thing("file", k)


class Expected:
    """what a command is to do, in the terms of what it calls"""

    def __init__(self, W, k=0, tape=None, debug=False):
        self.W, self.debug = W, debug
        self.elf = Thing("bytes", put(f"program{k}"))
        self.conf = W.config()
        self.tables = Thing("tables", "default_debug" if debug else "default")
        self.start = Thing("start", self.elf, freeze(Thing("tapes", freeze(Some(tape) if tape else W.none()), freeze(pid(k)))))
        self.record = StructV(("ExecutionRecord",), {"executed": Thing("executed", self.elf, self.start), "last_state": Thing("end", self.elf, self.start)})
        self.pi = StructV(("mozak_circuits", "stark", "mozak_stark", "PublicInputs"), {"entry_point": FPoly.const(0x1000 + 16 * k)})
        self.proof = Thing("proof", *self.args())

    def args(self, *more):
        return (self.elf,) + tuple(map(freeze, (self.record, self.tables) + more + (self.conf, self.pi)))


def effects(W, *kinds):
    return [r for r in W.log if r[0] in kinds]


def same(a, b):
    return repr(a) == repr(b)


def diff(a, b):
    a, b = repr(a), repr(b)
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return f"{a[max(0, i - 80):i + 300]}  instead of  {b[max(0, i - 80):i + 300]}"


def refusals(ctx, W, name, go, where=MAIN):
    """no step that fails is passed over"""
    n = len(W.log)
    bad = []
    for i in range(n):
        what = go(i)
        if what == "Ok":
            bad.append(f"{W.log[i][0]} {W.log[i][1:2]!r}"[:120])
    ctx.ob(f"{name}:failures", n > 0 and not bad, "whatever fails on the way, success is not reported", where, lambda: "; ".join(bad))


def commands(ctx, W):
    for t in (None, put("tape")):
        x = "with tapes" if t else "without tapes"
        e = Expected(W, 1, t)
        opt = Some(t) if t else W.none()
        with ctx.group(f"run:{x}"):
            go = lambda fail=None: W.command("Run", {"elf": put("program1"), "system_tape": opt}, fail=fail, wrap="RunArgs")
            ok = go()
            ctx.ob(f"run:{x}", ok == "Ok" and same(effects(W, "run"), [("run", freeze(e.elf), freeze(e.start))]), "the program given is run, once, on its own tapes", MAIN, lambda: f"{W.log}"[:600])
            refusals(ctx, W, f"run:{x}", go)
        with ctx.group(f"prove and verify:{x}"):
            go = lambda fail=None: W.command("ProveAndVerify", {"elf": put("program1"), "system_tape": opt}, fail=fail, wrap="RunArgs")
            ok = go()
            ctx.ob(f"prove and verify:{x}", ok == "Ok" and same(effects(W, "verify"), [("verify", freeze(e.tables), freeze(e.proof), freeze(e.conf))]), "the run of the program given, on its own tapes, is proven and the proof verified", MAIN, lambda: f"{W.log}"[:600])
            refusals(ctx, W, f"prove and verify:{x}", go)
        with ctx.group(f"run-example:{x}"):
            go = lambda fail=None: W.command(None, {"elf": put("program1"), "system_tape": opt}, fail=fail, main=(CLI, "bin", "run-example"))
            ok = go()
            ctx.ob(f"run-example:{x}", ok == "Ok" and same(effects(W, "run"), [("run", freeze(e.elf), freeze(e.start))]), "the program given is run, once, on its own tapes", "cli/src/bin/run-example.rs", lambda: f"{W.log}"[:600])
            refusals(ctx, W, f"run-example:{x}", go, "cli/src/bin/run-example.rs")
    with ctx.group("dump-self-prog-id"):
        go = lambda fail=None: W.command(None, {"elf": put("program1")}, fail=fail, main=(CLI, "bin", "dump-self-prog-id"))
        ok = go()
        ctx.ob("dump-self-prog-id", ok == "Ok" and any(same(freeze(pid(1)), x) for p in W.printed for x in p), "the program's identifier is printed", "cli/src/bin/dump-self-prog-id.rs", lambda: f"{W.printed}"[:600])
        refusals(ctx, W, "dump-self-prog-id", go, "cli/src/bin/dump-self-prog-id.rs")
    with ctx.group("batch prove and verify"):
        e = Expected(W, 1)

        def go(fail=None):
            W.log, W.fail, W.printed = [], fail, []
            r, stops = W.attempt(lambda: W.fn(("mozak_circuits", "test_utils", "prove_and_verify_batch_mozak_stark"), W.ref(W.program(e.elf)), W.ref(e.record), W.ref(W.config())))
            return "stop" if stops else W.I.deref(r).var
        ok = go()
        ba = (e.elf, freeze(e.record), freeze(e.tables), freeze(W.public_tables()), freeze(e.conf), freeze(e.pi))
        ctx.ob("batch prove and verify", ok == "Ok" and same(effects(W, "batch verify"), [("batch verify", freeze(e.tables), freeze(W.public_tables()), freeze(Thing("batch proof", *ba)), freeze(e.conf), freeze(Thing("batch degrees", *ba)))]),
               "the batch proof is verified with the tables, kinds, degrees and parameters it was made with", "circuits/src/test_utils.rs", lambda: f"{W.log}"[:600])
        refusals(ctx, W, "batch prove and verify", go, "circuits/src/test_utils.rs")
    with ctx.group("decode"):
        go = lambda fail=None: W.command("Decode", {"elf": put("program1")}, fail=fail)
        ok = go()
        ctx.ob("decode", ok == "Ok" and same(effects(W, "load"), [("load", freeze(Expected(W, 1).elf))]), "the file given is decoded", MAIN)
        refusals(ctx, W, "decode", go)
    for var, want in (("ProgramRomHash", "program rows"), ("MemoryInitHash", "memory rows"), ("SelfProgId", None)):
        with ctx.group(var):
            go = lambda fail=None: W.command(var, {"elf": put("program1")}, fail=fail)
            ok = go()
            e = Expected(W, 1)
            v = freeze(pid(1)) if want is None else freeze(cap_of(W, Thing("columns", Thing(want, e.elf))))
            ctx.ob(var, ok == "Ok" and any(same(v, x) for p in W.printed for x in p), "the identifier or hash asked for is printed", MAIN, lambda: f"{W.printed}"[:600])
            refusals(ctx, W, var, go)


def cap_of(W, columns):
    f = W.config().f["fri_config"].f
    return Thing("cap", freeze(columns), freeze(f["rate_bits"]), freeze(False), freeze(f["cap_height"]))


def identity(ctx, W):
    """program identifiers the tool computes itself"""
    for k in (0, 1, 5):
        with ctx.group(f"identifier:{k}"):
            elf = Thing("bytes", put(f"program{k}"))
            r = W.I.deref(W.fn((CLI, "runner", "get_self_prog_id"), W.ref(W.program(elf)), W.ref(W.config())))
            ctx.ob(f"identifier:{k}", same(freeze(r), freeze(pid(k))), "a program's identifier is made from its entry point and the commitments its proofs carry", RUN, lambda: repr(r)[:300])


def verifying(ctx, W):
    with ctx.group("verify"):
        go = lambda fail=None: W.command("Verify", {"proof": put("proof")}, fail=fail)
        ok = go()
        e = Expected(W)
        ctx.ob("verify", ok == "Ok" and same(effects(W, "verify"), [("verify", freeze(e.tables), freeze(Thing("parsed", Thing("bytes", put("proof")))), freeze(e.conf))]),
               "the proof in the file is verified, against the tables and parameters proofs are made with", MAIN, lambda: f"{W.log}"[:600])
        refusals(ctx, W, "verify", go)
    with ctx.group("verify recursive"):
        def go(fail=None, stated=0, asked=0, xs=None):
            return W.command("VerifyRecursiveProof", {"proof": put("proof"), "verifier_key": put("key"), "program_id": text(asked)}, fail=fail, stated=xs or W.statement(stated))
        ok = go(asked=1, stated=1)
        v = effects(W, "verify")
        what = Thing("any circuit", *map(freeze, W.shrunk)) if W.shrunk else None
        common = StructV(("Common",), {"of": what, "num_public_inputs": Int(W.public, "usize")})
        key = Thing("key in", Thing("bytes", put("key")))
        want = ("verify", freeze(StructV(("CircuitData",), {"verifier_only": key, "common": common})),
                freeze(StructV(("ProofWithPublicInputs",), {"public_inputs": VecV(W.statement(1)), "proof": Thing("proof in", Thing("bytes", put("proof")), freeze(common))})))
        ctx.ob("verify recursive", ok == "Ok" and what is not None and same(v, [want]),
               "the proof in the file is verified with the key in the file, as of a circuit like those recursive proofs are shrunk to", MAIN, lambda: f"{v}\n{want}"[:1500])
        refusals(ctx, W, "verify recursive", lambda fail: go(fail, 1, 1))
        bad = [k for k in (0, 2, 3) if go(asked=1, stated=k) == "Ok"]
        for i in range(32):
            xs = W.statement(1)
            xs[1 + i] = xs[1 + i] + FPoly.const(1 << (8 if i % 2 else 0))
            if go(asked=1, xs=xs) == "Ok":
                bad.append(f"byte {i}")
        ctx.ob("verify recursive:program", not bad, "a proof about another program is refused", MAIN, lambda: f"accepted: {bad}")


def proving(ctx, W):
    for batch in (False, True):
        for rec in (False, True):
            for debug in (False, True):
                name = "prove" + ":batch" * batch + ":recursive" * rec + ":debug" * debug
                with ctx.group(name):
                    o = lambda on, f: Some(put(f)) if on else W.none()
                    go = lambda fail=None: W.command("Prove", {"elf": put("program1"), "proof": put("out"), "batch_proof": o(batch, "batch out"), "system_tape": Some(put("tape")), "recursive_proof": o(rec, "recursive out")},
                                                     fail=fail, wrap="ProveArgs", debug=debug, stated=W.statement(1))
                    ok = go()
                    e = Expected(W, 1, put("tape"), debug)
                    files = {}
                    for r in effects(W, "write"):
                        files.setdefault(repr(r[1]), []).append(r[2])
                    want = {repr(freeze(put("out"))): Thing("json", freeze(e.proof))}
                    kinds = freeze(W.public_tables())
                    ba = (e.elf, freeze(e.record), freeze(e.tables), kinds, freeze(e.conf), freeze(e.pi))
                    bp = Thing("batch proof", *ba)
                    if batch:
                        want[repr(freeze(put("batch out")))] = Thing("json", freeze(bp))
                        got = files.get(repr(freeze(put("batch out"))))
                        if got and same(got[0], freeze(Thing("json", freeze(Some(bp))))):
                            files[repr(freeze(put("batch out")))] = [freeze(want[repr(freeze(put("batch out")))])]
                    if rec:
                        cc = W.vm_config()
                        if batch:
                            outer = Thing("batch verifier circuit", freeze(e.tables), freeze(Thing("batch degrees", *ba)), kinds, freeze(cc), freeze(e.conf))
                        else:
                            outer = Thing("verifier circuit", freeze(e.tables), freeze(Thing("degrees", e.proof, freeze(e.conf))), freeze(cc), freeze(e.conf))
                        oc = W.outer(outer)
                        p = W.proof(Thing("recursive proof", freeze(oc), freeze(bp if batch else e.proof)))
                        d = oc.f["circuit"].f
                        bits = effects(W, "shrink")[0][4] if effects(W, "shrink") else None
                        fin = Thing("shrunk", freeze(d["verifier_only"]), freeze(d["common"]), freeze(cc), bits, freeze(p))
                        f = put("recursive out")
                        want[repr(freeze(f))] = Thing("bytes", freeze(W.proof(Thing("proof by", fin))))
                        want[repr(freeze(Thing("file", Thing("path", Thing("path", f), "with", str(freeze("vk"))))))] = Thing("bytes", Thing("key of", fin))
                        W.shrunk = (cc, W.bits, Int(W.public, "usize"))
                    good = ok == "Ok" and set(files) == set(want) and all(len(files[k]) == 1 and same(files[k][0], freeze(want[k])) for k in want)
                    ctx.ob(name, good, "what is written is the proof, in every form asked for, of the run of the program given on its own tapes", MAIN,
                           lambda: f"{ok} {sorted(files)} {sorted(want)}\n" + "\n".join(f"{files.get(k)}\n{[freeze(want[k])]}" for k in want if not (k in files and same(files[k], [freeze(want[k])]))))
                    refusals(ctx, W, name, go)


CALLS = (([(None, 1)], [1]), ([(None, 2), (2, 1)], [1, 2]), ([(None, 3), (3, 1), (1, 6), (3, 1), (6, 3)], [6, 3, 1, 4]), ([(5, 2), (2, 1), (1, 2)], [5, 4, 2, 1]), ([(None, 6), (6, 0), (0, 5), (5, 6)], [0, 6, 5]))


def bundling(ctx, W):
    S = ("mozak_sdk", "native")
    raw = lambda *b: StructV(TY + ("raw_message", "RawMessage"), {"0": VecV(Int(x, "u8") for x in b)})
    null = StructV(pid(0).path, {"0": StructV(pid(0).f["0"].path, {"0": VecV(Int(0, "u8") for _ in range(32))})})
    who = lambda k: null if k is None else pid(k)

    def table(d):
        return MapV({freeze(pid(k)): (pid(k), v) for k, v in d.items()})
    for i, (calls, known) in enumerate(CALLS):
        name = f"bundle:{i}"
        with ctx.group(name):
            order = sorted({k for c in calls for k in c if k is not None}, key=lambda k: (3 + 50 * k) % 256)
            pub = {k: raw(k, 9) for k in order[::2]}
            pub[4] = raw(77)
            ev = {k: Thing("events", k) for k in order[1:] + [4]}
            tape = StructV(TY + ("system_tape", "SystemTape"), {
                "private_input_tape": StructV(S + ("inputtape", "RawTape"), {"identity_stack": Thing("stack"), "writer": table({k: raw(1, k) for k in order})}),
                "public_input_tape": StructV(S + ("inputtape", "RawTape"), {"identity_stack": Thing("stack"), "writer": table(pub)}),
                "call_tape": StructV(S + ("calltape", "CallTape"), {"identity_stack": Thing("stack"), "writer": VecV(
                    StructV(TY + ("cross_program_call", "CrossProgramCall"), {"caller": who(a), "callee": who(b), "argument": raw(5), "return_": raw(6)}) for a, b in calls)}),
                "event_tape": StructV(S + ("eventtape", "EventTape"), {"identity_stack": Thing("stack"), "writer": table(ev)})})

            def programs(hint):
                return VecV(StructV(("MappedProgram",), {"name": text(k), "path": f"program{k}"}) for k in known)
            go = lambda fail=None: W.command("BundleTransaction", {"system_tape": put("tape"), "bundle": put("bundle")}, fail=fail, json={"programs_map": programs, "tape": lambda h: tape})
            ok = go()
            entry = calls[0][1]
            first = [entry] + [k for k in order if k != entry]
            elf = Thing("bytes", Thing("file", Thing("in", Thing("here"), str(freeze(f"program{entry}")))))
            start = Thing("start", elf, freeze(Thing("tapes", freeze(Some(put("tape"))), freeze(pid(entry)))))
            rows = Thing("call tape rows", freeze(Thing("executed", elf, start)))
            none = W.I.default_of(("adt", W.adt(*S, "eventtape", "OrderedEvents"), []))
            tx = StructV(("mozak_node", "types", "Transaction"), {
                "cast_list": VecV(map(pid, order)), "call_tape_hash": cap_of(W, Thing("columns", rows)),
                "constituent_zs": VecV(StructV(("mozak_node", "types", "Attestation"), {"id": pid(k), "public_tape": pub[k].f["0"] if k in pub else VecV(()), "event_tape": ev.get(k, none)}) for k in first)})
            w = effects(W, "write")
            ctx.ob(name, ok == "Ok" and same(w, [("write", freeze(put("bundle")), freeze(Thing("json", freeze(tx))))]),
                   "the bundle has every program in the calls, its public tape and events, the entry first, and the calls as the entry ran with them", MAIN, lambda: diff(w[0][2] if w else ok, freeze(Thing("json", freeze(tx)))))
            refusals(ctx, W, name, go)


def run(ctx):
    W = World()
    for part in (identity, commands, proving, verifying, bundling):
        part(ctx, W)
    ctx.saw(W.I)
    ctx.rule = "abstract interpretation of the command-line tool's main function, every part it calls replaced by a term that records its inputs; each fallible step in turn is made to fail"
    ctx.assumptions = ["files, serialisation and argument parsing are external; programs, tapes and proofs are opaque terms"]
