"""What the rows of every proving table must satisfy, stated independently of the repository: [(kind, polynomial)] per table.

always: on every row (the next row of the last row is the first); transition: on every row but the last; first/last: on that row."""
from field import FPoly
import starkmodel as sm

B32 = 1 << 32


class Row:
    def __init__(self, tag):
        self.tag = tag

    def __getitem__(self, name):
        return FPoly.var((self.tag, name))

    def many(self, fmt, n, start=0):
        return [self[fmt % i] for i in range(start, start + n)]


l, n, pub = Row("l"), Row("n"), Row("p")
zero = FPoly.const(0)


def S(xs):
    return sum(xs, zero)


def bit(x):
    return x * (x - 1)


def sign(b):
    return 1 - 2 * b


def always(*ps):
    return [("always", p) for p in ps]


def transition(*ps):
    return [("transition", p) for p in ps]


def first(*ps):
    return [("first", p) for p in ps]


def last(*ps):
    return [("last", p) for p in ps]


def sum_wraps(is_, total, value):
    """value is total or total - 2^32 when is_ holds (with value range-checked: the sum modulo 2^32)"""
    return is_ * (value - total) * (value - (total - B32))


def one_hot(*flags):
    """each flag is a bit and at most one of them is set"""
    return always(*[bit(f) for f in flags], bit(S(flags)))


OPS = "add sub xor or and div rem mul mulh sll slt srl sra jalr beq bne sb sh sw lb lh lw blt bge ecall".split()
# environment call -> number of the call (runner and SDK ABI)
CALLS = {"is_halt": 0, "is_private_tape": 2, "is_poseidon2": 3, "is_public_tape": 4, "is_call_tape": 5, "is_event_tape": 6, "is_events_commitment_tape": 7,
         "is_cast_list_commitment_tape": 8, "is_self_prog_id_tape": 9}


def cpu():
    o = {k: l["inst.ops." + k] for k in OPS}
    pc, new_pc, imm = l["inst.pc"], l["new_pc"], l["inst.imm_value"]
    op1, op2, raw2, wide2, dst = l["op1_value"], l["op2_value"], l["op2_value_raw"], l["op2_value_overflowing"], l["dst_value"]
    s1, s2 = l["op1_sign_bit"], l["op2_sign_bit"]
    full1, full2 = op1 - B32 * s1, op2 - B32 * s2
    running = S(o.values())
    branch = o["beq"] + o["bne"] + o["blt"] + o["bge"]
    shift = o["sll"] + o["srl"] + o["sra"]
    mem = S(o[k] for k in ("sb", "sh", "sw", "lb", "lh", "lw"))
    jumping = branch + o["jalr"] + o["ecall"]
    out = {}
    # the program counter moves on by four unless the instruction jumps
    out["straight line"] = transition((running - jumping) * (new_pc - pc - 4))
    out["one operation"] = one_hot(*o.values()) + always(o["add"])      # additions have their own table
    # second operand: register for branches, power of two for shifts, register + immediate otherwise (wrapping only for addresses)
    out["second operand"] = always(branch * (op2 - raw2), shift * (op2 - l["bitshift.multiplier"]), (1 - branch - shift) * (wide2 - imm - raw2),
                                   (1 - branch - shift) * (wide2 - op2) * (wide2 - op2 - B32 * mem))
    out["sub"] = always(o["sub"] * (dst - (op1 - op2)) * (dst - (op1 - op2) - B32))
    # bitwise operations from a verified exclusive or: a&b = (a+b-x)/2, a|b = (a+b+x)/2
    xa, xb, x = l["xor.a"], l["xor.b"], l["xor.out"]
    out["bitwise"] = always(*[o[k] * y for k, r in (("and", xa + xb - x), ("or", xa + xb + x), ("xor", 2 * x)) for y in (xa - op1, xb - op2, r - 2 * dst)])
    # comparison: |a-b| = ±(a-b) with the sign less_than; differs = (a-b)·inverse
    lt, ne, absd, inv = l["less_than"], l["normalised_diff"], l["abs_diff"], l["cmp_diff_inv"]
    d = full1 - full2
    out["comparison"] = always(bit(lt), (1 - lt) * (absd - d), lt * (absd + d), bit(ne), d * (1 - ne), d * inv - ne, lt * (1 - ne))
    taken, fall = new_pc - imm, new_pc - pc - 4
    out["branches"] = always(o["blt"] * lt * taken, o["blt"] * (1 - lt) * fall, o["bge"] * lt * fall, o["bge"] * (1 - lt) * taken,
                             o["beq"] * (1 - ne) * taken, o["beq"] * ne * fall, o["bne"] * ne * taken, o["bne"] * (1 - ne) * fall)
    out["slt"] = always(o["slt"] * (lt - dst))
    # signs only where the instruction is signed
    out["operand signs"] = always(bit(s1), bit(s2), (1 - l["inst.is_op1_signed"]) * s1, (1 - l["inst.is_op2_signed"]) * s2)
    # memory: effective address, sign extension of narrow loads, low bytes for narrow stores
    v, sd = l["mem_value_raw"], l["dst_sign_bit"]
    out["memory"] = always(mem * (l["mem_addr"] - op2), bit(sd), (1 - l["inst.is_dst_signed"]) * sd, o["lb"] * (dst - v - sd * (B32 - 256)), o["lh"] * (dst - v - sd * (B32 - 65536)),
                           (o["sb"] + o["sh"]) * (xa - op1), o["sb"] * (xb - 0xFF), o["sh"] * (xb - 0xFFFF), (o["sb"] + o["sh"]) * (xa + xb - x - 2 * v))
    # shifts: amount = 31 & (register + immediate); the power of two comes from its own table
    out["shift"] = always(shift * (xa - 31), shift * (xb - raw2 - imm), shift * (xa + xb - x - 2 * l["bitshift.amount"]))
    # products: |a|·|b| as two 32-bit limbs, two's complement when negative; high limb bounded so that the representation is unique
    a1, a2, ps, lo, hi, hinv, skip = (l[k] for k in ("op1_abs", "op2_abs", "product_sign", "product_low_limb", "product_high_limb", "product_high_limb_inv_helper", "skip_check_product_sign"))
    out["product"] = always(bit(ps), (1 - ps) * (hi * B32 + lo - a1 * a2), ps * (B32 * B32 - (hi * B32 + lo) - a1 * a2),
                            (1 - ps) * (1 - (B32 - 1 - hi) * hinv), ps * (1 - hi * hinv),
                            a1 - full1 * sign(s1), a2 - full2 * sign(s2), (1 - l["inst.is_op1_signed"]) * ps, skip * a1 * a2,
                            (1 - skip) * (sign(ps) - sign(s1) * sign(s2)), (o["mul"] + o["sll"]) * (dst - lo), o["mulh"] * (dst - hi))
    # division: |a| = |b|·|q| + |r|, |r| < |b|, signs; division by zero; arithmetic right shift rounds towards minus infinity
    q, qs, r, rs, slack, skq = (l[k] for k in ("quotient_value", "quotient_sign", "remainder_value", "remainder_sign", "remainder_slack", "skip_check_quotient_sign"))
    qf, rf = q - B32 * qs, r - B32 * rs
    qa, ra = sign(qs) * qf, sign(rs) * rf
    sra = o["sra"]
    by_zero = 1 - op2 * l["op2_value_inv"]
    out["division"] = always(a2 * qa + (1 - sra) * ra + sra * sign(s1) * rf - a1, bit(rs), bit(s1), (1 - sra) * r * (s1 - rs), sra * rs,
                             (1 - skq) * (sign(qs) - sign(s1) * sign(s2)), skq * full2 * (q + qf), (1 - skq) * (full2 * qf + rf - full1), a2 * (ra + 1 + slack - a2),
                             by_zero * (q - (B32 - 1)), by_zero * (r - op1), (o["div"] + o["srl"] + o["sra"]) * (dst - q), o["rem"] * (dst - r))
    out["jump"] = always(sum_wraps(o["jalr"], pc + 4, dst)) + transition(sum_wraps(o["jalr"], op1 + op2, new_pc))
    sel = {k: l["ecall_selectors." + k] for k in CALLS}
    out["environment calls"] = always(*[bit(x) for x in sel.values()], o["ecall"] - S(sel.values()), *[sel[k] * (op1 - c) for k, c in CALLS.items()])
    return out


def cpu_skeleton():
    run, runs = l["is_running"], n["is_running"]
    d = n["clk"] - l["clk"]
    return {"start": first(l["pc"] - pub["0"], l["clk"] - 2, run - 1), "clock": transition(bit(d), d - run),
            "stops once": transition(runs * (runs - run)) + last(run)}


def add():
    return {"wrapping sum": always(sum_wraps(1 + zero, l["op1_value"] + l["op2_value"] + l["inst.imm_value"], l["dst_value"]))}


def memory():
    st, ld, ini = l["is_store"], l["is_load"], l["is_init"]
    run, runs = st + ld + ini, n["is_store"] + n["is_load"] + n["is_init"]
    same = 1 - n["is_init"]
    return {"flags": one_hot(st, ld, ini) + always(bit(l["is_writable"])), "addresses": first(l["addr"]) + last(l["addr"] - (B32 - 1)) + always(same * (n["addr"] - l["addr"])),
            "writability": always(same * (n["is_writable"] - l["is_writable"]), (1 - l["is_writable"]) * st),
            "loads": always(n["is_load"] * (n["value"] - l["value"])), "padding": transition((run - runs) * runs)}


def wide_memory(k):
    def f():
        st, ld = l["ops.is_store"], l["ops.is_load"]
        return {"flags": one_hot(st, ld), "consecutive": always(*[sum_wraps(st + ld, l["addrs[0]"] + i, l[f"addrs[{i}]"]) for i in range(1, k)])}
    return f


def filter_bit():
    return {"filter": always(bit(l["filter"]))}


def register():
    ini, rd, wr = (l["ops.is_" + k] for k in ("init", "read", "write"))
    ini2, rd2, wr2 = (n["ops.is_" + k] for k in ("init", "read", "write"))
    used, used2 = ini + rd + wr, ini2 + rd2 + wr2
    step = n["addr"] - l["addr"]
    return {"flags": one_hot(ini, rd, wr), "padding": transition(used2 * (used2 - used)), "reads": transition(rd2 * (n["value"] - l["value"])),
            "addresses": transition((rd2 + wr2) * step, bit(step)) + first(l["addr"] - 1) + last(l["addr"] - 31)}


def storage_device():
    st, dev, both = l["ops.is_memory_store"], l["ops.is_storage_device"], l["is_lv_and_nv_are_memory_rows"]
    both2 = n["is_lv_and_nv_are_memory_rows"]
    return {"flags": one_hot(st, dev), "complete": always(n["ops.is_storage_device"] * l["size"]), "consecutive bytes": always(sum_wraps(both, l["addr"] + 1, n["addr"])),
            "count down": transition(both2 * (n["size"] - l["size"] + 1)),
            "start": transition(dev * l["size"] * (n["addr"] - l["addr"]), dev * l["size"] * (n["size"] - l["size"] + 1)) + always(dev * n["size"] * (1 - both2))}


def tape_commitments():
    ev, ca = l["is_event_commitment_tape_row"], l["is_castlist_commitment_tape_row"]
    return {"flags": one_hot(ev, ca), "multiplicity": always(l["event_commitment_tape_multiplicity"] * (1 - ev), l["castlist_commitment_tape_multiplicity"] * (1 - ca))}


def xor():
    cs = always(*[bit(l[f"limbs.{x}[{i}]"]) for x in ("a", "b", "out") for i in range(32)])
    dec = always(*[S(l[f"limbs.{x}[{i}]"] * (1 << i) for i in range(32)) - l["execution." + x] for x in ("a", "b", "out")])
    y = []
    for i in range(32):
        a, b, o = (l[f"limbs.{x}[{i}]"] for x in ("a", "b", "out"))
        y.append((a + b - o) * (a + b - 2 - o))     # bits with a + b = out modulo two
    return {"bits": cs, "decomposition": dec, "exclusive or": always(*y)}


def bitshift():
    a, m, a2, m2 = l["executed.amount"], l["executed.multiplier"], n["executed.amount"], n["executed.multiplier"]
    return {"amount": first(a) + transition(bit(a2 - a)) + last(a - 31), "multiplier": first(m - 1) + transition(m2 - m * (1 + a2 - a)) + last(m - (1 << 31))}


def rangecheck_u8():
    return {"all bytes": first(l["value"]) + transition(n["value"] - l["value"] - 1) + last(l["value"] - 255)}


def poseidon2_output_bytes():
    return {"filter": always(bit(l["is_executed"])), "bytes": always(*[S(l[f"output_bytes[{8 * i + j}]"] * 256 ** j for j in range(8)) - l[f"output_fields[{i}]"] for i in range(4)])}


def poseidon2_sponge():
    ini, per, gen = l["ops.is_init_permute"], l["ops.is_permute"], l["gen_output"]
    ini2, per2 = n["ops.is_init_permute"], n["ops.is_permute"]
    on = ini + per
    more = (1 - gen) * on
    not_fresh = lambda i, p: (1 - i) * (i + p)          # a row that neither starts a hash nor is padding
    return {"flags": one_hot(ini, per) + always(bit(gen), (1 - on) * gen), "last block": always(gen * (l["input_len"] - 8)),
            "starts": first(not_fresh(ini, per)) + always(gen * not_fresh(ini2, per2)), "one clock": transition(per2 * (l["clk"] - n["clk"])),
            "progress": transition(more * (l["input_len"] - n["input_len"] - 8), more * (n["input_addr"] - l["input_addr"] - 8)),
            "capacity": always(*[ini * l[f"preimage[{i}]"] for i in range(8, 12)], *[(1 - ini2) * per2 * (n[f"preimage[{i}]"] - l[f"output[{i}]"]) for i in range(8, 12)])}


def poseidon2():
    """the Poseidon2 permutation of width 12, unrolled, with the cubes of the S-box inputs as columns; round constants are generic"""
    rc = [sm.generic("RC12", i) for i in range(96)]
    mid = [sm.generic("RC12_MID", i) for i in range(22)]
    diag = [sm.generic("MAT_DIAG12_M_1", i) for i in range(12)]
    M4 = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]]

    def external(s):
        t = [S(M4[r][c] * s[4 * b + c] for c in range(4)) for b in range(3) for r in range(4)]
        return [t[i] + S(t[4 * b + i % 4] for b in range(3)) for i in range(12)]

    out = {"filter": always(bit(l["is_exe"])), "cubes": [], "rounds": []}

    def sbox(x, cube):
        out["cubes"] += always(x * x * x - cube)
        return x * cube * cube                      # x^7

    def pin(s, names):
        cols = [l[x] for x in names]
        out["rounds"] += always(*[a - b for a, b in zip(s, cols)])
        return cols
    s = external([l[f"input[{i}]"] for i in range(12)])
    for r in range(4):
        s = external([sbox(x + rc[r + i], l[f"s_box_input_qube_first_full_rounds[{12 * r + i}]"]) for i, x in enumerate(s)])
        s = pin(s, [f"state_after_first_full_rounds[{12 * r + i}]" for i in range(12)])
    for r in range(22):
        s = [sbox(s[0] + mid[r], l[f"s_box_input_qube_partial_rounds[{r}]"])] + s[1:]
        t = S(s)
        s = [x * (d - 1) + t for x, d in zip(s, diag)]
        s = pin(s[:1], [f"state0_after_partial_rounds[{r}]"]) + s[1:]
    s = pin(s, [f"state_after_partial_rounds[{i}]" for i in range(12)])
    for r in range(4):
        s = external([sbox(x + rc[4 + r + i], l[f"s_box_input_qube_second_full_rounds[{12 * r + i}]"]) for i, x in enumerate(s)])
        s = pin(s, [f"state_after_second_full_rounds[{12 * r + i}]" for i in range(12)])
    return out


TABLES = {"CpuStark": cpu, "CpuSkeletonStark": cpu_skeleton, "AddStark": add,
          "MemoryStark": memory, "HalfWordMemoryStark": wide_memory(2), "FullWordMemoryStark": wide_memory(4), "MemoryInitStark": filter_bit, "MemoryZeroInitStark": filter_bit,
          "RegisterStark": register, "StorageDeviceStark": storage_device, "TapeCommitmentsStark": tape_commitments,
          "XorStark": xor, "BitshiftStark": bitshift, "RangeCheckU8Stark": rangecheck_u8, "Poseidon2_12Stark": poseidon2, "Poseidon2SpongeStark": poseidon2_sponge,
          "Poseidon2OutputBytesStark": poseidon2_output_bytes}
