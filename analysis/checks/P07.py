"""Tape-read environment calls deliver exactly the next bytes of their tape."""
import ecallref as E
import vmmodel as vm


def run(ctx):
    ctx.rule = ("value-numbering abstract interpretation of every tape-read call with symbolic tape contents, buffer address and memory, "
                "partitioned by tape length, cursor and requested length; delivered bytes, cursor, record and frame are compared with the reference")
    ctx.assumptions.append("tape length, cursor and request length range over the listed partition (including empty, exhausted, short, exact and "
                           "oversized requests); contents, addresses and all other state are unrestricted")
    P = vm.load()
    grid = [(0, 0, 0), (0, 0, 4), (1, 0, 1), (3, 0, 2), (3, 1, 2), (3, 1, 9), (3, 3, 1), (3, 3, 0), (3, 2, 0xFFFFFFFF), (40, 7, 33), (40, 7, 20)]
    if ctx.tier == "thorough":
        grid += [(n, i, r) for n in (2, 5, 9) for i in range(n + 1) for r in (0, 1, n - i, n - i + 1, 1 << 31)] + [(300, 17, 257), (300, 0, 300)]
    else:
        pass
    k = 0
    for call in E.STREAMS:
        for N, i, r in grid:
            with ctx.group(f"{call} {N} {i} {r}"):
                E.check_read(ctx, P, call, r, N, i)
                k += 1
    for call in E.STREAMS:
        with ctx.group(f"{call} large"):
            E.check_read(ctx, P, call, 5000, 5003, 2, ro=False)
            k += 1
    for call in E.FIXED:
        for r in (0, 1, 31, 32, 33, 0xFFFFFFFF):
            with ctx.group(f"{call} {r}"):
                E.check_read(ctx, P, call, r)
                k += 1
    ctx.floor("read scenarios", k, 60)
