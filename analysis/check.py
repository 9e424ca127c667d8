#!/usr/bin/env python3
"""python3 analysis/check.py <PROPERTY> [--tier quick|thorough]"""
import importlib
import os
import resource
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


def main():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (16 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass
    from framework import Ctx
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    ctx = Ctx(prop, tier)
    mod = importlib.import_module(prop)
    with ctx.group("whole check"):
        mod.run(ctx)
    rc.append(ctx.finish())


rc = []
t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0] if rc else 2)
