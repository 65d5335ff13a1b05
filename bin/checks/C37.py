"""TLA+/TLC: Callables.tla defines what creating, copying, moving, assigning, setting, calling, emptying and destroying callables does to the places that hold them, which messages a logger passes on, and flag operations on sets of bits; MC_Callables model checks over all short histories that calls, functors and memory are accounted for once and hands the histories to the driver; Trace_Callables replays them and long random ones on the real Callable and HeapCallable (functors, free and member functions, arguments by reference) and compares results, emptiness, live functors and blocks after every step, and checks random operation sequences on loggers, flags and algorithms"""
import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANTS\nN = %d\nSteps = %d\nINVARIANT Counted Kinds Few Calls %s\nCHECK_DEADLOCK FALSE\n"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Callables", CFG % (3, 4, ""), expect_actions=["Empty", "Make", "Copy", "Move", "Assign", "MoveAssign", "Set", "Reset", "Call", "Delete"])
    s = types.tlc_lines(ctx, "MC_Callables", CFG % (3, 4, "Out"), "S", mem="12g")
    if not q: s += types.tlc_lines(ctx, "MC_Callables", CFG % (2, 5, "Out"), "S", mem="12g")
    ctx.extra["spec_generated_histories"] = len(s)
    rnd = random.Random(ctx.seed)
    s = rnd.sample(s, min(len(s), 3000 if q else 60000))
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(s) + "\n")
    exe = ctx.build("callables")
    tr = os.path.join(ctx.work, "callables.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 150 if q else 6000, 60 if q else 150, 120 if q else 700]): ctx.check_trace("Trace_Callables", tr, describe=describe, reset="begin")

def describe(r):
    e = r["event"]
    return str({k: e[k] for k in ("ev", "op", "s", "d", "kind", "tag", "x", "r", "can", "alive", "bad", "level", "how", "a", "b", "v", "m", "k") if k in e})
