"""TLA+/TLC: Moves.tla defines what creating, filling, moving, resetting and destroying modules does to the places that hold them; MC_Moves model checks over all short histories that content is never in two places, lost or invented and hands the histories to the driver; Trace_Moves replays them, and long random ones, on the real modules and compares every module after every step with one that has the same history of edits but was never moved (instructions, lookups, ownership, allocator, written words)"""
import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANTS\nN = %d\nSteps = %d\nINVARIANT Once Own Ordered GoneEmpty %s\nCHECK_DEADLOCK FALSE\n"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Moves", CFG % (3, 6 if q else 7, ""), expect_actions=["New", "Extend", "Construct", "Assign", "Reset", "Delete"])
    s = types.tlc_lines(ctx, "MC_Moves", CFG % (3, 6 if q else 7, "Out"), "S", mem="12g")
    ctx.extra["spec_generated_histories"] = len(s)
    rnd = random.Random(ctx.seed)
    s = rnd.sample(s, min(len(s), 400 if q else 8000))
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(s) + "\n")
    exe = ctx.build("moves")
    tr = os.path.join(ctx.work, "moves.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 60 if q else 1000, 24 if q else 40, 120 if q else 700]): ctx.check_trace("Trace_Moves", tr, describe=describe, reset="begin")

def describe(r):
    e = r["event"]
    return str({k: e[k] for k in ("ev", "op", "s", "d", "h", "things", "diff", "owner", "left", "bad") if k in e})
