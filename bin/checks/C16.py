"""TLA+/TLC: Editing.tla defines users, replacement and removal on whole modules; MC_Editing model checks over all edit histories of a small program that no reference to something removed is left, and hands the histories to the driver; there and in random edits of random programs, built or read back, Trace_Editing replays every edit on the recorded module and compares every instruction, the reported uses, the name lookup and what requests for known types and constants return"""
import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANTS\nSteps = %d\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n%s"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Editing", CFG % (3 if q else 5, "NoDangling Housed", "VIEW View\n"), expect_actions=["Swap", "Gather", "RmInstr", "RmBlock", "RmBlock0", "RmFun"])
    s = types.tlc_lines(ctx, "MC_Editing", CFG % (2 if q else 3, "NoDangling Out", ""), "S", mem="12g")
    rnd = random.Random(ctx.seed)
    s = rnd.sample(s, min(len(s), 600 if q else 12000))
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(s) + "\n")
    exe = ctx.build("editing")
    tr = os.path.join(ctx.work, "editing.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 250 if q else 4000, 16 if q else 30]): ctx.check_trace("Trace_Editing", tr, describe=describe, reset="begin")

def describe(r):
    e = r["event"]
    return "%s %s" % (e["ev"], {k: e[k] for k in ("op", "x", "y", "ret", "uses") if k in e})
