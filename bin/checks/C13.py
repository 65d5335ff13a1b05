"""TLA+/TLC: Interfaces.tla defines which variables an interface lists as a fixpoint over calls; MC_Interfaces model checks the work list walk against it over histories of calls, uses, removals, version changes and finalisations, and hands the histories to the driver, which phrases every use in a different way; after each finalisation (of these, of random call graphs, of random programs and of modules read back) Trace_Interfaces computes the interfaces from the recorded module"""
import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANTS\nNF = %d\nNE = %d\nNV = %d\nSteps = %d\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Interfaces", CFG % (3, 1, 2, 4 if q else 5, "Right"), expect_actions=["Use", "Call", "Drop", "Version", "Final"])
    s = types.tlc_lines(ctx, "MC_Interfaces", CFG % (3, 1, 2, 4, "Right Out"), "S", mem="12g")
    rnd = random.Random(ctx.seed)
    s = rnd.sample(s, min(len(s), 1200 if q else 15000))
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(s) + "\n")
    exe = ctx.build("interfaces")
    tr = os.path.join(ctx.work, "interfaces.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 500 if q else 12000, 40, 60 if q else 1500, 3, 1, 2]): ctx.check_trace("Trace_Interfaces", tr, describe=describe)

def describe(r):
    e = r["event"]; m = e.get("m", {})
    return "version %s entry points %s of a module with variables %s" % (m.get("ver"), m.get("eps"), m.get("vars"))
