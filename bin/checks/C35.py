"""TLA+/TLC: Walks.tla states the order in which a module's instructions are walked, where a walk ends, which instruction an id belongs to and what an instruction says about itself; MC_Walks model checks a machine that takes one instruction after the other out of a module's containers against it; walks, lookups and facts recorded for generated, unfinished, id-assigned and re-read modules are validated by Trace_Walks"""
import os, random
from checks import modules

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Walks", "SPECIFICATION Spec\nCONSTANT Types = 1\nCONSTANT Funs = %d\nINVARIANT Prefix Right Once Whole\nCHECK_DEADLOCK FALSE\n" % (2 if q else 3), expect_actions=["Skip", "Visit", "NoEnd", "Done"])
    s = modules.scripts(ctx, 3)
    s = random.Random(ctx.seed + 35).sample(s, 300) if q else s
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(s) + "\n")
    exe = ctx.build("walks"); tr = os.path.join(ctx.work, "walks.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 250 if q else 2500, 40 if q else 90]): ctx.check_trace("Trace_Walks", tr, stateless=True)
