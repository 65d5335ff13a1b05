"""TLA+/TLC: Reflection.tla says which answers every query may give for a module; MC_Reflection composes modules from decorations, names and execution modes in any order, checks that the queries agree with each other and that every item concerns its own target only, and hands the modules to the driver; these and random ones, built and read back, are queried through ReflectionHelper and Trace_Reflection checks every answer"""
import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANTS Depth = %d\nEmit = %s\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Reflection", CFG % (2, "FALSE", "Agree Once Sized", "PROPERTY Isolated\n"), expect_actions=["Add"])
    s = types.tlc_lines(ctx, "MC_Reflection", CFG % (2 if q else 3, "TRUE", "Out", ""), "S")
    rnd = random.Random(ctx.seed)
    one = [x for x in s if len(__import__("json").loads(x)) == 1]
    s = one + rnd.sample(s, min(len(s), 250 if q else 4000))
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(s) + "\n")
    exe = ctx.build("reflection")
    tr = os.path.join(ctx.work, "reflection.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 100 if q else 1500]): ctx.check_trace("Trace_Reflection", tr, describe=lambda r: "answer", stateless=True)
