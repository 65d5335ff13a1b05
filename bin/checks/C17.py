"""TLA+/TLC: MC_Linking explores a linker that binds and pulls symbols in any order (outcome independent of the order, each symbol once, nothing dangling, failures reported) and hands its configurations to the driver; libraries and consumers built from them and random ones, built or read back, are linked by the real linker and Trace_Linking derives from the library before, the consumer before and the options what the consumer has to be afterwards (Linking.tla: correspondence of library and result)"""
import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANT Emit = %s\nINVARIANTS Once Outcome Whole Reported\nCHECK_DEADLOCK FALSE\n"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Linking", CFG % "FALSE", expect_actions=["BindAny", "PullAny", "End"])
    s = types.tlc_lines(ctx, "MC_Linking", CFG % "TRUE", "S")
    rnd = random.Random(ctx.seed)
    s = rnd.sample(s, min(len(s), 350 if q else 5000))
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(s) + "\n")
    exe = ctx.build("linking")
    tr = os.path.join(ctx.work, "linking.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 200 if q else 3000]): ctx.check_trace("Trace_Linking", tr, describe=describe, stateless=True)

def describe(r):
    e = r["event"]
    return "%s %s" % (e["ev"], {k: e[k] for k in ("ok", "err", "op", "x", "opt", "kind") if k in e})
