"""TLA+/TLC: Composite.tla gives the element type a path of indices leads to and what access chains, extraction, insertion, shuffles and construction add; MC_Composite walks through a universe of nested composites one index at a time, inside and out of bounds, checks that walking and paths agree and laws between extraction in steps, access chains and insertion, and requests at every place every way to get there; each request is carried out by the driver and judged by Trace_Composite from the instruction added, its constants, literals and decoded result type"""
import os, random
from checks import types
CFG = 'SPECIFICATION Spec\nCONSTANTS Depth = %d Emit = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Composite", CFG % (4 if q else 5, "FALSE", "Walked Laws"), expect_actions=["Step", "Leave", "Beyond", "Chain", "Direct", "Get", "Put", "Shuffles", "Constructs", "Typed", "Mistaken"])
    lines = types.tlc_lines(ctx, "MC_Composite", CFG % (4, "TRUE", "Out"), "S")
    ctx.extra["requests"] = len(lines)
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(lines) + "\n")
    exe = ctx.build("composite")
    for n in range(1 if q else 5):
        tr = os.path.join(ctx.work, "composite%d.ndjson" % n)
        if not ctx.run(exe, [tr, p, ctx.seed + n]): return
        ctx.check_trace("Trace_Composite", tr, describe=lambda r: r["event"].get("h"), stateless=True)
        os.remove(tr)
