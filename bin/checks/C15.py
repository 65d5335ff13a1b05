"""TLA+/TLC: Names.tla is the sequence of names given with the answers every lookup may give and the instructions that carry them; MC_Names model checks it (the instructions carry exactly the names, a step concerns one target, a search matches whole names only) and emits naming sessions; the driver performs them and random ones on the library, with queries of every target, member and string and with writing and reading back in between; Trace_Names checks every answer and the final instructions"""
import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Names", CFG % (2 if q else 3, "Carried ByWords Given") + "PROPERTY Isolated\n", expect_actions=["Next"])
    sc = types.tlc_lines(ctx, "MC_Names", CFG % (2 if q else 3, "Out"), "S")
    rnd = random.Random(ctx.seed)
    sc = rnd.sample(sc, min(len(sc), 700 if q else 8000))
    sp = os.path.join(ctx.work, "scripts"); open(sp, "w").write("\n".join(sc) + "\n")
    ctx.extra["spec_generated_sessions_replayed"] = len(sc)
    exe = ctx.build("names")
    tr = os.path.join(ctx.work, "names.ndjson")
    if ctx.run(exe, [tr, sp, ctx.seed, 80 if q else 800, 60]): ctx.check_trace("Trace_Names", tr)
