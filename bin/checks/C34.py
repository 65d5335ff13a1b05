"""TLA+/TLC: Variables.tla states what a module holds after a request for a variable (storage class, pointer type, initial value, name, place); MC_Variables model checks a module and three functions answering sequences of requests and enumerates the requests, which the driver phrases in every way the API offers (instruction, type and template overloads, the functions named after storage classes, run time type descriptions, initial values); recorded sessions are validated step by step by Trace_Variables"""
import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANT Requests = %d\nCONSTANT Wide = %s\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n"
INV = "Right Where Fits Homes Named Count Declared"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Variables", CFG % (2, "FALSE", INV), expect_actions=["Global", "InFunction"])
    one = types.tlc_lines(ctx, "MC_Variables", CFG % (1, "TRUE", INV + " Out"), "S")
    uni = [l[1:-1] for l in one]
    rnd = random.Random(ctx.seed)
    sc = one + ["[%s,%s]" % (rnd.choice(uni), rnd.choice(uni)) for _ in range(500 if q else 20000)]
    if q: sc = rnd.sample(sc, min(len(sc), 2500))
    up = os.path.join(ctx.work, "uni"); open(up, "w").write("\n".join(uni) + "\n")
    sp = os.path.join(ctx.work, "scripts"); open(sp, "w").write("\n".join(sc) + "\n")
    ctx.extra["requests"] = len(uni); ctx.extra["spec_generated_sessions_replayed"] = len(sc)
    exe = ctx.build("variables")
    tr = os.path.join(ctx.work, "variables.ndjson")
    if ctx.run(exe, [tr, up, sp, ctx.seed, 120 if q else 1500, 40 if q else 80]): ctx.check_trace("Trace_Variables", tr, reset="begin")
