"""TLA+/TLC: FunDecls.tla is a state machine of functions under construction (signature, parameters, blocks, variables, calls, returns, execution modes) with which steps are refused and what module results; MC_Functions model checks it (exactly the prescribed module is accepted, no disturbed one; equal signatures share a type) and emits step sequences; the driver performs them and random ones through all API variants; Trace_Functions replays every step and checks the final module and accessors"""
import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Functions", CFG % (3 if q else 4, "Accepted Sharp OneSig"), expect_actions=["Next"])
    sc = types.tlc_lines(ctx, "MC_Functions", CFG % (3, "Out"), "S")
    rnd = random.Random(ctx.seed)
    if q: sc = rnd.sample(sc, min(len(sc), 1500))
    sp = os.path.join(ctx.work, "scripts"); open(sp, "w").write("\n".join(sc) + "\n")
    ctx.extra["spec_generated_step_sequences_replayed"] = len(sc)
    exe = ctx.build("functions")
    tr = os.path.join(ctx.work, "functions.ndjson")
    if ctx.run(exe, [tr, sp, ctx.seed, 300 if q else 3000, 40]): ctx.check_trace("Trace_Functions", tr)
