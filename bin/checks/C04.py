"""TLA+/TLC: Recover.tla states what a module read from a binary has to tell (values of types and constants by Types.tla, types of results, names, entry points, functions, blocks, branch targets, calls, and that asking again adds nothing), computed from the binary's words alone; MC_Types derives declarations for every kind of type and constant, the driver composes binaries of them with functions, names and entry points, and Trace_Recover compares with what the library reports"""
import os
from checks import types

def run(ctx):
    q = not ctx.thorough
    inv = "Answered NoDuplicates Declared Complete"
    ctx.mc("MC_Types", types.CFG % (1 if q else 2, "small", inv), expect_actions=["Next"])
    fr = []
    for wide in ("types", "consts"): fr += types.tlc_lines(ctx, "MC_Types", types.CFG % (1, wide, inv + " Frag"), "B")
    ctx.extra["declarations_derived"] = len(fr)
    p = os.path.join(ctx.work, "frags"); open(p, "w").write("\n".join(fr) + "\n")
    exe = ctx.build("recover")
    tr = os.path.join(ctx.work, "recover.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 250 if q else 6000, 12 if q else 25]): ctx.check_trace("Trace_Recover", tr, stateless=True, describe=describe)

def describe(r):
    e = r["event"]; ws = ["%08x" % (h << 16 | l) for h, l in e.get("w", [])]
    return "binary [%s%s] (%s)" % (" ".join(ws[:80]), " ..." if len(ws) > 80 else "", e.get("last"))
