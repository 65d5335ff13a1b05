"""TLA+/TLC: Graphs.tla defines generic graphs whose edges are known at both ends, the control flow graph of a function, the call graph below a function and the ways expression graphs may be evaluated; MC_Graphs model checks histories of graphs and evaluations and the block by block construction against these definitions and hands histories and small programs to the driver; Trace_Graphs checks the recorded graphs of these, of random histories and of random programs built and read back"""
import os, random, json
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANTS Mode = %d\nDepth = %d\nEmit = %s\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n"

def run(ctx):
    q = not ctx.thorough
    inv = "Sym Runs FlowDone CallDone"
    ctx.mc("MC_Graphs", CFG % (1, 5 if q else 6, "FALSE", inv, ""), expect_actions=["GEmplace", "GConnect", "GDisconnect", "GErase", "GMove", "GClear"])
    ctx.mc("MC_Graphs", CFG % (2, 2 if q else 3, "FALSE", inv, "PROPERTY OnceRun\n"), expect_actions=["XRec", "XExp", "XReset"])
    ctx.mc("MC_Graphs", CFG % (3, 0, "FALSE", inv, ""), expect_actions=["PFlow"])
    ctx.mc("MC_Graphs", CFG % (4, 0, "FALSE", inv, ""), expect_actions=["PCall"])
    rnd = random.Random(ctx.seed); lines = []
    for mode, depth, cnt in ((1, 5, 900), (2, 2, 500), (3, 0, 350), (4, 0, 250)):
        s = types.tlc_lines(ctx, "MC_Graphs", CFG % (mode, depth + (0 if q or mode > 2 else 1), "TRUE", "Out", ""), "S")
        ctx.extra["behaviours_mode_%d" % mode] = len(s)
        lines += rnd.sample(s, min(len(s), cnt if q else cnt * 12))
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(lines) + "\n")
    exe = ctx.build("graphs")
    tr = os.path.join(ctx.work, "graphs.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 300 if q else 4000]): ctx.check_trace("Trace_Graphs", tr, describe=lambda r: r["event"].get("ev"), reset="begin")
