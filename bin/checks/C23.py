"""TLA+/TLC: Allocs.tla defines what may be returned to an allocator and how blocks are cut from a fixed buffer; MC_Allocs model checks the ownership discipline (owners that grow, shrink, clear, move and die) for exactly-once return to the home allocator, MC_Buffer the buffer over all short histories, which are replayed on the real fixed-buffer allocators; Trace_Allocs validates every allocation and return of random sessions that build, read (also damaged input), edit, link, inspect, move and reset modules with three caller allocators, with blocks poisoned after return and heap use by the library itself observed"""
import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANTS\nCaps = {%s}\nBases = {%s}\nSizes = {%s}\nAligns = {%s}\nSteps = %d\nINVARIANT Fine Above %s\nCHECK_DEADLOCK FALSE\n"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Allocs", "SPECIFICATION Spec\nCONSTANTS\nOwners = {1, 2, 3}\nBlocks = %d\nINVARIANT OneOwner Home NoneLost Once AllBack\nCHECK_DEADLOCK FALSE\n" % (3 if q else 5), expect_actions=["Make", "Grow", "Shrink", "Clear", "Destroy", "Move"])
    ctx.mc("MC_Buffer", CFG % ("0, 5, 9, 24", "0, 1, 6", "0, 1, 3, 4", "1, 2, 4, 8", 3 if q else 4, ""), expect_actions=["Next"])
    s = types.tlc_lines(ctx, "MC_Buffer", CFG % ("0, 9, 24", "0, 1, 6", "999, 0, 1, 4, 8", "1, 4, 8", 4 if q else 5, "Out"), "S", mem="12g")
    ctx.extra["spec_generated_histories"] = len(s)
    rnd = random.Random(ctx.seed)
    s = rnd.sample(s, min(len(s), 3000 if q else 40000))
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(s) + "\n")
    exe = ctx.build("allocs")
    tr = os.path.join(ctx.work, "allocs.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 60 if q else 700, 40 if q else 60, 150 if q else 700], timeout=150 if q else 800):
        split(ctx, tr)

def split(ctx, tr):
    a, b = tr + ".buf", tr + ".mod"
    with open(a, "w") as fa, open(b, "w") as fb:
        for l in open(tr): (fa if '"ev":"buf"' in l or '"ev":"take"' in l or '"ev":"give"' in l else fb).write(l)
    ctx.check_trace("Trace_Allocs", a, reset="buf")
    ctx.check_trace("Trace_Allocs", b, describe=describe, reset="begin")

def describe(r):
    e = r["event"]
    return str({k: e[k] for k in ("ev", "what", "elsewhere", "from") if k in e})
