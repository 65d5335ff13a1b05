"""TLA+/TLC: Vulkan.tla states which descriptor type a variable is (kind of resource, storage class, sharing of set and binding, arrays, BufferBlock) and the stage of an execution model; MC_Vulkan explores modules of a few resources decorated in any order, checks that combination is mutual and local, and hands the histories to the driver; Trace_Vulkan checks every answer of the library, for built and for read back modules, after these and long random histories"""
import os
from checks import types
CFG = 'SPECIFICATION Spec\nCONSTANTS Vars = %d\nRich = %s\nEmit = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\nVIEW View\n'
INV = "Mutual Sides Elements Local"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Vulkan", CFG % (2, "TRUE", "FALSE", INV), expect_actions=["Add", "Set", "Bind", "Buf"])
    if not q: ctx.mc("MC_Vulkan", CFG % (3, "FALSE", "FALSE", INV), timeout=800)
    lines = types.tlc_lines(ctx, "MC_Vulkan", CFG % (2, "TRUE", "TRUE", "Out"), "S")
    ctx.extra["histories"] = len(lines)
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(lines) + "\n")
    exe = ctx.build("vulkan")
    for n in range(1 if q else 4):
        tr = os.path.join(ctx.work, "vulkan%d.ndjson" % n)
        if not ctx.run(exe, [tr, p, ctx.seed + n, 400 if q else 2000]): return
        ctx.check_trace("Trace_Vulkan", tr, describe=lambda r: r["event"].get("op") or r["event"].get("ev"))
        os.remove(tr)
