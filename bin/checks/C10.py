"""TLA+/TLC: Generic.tla gives for every type directed request (Add, Mul, Less, ...) and operand types the operations it stands for, on top of the typing rules of Typing.tla; MC_Generic model checks laws (symmetry, mirrored comparisons, signed and unsigned forms, products of three) over all pairs of a universe and enumerates chains where each result feeds the next request; every pair and chain is carried out by the driver in every way it can be written (instruction, block, stack, operators) and Trace_Generic, which follows the type on top of the block, judges what was added"""
import os, random
from checks import types
CFG = 'SPECIFICATION Spec\nCONSTANTS Mode = "%s" Depth = %d Emit = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'

def run(ctx):
    q = not ctx.thorough
    lines = []
    for mode, depth, acts in (("pairs", 1, ["Pair", "Invert"]), ("chains", 3 if q else 4, ["Link", "Flip"])):
        ctx.mc("MC_Generic", CFG % (mode, depth, "FALSE", "Proper Laws"), expect_actions=acts)
        l = types.tlc_lines(ctx, "MC_Generic", CFG % (mode, 1 if mode == "pairs" else 3, "TRUE", "Out"), "S")
        if mode == "chains": ctx.extra["chains_enumerated"] = len(l); l = random.Random(ctx.seed).sample(l, 8000 if q else len(l))
        else: ctx.extra["pairs"] = len(l); l = l * (2 if q else 5)
        lines += l
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(lines) + "\n")
    exe = ctx.build("generic")
    for n in range(1 if q else 4):
        tr = os.path.join(ctx.work, "generic%d.ndjson" % n)
        if not ctx.run(exe, [tr, p, ctx.seed + n]): return
        ctx.check_trace("Trace_Generic", tr, describe=lambda r: r["event"].get("g"), reset="begin")
        os.remove(tr)
