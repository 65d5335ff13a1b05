"""TLA+/TLC: Printer.tla computes the tokens of every line of a listing from the words of the module and the options alone (grammar walk over operands, enumerants and masks with their parameters, names, type and constant texts, nested operations); MC_Binary derives instructions of every opcode, operand by operand, and MC_Types declarations; modules composed of them, read to different stages, and modules built by programs are printed under all option combinations, and Trace_Printer checks every line"""
import os, random
from checks import types, binary

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Binary", binary.CFG % (1, "Derived Sharp"), expect_actions=["Required", "Optional", "Repeated"])
    ds = types.tlc_lines(ctx, "MC_Binary", binary.CFG % (1 if q else 2, "Derived Out"), "S", mem="12g")
    ctx.extra["grammar_derivations"] = len(ds)
    rnd = random.Random(ctx.seed)
    take = 0 if q else 120000
    if take and len(ds) > take: ds = rnd.sample(ds, take)
    fr = []
    for wide in ("types", "consts"): fr += types.tlc_lines(ctx, "MC_Types", types.CFG % (1, wide, "Answered NoDuplicates Declared Complete Frag"), "B")
    ctx.extra["declarations_derived"] = len(fr)
    d, p = os.path.join(ctx.work, "derivations"), os.path.join(ctx.work, "frags")
    open(d, "w").write("\n".join(ds) + "\n"); open(p, "w").write("\n".join(fr) + "\n")
    exe = ctx.build("printer")
    tr = os.path.join(ctx.work, "printer.ndjson")
    n = (60, 150, 300, 12) if q else (1000, 2500, 5000, 8)
    if ctx.run(exe, [tr, d, p, ctx.seed, *n]): ctx.check_trace("Trace_Printer", tr, stateless=True, describe=describe)

def describe(r):
    e = r["event"]; ws = ["%08x" % (h << 16 | l) for h, l in e.get("w", [])]
    return "listing of [%s%s] with options %s at level %s" % (" ".join(ws[:60]), " ..." if len(ws) > 60 else "", e.get("opt"), e.get("lev"))
