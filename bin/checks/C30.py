"""TLA+/TLC: Registry.tla states, from the Khronos registry, what the shipped tables have to answer and how the words of an instruction fall to its operands; MC_Registry writes instructions of every shape the registry allows, checks that words alone tell where the operands are and hands the instructions to the driver; Trace_Registry checks every recorded answer about every opcode, operand kind, enumerant, enumerator, and the operands found by kind and by name"""
import os
from checks import types
CFG = 'SPECIFICATION Spec\nCONSTANTS Reps = %d\nEmit = %s\nLow = %d\nHigh = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Registry", CFG % (2 if q else 4, "FALSE", 1, 710, "WellFormed Decodes"), expect_actions=["Operand", "Param"])
    lines = types.tlc_lines(ctx, "MC_Registry", CFG % (1 if q else 3, "TRUE", 1, 710, "Out"), "S")
    ctx.extra["instructions"] = len(lines)
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(lines) + "\n")
    exe = ctx.build("registry")
    for n in range(1 if q else 3):
        tr = os.path.join(ctx.work, "registry%d.ndjson" % n)
        if not ctx.run(exe, [tr, p, ctx.seed + n]): return
        ctx.check_trace("Trace_Registry", tr, describe=lambda r: {k: str(v)[:300] for k, v in r["event"].items()})
        os.remove(tr)
