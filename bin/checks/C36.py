"""TLA+/TLC: Plain.tla states for every request whose operands the caller spells out which instruction it makes, or that it is refused; MC_Plain enumerates requests (every capability, decoration, execution mode, mask, ...), checks every plan against the grammar of the Khronos registry (the words are an instruction, nothing missing, nothing left over) and hands them to the driver; Trace_Plain judges the instruction made, the answer, complaints and everything else the module gained"""
import os, random
from checks import types
CFG = 'SPECIFICATION Spec\nCONSTANTS Emit = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Plain", CFG % ("FALSE", "Right"), expect_actions=["Bare", "Debug", "Annotate", "Modes", "Functions", "Flow", "Memory"])
    lines = types.tlc_lines(ctx, "MC_Plain", CFG % ("TRUE", "Out"), "S")
    ctx.extra["requests"] = len(lines)
    exe = ctx.build("plain")
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(lines) + "\n")
    for n in range(1 if q else 6):
        tr = os.path.join(ctx.work, "plain%d.ndjson" % n)
        if not ctx.run(exe, [tr, p, ctx.seed + n]): return
        ctx.check_trace("Trace_Plain", tr, stateless=True)
        os.remove(tr)
