"""TLA+/TLC: Glsl.tla gives for every function of GLSL.std.450 its number, the operand types it is defined for and the type of its result; MC_Glsl compares the numbers and names with the registry and checks laws (packing and unpacking, Frexp and Ldexp, minimum and clamp, ...) over every function and every combination of types of a universe; each combination is requested from the library by the driver, in modules that may have imported this and other sets before, and Trace_Glsl judges the instruction added, the set it names and its decoded result type"""
import os
from checks import types
CFG = 'SPECIFICATION Spec\nCONSTANTS Emit = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Glsl", CFG % ("FALSE", "Laws"), expect_actions=["Unary", "Binary", "Differ", "Ternary"])
    lines = types.tlc_lines(ctx, "MC_Glsl", CFG % ("TRUE", "Out"), "S")
    ctx.extra["requests"] = len(lines)
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(lines) + "\n")
    exe = ctx.build("glsl")
    for n in range(1 if q else 6):
        tr = os.path.join(ctx.work, "glsl%d.ndjson" % n)
        if not ctx.run(exe, [tr, p, ctx.seed + n]): return
        ctx.check_trace("Trace_Glsl", tr, describe=lambda r: r["event"].get("h"), stateless=True)
        os.remove(tr)
