import os, random, re
from checks import types

CFG = 'SPECIFICATION Spec\nCONSTANTS Group = "%s"\nEmit = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
ACTIONS = {"un": ["AskUn", "AskConv", "AskPtrConv", "AskAlgebra", "AskCast", "AskExtract"], "bin": ["AskBin"], "tri": ["AskSelect", "AskBits", "AskMemory", "AskLength", "AskPhi", "AskEmit"],
           "img": ["AskImg", "AskOddImg", "AskThird", "AskRead"], "img2": ["AskExtra", "AskNone", "AskLevel", "AskGrad", "AskWrite", "AskQuery"], "ops": ["AskOperands", "AskMore"]}

def run(ctx, judge):
    q = not ctx.thorough
    lines = []
    for g in ACTIONS:
        out = ctx.mc("MC_Typing", CFG % (g, "TRUE", "Proper Laws SoundLaws Out"), expect_actions=ACTIONS[g])
        lines += sorted(set(re.sub(r'\\"', '"', l[3:-1]) for l in out.splitlines() if l.startswith('"S ')))
    ctx.extra["requests"] = len(lines)
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(lines) + "\n")
    exe = ctx.build("typing")
    for n in range(1 if q else 6):
        tr = os.path.join(ctx.work, "typing%d.ndjson" % n)
        if not ctx.run(exe, [tr, p, ctx.seed + n]): return
        ctx.check_trace("Trace_Typing", tr, describe=lambda r: r["event"].get("h"), stateless=True, cfg='SPECIFICATION TraceSpec\nCONSTANT Judge = "%s"\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n' % judge)
        os.remove(tr)
