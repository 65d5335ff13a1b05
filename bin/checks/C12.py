"""TLA+/TLC: Structured.tla states what control flow each nesting of helpers has to produce (a matcher plus well-formedness and block order on blocks alone); MC_Structured enumerates texts, checks a reference construction against both and hands every text to the driver, whose recorded blocks (also of deeper random texts) are checked line by line by Trace_Structured"""
import os, re

def run(ctx):
    q = not ctx.thorough
    rc, out = ctx.tlc("MC_Structured", "SPECIFICATION MCSpec\nCONSTANT Depth = %d\nINVARIANT BuiltRight Sharp Out\nCHECK_DEADLOCK FALSE\n" % (2 if q else 3), workers=8, timeout=600, mem="8g")
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    s = sorted(set(re.sub(r'\\"', '"', l[3:-1]) for l in out.splitlines() if l.startswith('"S ')))
    if rc != 0 or len(s) < 500: raise RuntimeError("MC_Structured: " + out[-3000:])
    ctx.transitions += int(m[-1][0]); ctx.states += int(m[-1][1])
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(s) + "\n")
    ctx.extra["spec_generated_texts_replayed"] = len(s)
    exe = ctx.build("structured")
    tr = os.path.join(ctx.work, "structured.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 400 if q else 8000, 4]): ctx.check_trace("Trace_Structured", tr, stateless=True)
