"""C21: Vector and String refine abstract sequences (Arrays.tla)."""
import os, re

MC = """SPECIFICATION MCSpec
CONSTANTS MaxLen = %d
MaxVal = 2
MaxRoom = %d
Kind = "%s"
INVARIANT Bounded
VIEW View
CHECK_DEADLOCK FALSE
%s
"""

def scripts(ctx, kind, maxlen, room, cap):
    rc, out = ctx.tlc("MC_Arrays", MC % (maxlen, room, kind, "ACTION_CONSTRAINT Emit"), workers=8, timeout=900, mem="8g")
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    s = sorted(set(re.sub(r'\\"', '"', l[3:-1]) for l in out.splitlines() if l.startswith('"S ')))
    if rc != 0 or len(s) < 100: raise RuntimeError("script generation failed: " + out[-2000:])
    ctx.transitions += int(m[-1][0]); ctx.states += int(m[-1][1])
    step = max(1, len(s) // cap)
    s = s[ctx.seed % step::step]
    p = os.path.join(ctx.work, kind + ".scripts"); open(p, "w").write("\n".join(s) + "\n")
    ctx.log(kind, "scripts", len(s))
    return p, len(s)

def run(ctx):
    q = not ctx.thorough
    pv, nv = scripts(ctx, "vec", 3 if q else 4, 4 if q else 5, 5000 if q else 100000)
    ps, ns = scripts(ctx, "str", 3 if q else 4, 4 if q else 5, 5000 if q else 100000)
    ctx.extra["spec_generated_scripts_replayed"] = nv + ns
    exe = ctx.build("arrays")
    tr = os.path.join(ctx.work, "arrays.ndjson")
    if ctx.run(exe, [tr, pv, ps, ctx.seed, 200 if q else 2000, 80 if q else 150]): ctx.check_trace("Trace_Arrays", tr)
