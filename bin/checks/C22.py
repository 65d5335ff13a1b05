"""C22: HashMap refines the abstract multimap (HashMaps.tla)."""
import os, re

MC = """SPECIFICATION MCSpec
CONSTANTS MaxLen = %d
NKeys = %d
MaxVal = 2
Collide = %s
INVARIANT Partition
PROPERTY Stable
VIEW View
CHECK_DEADLOCK FALSE
%s
"""

def run(ctx):
    q = not ctx.thorough
    lines = []
    for coll, nk, ml in (("FALSE", 3, 2 if q else 3), ("TRUE", 3, 2 if q else 3)):
        rc, out = ctx.tlc("MC_HashMaps", MC % (ml, nk, coll, "ACTION_CONSTRAINT Emit"), workers=8, timeout=900, mem="8g")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        s = sorted(set(re.sub(r'\\"', '"', l[3:-1]) for l in out.splitlines() if l.startswith('"S ')))
        if rc != 0 or len(s) < 100: raise RuntimeError("script generation failed: " + out[-2000:])
        ctx.transitions += int(m[-1][0]); ctx.states += int(m[-1][1])
        cap = 4000 if q else 60000
        step = max(1, len(s) // cap)
        lines += ['{"c":%d,"n":%d,"s":%s}' % (coll == "TRUE", nk, x) for x in s[ctx.seed % step::step]]
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(lines) + "\n")
    ctx.log("scripts", len(lines)); ctx.extra["spec_generated_scripts_replayed"] = len(lines)
    exe = ctx.build("hashmap")
    tr = os.path.join(ctx.work, "hashmap.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 180 if q else 3000, 60 if q else 150]): ctx.check_trace("Trace_HashMaps", tr)
