"""C20: List refines the abstract sequence (Lists.tla)."""
import os, re

MC = """SPECIFICATION MCSpec
CONSTANTS MaxLen = %d
MaxVal = %d
INVARIANT NodesDistinct
PROPERTY KeepsValues
VIEW View
CHECK_DEADLOCK FALSE
%s
"""

def run(ctx):
    # the model itself, exhaustively; every transition becomes a script
    n, v = (3, 2) if not ctx.thorough else (4, 2)
    out = ctx.mc("MC_Lists", MC % (2, 2, ""), expect_actions=["A_Unlink", "A_LinkFront", "A_Copy", "A_Move", "A_InsertBefore"])
    rc, out = ctx.tlc("MC_Lists", MC % (n, v, "ACTION_CONSTRAINT Emit"), workers=8, timeout=600, mem="6g")
    scripts = [re.sub(r'\\"', '"', l[3:-1]) for l in out.splitlines() if l.startswith('"S ')]
    if rc != 0 or len(scripts) < 100: raise RuntimeError("script generation failed: " + out[-2000:])
    uniq = sorted(set(scripts))
    # one script per (final operation, state): thin deterministically to the budget
    cap = 6000 if not ctx.thorough else 200000
    step = max(1, len(uniq) // cap)
    uniq = uniq[ctx.seed % step::step]
    p = os.path.join(ctx.work, "scripts.txt"); open(p, "w").write("\n".join(uniq) + "\n")
    ctx.log("scripts", len(uniq))
    ctx.extra["spec_generated_scripts_replayed"] = len(uniq)
    exe = ctx.build("list", link_lib=True)
    tr = os.path.join(ctx.work, "list.ndjson")
    ok = ctx.run(exe, [tr, p, ctx.seed, 150 if not ctx.thorough else 1500, 60 if not ctx.thorough else 120])
    if ok or os.path.getsize(tr): ctx.check_trace("Trace_Lists", tr) if ok else None
