import os, re

def scripts(ctx, depth, spec="MC_Modules"):
    rc, out = ctx.tlc(spec, "SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANT Out\nCHECK_DEADLOCK FALSE\n" % depth, workers=8, timeout=800, mem="8g")
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    s = sorted(set(re.sub(r'\\"', '"', l[3:-1]) for l in out.splitlines() if l.startswith('"S ')))
    if rc != 0 or not s: raise RuntimeError(spec + ": " + out[-3000:])
    ctx.transitions += int(m[-1][0]); ctx.states += int(m[-1][1])
    ctx.extra["spec_generated_programs_replayed"] = len(s)
    return s

def run(ctx, what):
    q = not ctx.thorough
    ctx.mc("MC_Modules", "SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANT Right Sharp\nCHECK_DEADLOCK FALSE\n" % 2, expect_actions=["AddGlobal", "OpenFunction", "AddCode", "CloseFunction"])
    s = scripts(ctx, 3)
    p = os.path.join(ctx.work, "scripts")
    import random
    rnd = random.Random(ctx.seed)
    if q: s = rnd.sample(s, 400)
    open(p, "w").write("\n".join(s) + "\n")
    exe = ctx.build("modules")
    tr = os.path.join(ctx.work, "modules.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 120 if q else 1500, 90 if q else 160]): ctx.check_trace("Trace_Modules", tr, stateless=True)
