import os, re, random
from checks.modules import scripts

def tlc_lines(ctx, module, cfg, tag, mem="8g", timeout=800):
    rc, out = ctx.tlc(module, cfg, workers=8, timeout=timeout, mem=mem)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    s = sorted(set(re.sub(r'\\"', '"', l[3:-1]) for l in out.splitlines() if l.startswith('"%s ' % tag)))
    if rc != 0 or not s: raise RuntimeError(module + ": " + out[-3000:])
    ctx.transitions += int(m[-1][0]); ctx.states += int(m[-1][1])
    return s

CFG = 'SPECIFICATION Spec\nCONSTANT Requests = %d\nCONSTANT Wide = "%s"\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n'

def run(ctx, wide):
    q = not ctx.thorough
    ctx.mc("MC_Types", CFG % (2 if q else 3, "small", "Answered NoDuplicates Declared Complete"), expect_actions=["Next"])
    one = tlc_lines(ctx, "MC_Types", CFG % (1, wide, "Answered NoDuplicates Declared Complete Out"), "S")
    uni = [l[1:-1] for l in one]          # single requests
    if wide == "consts": ctx.extra["requests"] = len(uni)
    rnd = random.Random(ctx.seed)
    pairs = [(a, b) for a in uni for b in uni if a != b]
    sc = one + ["[%s,%s,%s]" % (a, b, a) for a, b in rnd.sample(pairs, min(len(pairs), 1500 if q else 20000))]
    up = os.path.join(ctx.work, "uni"); open(up, "w").write("\n".join(uni) + "\n")
    sp = os.path.join(ctx.work, "scripts"); open(sp, "w").write("\n".join(sc) + "\n")
    ctx.extra["spec_generated_sessions_replayed"] = len(sc)
    exe = ctx.build("types")
    tr = os.path.join(ctx.work, "types.ndjson")
    if ctx.run(exe, [tr, up, sp, ctx.seed, 60 if q else 600, 40 if q else 90]): ctx.check_trace("Trace_Types", tr)
