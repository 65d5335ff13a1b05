import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANT Budget = %d\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n"

def run(ctx, mode, budget, take, n1, n2):
    ctx.mc("MC_Binary", CFG % (1, "Derived Sharp"), expect_actions=["Required", "Optional", "Repeated", "WideOne"])
    ds = types.tlc_lines(ctx, "MC_Binary", CFG % (budget, "Derived Out"), "S", mem="12g")
    rnd = random.Random(ctx.seed)
    ctx.extra["grammar_derivations"] = len(ds)
    if take and len(ds) > take: ds = rnd.sample(ds, take)
    p = os.path.join(ctx.work, "derivations"); open(p, "w").write("\n".join(ds) + "\n")
    exe = ctx.build("binary")
    tr = os.path.join(ctx.work, "binary.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, mode, n1, n2, ctx.work]): ctx.check_trace("Trace_Binary", tr, stateless=True, describe=describe, known=known)

def describe(r):
    e = r["event"]
    ws = ["%08x" % (h << 16 | l) for h, l in e.get("w", [])]
    return "binary [%s%s] read=%s resolved=%s init=%s (%s)" % (" ".join(ws[:60]), " ..." if len(ws) > 60 else "", e.get("read"), e.get("res"), e.get("init"), e.get("last"))

def known(kf, r): return kf.get("id") == "switch64" and r["event"].get("wide")
