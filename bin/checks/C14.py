"""TLA+/TLC: Requirements.tla states after the Khronos registry what instructions require and capabilities imply; MC_Requirements model checks finalisation over histories of declarations, removals, instructions and version changes and hands the histories to the driver; the driver also finalises every opcode of the grammar alone, declares every capability with what it implies, edits and finalises random programs built and read back; Trace_Requirements follows the declared sets and the version event by event"""
import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANTS\nSteps = %d\nINVARIANT %s\nPROPERTY Kept\nCHECK_DEADLOCK FALSE\n%s"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Requirements", CFG % (4 if q else 6, "Right", "VIEW View\n"), expect_actions=["AddCap", "DelCap", "Place", "SetVersion", "Final"])
    s = types.tlc_lines(ctx, "MC_Requirements", CFG % (3, "Right Out", ""), "S", mem="12g")
    rnd = random.Random(ctx.seed)
    s = rnd.sample(s, min(len(s), 800 if q else 20000))
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(s) + "\n")
    import json
    g = json.load(open(os.path.join(ctx.root if hasattr(ctx, "root") else os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "data", "grammar.json")))
    sh = os.path.join(ctx.work, "shapes")
    with open(sh, "w") as f:
        for o in g["ops"]:
            if o["sec"] in (1, 2, 3, 4, 5, 15, 16, 17, 18): continue
            f.write(json.dumps([o["op"], o["sec"], o["type"], o["res"], o["ver"] if not o["exts"] else 0]) + "\n")
        for v in next(k for k in g["kinds"] if k["n"] == "Capability")["vals"]: f.write("[%d]\n" % v["v"][1])
    exe = ctx.build("requirements")
    tr = os.path.join(ctx.work, "requirements.ndjson")
    if ctx.run(exe, [tr, p, ctx.seed, 400 if q else 12000, 40, 60 if q else 2000, sh]): ctx.check_trace("Trace_Requirements", tr, describe=describe, reset="begin")

def describe(r):
    e = r["event"]
    return "%s %s: capabilities %s extensions %s imports %s version %s" % (e["ev"], {k: e[k] for k in ("c", "s", "v", "o", "dep", "ret") if k in e}, [x[0] for x in e["caps"]], [x[0] for x in e["exts"]], [x[0] for x in e["imps"]], e["ver"])
