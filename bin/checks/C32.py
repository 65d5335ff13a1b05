"""TLA+/TLC: Tools.tla states what a command line asks for (a plan), which lines the reflector prints for it, when the linker fails, and which files a run may touch; MC_Tools explores command lines, checks that the order of independent options and unknown options do not matter and that failures stick, and hands the command lines to the driver, which runs the tools built from the current sources in a scratch folder; Trace_Tools compares exit status, output and files with what the library produces for that plan"""
import json, os, random, shutil
from concurrent.futures import ThreadPoolExecutor
from checks import types
CFG = 'SPECIFICATION Spec\nCONSTANTS Units = %d\nEmit = %s\nWide = %s\nINVARIANTS Commute Ignored Stays Named Out\nCHECK_DEADLOCK FALSE\n'

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Tools", CFG % (3 if q else 4, "FALSE", "FALSE"), expect_actions=["File", "Option"], timeout=800)
    lines = sorted(set(types.tlc_lines(ctx, "MC_Tools", CFG % (2, "TRUE", "TRUE"), "S") + types.tlc_lines(ctx, "MC_Tools", CFG % (4, "TRUE", "FALSE"), "S", mem="16g")))
    rnd = random.Random(ctx.seed); by = {}
    for l in lines:
        j = json.loads(l); by.setdefault(j[0] + ":" + ("flags" if j[3] == "link" and "-refvars" in j[1] and "-constants" in j[1] else j[3] if j[0] == "link" else "g" if j[1] and j[1][0] in ("shader.spv", "liba.spv") else "b"), []).append(l)
    ctx.extra["command_lines"] = {k: len(v) for k, v in by.items()}
    quota = {"dis:g": 350, "dis:b": 40, "refl:g": 700, "refl:b": 40, "link:link": 250, "link:flags": 250, "link:patch": 350, "link:fail": 120, "link:nothing": 40}
    pick = []
    for k, v in sorted(by.items()): pick += rnd.sample(v, min(len(v), quota[k] * (1 if q else 32)))
    # every option, and every value of one, a few times on files that can be read
    use = {}
    for k in ("dis:g", "refl:g", "link:link", "link:flags", "link:patch"):
        for l in by[k]:
            for t in set(json.loads(l)[1]): use.setdefault(k + t, []).append(l)
    for t, v in sorted(use.items()): pick += rnd.sample(v, min(len(v), 6 if q else 150))
    rnd.shuffle(pick); ctx.extra["runs"] = len(pick)
    exe = ctx.build("tools"); tools = [ctx.tool(t) for t in ("dis", "refl", "link")]
    def part(n):
        p = os.path.join(ctx.work, "s%d" % n); open(p, "w").write("\n".join(pick[n::8]) + "\n")
        tr = os.path.join(ctx.work, "tools%d.ndjson" % n)
        return ctx.run(exe, [tr, p, os.path.join(ctx.work, "d%d" % n), ctx.seed + n, 12] + tools, timeout=860) and tr
    with ThreadPoolExecutor(8) as ex: trs = list(ex.map(part, range(8)))
    if not all(trs): return
    tr = os.path.join(ctx.work, "tools.ndjson")
    with open(tr, "w") as o:
        for t in trs: o.write(open(t).read())
    ctx.check_trace("Trace_Tools", tr, stateless=True, describe=lambda r: r["event"]["ev"] + " " + " ".join(r["event"]["args"]))
