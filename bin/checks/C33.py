"""TLA+/TLC: Files.tla is the state machine of files, one writer and one reader over bytes; MC_Files explores histories of opening, putting, closing, reading windows and getting, checks that what is handed out is what was written, and hands the histories to the driver; Trace_Files validates recorded histories, and modules written to a file, a vector and to writers that refuse a word"""
import os, random
from checks import types
CFG = 'SPECIFICATION Spec\nCONSTANTS Steps = %d\nEmit = %s\nINVARIANTS Faithful Whole Held Out\nCHECK_DEADLOCK FALSE\n'

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Files", CFG % (4 if q else 5, "FALSE"), expect_actions=["WNew", "Put", "Open", "Close", "Read", "Get"], timeout=800)
    lines = types.tlc_lines(ctx, "MC_Files", CFG % (4, "TRUE"), "S")
    ctx.extra["histories"] = len(lines); rnd = random.Random(ctx.seed); rnd.shuffle(lines); lines = lines[:2500 if q else 40000]; ctx.extra["histories_replayed"] = len(lines)
    p = os.path.join(ctx.work, "files.scripts"); open(p, "w").write("\n".join(lines) + "\n")
    tr = os.path.join(ctx.work, "files.ndjson")
    if ctx.run(ctx.build("files"), [tr, p, os.path.join(ctx.work, "d"), ctx.seed, 300 if q else 5000, 25 if q else 300], timeout=860): ctx.check_trace("Trace_Files", tr, reset="begin")
