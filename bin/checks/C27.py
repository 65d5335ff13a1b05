"""TLA+/TLC: Literals.tla defines the words of literal strings and numbers and the string that words begin with; MC_Literals model checks an operand list to which literals are appended (every string is found again, reading stops behind it, encodings are injective) and emits the lists; the driver appends them through every function that takes literals and reads strings back at every word; Trace_Literals validates each recorded word and answer"""
import os, random
from checks import types

CFG = "SPECIFICATION Spec\nCONSTANT MaxItems = %d\nCONSTANT Wide = %s\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n"

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_Literals", CFG % (2, "FALSE" if q else "TRUE", "Back Injective Whole"), expect_actions=["Next"])
    sc = types.tlc_lines(ctx, "MC_Literals", CFG % (1, "TRUE", "Back Whole Out"), "S")
    two = types.tlc_lines(ctx, "MC_Literals", CFG % (2, "FALSE", "Back Whole Out"), "S")
    rnd = random.Random(ctx.seed)
    sc += rnd.sample(two, min(len(two), 300 if q else 5000))
    sp = os.path.join(ctx.work, "scripts"); open(sp, "w").write("\n".join(sc) + "\n")
    ctx.extra["spec_generated_lists_replayed"] = len(sc)
    exe = ctx.build("literals")
    tr = os.path.join(ctx.work, "literals.ndjson")
    if ctx.run(exe, [tr, sp, ctx.seed, 600 if q else 8000]): ctx.check_trace("Trace_Literals", tr, stateless=True)
