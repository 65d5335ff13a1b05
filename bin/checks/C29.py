"""TLA+/TLC: TypeInfo.tla says what a description of a type has to answer (kind, shape, width, sign, base, containment, elements, spelling) and what building, wrapping, changing, copying and moving makes of it; MC_TypeInfo explores all short histories of two descriptions, checks laws that tie the answers together and hands the histories to the driver; these, every type of the universe of MC_Types and long random histories are carried out on the library's Type and Trace_TypeInfo checks every description, equality and answer"""
import os
from checks import types
CFG = 'SPECIFICATION Spec\nCONSTANTS Steps = %d\nEmit = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
UNI = 'SPECIFICATION Spec\nCONSTANTS Requests = 1\nWide = "types"\nINVARIANTS Out\nCHECK_DEADLOCK FALSE\n'

def run(ctx):
    q = not ctx.thorough
    ctx.mc("MC_TypeInfo", CFG % (3 if q else 4, "FALSE", "Laws Spells"), expect_actions=["Set", "Copy", "Move", "Wrap", "Member", "Take", "Reset", "Fmt", "Change"])
    lines = types.tlc_lines(ctx, "MC_TypeInfo", CFG % (2 if q else 3, "TRUE", "Out"), "S")
    uni = [l[1:-1] for l in types.tlc_lines(ctx, "MC_Types", UNI, "S")]
    ctx.extra["histories"] = len(lines); ctx.extra["types"] = len(uni)
    p = os.path.join(ctx.work, "scripts"); open(p, "w").write("\n".join(lines) + "\n")
    u = os.path.join(ctx.work, "types"); open(u, "w").write("\n".join(uni) + "\n")
    exe = ctx.build("typeinfo")
    for n in range(1 if q else 4):
        tr = os.path.join(ctx.work, "typeinfo%d.ndjson" % n)
        if not ctx.run(exe, [tr, p, u, ctx.seed + n, 400 if q else 1500, 40]): return
        ctx.check_trace("Trace_TypeInfo", tr, describe=lambda r: r["event"].get("op") or r["event"].get("ev"))
        os.remove(tr)
