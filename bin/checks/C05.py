"""TLA+/TLC: Binary.tla decides of every word sequence whether it must be refused (framing, grammar, scope, open functions or blocks, undefined ids), must be accepted, or may be either; MC_Binary derives instructions from the registry grammar; binaries composed of them and of programs are truncated at every word, changed at every word and damaged at random, read by the library under sanitizers, and Trace_Binary checks the verdicts and that whatever is accepted is read faithfully"""
from checks import binary

def run(ctx):
    if not ctx.thorough: binary.run(ctx, "mut", 1, 0, 12, 6000)
    else: binary.run(ctx, "mut", 1, 0, 150, 90000)
