"""TLA+/TLC: Binary.tla divides instruction words into operands by the registry grammar and defines which binaries are well formed and what has to be written back; MC_Binary derives every opcode operand by operand (all enumerants, masks, optional and repeated operands, strings) and checks the division against the derivation; binaries composed of these derivations and binaries of random programs are read, written, resolved, renumbered and written by the library, and Trace_Binary compares word by word"""
from checks import binary

def run(ctx):
    if not ctx.thorough: binary.run(ctx, "valid", 1, 0, 120, 40)
    else: binary.run(ctx, "valid", 2, 60000, 2500, 400)
