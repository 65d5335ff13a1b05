"""TLA+/TLC: Typing.tla says for every operation which operand types it is defined for; MC_Typing enumerates every operation times every combination of operand types of a universe; each request is carried out by the driver and Trace_Typing checks that legal ones are accepted without complaint and that the others are refused with an error and add nothing to the program"""
from checks import typing

def run(ctx): typing.run(ctx, "decide")
