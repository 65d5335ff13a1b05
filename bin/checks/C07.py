"""TLA+/TLC: Types.tla gives every constant instruction the value it stands for (literal encoding by type, constituents, specialization) and states how a module has to answer a constant request; MC_Types model checks a module answering sequences of requests and enumerates values of every kind, which the driver requests through templates, Constant objects and copies of them; recorded sessions are validated step by step by Trace_Types"""
from checks import types

def run(ctx): types.run(ctx, "consts")
