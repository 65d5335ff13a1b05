"""TLA+/TLC: Types.tla gives every type instruction the value it stands for and states how a module has to answer a type request; MC_Types model checks a module that answers any sequence of requests (answerable, no duplicates, declared before use) and enumerates the requests, which the driver phrases in every way the API offers; recorded sessions are validated step by step by Trace_Types"""
from checks import types

def run(ctx): types.run(ctx, "types")
