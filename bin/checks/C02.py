"""TLA+/TLC: Modules.tla states which ids a module may have (IdsOk) and what words references become; the module content observed after every id assignment, re-assignment after extension and on read modules is checked by Trace_Modules, programs coming from MC_Modules and random construction"""
from checks import modules

def run(ctx): modules.run(ctx, "ids")
