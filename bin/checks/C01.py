"""TLA+/TLC: Modules.tla defines what binary a module (sections of instructions) has; MC_Modules enumerates construction sequences (handed to the driver) and checks on small modules that exactly the encoding is accepted; every binary the library writes for generated and random programs, also after extension, re-assignment and reading back, is checked word by word against the module's observed content by Trace_Modules"""
import os, re
from checks import modules

def run(ctx): modules.run(ctx, "write")
