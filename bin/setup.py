#!/usr/bin/env python3
"""Sanity check of the toolchain; nothing has to be prepared, every check builds what it needs."""
import os, shutil, sys
need = ["clang++", "java", "python3"]
miss = [n for n in need if not shutil.which(n)] + [p for p in ["/opt/veriftools/tla/tla2tools.jar"] if not os.path.exists(p)]
if miss: print("missing:", miss); sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build"), exist_ok=True)
print("ok")
