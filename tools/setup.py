#!/usr/bin/env python3
"""Nothing to install: warm the build of the harness (each check builds what it needs by itself)."""
import os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'py'))
import crate
try:
    crate.cargo(os.path.join(V, 'harness', 'prim'), 'prim')
except crate.BuildError as e:
    print(str(e)[-2000:])
    sys.exit(1)
