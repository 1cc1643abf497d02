#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE] ..."""
import importlib, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
import harness
sys.exit(harness.main(importlib.import_module(sys.argv[1].lower()).CHECK, sys.argv[2:]))
