#!/usr/bin/env python3
"""run.py <PROPERTY>: run the check of one property (see DESIGN.md)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib
pid = sys.argv[1]
mod = importlib.import_module("checks." + pid.lower())
vlib.main(pid, mod.check, getattr(mod, "LEVEL", "model_checking"))
