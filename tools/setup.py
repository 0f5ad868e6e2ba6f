#!/usr/bin/env python3
"""setup_cmd: nothing is pre-built (every check builds what it needs); only see that the tools are there."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, ".build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
for c in (["g++", "--version"], ["java", "-version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
ok = os.path.exists("/opt/veriftools/tla/tla2tools.jar")
sys.exit(0 if ok else 1)
