#!/usr/bin/env python3
"""Nothing is prebuilt: every check builds the interpreter from the working tree
it is to judge.  This only makes sure that the tools are there and a build works."""
import os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build
for t in ("gcc", "python3"):
    if not shutil.which(t):
        sys.exit("missing " + t)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
t = build.Tree()
print("built", os.path.basename(t.binary("plain")))
