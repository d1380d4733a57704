#!/usr/bin/env python3
"""Nothing has to be installed: the checks build what they need. This warms the library cache and checks the tools."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
for t in ("g++", "java", "ar"):
    if not shutil.which(t): sys.exit("missing tool: " + t)
print(lib.build_lib())
