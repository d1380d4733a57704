#!/usr/bin/env python3
"""writes known_findings.txt from the fix: commits of /repo (run by hand)"""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = dict(l.split() for l in """dd0b633 C39
2dcca0e C04
f754dfd C30
21103eb C22
e05b8f6 C24
512f3cc C09
bc4b17a C15
06ad674 C14
50c1d97 C10
71ac5ea C12
9b9c0ac C12
e841cc8 C12
2d65450 C13
b11bbd9 C13
4138e56 C11
a6192fa C38
2c5b2ff C37
c07f087 C37
7534963 C04
72aff0d C01
86fff45 C01
be2f61c C01
89bffcf C01
93f7873 C03
d9010f7 C03
c9ae57c C27
7bbec8a C05
f2f678f C06
e30d7eb C06
4f411a9 C32
b0b41e0 C34
2a44160 C35
f797c14 C38
2f707e4 C38
bf9e778 C19
7ace3cd C21
37e097f C22
2a0dca4 C21
65d473a C21
d31eb7e C23
6497ddb C30
a65e4dd C30
217ee98 C26
a5008b6 C17
f2b2d51 C14
189f853 C02
bfa587a C02
7b33918 C06
55d9bcf C06
5b6e3a8 C11""".splitlines())
EXTRA = os.path.join(V, "tools", "fixprops.txt")   # later commits: "<hash> <property>"
if os.path.exists(EXTRA): M.update(l.split() for l in open(EXTRA) if l.strip())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "be3627f..HEAD"], capture_output=True, text=True).stdout
with open(os.path.join(V, "known_findings.txt"), "w") as f:
    f.write("# Defects of flut found with these checks. 'fixed' entries suppress nothing.\n")
    for l in log.splitlines():
        h, s = l.split(" ", 1)
        if s.startswith("fix: ") and h != "37a7ecf": f.write("fixed: property=%s %s %s\n" % (M.get(h, "??"), h, s[5:]))
    k = os.path.join(V, "tools", "known.txt")
    if os.path.exists(k): f.write(open(k).read())
