#!/usr/bin/env python3
"""writes harness/tests_test.go: the checks by name, for the coverage-guided runs"""
import glob, os, re
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
names = []
for f in sorted(glob.glob(H + "/c*_test.go")):
    s = open(f).read()
    for m in re.finditer(r"^func (Test\w+)\(t \*testing\.T\) \{(.*?)^\}", s, re.M | re.S):
        if "check(t," in m.group(2):
            names.append(m.group(1))
with open(H + "/tests_test.go", "w") as f:
    f.write("package harness\n\n// generated by tools/mktests.py\n\nimport \"testing\"\n\nvar tests = map[string]func(*testing.T){\n")
    for n in names:
        f.write('\t"%s": %s,\n' % (n, n))
    f.write("}\n")
