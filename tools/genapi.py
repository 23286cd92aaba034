#!/usr/bin/env python3
"""Writes harness/api_gen.go: the exported functions of the package, by name (run by hand, the result is committed)."""
import re, glob, os, sys
skip = {"VisitIfNotNull", "DefaultOngoingUnwindCreate", "OngoingMergeActionInBuilderCreate",
        "DefaultStatementWithUpdateBuilderCreate", "DefaultStatementWithUpdateBuilderCreate1",
        "DefaultStatementWithUpdateBuilderCreate2", "DefaultStatementWithWithBuilderCreate", "InQueryCallBuilderCreate",
        "OngoingWhenThenCreate"}
names, values, methods = [], [], set()
for f in sorted(glob.glob("/repo/*.go")):
    if f.endswith("_test.go"): continue
    for l in open(f):
        m = re.match(r"func ([A-Z]\w*)\(", l)
        if m and m.group(1) not in skip: names.append(m.group(1))
        m = re.match(r"func \([^)]*\) ([A-Z]\w*)\(", l) or re.match(r"\t([A-Z]\w*)\(.*[^{,]$", l.rstrip())
        if m: methods.add(m.group(1))
        m = re.match(r"var ([A-Z]\w*) =", l)
        if m: values.append(m.group(1))
with open(sys.argv[1] if len(sys.argv) > 1 else "/verif/harness/api_gen.go", "w") as o:
    o.write('package main\n\n// Written by tools/genapi.py.\n\nimport "github.com/manhcuongbk56/cypher-go-dsl"\n\nvar exported = []apiFunc{\n')
    for n in sorted(names): o.write('\t{"%s", cypher.%s},\n' % (n, n))
    o.write("}\n\nvar exportedValues = []apiFunc{\n")
    for n in sorted(values): o.write('\t{"%s", cypher.%s},\n' % (n, n))
    o.write("}\n\n// a method that is not one of these is none that users of the pinned version know\nvar exportedMethods = map[string]bool{\n")
    for n in sorted(methods): o.write('\t"%s": true,\n' % n)
    o.write("}\n")
print(len(names))
