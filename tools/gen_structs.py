#!/usr/bin/env python3
"""Writes harness/errors/structs_gen.go: struct types of all kinds of shapes, and the table of the functions of errorsWithData
instantiated for them.  Deterministic."""
import os, random
rng = random.Random(20)
LEAF = ["int", "int64", "string", "any", "error", "*int", "[]int", "recVal", "Named", "float64", "bool", "*Named"]
NAMES = ["A", "B", "C", "D"]
out = []
pool = []          # generated struct types: name -> depth
types = ["T0", "SA", "SAB"]
src = ["type T0 struct{}", "type SA struct{ A int }", "type SAB struct {\n\tA int\n\tB any\n}"]
# shapes that matter in any case
fixed = {
 "X1": "A int\n_ int", "X2": "A int\nb int", "X3": "*SA", "X4": "SAB\nA string", "X5": "SA\nSAB", "X6": "error\nA int", "X7": "Named\nA int",
 "X8": "*Named\nB string", "X9": "Any\nA int", "X10": "X4\nB error", "X11": "X3\nB int", "X12": "SA\nX4", "X13": "SA\nX4\nA []int",
 "x14": "A int\nC *int", "X15": "x14\nB any", "X16": "x14\nSA\nB int", "X17": "x14\nA any\nB int", "X18": "named\nA int", "X19": "x14\nX4\nA int\nB int",
 "X20": "W1\nW2", "W1": "SA\nB int", "W2": "SA\nC int", "X21": "W1\nW2\nA any", "X22": "V1\nA any", "V1": "W1\nA string", "X23": "V1\nW2\nA int", "X24": "V2\nSA", "V2": "x14",
 "X25": "A any\nB error\nC *int\nD []int", "X26": "Err error\nAny any", "X27": "F func()\nA int",
}
for n, body in fixed.items():
    src.append("type %s struct {\n%s\n}" % (n, body)); types.append(n)
emb = ["SA", "SAB", "x14", "W1", "W2", "V1", "V2", "X4", "X15", "T0"]
for i in range(36):
    n = "%s%d" % ("g" if i % 5 == 4 else "G", i)
    f = []
    for nm in rng.sample(NAMES, rng.randint(0, 3)):
        f.append("%s %s" % (nm, rng.choice(LEAF)))
    for e in rng.sample(emb, rng.choice([0, 0, 1, 1, 2])):
        f.append(e)
    if rng.random() < .04: f.append("z bool")
    if rng.random() < .04: f.append("*SA" if "SA" not in f else "*T0")
    rng.shuffle(f)
    src.append("type %s struct {\n%s\n}" % (n, "\n".join(f))); types.append(n)
    if i % 2 == 0: emb.append(n)
nostruct = ["int", "*SA", "error", "any", "[]int", "Named"]
prs = []
for t in types:
    for u in set(rng.sample(types, 3) + ["SA", t]):
        prs.append((t, u))
prs.sort()
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "errors", "structs_gen.go"), "w") as w:
    w.write("//go:build go1.21\n\n// Code generated by tools/gen_structs.py. DO NOT EDIT.\n\npackage main\n\n")
    w.write("\n".join(src) + "\n\n")
    w.write("var dataTypes = []*typ{\n" + "".join('reg[%s]("%s"),\n' % (t, t) for t in types + nostruct) + "}\n\n")
    w.write("var subtypePairs = []subPair{\n" + "".join('pair[%s, %s]("%s", "%s"),\n' % (a, b, a, b) for a, b in prs) + "}\n")
os.system("gofmt -w " + w.name)
