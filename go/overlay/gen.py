#!/usr/bin/env python3
"""Writes the overlay for the Go runtime: gen.py OUTDIR"""
import json, os, subprocess, sys

out = sys.argv[1]
os.makedirs(out, exist_ok=True)
root = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
rt = os.path.join(root, "src", "runtime")
here = os.path.dirname(os.path.abspath(__file__))


def patch(name, edits):
    s = open(os.path.join(rt, name)).read()
    for old, new in edits:
        assert s.count(old) == 1, (name, old, s.count(old))
        s = s.replace(old, new)
    p = os.path.join(out, name)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)
    return p


rep = {}
rep[os.path.join(rt, "proc.go")] = patch("proc.go", [
    # no preemption and no hand-off of a processor by the monitor thread
    ("func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\treturn 0\n}\n\nfunc retake0(now int64) uint32 {\n"),
    # the seeded scheduler
    ("\t// Check the global runnable queue once in a while to ensure fairness.\n",
     "\tif simOn {\n\t\tif gp := simPick(pp); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\t// Check the global runnable queue once in a while to ensure fairness.\n"),
    ("const randomizeScheduler = raceenabled", "const randomizeScheduler = false"),
    ("\tif !iscgo && cgoHasExtraM && extraMLength.Load() > 0 {\n", "\tif cgoHasExtraM && extraMLength.Load() > 0 {\n"),
])
rep[os.path.join(rt, "select.go")] = patch("select.go", [("cheaprandn(uint32(norder + 1))", "simSelectRandn(uint32(norder + 1))")])
rep[os.path.join(rt, "time.go")] = patch("time.go", [("t.rand = cheaprand()", "t.rand = simSelectRandn(1 << 31)")])
rep[os.path.join(rt, "rand.go")] = patch("rand.go", [
    ("\tseed := &globalRand.seed\n", "\tseed := &globalRand.seed\n\tstartupRand = simStartup[:]\n"),
    ("func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn {\n\t\tif gp := getg(); gp.m.curg == gp {\n\t\t\treturn simNext(&sim.rnd)\n\t\t}\n\t} else if gp := getg(); gp.m.curg == gp {\n\t\treturn simNext(&simOutside)\n\t}\n"),
])
p = os.path.join(out, "zz_sim.go")
s = open(os.path.join(here, "sim.go.txt")).read()
if not os.path.exists(p) or open(p).read() != s:
    open(p, "w").write(s)
rep[os.path.join(rt, "zz_sim.go")] = p
open(os.path.join(out, "overlay.json"), "w").write(json.dumps({"Replace": rep}))
