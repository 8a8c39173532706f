#!/usr/bin/env python3
"""Mutates /repo's sources one place at a time (in overlays; /repo is not touched),
and finds the mutants that compile and pass the existing tests.
usage: survey.py OUT.jsonl FILE..."""
import json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
MUT = "/tmp/x/mutate"
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-buildvcs=false", GOMAXPROCS="2")
def run(cmd, cwd, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode
    except subprocess.TimeoutExpired:
        return 99
def one(job):
    f, n, what = job
    d = tempfile.mkdtemp(prefix="m", dir="/tmp/mut")
    try:
        src = subprocess.run([MUT, "/repo/" + f, n], stdout=subprocess.PIPE).stdout
        open(d + "/m.go", "wb").write(src)
        json.dump({"Replace": {"/repo/" + f: d + "/m.go"}}, open(d + "/o.json", "w"))
        o = ["-overlay", d + "/o.json"]
        pkg = os.path.dirname(f)
        if pkg.startswith("internal/gen"):
            cwd, pk = "/repo/internal/gen", "./..."
            if run(["go", "build", "-o", d + "/x"] + o + ["."], cwd, 120): return "invalid"
        else:
            cwd, pk = "/repo", "./..." if pkg.startswith("internal") else "./" + pkg
            if run(["go", "build"] + o + ["./" + pkg], cwd, 120): return "invalid"
        if run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s"] + o + [pk], cwd, 200): return "killed"
        if pkg in ("words", "graphemes"):
            if run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s"] + o + ["./..."], "/repo/%s/comparative" % pkg, 200): return "killed"
        return "survived"
    finally:
        subprocess.run(["rm", "-rf", d])
out = sys.argv[1]
jobs = []
for f in sys.argv[2:]:
    for l in subprocess.run([MUT, "/repo/" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        n, pos, what = l.split("\t", 2)
        jobs.append((f, n, pos + " " + what))
count = {}
with open(out, "w") as o, ThreadPoolExecutor(5) as ex:
    for j, r in zip(jobs, ex.map(one, jobs)):
        count[r] = count.get(r, 0) + 1
        if r == "survived":
            o.write(json.dumps({"file": j[0], "n": j[1], "what": j[2]}) + "\n"); o.flush()
print(count)
