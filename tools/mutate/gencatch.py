#!/usr/bin/env python3
"""Runs the quick check of C19 against mutants of the generator.
usage: gencatch.py SURVIVORS.jsonl OUT.jsonl"""
import json, os, subprocess, sys, tempfile, time
MUT = "/tmp/x/mutate"
H = os.environ.get("H", "/verif/harness")
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOFLAGS="-mod=readonly -buildvcs=false", UAXVERIF_HARNESS=H)
exe = tempfile.mkdtemp(prefix="g", dir="/tmp/mut") + "/u"
subprocess.run(["go", "build", "-o", exe, "./cmd/uaxverif"], cwd=H, env=env, check=True)
done = set()
if os.path.exists(sys.argv[2]):
    for l in open(sys.argv[2]):
        r = json.loads(l); done.add((r["file"], r["n"]))
out = open(sys.argv[2], "a")
for l in open(sys.argv[1]):
    m = json.loads(l)
    f = m["file"]
    if (f, m["n"]) in done or not f.startswith("internal/gen"): continue
    d = tempfile.mkdtemp(prefix="g", dir="/tmp/mut")
    t0 = time.time()
    src = subprocess.run([MUT, "/repo/" + f, m["n"]], stdout=subprocess.PIPE).stdout
    subprocess.run(["cp", "-a", "/repo", d + "/repo"])
    open(d + "/repo/" + f, "wb").write(src)
    os.makedirs(d + "/dir")
    e = dict(env, TMPDIR=d, UAXVERIF_REPO=d + "/repo")
    by = None
    try:
        r = subprocess.run([exe, "-prop", "C19", "-seed", "1", "-workers", "7", "-dir", d + "/dir"], cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
        if r.returncode == 1 and "VIOLATION" in r.stdout: by = "C19"
        elif r.returncode: by = "rc=%d " % r.returncode + r.stdout[-400:]
    except subprocess.TimeoutExpired:
        by = "TIMEOUT"
    m["by"] = by; m["s"] = round(time.time() - t0)
    out.write(json.dumps(m) + "\n"); out.flush()
    subprocess.run(["rm", "-rf", d])
