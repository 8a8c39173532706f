#!/usr/bin/env python3
"""Runs the quick checks against the mutants that the existing tests let pass.
usage: catch.py SURVIVORS.jsonl OUT.jsonl"""
import json, os, subprocess, sys, tempfile, time
MUT = "/tmp/x/mutate"
H = os.environ.get("H", "/verif/harness")
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOFLAGS="-mod=readonly -buildvcs=false", UAXVERIF_HARNESS=H)
ORDER = {
 "graphemes/ansi": "C09 C10 C05",
 "graphemes/iter": "C12 C09 C10 C05",
 "graphemes/": "C06 C05 C08 C01",
 "words/bleve": "C17",
 "words/joiners": "C11",
 "words/iter": "C12 C20 C05",
 "words/": "C08 C06 C11 C02",
 "sentences/iter": "C12 C05",
 "sentences/": "C08 C06 C03",
 "phrases/iter": "C12 C05",
 "phrases/": "C08 C06 C04",
 "internal/iterators/iter": "C18", "internal/iterators/filter": "C18",
}
done = set()
if os.path.exists(sys.argv[2]):
    for l in open(sys.argv[2]):
        r = json.loads(l); done.add((r["file"], r["n"]))
out = open(sys.argv[2], "a")
for l in open(sys.argv[1]):
    m = json.loads(l)
    f = m["file"]
    if (f, m["n"]) in done or f.startswith("internal/gen"): continue
    props = next(v for k, v in ORDER.items() if f.startswith(k)).split()
    d = tempfile.mkdtemp(prefix="c", dir="/tmp/mut")
    t0 = time.time()
    src = subprocess.run([MUT, "/repo/" + f, m["n"]], stdout=subprocess.PIPE).stdout
    open(d + "/m.go", "wb").write(src)
    json.dump({"Replace": {"/repo/" + f: d + "/m.go"}}, open(d + "/o.json", "w"))
    built = {}
    by = None
    for p in props:
        fl = ["-tags", "c18"] if p == "C18" else []
        if p == "C16":
            pk = subprocess.run("go list -deps ./cmd/uaxverif | grep '^github.com/clipperhouse/uax29/v2' | grep -v zverif | paste -sd,", shell=True, cwd=H, env=env, stdout=subprocess.PIPE, text=True).stdout.strip()
            fl = ["-cover", "-covermode=atomic", "-coverpkg=" + pk + ",github.com/clipperhouse/uax29/v2/zverif/cmd/uaxverif"]
        k = " ".join(fl)
        if k not in built:
            b = d + "/u%d" % len(built)
            subprocess.run(["go", "build"] + fl + ["-overlay", d + "/o.json", "-o", b, "./cmd/uaxverif"], cwd=H, env=env, check=True)
            built[k] = b
        e = dict(env, TMPDIR=d)
        if p == "C16": e["GOCOVERDIR"] = d
        os.makedirs(d + "/dir", exist_ok=True)
        subprocess.run("cp /verif/known_findings.json %s/dir/" % d, shell=True)
        try:
            r = subprocess.run([built[k], "-prop", p, "-seed", "1", "-dir", d + "/dir"], cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
        except subprocess.TimeoutExpired:
            by = p + " TIMEOUT"; break
        if r.returncode == 1 and "VIOLATION" in r.stdout: by = p; break
        if r.returncode: by = p + " rc=%d " % r.returncode + r.stdout[-300:]; break
    m["by"] = by; m["s"] = round(time.time() - t0)
    out.write(json.dumps(m) + "\n"); out.flush()
    subprocess.run(["rm", "-rf", d])
