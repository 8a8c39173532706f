#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py descriptions: makes each patch
against /repo's HEAD in a scratch copy, and checks what a planted bug must satisfy
(applies, builds, passes the stable tests, demo 0 on the unchanged tree and nonzero
with the patch).  Usage: mkseeds.py [id...]"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, glob
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SEEDS = []
for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
    spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    SEEDS += m.SEEDS

DEMO = '''#!/bin/bash
# Run with cwd /repo: 0 when the property holds for this input, nonzero when not.
here="$(cd "$(dirname "$0")" && pwd)"
o="$(mktemp)"
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$o"
timeout 250 go run RACE-overlay "$o" ./zz_demo
rc=$?
rm -f "$o"
exit $rc
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def main():
    want = set(sys.argv[1:])
    base = json.load(open("/opt/vp/BASELINE.json"))
    for s in SEEDS:
        if want and s["id"] not in want: continue
        wt = tempfile.mkdtemp(prefix="seed")
        repo = os.path.join(wt, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        # edits
        for (f, old, new) in s["edits"]:
            p = os.path.join(repo, f); t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(s["id"], "EDIT", f, "matches", n); break
            open(p, "w").write(t.replace(old, new))
        else:
            patch = sh("git diff", repo).stdout
            d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            for name, text in s.get("files", {"main.go": s.get("main", "")}).items():
                open(os.path.join(d, name), "w").write(text)
            open(os.path.join(d, "demo.sh"), "w").write(s.get("demo") or DEMO.replace("RACE", "-race " if s.get("race") else ""))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            bad = []
            r = sh("go build ./... && go vet ./words ./graphemes ./sentences ./phrases ./internal/iterators/... >/dev/null && cd internal/gen && go build -o /dev/null .", repo)
            if r.returncode: bad.append("build: " + r.stdout[-400:])
            r = sh("bash %s/demo.sh" % d, repo)
            if r.returncode == 0: bad.append("demo passes with patch: " + r.stdout[-300:])
            dem = r.stdout.strip()[-160:]
            r = sh("for m in . graphemes/comparative words/comparative internal/gen; do (cd $m; timeout 600 go test -json -vet=off -count=1 ./... 2>/dev/null); done", repo)
            fails = set()
            for l in r.stdout.splitlines():
                try: e = json.loads(l)
                except Exception: continue
                if e.get("Action") == "fail": fails.add((e["Package"].split("/v2")[-1], e.get("Test")))
            if fails: bad.append("tests fail: %s" % sorted(map(str, fails))[:4])
            sh("git checkout -- .", repo)
            r = sh("bash %s/demo.sh" % d, repo)
            if r.returncode: bad.append("demo fails unchanged: " + r.stdout[-400:])
            print(s["id"], "OK" if not bad else "BAD", bad or dem, flush=True)
            if bad: shutil.rmtree(d)
        shutil.rmtree(wt)
main()
