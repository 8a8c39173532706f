#!/usr/bin/env python3
"""Mutants whose condition is wrong only in a rare situation: "if C {" becomes
"if (C) && !(G) {" or "if (C) || (G) {" for a guard G drawn at random.
usage: rare.py N SEED OUT.jsonl [FILE...]
Appends one line per mutant that compiles and that the package's own tests
let pass: file, line, old, new, and the check that reports it (by)."""
import json, os, random, re, subprocess, sys, tempfile, time
REPO = os.environ.get("REPO", "/repo")
H = os.environ.get("H", "/verif/harness")
N, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
FILES = sys.argv[4:] or ["graphemes/splitfunc.go", "words/splitfunc.go", "sentences/splitfunc.go", "phrases/splitfunc.go",
    "words/seek.go", "sentences/seek.go", "phrases/seek.go", "graphemes/iterator.go", "words/iterator.go", "internal/iterators/iterator.go",
    "graphemes/ansi.go", "graphemes/ansi8.go", "words/joiners.go", "words/bleve_compat.go"]
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOFLAGS="-mod=readonly -buildvcs=false", UAXVERIF_HARNESS=H)
CHECKS = [("graphemes/ansi", "C09 C10 C05"), ("graphemes/iter", "C12 C09 C10 C05 C06"), ("graphemes/", "C01 C08 C06 C05"),
    ("words/bleve", "C17"), ("words/joiners", "C11"), ("words/iter", "C12 C20 C11 C05 C06"), ("words/", "C02 C08 C11 C06"),
    ("sentences/", "C03 C08 C06"), ("phrases/", "C04 C08 C06"), ("internal/", "C18 C12 C05")]
rnd = random.Random(SEED)
def props(f):
    d = f.split("/")[0]
    p = os.path.join(REPO, d, "trie.go")
    if not os.path.exists(p): return []
    return re.findall(r"^\t(_[A-Z]\w+)(?: property = 1 << iota)?$", open(p).read(), re.M)
def guard(f):
    pos, data = "pos", "data"
    if "iterator" in f: pos, data = "iter.pos", "iter.data"
    P = props(f)
    def one():
        k = rnd.randrange(13)
        if k == 0: return "%s > %d" % (pos, rnd.choice([30, 100, 300, 1000, 5000, 20000]))
        if k == 1: return "%s == %d" % (pos, rnd.randrange(2, 40))
        if k == 2: return "len(%s) > %d" % (data, rnd.choice([30, 100, 300, 1000, 5000, 20000]))
        if k == 3: return "len(%s)-%s == %d" % (data, pos, rnd.randrange(1, 30))
        if k == 4: return "w == %d" % rnd.choice([2, 3, 4])
        if k == 5: return "%s%%%d == %d" % (pos, 64, rnd.randrange(64))
        if k == 6: return "%s > 0 && %s < len(%s) && %s[%s-1] == %s[%s]" % (pos, pos, data, data, pos, data, pos)
        if k == 7: return "%s < len(%s) && %s[%s] == %#x" % (pos, data, data, pos, rnd.randrange(256))
        if k == 8: return "%s > 2 && %s[%s-1] == %#x" % (pos, data, pos, rnd.randrange(0x80, 0xc0))
        if k == 9: return "%s[0] == %#x" % (data, rnd.randrange(256))
        if not P: return one()
        if k == 10: return "lastLastExIgnore.is(%s)" % rnd.choice(P)
        return "last.is(%s)" % rnd.choice([p for p in P if re.search("Extend$|Format|ZWJ|Letter|Numeric|Lower|Upper|Close|Sp$|Pict", p)] or P)
    g = one()
    if rnd.random() < 0.6:
        h = one()
        while re.match("\\S+ [=>]", h) and h.split()[0].split("%")[0] == g.split()[0].split("%")[0]: h = one()
        g = "%s && %s" % (g, h)
    return g
out = open(OUT, "a")
tries = kept = 0
while kept < N and tries < N * 60:
    tries += 1
    f = rnd.choice(FILES)
    src = open(os.path.join(REPO, f)).read().split("\n")
    sites = [i for i, l in enumerate(src) if re.match(r"^\t+if (?!.*:=)(?!.*eot|.*atEOF|.*more|.*err).* \{$", l)]
    if not sites: continue
    i = rnd.choice(sites)
    if "isASCIIAlphanumeric" in src[i] or "iter.data[end]" in src[i] or "customSplit" in src[i]: continue
    m = re.match(r"^(\t+if )(.*)( \{)$", src[i])
    g = guard(f)
    new = m[1] + ("(%s) && !(%s)" if rnd.random() < 0.7 else "(%s) || (%s)") % (m[2], g) + m[3]
    d = tempfile.mkdtemp(prefix="r", dir=os.environ.get("SCR", "/tmp/mut"))
    s2 = list(src); s2[i] = new
    open(d + "/m.go", "w").write("\n".join(s2))
    json.dump({"Replace": {os.path.join(REPO, f): d + "/m.go"}}, open(d + "/o.json", "w"))
    t0 = time.time()
    try:
        r = subprocess.run(["go", "test", "-vet=off", "-overlay", d + "/o.json", "./" + os.path.dirname(f), "./words", "./graphemes", "./sentences", "./phrases"],
            cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        ok = r.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    if ok:
        kept += 1
        built, by = {}, None
        for p in next(v for k, v in CHECKS if f.startswith(k)).split():
            fl = ["-tags", "c18"] if p == "C18" else []
            k = " ".join(fl)
            if k not in built:
                b = d + "/u%d" % len(built)
                subprocess.run(["go", "build"] + fl + ["-overlay", d + "/o.json", "-o", b, "./cmd/uaxverif"], cwd=H, env=env, check=True)
                built[k] = b
            os.makedirs(d + "/dir", exist_ok=True)
            subprocess.run("cp /verif/known_findings.json %s/dir/" % d, shell=True)
            try:
                r = subprocess.run([built[k], "-prop", p, "-seed", "1", "-dir", d + "/dir"], cwd=H, env=dict(env, TMPDIR=d),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
            except subprocess.TimeoutExpired:
                by = p + " TIMEOUT"; break
            if r.returncode == 1 and "VIOLATION" in r.stdout: by = p; break
            if r.returncode: by = p + " rc=%d " % r.returncode + r.stdout[-300:]; break
        out.write(json.dumps({"file": f, "line": i + 1, "old": src[i].strip(), "new": new.strip(), "by": by, "s": round(time.time() - t0)}) + "\n"); out.flush()
    subprocess.run(["rm", "-rf", d])
print("tries", tries, "kept", kept)
