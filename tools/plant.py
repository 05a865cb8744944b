#!/usr/bin/env python3
"""plant.py ID [PROP...]: confirm a planted bug in a scratch copy (applies, original lines only, builds, tests pass,
demo 0 without / nonzero with), then run the checks named (default: the one of meta.json) against the patched copy."""
import sys, os, subprocess, json, shutil, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
ID = sys.argv[1]; D = os.path.join(HERE, "seeded", ID); meta = json.load(open(D + "/meta.json"))
props = [] if "-n" in sys.argv else sys.argv[2:] or [meta["property"]]
W = "/tmp/plant-" + ID
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W); sh("cp -a /repo/src /repo/test /repo/.git %s/" % W); sh("mkdir -p %s/_build/src && cp /repo/_build/config.h %s/_build/" % (W, W))
ok = True
def fail(m):
    global ok; ok = False; print("FAIL", ID, m)
def build():
    r = sh("cd %s && rm -f _build/src/* && cd _build/src && gcc -std=gnu11 -O2 -w -c ../../src/*.c && ar rcs libblipkit.a *.o" % W)
    if r.returncode: fail("build: " + r.stdout[-800:]); return False
    for t in ("context", "track", "wave"):
        r = sh("cd %s/_build && gcc -std=gnu11 -w -I../src ../test/%s.c src/libblipkit.a -lm -o t_%s && timeout 120 ./t_%s" % (W, t, t, t))
        if r.returncode: fail("test %s: %s" % (t, r.stdout[-400:])); return False
    return True
def demo():
    d = "/tmp/plantdemo-" + ID; shutil.rmtree(d, ignore_errors=True); shutil.copytree(D, d)
    for f in os.listdir(d):
        if f.endswith(".diff") or f == "meta.json": os.unlink(d + "/" + f)
    r = sh("cd %s && timeout 300 bash %s/demo.sh" % (W, d)); shutil.rmtree(d); return r
if build():
    r = demo()
    if r.returncode: fail("demo fails on the unchanged tree: " + r.stdout[-800:])
base = sh("cd /repo && git log --format=%H --reverse | head -1").stdout.strip()
patch = open(D + "/patch.diff").read(); f = None; removed = 0
for l in patch.splitlines():
    if l.startswith("--- a/"): f = l[6:]; old = 0
    m = re.match(r"@@ -(\d+)", l)
    if m: n = int(m.group(1)); continue
    if l.startswith("---") or l.startswith("+++"): continue
    if l.startswith("-"):
        removed += 1
        b = sh("cd /repo && git blame -l -s -L%d,%d HEAD -- %s" % (n, n, f)).stdout
        if not b.startswith("^" + base[:39]): fail("line %s:%d is not of the original: %s" % (f, n, b.strip()))
    if l.startswith("-") or l.startswith(" ") or l == "": n = n + 1 if f and 'n' in globals() else 0
if not removed: print("note: patch removes no line")
r = sh("cd %s && git apply %s/patch.diff" % (W, D))
if r.returncode: fail("apply: " + r.stdout)
elif build():
    r = demo()
    if r.returncode == 0: fail("demo passes with the patch")
    else: print("demo with patch:", r.stdout.strip()[-300:])
if ok: print("COUNTS", ID)
env = dict(os.environ, BK_REPO=W)
for p in props:
    r = sh("cd %s && python3 check.py %s --quick" % (HERE, p), env=env)
    l = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "seed=", "OK", "ERROR", "note"))]
    print(("CAUGHT " if "VIOLATION" in r.stdout and r.returncode == 1 else "MISSED ") + ID + " by " + p, "|", " / ".join(l)[-420:])
shutil.rmtree(W, ignore_errors=True)
