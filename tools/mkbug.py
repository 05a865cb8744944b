"""bug(id, prop, needs, breaks, edits, demo): writes seeded/<id>/ (patch.diff, demo.sh, demo.c, meta.json)."""
import os, subprocess, json, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in the repository's root: exit 0 when the behaviour is right, nonzero when it is not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -std=gnu11 -g -O1 -w -fsanitize=address,undefined -fno-sanitize=shift,signed-integer-overflow,alignment -fno-sanitize-recover=all -Isrc -I_build $([ -e "$D/demo.h" ] && echo -include "$D/demo.h") -o "$T/demo" src/*.c "$D/demo.c" -lm || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''
def bug(ID, prop, needs, breaks, edits, demo):
    D = os.path.join(HERE, "seeded", ID); os.makedirs(D, exist_ok=True)
    W = "/tmp/mkbug-" + ID; shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + "/a"); os.makedirs(W + "/b")
    for s in "ab": shutil.copytree("/repo/src", W + "/" + s + "/src")
    for f, old, new in edits:
        p = W + "/b/" + f; t = open(p).read()
        if t.count(old) != 1: print(ID, "edit matches %d times:" % t.count(old), old[:80]); return False
        open(p, "w").write(t.replace(old, new))
    d = subprocess.run("diff -u -r a b | grep -v '^Only in' | sed -E 's/^(---|\\+\\+\\+) ([ab]\\/[^\\t]*).*/\\1 \\2/; /^diff -u -r/d'", shell=True, cwd=W, stdout=subprocess.PIPE, text=True).stdout
    open(D + "/patch.diff", "w").write(d)
    open(D + "/demo.sh", "w").write(SH); os.chmod(D + "/demo.sh", 0o755)
    open(D + "/demo.c", "w").write(demo.lstrip())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
    shutil.rmtree(W); return True
