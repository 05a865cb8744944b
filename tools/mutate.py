#!/usr/bin/env python3
"""mutate.py N [SEED] [SECS]: random one-line changes of /repo/src which compile and pass the repository's tests,
each run against a few seconds of every property; survivors are listed for review (in /tmp/mutate.log)."""
import sys, os, re, random, subprocess, shutil, time, glob, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.argv0 = sys.argv; import check as C
REPO = os.environ.get("BK_REPO", "/repo")
N = int(sys.argv[1]); SEED = int(sys.argv[2]) if len(sys.argv) > 2 else 1; SECS = float(sys.argv[3]) if len(sys.argv) > 3 else 5
ONLY = sys.argv[4].split(",") if len(sys.argv) > 4 else None
W = "/tmp/mut"; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
def sh(c, t=120, **k):
    try: return subprocess.run(c.replace("@/", REPO + "/"), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **k)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 99, "timeout")
PR = sorted(C.PROPS)
for p in PR: C.build(p)
hdr = sorted(glob.glob(REPO + "/src/*.h")); hd = C.digest(hdr); sd = C.digest(sorted(glob.glob(HERE + "/sim/*.h")), hd)
def simobj(f): return os.path.join(C.BUILD, "sim-%s-%s.o" % (f, C.digest([os.path.join(HERE, "sim", f + ".cpp")], sd + " ".join(C.CXXFLAGS))))
def libobj(c): return os.path.join(C.BUILD, "lib-%s-%s.o" % (os.path.basename(c)[:-2], C.digest([c], hd + " ".join(C.LIBFLAGS + C.WRAP))))
srcs = sorted(glob.glob(REPO + "/src/*.c"))
objs = {os.path.basename(c): libobj(c) for c in srcs}
simobjs = {p: [simobj(f) for f in C.CORE + C.PROPS[p]["files"]] for p in PR}
# gcc objects of the original
os.makedirs(W + "/base")
for c in srcs: r = sh("gcc -std=gnu11 -O2 -w -I@/_build -c %s -o %s/base/%s.o" % (c, W, os.path.basename(c))); assert r.returncode == 0, r.stdout
REP = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r" \|= ", " = "), (r" &= ~", " |= "), (r" << ", " >> "), (r" >> ", " << "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r" \+= ", " = "), (r"BKMin\b", "BKMax"), (r"BKMax\b", "BKMin"),
    (r"BKClamp \((\w+),", r"(\1,"), (r"next(\w+)", r"prev\1"), (r"\+\+", "--"), (r"if \((.*)\)", r"if (0 && (\1))"), (r"if \((.*)\)", r"if (1 || (\1))"), (r"\* 2\b", "* 1"), (r"-> (\w+) = NULL", r"-> \1 = \1"), (r" \+ 1\b", ""), (r" - 1\b", "")]
def mutants(rng):
    all_ = []
    for c in srcs:
        L = open(c).read().split("\n")
        com = False
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith("/*"): com = True
            if com:
                if "*/" in s: com = False
                continue
            if not s or s.startswith(("#", "//", "*")) or i < 24: continue
            code = l.split("//")[0]
            for a, b in REP:
                for m in re.finditer(a, code):
                    n = code[:m.start()] + re.sub(a, b, m.group(0)) + code[m.end():]
                    if n != code: all_.append((c, i, n))
            if re.match(r"^\s+.*;\s*$", code) and not re.match(r"^\s*(return|break|continue|goto|case|BK\w+\s+(\*\s*)*\w+( =.*)?;|int |double |float |unsigned |size_t |FILE |const |static )", code) : all_.append((c, i, re.match(r"^\s*", code).group(0) + ";"))
            if re.match(r"^\s+return .*;", code) and "return 0" not in code: all_.append((c, i, re.sub(r"return .*;", "return 0;", code)))
            if re.match(r"^\s+break;", code): all_.append((c, i, code.replace("break;", ";")))
    rng.shuffle(all_)
    return all_
def one(k, mu):
    c, i, n = mu; b = os.path.basename(c); d = "%s/%d" % (W, k); os.makedirs(d)
    try:
        L = open(c).read().split("\n"); old = L[i]; L[i] = n; tag = "%s:%d: %s  ->  %s" % (b, i + 1, old.strip(), n.strip())
        open(d + "/" + b, "w").write("\n".join(L))
        if sh("gcc -std=gnu11 -O2 -w -I@/src -I@/_build -c %s/%s -o %s/m.o" % (d, b, d)).returncode: return None
        if sh("objdump -d %s/m.o | tail -n +4 | cmp -s - <(objdump -d %s/base/%s.o | tail -n +4)" % (d, W, b), executable="/bin/bash").returncode == 0: return None
        ol = " ".join("%s/m.o" % d if os.path.basename(x) == b else "%s/base/%s.o" % (W, os.path.basename(x)) for x in srcs)
        for t in ("context", "track", "wave"):
            r = sh("mkdir -p %s/t && cd %s/t && gcc -std=gnu11 -w -I@/src -I@/_build @/test/%s.c %s -lm -o ../t_%s && ulimit -v 4000000 && timeout 20 ../t_%s" % (d, d, t, ol, t, t))
            if r.returncode: return ("tests", tag, "")
        r = sh("clang %s -I@/src -I@/_build -c %s/%s -o %s/x.o && objcopy %s %s/x.o" % (" ".join(C.LIBFLAGS), d, b, d, " ".join("--redefine-sym %s=sim_%s" % (s, s) for s in C.WRAP), d))
        if r.returncode: return None
        first = {"BKWaveFileReader.c": ["C10"], "BKWaveFileWriter.c": ["C09"], "BKClock.c": ["C02", "C12"], "BKInstrument.c": ["C04"], "BKSequence.c": ["C04"], "BKInterpolation.c": ["C03"], "BKUnit.c": ["C05", "C06"], "BKBuffer.c": ["C05"], "BKData.c": ["C06", "C10", "C08"], "BKTrack.c": ["C03", "C04"], "BKObject.c": ["C07"]}.get(b, [])
        for p in first + [p for p in PR if p not in first]:
            lo = " ".join(("%s/x.o" % d) if os.path.basename(x) == b else objs[os.path.basename(x)] for x in srcs)
            e = "%s/r_%s" % (d, p)
            if sh("clang++ -fsanitize=address %s %s -lm -o %s" % (lo, " ".join(simobjs[p]), e)).returncode: return ("link", tag, "")
            sec = SECS if p in first else SECS * 0.6
            try: r = subprocess.run([e, "batch", p, "0", str(70000001 + k * 100000), "100000000", "1", str(sec)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400)
            except subprocess.TimeoutExpired: return ("caught", tag, p + " timeout")
            os.unlink(e)
            v = [l for l in r.stdout.decode("latin1").splitlines() if l[:2] in ("V ", "D ")]
            if v or r.returncode: return ("caught", tag, p + " " + (v[0][:80] if v else str(r.returncode)))
        return ("SURVIVED", tag, "")
    finally: shutil.rmtree(d, ignore_errors=True)
rng = random.Random(SEED); ms = mutants(rng)
if ONLY: ms = [m for m in ms if os.path.basename(m[0]) in ONLY]
print(len(ms), "possible"); cnt = {}; log = open("/tmp/mutate-%d.log" % SEED, "w")
with cf.ThreadPoolExecutor(8) as ex:
    fs = {ex.submit(one, k, m): m for k, m in enumerate(ms[:N])}
    for f in cf.as_completed(fs):
        r = f.result()
        if r is None: continue
        cnt[r[0]] = cnt.get(r[0], 0) + 1; log.write("%s | %s | %s\n" % r); log.flush()
        if r[0] == "SURVIVED": print(r[1], flush=True)
print(cnt); shutil.rmtree(W, ignore_errors=True)
