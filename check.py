#!/usr/bin/env python3
"""check.py PROP [--thorough] | --setup
Builds the simulator against /repo's working tree and searches seeds of one property.
exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself failed."""
import sys, os, subprocess, hashlib, glob, json, time, threading, re, shutil, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BK_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
LIBFLAGS = ("-std=gnu11 -O1 -g -w -fno-omit-frame-pointer -D_FORTIFY_SOURCE=0 -ftrivial-auto-var-init=pattern "
            "-fsanitize=address,bounds -fno-sanitize-recover=bounds -fsanitize-coverage=trace-pc-guard").split()
CXXFLAGS = "-std=gnu++17 -O1 -g1 -w -Wno-c++11-narrowing -Drestrict=__restrict -fno-omit-frame-pointer -fsanitize=address".split()
WRAP = "malloc calloc realloc free reallocarray strdup posix_memalign aligned_alloc fileno fcntl fcntl64 fsync ftruncate ftruncate64 rand srand random".split()
CORE = ["sim", "main", "world", "common"]
NPROC = min(8, os.cpu_count() or 1)

CONF = {}   # prop -> dict(files, quick, thorough, components ...)
exec(open(os.path.join(HERE, "props.py")).read(), CONF)
PROPS = CONF["PROPS"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.relpath(f, "/").encode()); h.update(b"\0")
        h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:20]

def compile_to(cmd, out):
    tmp = "%s.%d.%d.tmp" % (out, os.getpid(), threading.get_ident())
    r = sh(cmd + ["-o", tmp])
    if r.returncode != 0:
        raise RuntimeError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return tmp

def build(prop):
    os.makedirs(BUILD, exist_ok=True)
    csrc = sorted(glob.glob(REPO + "/src/*.c")); hdr = sorted(glob.glob(REPO + "/src/*.h"))
    simh = sorted(glob.glob(HERE + "/sim/*.h"))
    jobs = []; objs = []
    hdig = digest(hdr)
    for c in csrc:
        o = os.path.join(BUILD, "lib-%s-%s.o" % (os.path.basename(c)[:-2], digest([c], hdig + " ".join(LIBFLAGS + WRAP))))
        objs.append(o); jobs.append((o, ["clang"] + LIBFLAGS + ["-I" + REPO + "/src", "-c", c], True))
    files = CORE + PROPS[prop]["files"]
    sdig = digest(simh, hdig)
    for f in files:
        p = os.path.join(HERE, "sim", f + ".cpp")
        o = os.path.join(BUILD, "sim-%s-%s.o" % (f, digest([p], sdig + " ".join(CXXFLAGS))))
        objs.append(o); jobs.append((o, ["clang++"] + CXXFLAGS + ["-I" + REPO + "/src", "-I" + HERE + "/sim", "-c", p], False))
    def one(job):
        o, cmd, lib = job
        if os.path.exists(o): return
        t = compile_to(cmd, o)
        if lib:
            args = ["objcopy"]
            for s in WRAP: args += ["--redefine-sym", "%s=sim_%s" % (s, s)]
            r = sh(args + [t])
            if r.returncode != 0: raise RuntimeError("objcopy: " + r.stdout)
        os.replace(t, o)
    vobjs = []; vout = None
    if "variant" in PROPS[prop]:      # the library and the world once more, with other flags, in one object of their own
        v = PROPS[prop]["variant"]
        pre = ["-include", os.path.join(HERE, "sim", v["include"])]
        vdig = digest([pre[1]], v["entry"])
        for c in csrc:
            o = os.path.join(BUILD, "vlib-%s-%s.o" % (os.path.basename(c)[:-2], digest([c], vdig + hdig + " ".join(LIBFLAGS + WRAP))))
            vobjs.append(o); jobs.append((o, ["clang"] + LIBFLAGS + pre + ["-I" + REPO + "/src", "-c", c], True))
        for f, d in v["files"]:
            p = os.path.join(HERE, "sim", f + ".cpp")
            o = os.path.join(BUILD, "vsim-%s-%s.o" % (f, digest([p], vdig + sdig + " ".join(CXXFLAGS))))
            vobjs.append(o); jobs.append((o, ["clang++"] + CXXFLAGS + pre + d + ["-I" + REPO + "/src", "-I" + HERE + "/sim", "-c", p], False))
        vout = os.path.join(BUILD, "variant-%s.o" % hashlib.sha256("|".join(vobjs).encode()).hexdigest()[:20])
        objs.append(vout)
    with cf.ThreadPoolExecutor(NPROC) as ex: list(ex.map(one, jobs))
    if vout and not os.path.exists(vout):
        t = "%s.%d.tmp" % (vout, os.getpid())
        for cmd in (["ld", "-r", "--force-group-allocation", "-o", t] + vobjs, ["objcopy", "--keep-global-symbol=" + PROPS[prop]["variant"]["entry"], t]):
            r = sh(cmd)
            if r.returncode != 0: raise RuntimeError(cmd[0] + ": " + r.stdout)
        os.replace(t, vout)
    exe = os.path.join(BUILD, "simrun-%s-%s" % (prop, hashlib.sha256("|".join(objs).encode()).hexdigest()[:20]))
    if not os.path.exists(exe):
        t = compile_to(["clang++", "-fsanitize=address"] + objs + ["-lm"], exe)
        os.replace(t, exe)
    return exe

# ------------------------------------------------------------------ running
ENV = dict(os.environ, LC_ALL="C", ASAN_SYMBOLIZER_PATH=shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or "")
for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "MALLOC_ARENA_MAX"): ENV.pop(k, None)

def crash_class(dline, stderr, rc):
    if dline and dline.split()[1] == "hang": return "hang"
    if dline and dline.split()[1] == "wallclock": return "wallclock"
    m = re.search(r"AddressSanitizer: ([A-Za-z0-9_-]+)", stderr)
    kind = m.group(1) if m else None
    if not kind and "runtime error" in stderr: kind = "index-out-of-bounds"
    if not kind and m is None: kind = "exit%d" % rc
    fn = re.search(r"#\d+ 0x[0-9a-f]+ in (BK\w+|bk\w+)", stderr)
    return "memory:%s" % kind if not fn else "memory:%s" % kind

def crash_msg(stderr):
    out = []
    for l in stderr.splitlines():
        l = l.strip()
        if "ERROR: AddressSanitizer" in l or "runtime error" in l: out.append(re.sub(r"0x[0-9a-f]+|==\d+==", "", l))
        m = re.match(r"#(\d+) 0x[0-9a-f]+ in (\S+) (\S+)", l)
        if m and REPO in m.group(3) and len(out) < 6: out.append("%s (%s)" % (m.group(2), os.path.relpath(m.group(3), REPO)))
    return " < ".join(out)[:600] or "process died"

def run_exec(exe, path, trace=False, timeout=400):
    """-> (cls or None, hash, msg)"""
    p = subprocess.run([exe, "exec", path] + (["--trace"] if trace else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
    so = p.stdout.decode("latin1"); se = p.stderr.decode("latin1")
    last = [l for l in so.splitlines() if l[:2] in ("OK", "V ", "D ")]
    l = last[-1] if last else ""
    if p.returncode == 0 and l.startswith("OK"): return None, l.split()[1], ""
    if p.returncode == 10 and l.startswith("V "):
        w = l.split(" ", 3); return w[1], w[2], w[3] if len(w) > 3 else ""
    if p.returncode == 2: raise RuntimeError("exec usage error on " + path)
    h = l.split()[2] if l.startswith("D ") else "-"
    return crash_class(l, se, p.returncode), h, crash_msg(se)

class Agg:
    def __init__(s):
        s.res = {}; s.viol = {}; s.probes = {}; s.faults = {}; s.edges = set(); s.states = set()
        s.done = 0; s.nontriv = 0; s.frames = 0; s.steps = 0; s.sim = 0.0; s.lock = threading.Lock(); s.stop = False
        s.nthash = set()

def worker(exe, prop, thorough, first, count, stride, deadline, agg, maxviol):
    i = 0
    while i < count and not agg.stop:
        left = deadline - time.time()
        if left <= 0: return
        p = subprocess.Popen([exe, "batch", prop, str(thorough), str(first + i * stride), str(count - i), str(stride), "%.1f" % left],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
        err = []
        te = threading.Thread(target=lambda: err.append(p.stderr.read(1 << 20) or b"")); te.start()
        cur = None; dl = None; fin = False
        for raw in p.stdout:
            l = raw.decode("latin1").rstrip("\n"); w = l.split(" ")
            if w[0] == "S": cur = int(w[1])
            elif w[0] == "R":
                with agg.lock:
                    agg.res[int(w[1])] = w[2]
                    if w[3] == "1": agg.nthash.add(w[2])
                cur = None; i = (int(w[1]) - first) // stride + 1
            elif w[0] == "V":
                with agg.lock:
                    agg.res[int(w[1])] = w[2]; agg.viol[int(w[1])] = (w[3], " ".join(w[4:]))
                    if len(agg.viol) >= maxviol: agg.stop = True
                i = (int(w[1]) - first) // stride + 1; cur = None
            elif w[0] == "D": dl = l
            elif w[0] in "PF":
                d = agg.probes if w[0] == "P" else agg.faults
                with agg.lock: d[w[1]] = d.get(w[1], 0) + int(w[2])
            elif w[0] == "E":
                with agg.lock: agg.edges.update(int(x) for x in w[1].split(",") if x)
            elif w[0] == "T":
                with agg.lock: agg.states.update(x for x in w[1].split(",") if x)
            elif w[0] == "Z":
                fin = True
                with agg.lock:
                    agg.done += int(w[1]); agg.nontriv += int(w[2]); agg.frames += int(w[3]); agg.steps += int(w[4]); agg.sim += float(w[5])
            if agg.stop: p.kill(); break
        p.stdout.close(); te.join(); p.wait()
        if agg.stop or fin: return
        if cur is None: raise RuntimeError("worker died outside a run: rc=%d %s" % (p.returncode, (err[0] if err else b"")[-500:]))
        se = err[0].decode("latin1") if err else ""
        with agg.lock:
            agg.viol[cur] = (crash_class(dl, se, p.returncode), crash_msg(se)); agg.done += 1
            if len(agg.viol) >= maxviol: agg.stop = True
        i = (cur - first) // stride + 1

def batch(exe, prop, thorough, first, count, nproc, deadline, maxviol=4):
    agg = Agg(); nproc = max(1, min(nproc, count))
    with cf.ThreadPoolExecutor(nproc) as ex:
        fs = [ex.submit(worker, exe, prop, thorough, first + k, (count - k + nproc - 1) // nproc, nproc, deadline, agg, maxviol) for k in range(nproc)]
        for f in fs: f.result()
    return agg

# ------------------------------------------------------------------ minimising
def write_sc(path, lines): open(path, "w").write("\n".join(lines) + "\n")

def minimise(exe, lines, cls, deadline, tmpd):
    head, ops = lines[0], lines[1:]
    os.makedirs(tmpd, exist_ok=True)
    cache = {}
    ctr = [0]
    def test(cand):
        key = "\n".join(cand)
        if key in cache: return cache[key]
        if time.time() > deadline: return False
        with agglock: ctr[0] += 1; n = ctr[0]
        f = os.path.join(tmpd, "c%d" % n)
        write_sc(f, [head] + cand)
        try: c = run_exec(exe, f, timeout=15)[0]
        except Exception: c = None
        os.unlink(f)
        cache[key] = (c == cls)
        return cache[key]
    agglock = threading.Lock()
    ex = cf.ThreadPoolExecutor(NPROC)
    def first_ok(cands):
        for k in range(0, len(cands), NPROC):
            part = cands[k:k + NPROC]
            for c, ok in zip(part, ex.map(test, part)):
                if ok: return c
            if time.time() > deadline: return None
        return None
    n = 2
    while len(ops) >= 2 and time.time() < deadline:
        size = max(1, len(ops) // n)
        cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
        cands.reverse()
        c = first_ok(cands)
        if c is not None: ops = c; n = max(2, n - 1)
        elif size == 1: break
        else: n = min(len(ops), n * 2)
    # shrink integers, repeatedly
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for i in range(len(ops)):
            w = ops[i].split(" ")
            if len(w) > 4:
                for k in range(len(w) - 1, 3, -1):     # drop trailing arguments
                    c = first_ok([ops[:i] + [" ".join(w[:k])] + ops[i + 1:]])
                    if c is None: break
                    ops = c; w = ops[i].split(" "); changed = True
            for j in range(1, len(w)):
                try: v = int(w[j])
                except ValueError: continue
                if abs(v) <= 1: continue
                vals = []
                for x in (0, 1, v // 2 if v > 0 else -((-v) // 2), v - 1 if v > 0 else v + 1):
                    if x != v and x not in vals: vals.append(x)
                c = first_ok([ops[:i] + [" ".join(w[:j] + [str(x)] + w[j + 1:])] + ops[i + 1:] for x in vals])
                if c is not None and abs(v) > 2: ops = c; w = ops[i].split(" "); changed = True
                if time.time() > deadline: break
    ex.shutdown()
    shutil.rmtree(tmpd, ignore_errors=True)
    return [head] + ops

# ------------------------------------------------------------------ main
def load_known(prop):
    """lines 'known: property=<id> class=<cls> match=<substring of the message>' | 'fixed: ...'"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def main():
    if "--setup" in sys.argv:
        os.makedirs(BUILD, exist_ok=True)
        for p in PROPS: build(p)
        print("setup ok"); return 0
    prop = sys.argv[1]; cfg = PROPS[prop]
    thorough = 1 if ("--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough") else 0
    if "--quick" in sys.argv: thorough = 0
    vseed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    exe = build(prop)
    tb = time.time() - t0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evp = os.path.join(HERE, "evidence", prop + ".json")
    known = load_known(prop)
    # regression corpus first (committed scenarios, exact replays)
    first = 1 + (vseed % 1000003) * 10000000
    count = cfg["thorough"] if thorough else cfg["quick"]
    maxs = float(os.environ.get("BK_MAXS", 3000 if thorough else 280))
    ts = time.time()
    viols = []      # (label, lines, cls, msg)
    nreg = 0
    for f in sorted(glob.glob(os.path.join(HERE, "regress", prop, "*.sim"))):
        nreg += 1
        c, h, m = run_exec(exe, f)
        if c: viols.append((os.path.basename(f), open(f).read().split("\n"), c, m))
    agg = batch(exe, prop, thorough, first, count, NPROC, ts + maxs, maxviol=6)
    for s in sorted(agg.viol):
        viols.append((s, None) + agg.viol[s])
    # determinism: the same seeds, one worker instead of eight, must give the same event-log hashes
    nd = 0; mism = []
    if not viols:
        dc = min(count, cfg.get("det", 48))
        a2 = batch(exe, prop, thorough, first, dc, 3, time.time() + 120)
        for s, h in a2.res.items():
            if s in agg.res:
                nd += 1
                if agg.res[s] != h: mism.append(s)
        if mism:
            print("ERROR: runs not repeatable for seeds", mism[:5]); return 2
    wall = time.time() - ts
    known_seen = {}; real = []
    for v in viols:
        k = next((k for k in known if k[0] == v[2] and k[1] in v[3]), None)
        if k: known_seen[k] = known_seen.get(k, 0) + 1
        else: real.append(v)
    for k in known_seen: print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    samples = []
    for s in (first, first + count // 2):
        g = sh([exe, "gen", prop, str(s), str(thorough)], env=ENV).stdout.strip().split("\n")
        samples.append({"seed": s, "scenario": g[:14] + (["... %d more steps" % (len(g) - 14)] if len(g) > 14 else [])})
    rule = ""
    for l in sh([exe, "list"], env=ENV).stdout.splitlines():
        if l.startswith(prop + "\t"): rule = l.split("\t", 1)[1]
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": vseed, "level": "exploration",
          "coverage": {
              "evaluations": agg.done + nreg, "distinct_nontrivial": len(agg.nthash), "rule": rule, "samples": samples,
              "seeds": agg.done, "first_seed": first, "regression_scenarios": nreg,
              "runs_per_hour": int(agg.done / max(wall, 1e-3) * 3600),
              "simulated_seconds": round(agg.sim, 3), "simulated_frames": agg.frames, "library_basic_blocks_executed": agg.steps,
              "library_edges_reached": len(agg.edges), "distinct_states": len(agg.states), "state_measure": cfg["state"],
              "faults_injected": dict(sorted(agg.faults.items())), "rare_conditions_reached": dict(sorted(agg.probes.items())),
              "determinism_reruns": nd, "determinism_mismatches": len(mism),
              "real_components": cfg["real"], "stub_components": cfg["stub"]},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    json.dump(ev, open(evp, "w"), indent=1)
    if agg.done == 0 and not real:
        print("ERROR: nothing was explored"); return 2
    if not real:
        print("OK property=%s runs=%d nontrivial=%d simulated_s=%.0f edges=%d states=%d build_s=%.1f wall_s=%.1f" % (prop, agg.done, len(agg.nthash), agg.sim, len(agg.edges), len(agg.states), tb, time.time() - t0))
        return 0
    # gate: fresh-process reproduction, twice, then minimise, then replay the minimised file twice
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    for label, lines, cls, msg in real:
        if lines is None:
            lines = sh([exe, "gen", prop, str(label), str(thorough)], env=ENV).stdout.strip().split("\n")
        lines = [l for l in lines if l.strip() and not l.startswith("#")]
        rp = os.path.join(rdir, "%s-%s.sim" % (prop, label)); write_sc(rp, lines)
        try: r1 = run_exec(exe, rp); r2 = run_exec(exe, rp)
        except Exception as e: print("note: %s: %s" % (label, e)); continue
        if not r1[0] or r1[:2] != r2[:2]:
            print("note: violation of %s did not reproduce in a fresh process: batch %s, fresh %s / %s" % (label, cls, r1[:2], r2[:2])); continue
        ml = minimise(exe, lines, r1[0], time.time() + (60 if not thorough else 240), os.path.join(rdir, "tmp-%s-%d" % (prop, os.getpid())))
        write_sc(rp + ".min", ml)
        m1 = run_exec(exe, rp + ".min"); m2 = run_exec(exe, rp + ".min")
        if m1[0] and m1[:2] == m2[:2]: os.replace(rp + ".min", rp); fin = m1
        else: os.unlink(rp + ".min"); fin = r1
        body = open(rp).read()
        open(rp, "w").write("# property=%s class=%s hash=%s\n# %s\n# replay: %s exec <this file> --trace\n" % (prop, fin[0], fin[1], fin[2].replace("\n", " "), "simrun") + body)
        chk = run_exec(exe, rp)
        if chk[:2] != fin[:2]: print("note: %s replay file differs" % label); continue
        print("seed=%s class=%s: %s" % (label, fin[0], fin[2]))
        print("minimised to %d steps:\n%s" % (len(body.strip().split("\n")) - 1, body.strip()[:1500]))
        ev["coverage"]["violation"] = {"seed": str(label), "class": fin[0], "message": fin[2], "replay": rp}
        ev["wall_s"] = round(time.time() - t0, 2)
        json.dump(ev, open(evp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("ERROR: no violation could be reproduced exactly"); return 2

if __name__ == "__main__":
    try: sys.exit(main())
    except RuntimeError as e: print("ERROR:", e); sys.exit(2)
