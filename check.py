#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   run one property check
   check.py --replay <file>               re-run a saved failing case (exit 1 if it still fails)
   check.py --build [area ...]            build only (setup)

Builds the library from /repo's working tree for both matrix back ends (ASan), links the property harness,
runs generated cases in parallel shards, and reports.  Exit 0: held.  Exit 1 + VIOLATION line: violated."""
import concurrent.futures, sys, os, json, subprocess, time, fcntl, hashlib, shutil, re
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
BACKENDS = ("boost", "eigen")
NCPU = max(2, os.cpu_count() or 2)
SAN = "-O1 -g0 -fno-omit-frame-pointer -fsanitize=address -D_GLIBCXX_ASSERTIONS"
CXXFLAGS = "-std=gnu++14 -w " + SAN
WRAP = "-Wl,--wrap=_ZN3BFL5runifEv,--wrap=_ZN3BFL5runifERKdS1_,--wrap=_ZN3BFL5rnormERKdS1_"
CONF = json.load(open(os.path.join(VERIF, "props.json")))

def log(*a): print(*a, file=sys.stderr, flush=True)

def sync_sources():
    """mirror the library sources into build/src, touching only files whose content changed"""
    src, dst = os.path.join(REPO, "orocos_bfl"), os.path.join(BUILD, "src")
    keep = set()
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if not x.startswith(".") and x not in ("_build", "build", "tests", "docs", "examples")]
        rel = os.path.relpath(d, src)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f)); keep.add(r)
            data = open(os.path.join(d, f), "rb").read()
            t = os.path.join(dst, r)
            if not os.path.exists(t) or open(t, "rb").read() != data:
                os.makedirs(os.path.dirname(t), exist_ok=True)
                open(t, "wb").write(data)
    # cmake refers to these directories
    for extra in ("tests", "docs", "examples"):
        for d, dirs, files in os.walk(os.path.join(src, extra)):
            for f in files:
                if f == "CMakeLists.txt" or f.endswith((".cmake", ".in")):
                    r = os.path.relpath(os.path.join(d, f), src); keep.add(r)
                    data = open(os.path.join(d, f), "rb").read(); t = os.path.join(dst, r)
                    if not os.path.exists(t) or open(t, "rb").read() != data:
                        os.makedirs(os.path.dirname(t), exist_ok=True); open(t, "wb").write(data)
    for d, dirs, files in os.walk(dst):
        for f in files:
            r = os.path.normpath(os.path.relpath(os.path.join(d, f), dst))
            if r not in keep: os.unlink(os.path.join(d, f))
    return dst

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def build(areas):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    src = sync_sources()
    procs = []
    for b in BACKENDS:
        bd = os.path.join(BUILD, b)
        stamp = os.path.join(bd, ".conf"); want = SAN + src
        if not os.path.exists(stamp) or open(stamp).read() != want or not os.path.exists(os.path.join(bd, "build.ninja")):
            shutil.rmtree(bd, ignore_errors=True); os.makedirs(bd)
            procs.append((b, subprocess.Popen(["cmake", "-S", src, "-B", bd, "-G", "Ninja", "-DMATRIX_LIB=" + b, "-DGINAC_SUPPORT=ON", "-DLIBRARY_TYPE=static",
                 "-DBUILD_TESTS=OFF", "-DBUILD_EXAMPLES=OFF", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=" + SAN, "-Wno-dev"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for b, p in procs:
        o = p.communicate()[0]
        if p.returncode: log(o); log("configure failed"); sys.exit(2)
        open(os.path.join(BUILD, b, ".conf"), "w").write(SAN + src)
    # one ninja file for the harness objects of the wanted areas
    hd = os.path.join(VERIF, "harness")
    lines = ["rule cxx", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", ""]
    objs = []
    for b in BACKENDS:
        inc = "-I%s -I%s/src -I%s/src -I%s/src/wrappers/matrix -I%s/src/wrappers -I/usr/include/eigen3" % (hd, src, os.path.join(BUILD, b), os.path.join(BUILD, b), os.path.join(BUILD, b))
        for u in ["pbt_main", "rngctl"] + areas:
            o = os.path.join(BUILD, "h_" + b, u + ".o"); objs.append(o)
            lines += ["build %s: cxx %s" % (o, os.path.join(hd, u + ".cpp")), "  flags = %s -DBACKEND_NAME=\\\"%s\\\" -DBACKEND_%s %s" % (CXXFLAGS, b, b.upper(), inc), ""]
        os.makedirs(os.path.join(BUILD, "h_" + b), exist_ok=True)
    nf = os.path.join(BUILD, "harness.ninja"); txt = "\n".join(lines) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt: open(nf, "w").write(txt)
    jobs = [subprocess.Popen(["ninja", "-C", os.path.join(BUILD, b), "-j", str(max(2, NCPU // 2)), "orocos-bfl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for b in BACKENDS]
    # config.h exists after configure, so the harness can compile at the same time
    jobs.append(subprocess.Popen(["ninja", "-f", nf, "-C", BUILD, "-j", "4"] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    outs = [j.communicate()[0] for j in jobs]
    for j, o in zip(jobs, outs):
        if j.returncode: log(o[-6000:]); log("build failed"); sys.exit(2)
    links = []
    for b in BACKENDS:
        lib = os.path.join(BUILD, b, "src", "liborocos-bfl.a")
        for a in areas:
            exe = os.path.join(BUILD, "h_" + b, a)
            deps = [os.path.join(BUILD, "h_" + b, x + ".o") for x in ("pbt_main", "rngctl", a)] + [lib]
            if os.path.exists(exe) and all(os.path.getmtime(d) <= os.path.getmtime(exe) for d in deps): continue
            links.append((exe, subprocess.Popen("g++ %s -o %s.tmp %s %s -lginac -lcln && mv %s.tmp %s" % (SAN, exe, " ".join(deps), WRAP, exe, exe), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for e, p in links:
        o = p.communicate()[0]
        if p.returncode: log(o[-6000:]); log("link failed"); sys.exit(2)
    fcntl.flock(lock, fcntl.LOCK_UN)

def areas_of(prop): return CONF[prop].get("areas") or [CONF[prop]["area"]]
def exe(b, area): return os.path.join(BUILD, "h_" + b, area)
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:quarantine_size_mb=16")

def replay(path):
    t = open(path).read()
    prop = re.search(r"^prop=(.*)$", t, re.M).group(1); b = re.search(r"^backend=(.*)$", t, re.M).group(1)
    m = re.search(r"^area=(.*)$", t, re.M); area = m.group(1) if m else areas_of(prop)[0]; build([area])
    r = subprocess.run([exe(b, area), "--prop", prop, "--replay", path, "--tmp", os.path.join(OUT, "rp")], env=ENV)
    return r.returncode

def known_findings():
    f = os.path.join(VERIF, "known_findings.txt"); res = {}
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m: res[(m.group(1), m.group(2))] = m.group(3).strip()
    return res

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        build(sys.argv[2:] or sorted(set(a for p in CONF for a in areas_of(p)))); return 0
    os.makedirs(OUT, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    t0 = time.time()
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")); c = CONF[prop]; areas = areas_of(prop)
    build(areas); tb = time.time() - t0
    shards = max(1, NCPU // len(BACKENDS))
    cases = c["quick"] if tier == "quick" else c["quick"] * 100000
    tmax = c.get("quick_time", 90) if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", c.get("thorough_time", 600)))
    wd = os.path.join(OUT, "%s.%d" % (prop, os.getpid())); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    jobs = []
    for b in BACKENDS:
        for area in areas:
            n = shards if len(areas) == 1 else 1
            for k in range(n):
                o = os.path.join(wd, "%s.%s.%d" % (b, area, k)); sd = seed * 1000 + k + (500 if b == "eigen" else 0)
                jobs.append((b, area, o, [exe(b, area), "--prop", prop, "--seed", str(sd), "--cases", str(max(1, cases // (n * len(areas)))), "--time", str(tmax if n == shards else tmax * NCPU / (len(areas) * len(BACKENDS))), "--out", o,
                      "--tmp", os.path.join(wd, "t%s%s%d" % (b, area, k)), "--shrink", os.environ.get("VERIF_SHRINK", "30")]))
    res, viol, broken = [], [], []
    def runjob(j):
        b, area, o, cmd = j
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode == 0 and os.path.exists(o): d = json.load(open(o)); d["backend"] = b; res.append(d)
        elif p.returncode == 1 and os.path.exists(o + ".fail"): viol.append((b, area, o + ".fail"))
        else: broken.append((b, area, p.returncode, p.stderr[-2000:]))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex: list(ex.map(runjob, jobs))
    res.sort(key=lambda d: (d["backend"], d["evaluations"], json.dumps(d["samples"])))
    if broken: log("harness error:", broken)
    confirmed = []
    rd = os.path.join(OUT, "replays"); os.makedirs(rd, exist_ok=True)
    # cases that fail on their own first; one confirmed violation is enough
    viol.sort(key=lambda x: ("\nprefix=" in open(x[2]).read(), x[2]))
    for b, area, f in viol:
        if confirmed and ("\nprefix=" in open(f).read() or len(confirmed) >= 4): break
        dst = os.path.join(rd, "%s-%s-%s.replay" % (prop, b, os.path.basename(f).replace(".fail", "").replace(b + ".", "", 1))); open(dst, "w").write(open(f).read() + "area=%s\n" % area)
        n = 0; txt = ""
        for _ in range(3):
            r = subprocess.run([exe(b, area), "--prop", prop, "--replay", dst, "--tmp", os.path.join(wd, "rp")], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if r.returncode == 1: n += 1; txt = r.stdout
            else: break
        if n == 3: confirmed.append((b, dst, txt))
        else: log("case in %s did not reproduce (%d/3), not reported" % (dst, n))
    kf = known_findings(); seenk = set(); unlisted = set()
    for d in res:
        for k in d["known"]:
            (seenk if (prop, k) in kf else unlisted).add(k)
    def merge(key): 
        m = {}
        for d in res:
            for k, v in d[key].items(): m[d["backend"] + "/" + k] = m.get(d["backend"] + "/" + k, 0) + v
        return m
    samples = []
    for b in BACKENDS:
        for d in [x for x in res if x["backend"] == b][:1]: samples += [b + ": " + s for s in d["samples"][:4]]
    rules = {}
    for d in res: rules.update(d["rules"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(d["evaluations"] for d in res), "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in res),
                       "rule": " | ".join("%s: %s" % kv for kv in sorted(rules.items())) or "see DESIGN.md", "samples": samples or ["none"],
                       "discarded": sum(d["discarded"] for d in res), "cases_per_subcheck": merge("subs"), "labels": merge("labels"),
                       "backends": list(BACKENDS), "shards_per_backend": shards, "build_s": round(tb, 1)},
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
          "violations": [{"backend": b, "replay": os.path.relpath(f, VERIF) if f.startswith(VERIF + "/") else f, "message": t[:1500]} for b, f, t in confirmed]}
    tmpf = os.path.join(EVID, prop + ".json.tmp"); json.dump(ev, open(tmpf, "w"), indent=1); os.rename(tmpf, os.path.join(EVID, prop + ".json"))
    shutil.rmtree(wd, ignore_errors=True)
    for k in sorted(seenk): print("KNOWN-FINDING: property=%s %s" % (prop, kf[(prop, k)]))
    if confirmed:
        for b, f, t in confirmed: log("--- %s %s\n%s" % (b, f, t[:2500]))
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0][1])); return 1
    if unlisted:
        p = os.path.join(rd, prop + "-unlisted.replay"); open(p, "w").write("unlisted findings: %s\n" % sorted(unlisted))
        print("VIOLATION property=%s replay=%s" % (prop, p)); return 1
    if broken and not res: return 2
    print("OK property=%s tier=%s cases=%d nontrivial=%d wall=%.1fs" % (prop, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], time.time() - t0))
    return 0
sys.exit(main())
