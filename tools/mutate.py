#!/usr/bin/env python3
"""mutate.py N SEED [file-substring]   self-test: N random one-token changes of the sources, each run against the checks of that file's properties
in a scratch clone (/tmp/mut, build /tmp/mutbuild).  Prints KILLED / SURVIVED / NOBUILD lines; survivors are reviewed by hand."""
import sys, os, re, random, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = "/tmp/mut"; SRC = S + "/orocos_bfl/src/"
FILES = {
 "wrappers/matrix/matrix_BOOST.cpp": "P01 P02", "wrappers/matrix/matrix_EIGEN.cpp": "P01 P02", "wrappers/matrix/vector_BOOST.cpp": "P01", "wrappers/matrix/vector_EIGEN.cpp": "P01", "wrappers/matrix/matrix_wrapper.cpp": "P02",
 "wrappers/rng/rng.cpp": "P26", "pdf/gaussian.cpp": "P03 P04", "pdf/uniform.cpp": "P05", "sample/sample.h": "P06", "sample/weightedsample.h": "P06", "bfl_constants.h": "P06",
 "pdf/discretepdf.cpp": "P07 P09", "pdf/discreteconditionalpdf.cpp": "P08 P09", "pdf/mcpdf.h": "P10 P09", "pdf/mcpdf.cpp": "P10", "pdf/mixture.h": "P11 P09", "pdf/mixture.cpp": "P11",
 "pdf/conditionalpdf.h": "P12 P08", "pdf/pdf.h": "P12 P11", "pdf/conditionalgaussian.cpp": "P12", "pdf/conditionalgaussian_additivenoise.cpp": "P12", "pdf/analyticconditionalgaussian.cpp": "P12", "pdf/analyticconditionalgaussian_additivenoise.cpp": "P12", "pdf/linearanalyticconditionalgaussian.cpp": "P12",
 "pdf/nonlinearanalyticconditionalgaussian_ginac.cpp": "P13", "model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp": "P13", "model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp": "P13",
 "model/analyticmeasurementmodel_gaussianuncertainty.cpp": "P14", "model/analyticsystemmodel_gaussianuncertainty.cpp": "P14", "model/linearanalyticmeasurementmodel_gaussianuncertainty.cpp": "P14 P15", "model/linearanalyticsystemmodel_gaussianuncertainty.cpp": "P14 P15",
 "model/measurementmodel.h": "P14", "model/systemmodel.h": "P14", "model/measurementmodel.cpp": "P14", "model/systemmodel.cpp": "P14", "model/discretesystemmodel.cpp": "P14",
 "filter/filter.cpp": "P15 P20 P19", "filter/filter.h": "P15 P20 P19", "filter/kalmanfilter.cpp": "P15 P16 P19", "filter/extendedkalmanfilter.cpp": "P16 P15", "filter/iteratedextendedkalmanfilter.cpp": "P17 P15", "filter/innovationCheck.cpp": "P17",
 "filter/SRiteratedextendedkalmanfilter.cpp": "P18 P19", "filter/histogramfilter.h": "P20 P19", "filter/histogramfilter.cpp": "P20 P19", "filter/particlefilter.h": "P21 P19", "filter/particlefilter.cpp": "P21 P19", "filter/bootstrapfilter.h": "P21", "filter/bootstrapfilter.cpp": "P21",
 "filter/EKparticlefilter.cpp": "P22 P19", "pdf/EKF_proposaldensity.cpp": "P22", "pdf/filterproposaldensity.cpp": "P22", "filter/mixtureParticleFilter.h": "P23 P19", "filter/mixtureParticleFilter.cpp": "P23 P19", "filter/mixtureBootstrapFilter.h": "P23", "filter/mixtureBootstrapFilter.cpp": "P23",
 "smoother/backwardfilter.h": "P24 P25 P19", "smoother/backwardfilter.cpp": "P24 P25 P19", "smoother/rauchtungstriebel.cpp": "P24 P19", "smoother/particlesmoother.cpp": "P25 P19", "smoother/particlesmoother.h": "P25 P19",
}
OPS = [(r"(?<![<>=!+\-*/&|])<(?![<=>])(?=\s*[\w(])", ["<="]), (r"<=", ["<"]), (r"(?<![->=])>(?![>=])(?=\s*[\w(])", [">="]), (r"(?<![>])>=", [">"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
 (r"(?<=[\w)\]] )\+(?= [\w(])", ["-"]), (r"(?<=[\w)\]] )-(?= [\w(])", ["+"]), (r"(?<=[\w)\]]) ?\*(?= ?[\w(])(?!\s*(const|this))", ["/"]), (r"(?<=[\w)\]]) ?/(?= ?[\w(])", ["*"]), (r"\+\+", ["--"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["="]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b", ["1"]), (r"\.transpose\(\)", [""]), (r"\bif ?\((?=.*\)\s*[{]?\s*$)", ["if (!"]), (r"\.resize\([^;]*\);", [";"]), (r"^\s+[\w>.*()\[\]-]+\s*=[^=].*;\s*$", [" ;"]), (r"^\s+[\w>.-]+\([^;{}]*\);\s*$", [" ;"]), (r"^\s+return [^;]*\b(\w+)\(.*\) *&& *(.*);", None)]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def mutants(f):
    t = open(SRC + f).read().split("\n"); out = []; comment = False
    for n, l in enumerate(t):
        s = l.strip()
        if "/*" in s and "*/" not in s: comment = True
        if "*/" in s: comment = False; continue
        if comment or s.startswith(("//", "#", "*", "assert", "class", "template", "typedef")) or "cout" in s or "cerr" in s or "virtual" in s or s.startswith("for") and "template" in s: continue
        code = l.split("//")[0]
        if "template" in code or "operator" in code or re.match(r"^\s*(const )?[\w:]+(<.*>)? ?[*&] ?\w+\(.*\)", code): continue
        for pat, reps in OPS:
            if reps is None: continue
            for m in re.finditer(pat, code):
                for r in reps:
                    if pat.startswith(r"\bif"):
                        # negate the whole condition
                        i = m.end(); d = 1
                        while i < len(code) and d: d += {"(": 1, ")": -1}.get(code[i], 0); i += 1
                        if d: continue
                        new = code[:m.start()] + "if (!(" + code[m.end():i - 1] + "))" + code[i:]
                    else: new = code[:m.start()] + r + code[m.end():]
                    if new != code: out.append((f, n, new))
    return out
def main():
    N, seed = int(sys.argv[1]), int(sys.argv[2]); sub = sys.argv[3] if len(sys.argv) > 3 else ""
    if not os.path.exists(S): sh("git clone -q /repo " + S)
    sh("cd %s && git fetch -q /repo && git checkout -q -f FETCH_HEAD && git reset -q --hard" % S)
    fs = [f for f in FILES if sub in f and os.path.exists(SRC + f)]; rnd = random.Random(seed); pool = []
    for f in fs:
        m = mutants(f); rnd.shuffle(m); pool.append(m)
    todo = []
    while len(todo) < N and any(pool):
        for m in pool:
            k = max(1, len(m) // 40)
            for _ in range(k):
                if m: todo.append(m.pop())
    todo = todo[:N]
    for f, n, new in todo:
        p = SRC + f; orig = open(p).read(); t = orig.split("\n"); old = t[n]; t[n] = new; open(p, "w").write("\n".join(t)); t0 = time.time(); res = "SURVIVED"
        for pr in FILES[f].split():
            r = sh("timeout 400 python3 %s/check.py %s quick" % (V, pr), env=dict(os.environ, VERIF_REPO=S, VERIF_BUILD="/tmp/mutbuild", VERIF_SHRINK="1"))
            if r.returncode == 1: res = "KILLED"; break
            if r.returncode == 2: res = "NOBUILD" if "build failed" in r.stdout or "link failed" in r.stdout else "ERROR"; break
            if r.returncode: res = "RC%d" % r.returncode; break
        open(p, "w").write(orig)
        print("%s %s:%d [%s] %.0fs\n    - %s\n    + %s" % (res, f, n + 1, pr if res == "KILLED" else FILES[f], time.time() - t0, old.strip(), new.strip()), flush=True)
main()
