#!/usr/bin/env python3
"""Driver: run.py PROPERTY [--tier quick|thorough] [--job NAME] [-v]
Compiles /repo/src to LLVM bitcode, runs the symbolic executor on the harnesses of one property, replays
every candidate violation natively against the real code, and writes /verif/evidence/<id>.json."""
import sys, os, subprocess, json, time, hashlib, glob, shutil, re, threading, fcntl, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
REPO = os.environ.get("VF_REPO", "/repo")
CLANG = "clang-18" if shutil.which("clang-18") else "clang"
NCPU = 8
HERE = V
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
class ToolError(Exception): pass

def engine():
    src = [V + "/engine/fsym.cpp", V + "/engine/poly.cpp", V + "/engine/poly.h"]
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()[:16]
    for d in (V + "/engine/bin", V + "/build"):
        exe = d + "/fsym-" + h
        if os.path.exists(exe) and sh([exe, "--version-check"]).returncode == 0: return exe
    os.makedirs(V + "/build", exist_ok=True)
    flags = sh(["llvm-config-18", "--cppflags"]).stdout.split()
    tmp = exe + ".%d" % os.getpid()
    r = sh(["g++", "-O2", "-std=c++17", *flags, "-fexceptions", src[0], src[1], "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-lgmpxx", "-lgmp"])
    if r.returncode: raise ToolError("engine build failed: " + r.stdout[-2000:])
    os.rename(tmp, exe); return exe

def config_dir(work):
    """fnft_config.h is generated by cmake; if it is absent, derive it from the template."""
    if os.path.exists(REPO + "/include/fnft_config.h"): return []
    t = open(REPO + "/include/fnft_config.h.in").read()
    cm = open(REPO + "/CMakeLists.txt").read()
    for k in ("MAJOR", "MINOR", "PATCH", "SUFFIX"):
        m = re.search(r'set\(FNFT_VERSION_%s\s+"?([^")\s]*)"?\)' % k, cm); t = t.replace("@FNFT_VERSION_%s@" % k, m.group(1) if m else "0")
    t = t.replace("#cmakedefine HAVE___THREAD", "#define HAVE___THREAD 1").replace("#cmakedefine HAVE_PRAGMA_GCC_OPTIMIZE_OFAST", "#define HAVE_PRAGMA_GCC_OPTIMIZE_OFAST 1")
    t = re.sub(r"#cmakedefine (\w+)", r"/* #undef \1 */", t)
    os.makedirs(work + "/inc", exist_ok=True); open(work + "/inc/fnft_config.h", "w").write(t); return ["-I" + work + "/inc"]

def lib_sources():
    s = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/private/*.c") + glob.glob(REPO + "/src/3rd_party/kiss_fft/*.c"))
    return [x for x in s if not x.endswith("_testcases.c") or True]

class Build:
    def __init__(self, work):
        self.work = work; self.inc = config_dir(work) + ["-I" + REPO + "/include", "-I" + REPO + "/include/private", "-I" + REPO + "/include/3rd_party/kiss_fft", "-I" + REPO + "/include/3rd_party/eiscor", "-I" + V + "/harness"]
        self.lock = threading.Lock(); self.stop_at = None; self.known = []; self.klocks = {}; self.libs = {}; self.srcs = lib_sources()
    W = ["-std=gnu99", "-w", "-Werror=implicit-function-declaration", "-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-free", "-ffp-contract=off"]
    SYMF = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fcx-limited-range", "-emit-llvm"]
    NAT = {"asan": ["-O0", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,integer-divide-by-zero,bounds,null,unreachable", "-fno-sanitize-recover=all"],
           "msan": ["-O0", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory"],
           "plain": ["-O0", "-g"]}
    def klock(self, k):
        with self.lock: return self.klocks.setdefault(k, threading.Lock())
    def lib(self, kind):
        with self.klock("lib-" + kind):
            if kind in self.libs: return self.libs[kind]
            d = self.work + "/" + kind; os.makedirs(d, exist_ok=True)
            fl = self.SYMF if kind == "bc" else self.NAT[kind]
            def one(s):
                o = d + "/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
                r = sh([CLANG, *self.W, *fl, *self.inc, "-c", s, "-o", o])
                if r.returncode: raise ToolError("compiling %s failed:\n%s" % (s, r.stdout[-1500:]))
                if kind != "bc": sh(["objcopy", "--weaken", o])
                return o
            with ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(one, self.srcs))
            if kind == "bc":
                out = d + "/lib.bc"; r = sh(["llvm-link-18", *objs, "-o", out])
                if r.returncode: raise ToolError("llvm-link: " + r.stdout[-1500:])
                self.libs[kind] = out
            else: self.libs[kind] = objs
            return self.libs[kind]
    def harness_bc(self, job):
        key = hashlib.md5(repr((job["src"], job.get("defs", []))).encode()).hexdigest()[:10]
        lib = self.lib("bc"); out = self.work + "/h_%s.bc" % key
        with self.klock(out):
            if os.path.exists(out): return out
            o = self.work + "/h_%s.o" % key
            r = sh([CLANG, *self.W, *self.SYMF, *self.inc, *["-D" + x for x in job.get("defs", [])], "-c", V + "/harness/" + job["src"], "-o", o])
            if r.returncode: raise ToolError("harness %s does not compile:\n%s" % (job["src"], r.stdout[-2500:]))
            r = sh(["llvm-link-18", "--only-needed", o, lib, "-o", out])
            if r.returncode: raise ToolError("llvm-link: " + r.stdout[-1500:])
            return out
    def native(self, job, kind):
        key = hashlib.md5(repr((job["src"], job.get("defs", []), job["entry"])).encode()).hexdigest()[:10]
        objs = self.lib(kind); exe = self.work + "/n_%s_%s" % (kind, key)
        self.lib(kind)
        with self.klock(exe):
            if os.path.exists(exe): return exe
            r = sh([CLANG, *self.W, *self.NAT[kind], *self.inc, *["-D" + x for x in job.get("defs", [])], "-DVF_ENTRY=" + job["entry"], V + "/harness/" + job["src"], V + "/harness/vf_native.c", *objs,
                    "-Wl,--no-as-needed,-u,__divdc3,-u,__muldc3,-u,__powidf2", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free", "-lm", "-o", exe])
            if r.returncode: raise ToolError("native build of %s failed:\n%s" % (job["src"], r.stdout[-2500:]))
            return exe

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=0", MSAN_OPTIONS="allocator_may_return_null=1")
def write_replay(path, inputs):
    with open(path, "w") as f:
        for k, n, v in inputs: f.write("%s %s %s\n" % (k, re.sub(r"\s", "_", n) or "_", v))
def native_run(build, job, kind, replay, timeout=120):
    exe = build.native(job, kind)
    try: r = sh([exe, replay], env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired: return ("timeout", "")
    o = r.stdout
    if r.returncode == 0 and "VF-DONE" in o: return ("ok", o)
    if r.returncode == 0: return ("exit0", o)
    if r.returncode == 42: return ("assert", o)
    if r.returncode in (43, 44, 45, 46): return ("mismatch", o)
    return ("crash", o)
MEMK = ("oob", "oob-write", "oob-read", "null-deref", "use-after-free", "double-free", "bad-free", "const-write", "int-div0", "abort", "unreachable", "bad-call")
def confirm(build, job, v, path):
    kinds = ["msan"] if v["kind"].startswith("uninit") else ["asan"]
    if v["kind"] == "uninit-assert": kinds = ["msan", "asan"]
    if v["kind"] in ("assert", "close", "leak", "fp-div0"): kinds = ["plain", "asan"]
    for k in kinds:
        st, out = native_run(build, job, k, path)
        if st in ("assert", "crash") or (st == "timeout" and v["kind"] == "hang"): return k, st, out
    return None, st, out

class Tokens:
    def __init__(self, n):
        self.r, self.w = os.pipe(); fcntl.fcntl(self.r, fcntl.F_SETFL, os.O_NONBLOCK)
        os.write(self.w, b"x" * n)
    def get(self):
        while True:
            try:
                if os.read(self.r, 1): return
            except BlockingIOError: time.sleep(0.02)
    def put(self): os.write(self.w, b"x")

def run_job(job, build, exe, toks, work, tier, deadline, verbose):
    log = work + "/log_%s.jsonl" % re.sub(r"\W", "_", job["name"])
    toks.get()
    try:
        if build.stop_at is not None: return dict(job=job, recs=[], err="skipped after a confirmed violation", wall=0)
        bc = build.harness_bc(job)
        tl = min(job.get("time", 200), max(5, deadline - time.time()))
        cmd = [exe, bc, "--entry", job["entry"], "--fp", job.get("fp", "real"), "--log", log, "--time", str(tl), "--tok", "%d,%d" % (toks.r, toks.w), "--samples", str(job.get("samples", 3))] + job.get("args", [])
        if verbose: cmd.append("-v")
        t0 = time.time()
        pr = subprocess.Popen(cmd, pass_fds=(toks.r, toks.w), stdout=subprocess.PIPE, stderr=None if verbose else subprocess.STDOUT, start_new_session=True); err = None
        out = b""
        while True:
            try: out = pr.communicate(timeout=2)[0]; break
            except subprocess.TimeoutExpired:
                if time.time() - t0 > tl + 20 or (build.stop_at is not None and time.time() > build.stop_at):
                    os.killpg(pr.pid, 9); out = pr.communicate()[0]; err = "engine timeout" if build.stop_at is None else "stopped after a confirmed violation in another job"; break
        recs = []
        if os.path.exists(log):
            for l in open(log, errors="replace"):
                try: recs.append(json.loads(l))
                except ValueError: pass
        if build.stop_at is None:
            for n, x in enumerate([x for x in recs if x["t"] == "violation"][:3]):
                if any(re.search(q["job"], job["name"]) and re.search(q["match"], x["kind"] + " " + x["msg"] + " @ " + x["loc"]) for q in build.known): continue
                p = "%s/early_%s_%d" % (work, re.sub(r"\W", "_", job["name"]), n); write_replay(p, x["inputs"])
                if confirm(build, job, x, p)[0]: build.stop_at = time.time() + 15; break
        if err is None and pr.returncode != 0: err = "engine rc %d: %s" % (pr.returncode, (out or b"")[-500:])
        return dict(job=job, recs=recs, err=err, wall=time.time() - t0)
    finally: toks.put()

def known_findings():
    p = V + "/known_findings.json"
    return json.load(open(p))["known"] if os.path.exists(p) else []

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--job"); ap.add_argument("-v", action="store_true"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--time", type=float); ap.add_argument("--stats", action="store_true")
    a = ap.parse_args(); prop = a.prop; t0 = time.time()
    import checks
    spec = checks.CHECKS[prop]; tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    jobs = [j for j in spec["jobs"] if (tier == "thorough" or j.get("tier", "quick") == "quick") and (not a.job or re.search(a.job, j["name"]))]
    budget = a.time or (700 if tier == "quick" else 6000); deadline = t0 + budget
    os.makedirs(V + "/build", exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    work = tempfile.mkdtemp(prefix="run_%s_" % prop, dir=V + "/build")
    rdir = V + "/build/replay/" + prop; shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    try: rc = check(prop, spec, jobs, tier, work, rdir, deadline, t0, a)
    except ToolError as e: print("TOOL-ERROR:", e); rc = 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: print("work dir", work)
    sys.exit(rc)

def check(prop, spec, jobs, tier, work, rdir, deadline, t0, a):
    exe = engine(); build = Build(work); build.lib("bc")
    toks = Tokens(NCPU); kn = build.known = [k for k in known_findings() if k["property"] == prop and k.get("status") == "known"]
    with ThreadPoolExecutor(32) as ex: res = list(ex.map(lambda j: run_job(j, build, exe, toks, work, tier, deadline, a.v), jobs))
    S = dict(paths=0, forks=0, sat=0, unsat=0, unknown=0, instrs=0, solver_s=0.0, asserts=0, proved=0, unsupported=0, pruned=0, assumed_away=0, interval_decided=0)
    fns = set(); viol = []; unconf = []; notes = []; samples = []; validated = 0; jobrep = []; knownhit = {}; incomplete = []
    nrep = 0
    for r in res:
        j = r["job"]; recs = r["recs"]; sm = [x for x in recs if x["t"] == "summary"]
        if not sm: incomplete.append("%s: %s" % (j["name"], r["err"] or "no summary")); continue
        sm = sm[-1]
        for k in S: S[k] += sm.get(k, 0)
        reach = set()
        for x in recs:
            if x["t"] == "end": fns.update(x.get("fn", [])); reach.update(x.get("reach", []))
        miss = [m for m in j.get("reach", []) if m not in reach]
        uns = [x for x in recs if x["t"] in ("unsupported", "crash")]
        ends = {}
        for x in recs:
            if x["t"] == "end": ends[x["how"]] = ends.get(x["how"], 0) + 1
        jr = dict(job=j["name"], entry=j["entry"], domain=j.get("fp", "real"), bounds=j.get("bounds", ""), paths=sm["paths"], asserts=sm["asserts"], proved=sm["proved"], queries=sm["sat"] + sm["unsat"] + sm["unknown"], solver_s=sm["solver_s"], wall_s=round(r["wall"], 1), complete=not sm["stopped"] and not uns and not miss, ends=ends)
        if uns: jr["inconclusive_paths"] = len(uns); jr["inconclusive_why"] = sorted({(x.get("msg", "crash") + " @ " + x.get("loc", ""))[:200] for x in uns})[:5]
        if miss: jr["witness_not_reached"] = miss
        if sm["stopped"]: jr["budget_exhausted"] = True
        jobrep.append(jr)
        seen = {}
        for x in recs:
            if x["t"] == "violation":
                key = (x["kind"], x["msg"].split(":")[0], x["loc"])
                seen.setdefault(key, []).append(x)
            elif x["t"] in ("candidate", "spurious"): unconf.append("%s: %s %s %s" % (j["name"], x["t"], x["kind"], x["msg"]))
        for key, xs in seen.items():
            done = False
            for x in xs[:6]:
                nrep += 1; p = "%s/%s-%d.replay" % (rdir, re.sub(r"\W", "_", j["name"]), nrep); write_replay(p, x["inputs"])
                k, st, out = confirm(build, j, x, p)
                if k:
                    with open(p + ".txt", "w") as f: f.write("property %s job %s harness %s entry %s defs %s\nkind %s: %s\nat %s\nbacktrace %s\nnative build %s: %s\n%s\n" % (prop, j["name"], j["src"], j["entry"], j.get("defs", []), x["kind"], x["msg"], x["loc"], x["bt"], k, st, out[-3000:]))
                    kf = [q for q in kn if re.search(q["job"], j["name"]) and re.search(q["match"], x["kind"] + " " + x["msg"] + " @ " + x["loc"])]
                    if kf: knownhit.setdefault(kf[0]["id"], kf[0]); done = True; continue
                    viol.append((x, j, p, out)); done = True; break
                else: why = "%s: %s %s @ %s not reproduced natively (%s)" % (j["name"], x["kind"], x["msg"], x["loc"], st)
            if not done: unconf.append(why)
    def pick(r):
        out = []; nv = 0
        for x in r["recs"]:
            if x["t"] == "sample" and nv < r["job"].get("samples", 3):
                nv += 1; p = "%s/sample-%s-%d.replay" % (rdir, re.sub(r"\W", "_", r["job"]["name"]), nv); write_replay(p, x["inputs"]); out.append((r["job"], x, p))
        return out
    cand = [c for c in map(pick, res) if c]; step = max(1, len(cand) // 24 + (len(cand) % 24 > 0)); todo = [] if viol else [c for l in cand[::step] for c in l]
    def vrun(c):
        try: return c + native_run(build, c[0], "plain", c[2])
        except ToolError as e: return c + ("tool", str(e))
    with ThreadPoolExecutor(NCPU) as ex: vres = list(ex.map(vrun, todo))
    for j, x, p, st, out in vres:
                if st in ("ok", "exit0"):
                    good = True; no = dict(l.split()[1:3] for l in out.splitlines() if l.startswith("VF-OUT"))
                    for n, vv in x.get("outs", []):
                        if vv is not None and n in no and no[n] != vv: good = False
                    if good: validated += 1
                    else: notes.append("%s: engine and native outputs differ on a sampled path" % j["name"])
                    if len(samples) < 6: samples.append(dict(job=j["name"], inputs=x["inputs"][:12]))
                else: notes.append("%s: sampled path behaves differently natively (%s: %s)" % (j["name"], st, out[-200:]))
                os.remove(p)
    wall = time.time() - t0
    if not a.job:
        ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec["level"], wall_s=round(wall, 1),
          coverage=dict(states=max(1, S["paths"]), transitions=S["forks"] + S["paths"], traces_validated_against_impl=validated, samples=samples or [dict(job=j["name"]) for j in jobs[:2]],
            method="symbolic execution of LLVM IR compiled from /repo/src in this run; assertions decided by z3 for all inputs within the bounds",
            functions_encoded=sorted(f for f in fns if not f.startswith("vf_") and not f.startswith("h_")), bounds=spec.get("bounds", ""), outside=spec.get("outside", ""),
            queries=dict(sat=S["sat"], unsat=S["unsat"], unknown=S["unknown"]), solver_s=round(S["solver_s"], 2), assertions_checked=S["asserts"], assertions_proved=S["proved"], instructions=S["instrs"],
            equality_branches_pruned=S["pruned"], paths_cut_by_assumption=S["assumed_away"], branches_decided_by_interval_bounds=S["interval_decided"], inconclusive_paths=S["unsupported"], jobs=jobrep, unconfirmed=unconf[:20], notes=notes[:20], incomplete=incomplete, known_findings=sorted(knownhit)),
          assumptions=spec.get("assumptions", []) + COMMON, violations=[dict(kind=x["kind"], msg=x["msg"], loc=x["loc"], job=j["name"], replay=p) for x, j, p, o in viol])
        json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: jobs=%d paths=%d assertions=%d proved=%d queries=%d/%d/%d solver=%.1fs inconclusive=%d validated=%d wall=%.0fs" % (prop, tier, len(jobs), S["paths"], S["asserts"], S["proved"], S["sat"], S["unsat"], S["unknown"], S["solver_s"], S["unsupported"], validated, wall))
    for jr in jobrep:
        if a.v or a.stats or not jr["complete"]: print("  job", json.dumps({k: jr[k] for k in jr if k not in ("bounds",)}))
    for u in (unconf + notes + incomplete)[:12]: print("  note:", u)
    for k in sorted(knownhit): print("KNOWN-FINDING: property=%s %s" % (prop, knownhit[k]["what"]))
    shown = set()
    for x, j, p, out in viol:
        key = (x["kind"], x["loc"], x["msg"])
        if key in shown: continue
        shown.add(key)
        print("VIOLATION property=%s replay=%s" % (prop, p)); print("   job=%s kind=%s msg=%s at %s" % (j["name"], x["kind"], x["msg"], x["loc"])); print("   " + "\n   ".join(l for l in out.splitlines() if l.startswith("VF-") or "ERROR" in l or "runtime error" in l or "WARNING" in l)[:600])
    if incomplete and not jobrep: return 2
    return 1 if viol else 0
COMMON = ["clang -O0 IR semantics of the C sources; the Fortran root finder is replaced by arbitrary values",
          "real domain: floating-point arithmetic on symbolic values is exact real arithmetic; concrete sub-computations are IEEE double; function arguments equal up to 1e-12 (relative) are identified; equality branches of measure zero are pruned unless a harness covers them",
          "abs domain: IEEE comparisons are exact, results of arithmetic on symbolic values are arbitrary (over-approximation); candidates are replayed natively before being reported"]
if __name__ == "__main__": main()
