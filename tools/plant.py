#!/usr/bin/env python3
"""plant.py setup | verify ID... | check ID... | all ID...: validates planted bugs in a scratch copy (/tmp/plant/repo).
verify: patch applies, builds, stable tests pass, demo 0 on base and nonzero with patch. check: runs the property's quick check against the patched copy."""
import os, sys, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/tmp/plant/repo"
def sh(c, cwd=R, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def setup():
    os.makedirs("/tmp/plant", exist_ok=True)
    if os.path.exists(R): shutil.rmtree(R)
    sh("git clone -q /repo %s" % R, "/tmp")
    r = sh("CC=gcc FC=gfortran cmake -S . -B _build -G Ninja -DMACHINE_SPECIFIC_OPTIMIZATION=OFF -DWITH_MATLAB=OFF -DENABLE_FFTW=OFF -DBUILD_TESTS=ON -DADDRESS_SANITIZER=OFF -DDEBUG=OFF && ninja -C _build"); print(r.stdout[-300:])
def build(): return sh("ninja -C _build")
def apply(i):
    sh("git checkout -q -- ."); r = sh("git apply %s/seeded/%s/patch.diff" % (V, i))
    return r.returncode == 0 or print(i, "patch does not apply", r.stdout)
def demo(i): return sh("bash %s/seeded/%s/demo.sh" % (V, i), timeout=300)
def verify(ids):
    sh("git checkout -q -- ."); build()
    base = {i: demo(i) for i in ids}
    for i in ids:
        if base[i].returncode: print(i, "DEMO FAILS ON BASE", base[i].stdout[-500:]); continue
        if not apply(i): continue
        b = build()
        if b.returncode: print(i, "BUILD FAILS", b.stdout[-500:]); continue
        d = demo(i)
        t = sh("ctest --test-dir _build -j8 --timeout 600")
        ok = d.returncode != 0 and "100% tests passed" in t.stdout
        print(i, "OK" if ok else "BAD demo rc %d tests %s" % (d.returncode, t.stdout[-400:] if "100% tests passed" not in t.stdout else "pass"), flush=True)
    sh("git checkout -q -- ."); build()
def check(ids):
    for i in ids:
        p = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
        if not apply(i): continue
        r = subprocess.run("python3 run.py %s" % p, shell=True, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VF_REPO=R))
        print(i, p, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "MISSED rc %d" % r.returncode, r.stdout.splitlines()[0] if r.stdout else "", flush=True)
        for l in r.stdout.splitlines():
            if "msg=" in l: print("     ", l[:160])
    sh("git checkout -q -- .")
if __name__ == "__main__":
    c, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    if c == "setup": setup()
    if c in ("verify", "all"): verify(ids)
    if c in ("check", "all"): check(ids)
