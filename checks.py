import re
"""Registry of checks: for each property the harness jobs, their floating-point domain and bounds."""
CHECKS = {}
def prop(id, level="model_checking", **kw): CHECKS[id] = dict(jobs=[], level=level, **kw)
def job(id, name, src, entry, defs=(), fp="real", tier="quick", time=200, **kw):
    CHECKS[id]["jobs"].append(dict(name=name, src=src, entry=entry, defs=list(defs), fp=fp, tier=tier, time=time, **kw))

# ---------------------------------------------------------------- C11 polynomial product
prop("C11", bounds="n = 1..6 polynomials of degree 1..3; all coefficients symbolic for the sizes listed per job, components in [-1,1]", outside="larger n and degrees; rounding errors of symbolic coefficients")
for n, deg in [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (5, 1)]:
    job("C11", "fmult-n%d-deg%d" % (n, deg), "poly.c", "h_fmult", ["N=%d" % n, "DEG=%d" % deg], reach=["fmult"])
for n, deg, ns in [(6, 1, 4), (7, 1, 3), (5, 2, 4), (9, 1, 2)]:
    job("C11", "fmult-n%d-deg%d-%dsym" % (n, deg, ns), "poly.c", "h_fmult", ["N=%d" % n, "DEG=%d" % deg, "NSYM=%d" % ns], reach=["fmult"])
for n, deg, ns in [(2, 1, 1), (3, 1, 1)]:
    job("C11", "fmult-W-n%d-deg%d" % (n, deg), "poly.c", "h_fmult", ["N=%d" % n, "DEG=%d" % deg, "NSYM=%d" % ns, "WITHW=1", "LO=0.25", "HI=64.0"], reach=["fmult"])
# ---------------------------------------------------------------- C12 matrix products
prop("C12", bounds="2x2 and 3x3 matrix polynomials of degree 1..2, n = 1..5 factors", outside="larger n and degrees; rounding errors of symbolic coefficients")
for mm, n, deg, ns in [(2, 1, 1, 99), (2, 2, 1, 99), (2, 2, 2, 99), (2, 3, 1, 99), (2, 4, 1, 6), (2, 5, 1, 4), (3, 1, 1, 99), (3, 2, 1, 99), (3, 3, 1, 6), (3, 4, 1, 3)]:
    job("C12", "fmult%dx%d-n%d-deg%d" % (mm, mm, n, deg), "poly.c", "h_fmultm", ["MM=%d" % mm, "N=%d" % n, "DEG=%d" % deg, "NSYM=%d" % ns], reach=["fmultm"])
for mm, n in [(2, 2), (2, 3), (3, 2), (3, 3)]:
    job("C12", "fmult%dx%d-W-n%d" % (mm, mm, n), "poly.c", "h_fmultm", ["MM=%d" % mm, "N=%d" % n, "DEG=1", "NSYM=1", "WITHW=1", "LO=0.25", "HI=64.0"], reach=["fmultm"])
# ---------------------------------------------------------------- C13 evaluation, chirp
prop("C13", bounds="degree 0..6, 1..2 points; |z| in [0.25,0.875] and [1.25,2]; chirp transform with M=1..7 points on spirals inside, on and outside the unit circle", outside="|z|=1 exactly for eval, larger degrees")
for deriv in (0, 1):
    for deg in (0, 1, 2, 3, 5):
        job("C13", "eval%s-in-deg%d" % ("deriv" if deriv else "", deg), "poly.c", "h_eval", ["DEG=%d" % deg, "NZ=1"] + ["DERIV"] * deriv, reach=["eval"])
        job("C13", "eval%s-out-deg%d" % ("deriv" if deriv else "", deg), "poly.c", "h_eval", ["DEG=%d" % deg, "NZ=1", "RIN=1.25", "ROUT=2.0"] + ["DERIV"] * deriv, reach=["eval"])
    job("C13", "eval%s-2pts" % ("deriv" if deriv else ""), "poly.c", "h_eval", ["DEG=2", "NZ=2"] + ["DERIV"] * deriv, reach=["eval"])
    for deg in (0, 1, 3):
        for nm, zr, zi in (("out", 1.5, -0.25), ("on", 0.6, 0.8), ("one", 1.0, 0.0), ("mone", -1.0, 0.0), ("zero", 0.0, 0.0)):
            job("C13", "eval%s-fix-%s-deg%d" % ("deriv" if deriv else "", nm, deg), "poly.c", "h_eval", ["DEG=%d" % deg, "NZ=1", "ZRE=(%r)" % zr, "ZIM=(%r)" % zi] + ["DERIV"] * deriv, reach=["eval"])
for deg, m in [(0, 1), (0, 3), (1, 1), (1, 4), (2, 3), (3, 2), (3, 7), (5, 3), (6, 5)]:
    for nm, A, W in [("on", (1.0, 0.0), (0.6, 0.8)), ("in", (0.9, 0.3), (0.96, -0.28)), ("sp", (1.1, -0.2), (0.7, 0.65))]:
        job("C13", "chirpz-deg%d-M%d-%s" % (deg, m, nm), "poly.c", "h_chirpz", ["DEG=%d" % deg, "M_=%d" % m, "AR=(%r)" % A[0], "AI=(%r)" % A[1], "WR=(%r)" % W[0], "WI=(%r)" % W[1]], reach=["chirpz"])
# ---------------------------------------------------------------- C14 FFT
prop("C14", bounds="lengths 1..16, 18, 20, 24, 25, 27, 30 (quick); all up to 40, 45, 48, 50, 60, 64 (thorough); all inputs with components in [-1,1]; requested lengths 1..400", outside="longer transforms; FFTW backend")
for L in list(range(1, 17)) + [18, 20, 24, 25, 27, 30]:
    job("C14", "fft-%d" % L, "poly.c", "h_fft", ["LEN=%d" % L], reach=["fft"])
for L in [x for x in range(17, 41) if x not in (18, 20, 24, 25, 27, 30)] + [45, 48, 50, 60, 64]:
    job("C14", "fft-%d" % L, "poly.c", "h_fft", ["LEN=%d" % L], tier="thorough", reach=["fft"])
job("C14", "fftlen", "poly.c", "h_fftlen", ["LEN=400"], reach=["fftlen"])
# ---------------------------------------------------------------- C09 filters
prop("C09", bounds="0..3 values (filters; arbitrary doubles including infinities and NaN; NaN values excluded for the inverse filter), 1..5 values for merging (arbitrary positions and tolerance in a box)", outside="longer lists; NaN entries in the inverse filter (comparison with NaN has no specified outcome); merging: values on a fixed set of parallel lines")
for wh, nm in ((0, "filter"), (1, "filterinv"), (2, "nonreal")):
    for n in (1, 2, 3): job("C09", "%s-n%d" % (nm, n), "misc.c", "h_filter", ["WHICH=%d" % wh, "NV=%d" % n], fp="ieee", time=200 if n < 3 else 800, tier="thorough" if (wh, n) == (1, 3) else "quick", reach=["filtered", "refused"])
for n in (1, 2, 3, 4): job("C09", "merge-n%d" % n, "misc.c", "h_merge", ["NV=%d" % n], reach=["merged"])
job("C09", "merge-args", "misc.c", "h_merge_args", fp="ieee", reach=["args"])
# ---------------------------------------------------------------- C10 downsampling and preprocessing
prop("C10", bounds="3..24 samples for the downsampling helper, 7 (quick) to 9 samples for the preprocessing of every discretization with every requested number of subsamples 0..D+1", outside="longer signals; rounding errors of symbolic samples")
job("C10", "downsample", "misc.c", "h_downsample", ["LEN=24"], fp="abs", reach=["downsampled"])
SP = "2SPLIT1A 2SPLIT1B 2SPLIT2A 2SPLIT2B 2SPLIT2S 2SPLIT3A 2SPLIT3B 2SPLIT3S 2SPLIT4A 2SPLIT4B 2SPLIT5A 2SPLIT5B 2SPLIT6A 2SPLIT6B 2SPLIT7A 2SPLIT7B 2SPLIT8A 2SPLIT8B".split()
NSE = ["2SPLIT2_MODAL", "BO"] + SP + "4SPLIT4A 4SPLIT4B CF4_2 CF4_3 CF5_3 CF6_4 ES4 TES4".split()
MAN = "2SPLIT3A 2SPLIT3B 2SPLIT4A 2SPLIT4B 2SPLIT6B 4SPLIT4A 4SPLIT4B 4SPLIT6B FTES4_4A FTES4_4B FTES4_suzuki CF4_2 BO".split()
KIND = {"4SPLIT4A": 1, "4SPLIT4B": 1, "CF4_2": 1, "CF4_3": 2, "CF5_3": 3, "CF6_4": 4, "ES4": 5, "TES4": 5}
def pre(eq, d, kind, L, tier="quick"):
    e = {0: "nse_discretization_" + d, 1: "kdv_discretization_" + d, 2: "manakov_discretization_" + d}[eq]
    job("C10", "pre-%s-%s-%d" % (("nse", "kdv", "manakov")[eq], d, L), "preproc.c", "h_preproc", ["EQ=%d" % eq, "DIS=" + e, "KIND=%d" % kind, "LEN=%d" % L], tier=tier, reach=["preproc"])
for d in NSE:
    k = KIND.get(d, 0); q = "quick" if k or d in ("BO", "2SPLIT2_MODAL", "2SPLIT4B") else "thorough"
    pre(0, d, k, 7, q); pre(1, d + "_VANILLA", k, 7, q); pre(1, d, k, 7, "thorough" if d != "CF4_2" else q)
    if k: pre(0, d, k, 5, "thorough"); pre(0, d, k, 9, "thorough")
for d in MAN: pre(2, d, 6 if d.startswith("4SPLIT") or d == "CF4_2" else 0, 7, "quick")
for eq in range(3): job("C10", "pre-bad-%d" % eq, "preproc.c", "h_preproc_bad", ["EQ=%d" % eq], reach=["bad"])
# ---------------------------------------------------------------- C32 resampling
prop("C32", bounds="3..16 samples, every signal with components in [-1,1], 6 representative (step size, shift) pairs per length", outside="more samples; other shifts (they enter only through constants)")
for L in (3, 4, 5, 6, 7, 8, 9, 12, 16):
    for j, (e, dl) in enumerate([("0.5", "0.0"), ("0.5", "0.125"), ("0.3", "-0.0866"), ("0.5", "0.5"), ("2.0", "-3.7"), ("-1.0", "0.3")]):
        job("C32", "resample-%d-%d" % (L, j), "misc.c", "h_resample", ["LEN=%d" % L, "EPS=(%s)" % e, "DELTA=(%s)" % dl], reach=["resampled"])
job("C32", "resample-args", "misc.c", "h_resample_args", fp="abs", reach=["args"])
# ---------------------------------------------------------------- C20 tables, frequency maps, phases
prop("C20", bounds="all discretizations of the three equations; 1..9 samples; step sizes in [0.125,1], spectral parameters with components in [-1.5,1.5], interval end points in [-4,4]", outside="spectral parameters outside the principal strip")
for eq in range(3):
    job("C20", "tables-%d" % eq, "disc.c", "h_tables", ["EQ=%d" % eq], reach=["tables"])
    job("C20", "freq-%d" % eq, "disc.c", "h_freq", ["EQ=%d" % eq], reach=["freq"])
    job("C20", "phase-%d" % eq, "disc.c", "h_phase", ["EQ=%d" % eq], reach=["phase"])
    job("C20", "unknown-%d" % eq, "disc.c", "h_unknown", ["EQ=%d" % eq], reach=["unknown"])
# ---------------------------------------------------------------- C31 error reporting
prop("C31", bounds="every sequence of three reports with every choice of printer; return codes in [-8,8] there and in [-100000,100000] for single reports", outside="several threads (thread-local storage of the printer is not modelled); the text the default printer writes")
job("C31", "errwarn", "disc.c", "h_errwarn", [], fp="abs", reach=["errwarn"])
job("C31", "errcode", "disc.c", "h_errcode", [], fp="abs", reach=["errcode"])
# ---------------------------------------------------------------- C21 basis changes
prop("C21", bounds="all 28 AKNS discretizations, both equations, both KdV variants, with and without derivative; xi in two boxes away from zero (components up to 2), step size in [0.125,1]", outside="xi closer to zero than 0.25")
for eq in range(2):
    job("C21", "basis-%d" % eq, "basis.c", "h_basis", ["EQ=%d" % eq], reach=["basis"], time=400)
    job("C21", "basis-bad-%d" % eq, "basis.c", "h_basis_bad", ["EQ=%d" % eq], reach=["bad"])
job("C21", "basis-kdv-wrapper", "basis.c", "h_basis", ["EQ=1", "WRAP"], reach=["basis"], time=400)
# ---------------------------------------------------------------- C15 fast AKNS scattering
SPL = dict([("2SPLIT2_MODAL", (0, "M", 1))] + [("2SPLIT%d%s" % (n, s), (n, s, d)) for n, s, d in [(1, "A", 1), (1, "B", 1), (2, "A", 1), (2, "B", 1), (2, "S", 1), (3, "A", 3), (3, "B", 3), (3, "S", 2), (4, "A", 4), (4, "B", 2), (5, "A", 15), (5, "B", 15), (6, "A", 12), (6, "B", 6), (7, "A", 105), (7, "B", 105), (8, "A", 24), (8, "B", 12)]] + [("4SPLIT4A", (4, "A", 4)), ("4SPLIT4B", (4, "B", 2))])
prop("C15", bounds="one sample for all 21 splittings; two and three samples for the splittings of degree up to 6; components of q in [-1,1] with Re q >= 0.25 (focusing, defocusing), q = -s^2 or s^2 with s in [0.5,1.25] (KdV), independent complex q and r with fixed ratio; zero signals; one vanishing potential (KdV vacuum q=0, r=-1, and r=0)", outside="more samples (the product itself is C12); q closer to zero than 0.25 except exactly zero")
def fsc(name, d, eq, dis, sig, L, tier="quick", entry="h_fscatter", extra=(), time=200):
    n, s, deg = SPL[d]
    job("C15", name, "akns.c", entry, ["EQ=%d" % eq, "DIS=" + dis, "SCH=%d" % n, "SFX='%s'" % s, "DEG=%d" % deg, "SIG=%d" % sig, "LEN=%d" % L, "HALF=%d" % (d[0] == "4")] + list(extra), tier=tier, reach=[entry[2:].replace("fscatter_bad", "bad")], time=time, args=["--noangle"] if entry == "h_fscatter" else [])
for d in SPL:
    a = "fnft__akns_discretization_" + d; deg = SPL[d][2]
    for sig in range(8): fsc("akns-%s-sig%d" % (d, sig), d, 0, a, sig, 1, "quick" if sig != 3 or deg <= 24 else "thorough")
    if deg <= 6:
        for sig in (0, 3): fsc("zerofreq-%s-sig%d" % (d, sig), d, 0, a, sig, 1, entry="h_zerofreq") if d != "2SPLIT2_MODAL" and (deg < 6 or sig == 0) else None
        fsc("akns-%s-D2" % d, d, 0, a, 0, 2, extra=["NSYM=1"] if deg > 2 else [])
        fsc("akns-%s-D3" % d, d, 0, a, 1, 3, extra=["NSYM=1"], tier="quick" if deg <= 2 else "thorough")
        if deg <= 4: fsc("akns-%s-eps" % d, d, 0, a, 0, 1, extra=["EPSSYM"])
    fsc("nse-%s" % d, d, 1, "nse_discretization_" + d, 0, 1); fsc("kdv-%s" % d, d, 2, "kdv_discretization_" + d, 2, 1, extra=["SWAP=1"]); fsc("kdv-%s-van" % d, d, 2, "kdv_discretization_" + d + "_VANILLA", 5, 1)
for d in ("2SPLIT2_MODAL", "2SPLIT1A", "2SPLIT4B"):
    for L in (1, 2): fsc("akns-%s-W-D%d" % (d, L), d, 0, "fnft__akns_discretization_" + d, 0, L, extra=["NSYM=1", "WITHW"], tier="quick" if L == 1 or d == "2SPLIT2_MODAL" else "thorough", time=600)
for eq in range(3): fsc("bad-%d" % eq, "2SPLIT1A", eq, ["fnft__akns", "nse", "kdv"][eq] + "_discretization_2SPLIT1A", 0, 1, entry="h_fscatter_bad")
# ---------------------------------------------------------------- C17 slow AKNS scattering
prop("C17", bounds="one to three steps of every slow discretization; every step exponential in general position (root w symbolic real, imaginary or complex, |w| in [1.1,2.2] with derivative; lambda symbolic real, imaginary or complex), zero samples, lambda = 0; NSE and both KdV formulations", outside="more steps (products of the same factors)")
def slow(name, m, eq, tier="quick", entry="h_scatter", time=200, args=(), **d):
    job("C17", name, "scatter.c", entry, ["METHOD=" + m, "EQ=%d" % eq] + ["%s=%s" % (k, v) for k, v in d.items()], tier=tier, reach=[entry[2:].replace("scatter_bad", "bad")], time=time, args=list(args))
SLOW = {"BO": 1, "CF4_2": 2, "CF4_3": 3, "CF5_3": 3, "CF6_4": 4, "ES4": 3, "TES4": 3}
for m in SLOW:
    ms = range(1, SLOW[m]) if "CF" in m else ()
    for der in (0, 1):
        for kind in (0, 1, 2):
            for lam in (0, 1, 2, 3):
                for var in (0, 1, 2) if m == "ES4" else (0,):
                    if m == "ES4" and var == 2 and lam != 3: continue
                    slow("nse-%s-d%d-w%d-l%d%s" % (m, der, kind, lam, "-v%d" % var if m == "ES4" else ""), m, 0, DERIV=der, KIND=kind, LAM=lam, VAR=var)
        for mm in ms: slow("nse-%s-d%d-m%d" % (m, der, mm), m, 0, DERIV=der, KIND=0, LAM=0, SYMM=mm)
        for eq in (1, 2):
            for kind in (0, 1):
                for lam in (0, 1, 3): slow("kdv%d-%s-d%d-w%d-l%d" % (eq, m, der, kind, lam), m, eq, DERIV=der, KIND=kind, LAM=lam)
        for eq in (0, 1, 2):
            for sy in (0, 1): slow("D2-eq%d-%s-d%d-s%d" % (eq, m, der, sy), m, eq, DERIV=der, KIND=int(eq > 0 and sy), LAM=3, NS=2, SYM=sy, TOL="1e-7")
            for lam in (0, 4, 3) if eq == 0 else (0, 3): slow("zero-eq%d-%s-d%d-l%d" % (eq, m, der, lam), m, eq, DERIV=der, LAM=lam, NS=2, SYM=0, ZERO=1)
        slow("D3-%s-d%d" % (m, der), m, 0, tier="quick" if m != "TES4" else "thorough", DERIV=der, LAM=3, NS=3, SYM=1, TOL="1e-7")
        slow("W-%s-d%d" % (m, der), m, 0, DERIV=der, LAM=3, NS=2, SYM=1, WITHW=1, WLO=1.5, WHI=1.501, TOL="1e-7")
    for eq in (0, 1, 2): slow("bad-%s-%d" % (m, eq), m, eq, entry="h_scatter_bad")
job("C17", "csincd", "scatter.c", "h_csincd", [], reach=["csincd"])
# ---------------------------------------------------------------- C18 bound states
prop("C18", bounds="two and three steps of every slow discretization, one of them with a symbolic exponent; lambda imaginary, real or complex, concrete or symbolic; with and without normalization, with and without b", outside="more steps; b compared at the (only) interior matching point of two-step signals")
def bnd(name, m, eq, tier="quick", entry="h_bound", time=200, reach=("bound",), **d):
    job("C18", name, "scatter.c", entry, ["METHOD=" + m, "EQ=%d" % eq, "DERIV=1"] + ["%s=%s" % (k, v) for k, v in d.items()], tier=tier, reach=list(reach), time=time)
for m in SLOW:
    for sy in (0, 1):
        bnd("nse-%s-s%d-l1" % (m, sy), m, 0, KIND=sy, LAM=1, NS=2, SYM=sy, TOL="1e-7", W1SYM=0, **({} if m in ("BO", "ES4") else dict(SKIPB=1)), reach=("bound", "b") if m in ("BO", "ES4") else ("bound",))
        for lam in (3, 5): bnd("nse-%s-s%d-l%d" % (m, sy, lam), m, 0, KIND=sy, LAM=lam, NS=2, SYM=sy, TOL="1e-7", W1SYM=0, reach=("bound", "b"))
        for eq in (1, 2): bnd("kdv%d-%s-s%d" % (eq, m, sy), m, eq, KIND=sy, LAM=5, NS=2, SYM=sy, TOL="1e-7", WLO=1.5, WHI=1.5625, W1SYM=0, reach=("bound", "b"))
    bnd("W-%s" % m, m, 0, LAM=5, NS=2, SYM=1, WITHW=1, WLO=1.5, WHI=1.501, TOL="1e-7", reach=("bound", "b"))
# ---------------------------------------------------------------- C16 fast Manakov scattering
prop("C16", bounds="one and two samples (three for FTES4), every fast discretization, both signs of kappa; q = s*(c1,c2) with s in [0.25,1] and three fixed polarization directions (one with vanishing q1, one with vanishing q2), fully symbolic q1, q2 for the degree-4 splittings; zero signal", outside="arbitrary polarization directions for the splittings of degree 6 and more; more samples (the product itself is C12)")
MS = {"2SPLIT3A": (3, "A", 6), "2SPLIT3B": (3, "B", 6), "2SPLIT4A": (4, "A", 8), "2SPLIT4B": (4, "B", 4), "2SPLIT6B": (6, "B", 12), "4SPLIT4A": (4, "A", 8), "4SPLIT4B": (4, "B", 4), "4SPLIT6B": (6, "B", 12), "FTES4_4A": (4, "A", 8), "FTES4_suzuki": (0, "S", 14)}
def msc(d, kap, dr, L, tier="quick", extra=(), time=200):
    n, s, deg = MS[d]
    job("C16", "%s-k%d-dir%d-D%d%s" % (d, kap, dr, L, "-" + extra[0].split("=")[0] if extra else ""), "manakov.c", "h_fscatter", ["DIS=manakov_discretization_" + d, "SCH=%d" % n, "SFX='%s'" % s, "DEG=%d" % deg, "KAP=(%d)" % kap, "DIR=%d" % dr, "LEN=%d" % L, "FT=%d" % (d[0] == "F")] + (["SUZ", "OFS=4"] if n == 0 else []) + list(extra), tier=tier, reach=["fscatter"], time=time, args=["--noangle"] if d != "2SPLIT3A" else [])
FM = [("1.0,0.0", 2), ("0.0,1.0", 2), ("1.0,-1.0", 2), ("0.0,1.0,0.0", 3), ("0.0,0.0,1.0", 3)]
for d in MS:
    for kap in (1, -1):
        for dr in (0, 1, 2, 9): msc(d, kap, dr, 1)
        if d != "FTES4_suzuki" and MS[d][2] <= 8: msc(d, kap, 8, 1, "quick" if MS[d][2] == 4 else "thorough")
        if d[0] != "F": msc(d, kap, 0, 2, extra=["NSYM=1"])
        else:
            for j, (m, L) in enumerate(FM): job("C16", "%s-k%d-mul%d" % (d, kap, j), "manakov.c", "h_fscatter", ["DIS=manakov_discretization_" + d, "SCH=%d" % MS[d][0], "SFX='%s'" % MS[d][1], "DEG=%d" % MS[d][2], "KAP=(%d)" % kap, "DIR=%d" % (j % 3), "LEN=%d" % L, "FT=1", "MUL=" + m] + (["SUZ", "OFS=4"] if d == "FTES4_suzuki" else []), reach=["fscatter"], args=["--noangle"], time=100 if d != "FTES4_suzuki" else 600, tier="thorough" if d == "FTES4_suzuki" and j in (2, 3) else "quick")
job("C16", "bad", "manakov.c", "h_bad", [], reach=["bad"])
# ---------------------------------------------------------------- C19 slow Manakov scattering
prop("C19", bounds="one to three steps of both slow discretizations, both signs of kappa; amplitude and frequency symbolic (real frequencies on a two-parameter family covering real and imaginary roots, complex frequencies on one-parameter families), lambda=0, vanishing root; five polarizations including one vanishing component, zero samples", outside="more steps; steps of different nonzero amplitude in the same run")
for cf in (0, 1):
    for kap in (1, -1):
        for mode in range(6):
            for dr in (0, 1, 2, 3): job("C19", "cf%d-k%d-mode%d-dir%d" % (cf, kap, mode, dr), "mscatter.c", "h_mscatter", ["CF=%d" % cf, "KAP=(%d)" % kap, "MODE=%d" % mode, "DIR=%d" % dr], reach=["mscatter"])
        for z in (-1, 0, 1): job("C19", "cf%d-k%d-D2-z%d" % (cf, kap, z), "mscatter.c", "h_mscatter", ["CF=%d" % cf, "KAP=(%d)" % kap, "MODE=2", "NS=2", "ZEROAT=(%d)" % z], reach=["mscatter"])
        job("C19", "cf%d-k%d-D3" % (cf, kap), "mscatter.c", "h_mscatter", ["CF=%d" % cf, "KAP=(%d)" % kap, "MODE=5", "NS=3", "ZEROAT=1", "DIR=1"], reach=["mscatter"])
        job("C19", "cf%d-k%d-several" % (cf, kap), "mscatter.c", "h_several", ["CF=%d" % cf, "KAP=(%d)" % kap], reach=["several"])
    job("C19", "bad-%d" % cf, "mscatter.c", "h_mbad", ["CF=%d" % cf], reach=["bad"])
# ---------------------------------------------------------------- C22 inverse scattering
prop("C22", bounds="2 and 4 samples in general position (amplitude and phase of up to two samples symbolic: |eps q| up to 1.25 radians, any phase in [-3,3]), zero samples, both signs of kappa; KdV with the modal discretization for every 1+eps^2 q in [0.25,2.25]; refusals for every discretization and unsupported sizes up to 40", outside="more samples; KdV 2SPLIT2A, whose inverse step is approximate by design (its tests allow relative errors of 4e-4)")
def fi(name, entry="h_roundtrip", reach="roundtrip", tier="quick", time=200, **d): job("C22", name, "finv.c", entry, ["%s=%s" % kv for kv in d.items()], reach=[reach], tier=tier, time=time, args=["--prune", "1e-14"] if entry == "h_roundtrip" else [])
for kap in (1, -1):
    for mod in (1, 0):
        b = dict(KAP="(%d)" % kap, MODAL=mod); n = "nse-k%d-m%d" % (kap, mod)
        fi(n + "-D2", **b); fi(n + "-D2z1", ZEROS=1, **b); fi(n + "-D2z2", ZEROS=2, **b); fi(n + "-D2z3", ZEROS=3, **b)
        for s in (1, 2, 4, 8): fi(n + "-D4s%d" % s, LEN=4, SYMS=s, **b)
        for s in (3, 5, 9, 6, 10, 12): fi(n + "-D4s%d" % s, LEN=4, SYMS=s, tier="thorough", time=600, **b)
        fi(n + "-D8", LEN=8, SYMS=4, **b)
        fi(n + "-D4z", LEN=4, SYMS=2, ZEROS=5, **b)
for v in (0,):
    b = dict(EQ=1, VANILLA=v, MODAL=1); n = "kdv-v%d" % v
    fi(n + "-D2", **b); fi(n + "-D2z1", ZEROS=1, **b); fi(n + "-D2z2", ZEROS=2, **b)
    for s in (1, 2, 4, 8): fi(n + "-D4s%d" % s, LEN=4, SYMS=s, **b)
for eq in (0, 1):
    fi("refuse-%d" % eq, "h_refuse", "refuse", EQ=eq); fi("sizes-%d" % eq, "h_sizes", "sizes", EQ=eq)

# ---- transforms
NSEFAM = ["2SPLIT2_MODAL", "2SPLIT2S", "2SPLIT4B", "4SPLIT4A", "4SPLIT4B", "2SPLIT3A"]
NSESLOW = ["BO", "CF4_2", "CF4_3", "CF5_3", "CF6_4", "ES4", "TES4"]
NSEALL = ["2SPLIT2_MODAL", "BO"] + ["2SPLIT" + x for x in "1A 1B 2A 2B 2S 3A 3B 3S 4A 4B 5A 5B 6A 6B 7A 7B 8A 8B".split()] + ["4SPLIT4A", "4SPLIT4B", "CF4_2", "CF4_3", "CF5_3", "CF6_4", "ES4", "TES4"]
def D(*xs): return "DISL=" + ",".join("nse_discretization_" + x for x in xs)
prop("C03", bounds="D in {2,3} (continuous spectra up to 5, slow schemes 4), M=2, *K_ptr<=3; every combination of the options (localization, filtering, output types, normalization, Richardson, niter, Dsub, tol), with and without each optional array, all 28 discretizations for continuous spectra, 6 families and all slow ones for discrete spectra, signals generic/zero/spike; the eigenvalue solver is replaced by a stub whose roots are symbolic (real part in [-0.7,0.7], imaginary part in [-2,4], so that every filter decision and every count is covered) or one of three fixed sets; grids symbolic for BO (and CF4_2)",
     outside="signals other than the listed ones (memory accesses depend on the signal only through counts of bound states), larger sizes, M=1, the Fortran eigenvalue solver")
job("C03", "cont", "nsev.c", "h_nsev", ["CONT"], reach=["nsev"])
job("C03", "cont-xi", "nsev.c", "h_nsev", ["CONT", "SYMXI", "NORM=0", "SIGS=1", "NS=2", D("BO", "CF4_2")], reach=["nsev"])
job("C03", "cont-all-2", "nsev.c", "h_nsev", ["CONT", "SIGS=1", D(*NSEALL)], reach=["nsev"])
job("C03", "cont-all-5", "nsev.c", "h_nsev", ["CONT", "SIGS=1", "NS=5", D(*NSEALL)], reach=["nsev"])
for loc in range(3):
    for filt in range(4): job("C03", "disc-l%d-f%d" % (loc, filt), "nsev.c", "h_nsev", ["LOC=%d" % loc, "FILT=%d" % filt], reach=["nsev"])
    for d in NSEFAM: job("C03", "disc-l%d-%s" % (loc, d), "nsev.c", "h_nsev", ["LOC=%d" % loc, "SIGS=1", "NS=3", "KMAX=2", "NORM=1", "NROOT=1", D(d)], reach=["nsev"], tier="quick" if loc == 0 or d in ("2SPLIT4B", "4SPLIT4B") else "thorough")
for d in NSESLOW: job("C03", "disc-l1-%s" % d, "nsev.c", "h_nsev", ["LOC=1", "NS=4", "NORM=0", "SIGS=1", D(d)], reach=["nsev"])

prop("C08", bounds="the k-th allocation fails, for every k that is reached (one failure per call), in calls of fnft_nsev, fnft_kdvv and fnft_manakovv with D in 2..4, M=2, *K_ptr<=2, all combinations of output types, localization, Richardson extrapolation, for discretizations of each family (fast, fast fourth order, slow, derivative based)",
     outside="several failing allocations in one call, larger sizes, Fortran code")
job("C08", "nsev-cont", "nsev.c", "h_nsev", ["ALLOCF=1", "CHK=2", "CONT", "SIGS=1", "NORM=1", "NS=4", D("2SPLIT2A", "4SPLIT4B", "CF4_2", "CF4_3", "TES4", "BO")], reach=["failed", "nofail"])
for loc in range(3): job("C08", "nsev-disc-l%d" % loc, "nsev.c", "h_nsev", ["ALLOCF=1", "CHK=2", "LOC=%d" % loc, "FILT=2", "SIGS=1", "NORM=1", "NS=3", "KMAX=2", "NROOT=0", D("2SPLIT2A", "4SPLIT4B")], reach=["failed", "nofail"])
job("C08", "nsev-disc-slow", "nsev.c", "h_nsev", ["ALLOCF=1", "CHK=2", "LOC=1", "SIGS=1", "NORM=1", "NS=3", "KMAX=1", D("CF4_2", "TES4", "BO")], reach=["failed", "nofail"])

KALL = [x + v for x in NSEALL for v in ("", "_VANILLA")]
def KD(*xs): return "DISL=" + ",".join("fnft_kdv_discretization_" + x for x in xs)
prop("C04", bounds="D in {2,3} (continuous spectra up to 5, slow schemes 4), M=2, *K_ptr<=3; every combination of the options (localization, filtering, output types, normalization, Richardson, niter, Dsub, tol), with and without each optional array, all 56 discretizations for continuous spectra, 9 families for discrete ones, signals positive/zero/spike/negative; grid spacing of the grid search symbolic in [0.2,1.5]; grids symbolic for BO (and CF4_2)",
     outside="signals other than the listed ones (memory accesses depend on the signal only through counts of bound states), larger sizes, M=1")
job("C04", "cont", "kdvv.c", "h_kdvv", ["CONT"], reach=["kdvv"])
job("C04", "cont-xi", "kdvv.c", "h_kdvv", ["CONT", "SYMXI", "NORM=0", "SIGS=1", "NS=2", KD("BO", "CF4_2_VANILLA")], reach=["kdvv"])
job("C04", "cont-all-2", "kdvv.c", "h_kdvv", ["CONT", "SIGS=1", KD(*KALL)], reach=["kdvv"])
job("C04", "cont-all-5", "kdvv.c", "h_kdvv", ["CONT", "SIGS=1", "NORM=1", "NS=5", KD(*KALL)], reach=["kdvv"], tier="thorough")
job("C04", "none", "kdvv.c", "h_kdvv", ["SIGS=1"], reach=["kdvv"])
for loc in range(2):
    job("C04", "disc-l%d" % loc, "kdvv.c", "h_kdvv", ["LOC=%d" % loc], reach=["kdvv"])
    for d in ("2SPLIT4B", "4SPLIT4B_VANILLA", "BO", "CF4_2", "CF4_3", "CF5_3_VANILLA", "CF6_4", "ES4", "TES4"): job("C04", "disc-l%d-%s" % (loc, d), "kdvv.c", "h_kdvv", ["LOC=%d" % loc, "SIGS=1", "NS=4", "NORM=1", KD(d)], reach=["kdvv"])

MANALL = "2SPLIT3A 2SPLIT3B 2SPLIT4A 2SPLIT4B 2SPLIT6B 4SPLIT4A 4SPLIT4B 4SPLIT6B FTES4_4A FTES4_4B FTES4_suzuki CF4_2 BO".split()
def MD(*xs): return "DISL=" + ",".join("fnft_manakov_discretization_" + x for x in xs)
prop("C05", bounds="D in {2,3} (continuous spectra up to 5, slow schemes 4), M=2, *K_ptr<=3; every combination of the options (localization, filtering, output types, normalization, Richardson, niter, Dsub, tol), with and without each optional array, all 13 discretizations, signals generic/zero/spike; the eigenvalue solver is replaced by a stub whose roots are symbolic (real part in [-0.7,0.7], imaginary part in [-2,4], so that every filter decision and every count is covered) or one of three fixed sets; grids symbolic for BO (and CF4_2)",
     outside="signals other than the listed ones (memory accesses depend on the signal only through counts of bound states), larger sizes, M=1, the Fortran eigenvalue solver")
job("C05", "cont", "manakovv.c", "h_manakovv", ["CONT"], reach=["manakovv"])
job("C05", "cont-xi", "manakovv.c", "h_manakovv", ["CONT", "SYMXI", "NORM=0", "SIGS=1", "NS=2", MD("BO")], reach=["manakovv"])
job("C05", "cont-all-2", "manakovv.c", "h_manakovv", ["CONT", "SIGS=1", MD(*MANALL)], reach=["manakovv"])
job("C05", "cont-all-4", "manakovv.c", "h_manakovv", ["CONT", "SIGS=1", "NORM=1", "NS=4", MD(*MANALL)], reach=["manakovv"])
job("C05", "none", "manakovv.c", "h_manakovv", ["SIGS=1"], reach=["manakovv"])
job("C05", "both", "manakovv.c", "h_manakovv", ["SIGS=1", "CONT", "DISC", "NORM=1", "NROOT=0", "NS=3", "SLOW=1"], reach=["manakovv"])
job("C05", "disc-wide", "manakovv.c", "h_manakovv", ["DISC", "WIDE", "SIGS=1", "NS=3", "NORM=1", "NROOT=0"], reach=["manakovv"])
for d in MANALL: job("C05", "disc-%s" % d, "manakovv.c", "h_manakovv", ["DISC", "SIGS=1", "NS=3", "NORM=1", "NROOT=1", "SLOW=%d" % (d in ("BO", "CF4_2")), MD(d)], reach=["manakovv"])

job("C08", "kdvv-cont", "kdvv.c", "h_kdvv", ["ALLOCF=1", "CHK=2", "CONT", "SIGS=1", "NORM=1", "NS=4", KD("2SPLIT2A", "4SPLIT4B_VANILLA", "CF4_2", "CF4_3_VANILLA", "TES4", "BO")], reach=["failed", "nofail"])
for loc in range(2): job("C08", "kdvv-disc-l%d" % loc, "kdvv.c", "h_kdvv", ["ALLOCF=1", "CHK=2", "LOC=%d" % loc, "SIGS=1", "NORM=1", "NS=3", "KMAX=2", KD("2SPLIT2A", "4SPLIT4B", "ES4")], reach=["failed", "nofail"])
job("C08", "manakovv-cont", "manakovv.c", "h_manakovv", ["ALLOCF=1", "CHK=2", "CONT", "SIGS=1", "NORM=1", "NS=3", MD("2SPLIT3A", "4SPLIT4B", "CF4_2", "BO")], reach=["failed", "nofail"])
job("C08", "manakovv-disc", "manakovv.c", "h_manakovv", ["ALLOCF=1", "CHK=2", "DISC", "SIGS=1", "NORM=1", "NS=2", "NROOT=0", "SLOW=1", MD("2SPLIT3A")], reach=["failed", "nofail"])
prop("C01", bounds="D in 2..4, M=2, all discretizations; every combination of the options (localization, filtering, output types, normalization, Richardson, niter, Dsub), successful calls, calls refused for their options or by the root finder, and calls with a single failing allocation at every position; options, default options, signal, interval and grid compared bitwise before/after",
     outside="larger sizes, other signals")
job("C01", "nsev-cont", "nsev.c", "h_nsev", ["CHK=1", "CONT", "SIGS=1", "NS=3", "NORM=1", D(*NSEALL)], reach=["nsev"])
for loc in range(3): job("C01", "nsev-disc-l%d" % loc, "nsev.c", "h_nsev", ["CHK=1", "LOC=%d" % loc, "SIGS=1", "KMAX=2", "NORM=1", "NS=3", "NROOT=0", "INFO", D("2SPLIT4B", "4SPLIT4B")], reach=["nsev"])
job("C01", "nsev-slow", "nsev.c", "h_nsev", ["CHK=1", "LOC=1", "SIGS=1", "KMAX=1", "NORM=1", "NS=4", "NROOT=0", D(*NSESLOW)], reach=["nsev"])
job("C01", "nsev-default", "nsev.c", "h_nsev", ["CHK=1", "CONT", "NULLOPTS", "NS=4"], reach=["nsev"])
job("C01", "nsev-default-disc", "nsev.c", "h_nsev", ["CHK=1", "CONT", "LOC=2", "FILT=2", "NULLOPTS", "NS=4", "SIGS=1", "NROOT=0", "NORM=1"], reach=["nsev"])
job("C01", "nsev-alloc", "nsev.c", "h_nsev", ["ALLOCF=1", "CHK=1", "LOC=2", "FILT=2", "SIGS=1", "NORM=1", "NS=3", "KMAX=1", "NROOT=0"], reach=["failed", "nofail"])
job("C01", "kdvv-cont", "kdvv.c", "h_kdvv", ["CHK=1", "CONT", "SIGS=1", "NS=3", "NORM=1", KD(*KALL)], reach=["kdvv"])
for loc in range(2): job("C01", "kdvv-disc-l%d" % loc, "kdvv.c", "h_kdvv", ["CHK=1", "LOC=%d" % loc, "NORM=1", "NS=3", KD("2SPLIT4B", "4SPLIT4B_VANILLA", "ES4")], reach=["kdvv"])
job("C01", "kdvv-default", "kdvv.c", "h_kdvv", ["CHK=1", "CONT", "LOC=0", "NULLOPTS", "NS=4", "SIGS=1", "NORM=1"], reach=["kdvv"])
job("C01", "kdvv-alloc", "kdvv.c", "h_kdvv", ["ALLOCF=1", "CHK=1", "LOC=1", "SIGS=1", "NORM=1", "NS=3", "KMAX=1"], reach=["failed", "nofail"])
job("C01", "manakovv-cont", "manakovv.c", "h_manakovv", ["CHK=1", "CONT", "SIGS=1", "NS=2", "NORM=1", MD(*MANALL)], reach=["manakovv"])
job("C01", "manakovv-disc", "manakovv.c", "h_manakovv", ["CHK=1", "DISC", "SIGS=1", "NORM=1", "NS=3", "NROOT=0", "INFO", "SLOW=1", MD("2SPLIT3A")], reach=["manakovv"])
job("C01", "manakovv-default", "manakovv.c", "h_manakovv", ["CHK=1", "CONT", "DISC", "NULLOPTS", "NS=2", "SIGS=1", "NROOT=0", "NORM=1", "SLOW=1"], reach=["manakovv"])
job("C01", "manakovv-alloc", "manakovv.c", "h_manakovv", ["ALLOCF=1", "CHK=1", "CONT", "SIGS=1", "NORM=1", "NS=2", MD("BO")], reach=["failed", "nofail"])

# ---------------------------------------------------------------- C06 periodic NSE
NSEPALL = ["2SPLIT1A", "2SPLIT1B", "2SPLIT2A", "2SPLIT2B", "2SPLIT2S", "2SPLIT2_MODAL", "2SPLIT3A", "2SPLIT3B", "2SPLIT3S", "2SPLIT4A", "2SPLIT4B", "2SPLIT5A", "2SPLIT5B", "2SPLIT6A", "2SPLIT6B", "2SPLIT8A", "2SPLIT8B", "4SPLIT4A", "4SPLIT4B"]
prop("C06", bounds="D=2 (all 19 supported splittings with D=4 in the thorough tier), *K_ptr<=3, *M_ptr<=2; all localizations and filterings, bounding boxes finite and automatic, phase shift zero or not, normalization, points per spine 1..3 (0..2), tolerances, subsampling, with and without each of the two outputs, both kappas; the eigenvalue solver is a stub whose roots are symbolic (real and imaginary part in [-2,2], covering every filter decision and count) when no refinement is requested, one of two fixed sets otherwise",
     outside="signals other than the listed ones (generic and alternating; accesses depend on the signal only through counts of spectrum points), larger sizes, the Fortran eigenvalue solver")
for f in range(3):
    job("C06", "sub-sym-f%d" % f, "nsep.c", "h_nsep", ["LOC=0", "SYM", "KMAX=2", "FILT=%d" % f, "NROOT=%d" % (2 if f == 1 else 1)], reach=["nsep", "main"])
    job("C06", "sub-f%d" % f, "nsep.c", "h_nsep", ["LOC=0", "KMAX=2", "FILT=%d" % f], reach=["nsep", "main", "aux"])
    job("C06", "newton-f%d" % f, "nsep.c", "h_nsep", ["LOC=1", "KMAX=2", "FILT=%d" % f, D("2SPLIT2A", "BO", "CF4_2")], reach=["nsep", "main", "aux"])
    job("C06", "grid-f%d" % f, "nsep.c", "h_nsep", ["LOC=2", "KMAX=3", "SIGA=1", "FILT=%d" % f], reach=["nsep", "main", "aux"])
    job("C06", "mixed-f%d" % f, "nsep.c", "h_nsep", ["LOC=3", "KMAX=2", "SIGA=1", "FILT=%d" % f], reach=["nsep", "main", "aux"])
job("C06", "all", "nsep.c", "h_nsep", ["LOC=0", "KMAX=2", "FILT=1", "NS=4", D(*NSEPALL)], reach=["nsep", "main", "aux"], tier="thorough")
job("C08", "nsep-sub", "nsep.c", "h_nsep", ["ALLOCF=1", "LOC=0", "KMAX=1", "FILT=1", "INFO"], reach=["failed", "nofail"])
job("C08", "nsep-newton", "nsep.c", "h_nsep", ["ALLOCF=1", "LOC=1", "KMAX=1", "FILT=1", D("BO", "CF4_2")], reach=["failed", "nofail"])
job("C08", "nsep-mixed", "nsep.c", "h_nsep", ["ALLOCF=1", "LOC=3", "KMAX=1", "FILT=2", "SIGA=1"], reach=["failed", "nofail"])
for loc in range(5): job("C01", "nsep-l%d" % loc, "nsep.c", "h_nsep", ["CHK=1", "LOC=%d" % loc, "KMAX=1"] + (["SIGA=1"] if loc > 1 else []) + (["INFO"] if loc == 0 else []) + ([D("2SPLIT2A", "BO")] if loc == 1 else []), reach=["nsep"])
job("C01", "nsep-default", "nsep.c", "h_nsep", ["CHK=1", "LOC=0", "KMAX=1", "NULLOPTS"], reach=["nsep"])
job("C01", "nsep-alloc", "nsep.c", "h_nsep", ["ALLOCF=1", "CHK=1", "LOC=3", "KMAX=1", "FILT=2", "SIGA=1"], reach=["failed", "nofail"])

# ---------------------------------------------------------------- C07 inverse NSE
prop("C07", bounds="D in {2,4} (8 in the thorough tier), M in {D,D+2,D+4}, K<=2 (3), all values of the continuous spectrum type, inversion method and discrete spectrum type including invalid ones, both discretizations, oversampling factor 8, 1 and 0, at most 2 iterations, both kappas; with and without each of the two spectra; the number, order and size of all memory accesses, leaks, and initialization of the D samples",
     outside="other values of the spectra than the fixed ones (the accesses do not depend on them except through convergence of the iteration), larger sizes")
job("C07", "d2", "nsevinv.c", "h_nsevinv", [], reach=["inv", "both"])
job("C07", "d2-sym", "nsevinv.c", "h_nsevinv", ["SYM", "KMAX=1", "NOCONT"], reach=["inv"])
job("C07", "d4", "nsevinv.c", "h_nsevinv", ["NS=4"], reach=["inv", "both"])
job("C07", "d8", "nsevinv.c", "h_nsevinv", ["NS=8", "KMAX=3"], reach=["inv", "both"], tier="thorough")
job("C01", "nsevinv", "nsevinv.c", "h_nsevinv", ["CHK=1"], reach=["inv"])
job("C01", "nsevinv-default", "nsevinv.c", "h_nsevinv", ["CHK=1", "NULLOPTS"], reach=["inv"])
job("C08", "nsevinv", "nsevinv.c", "h_nsevinv", ["ALLOCF=1", "KMAX=1"], reach=["failed", "nofail"])

# ---------------------------------------------------------------- C02 invalid arguments
prop("C02", bounds="each transform and nsev_inverse_XI, one violated precondition at a time with all other arguments valid (D=2, M=2; D=M=4 for the inverse transform): D below two (for nsep and the inverse transform every D up to 100000 that is not a power of two), every pair of doubles (NaN and infinities included) that is not an increasing interval for T and XI, all wrong kappa values, missing arrays and counters, odd or too small M, every non-positive or NaN imaginary part of a bound state, every complex potential and every invalid guess for KdV, unknown discretizations, sheet indices, filtering without main spectrum: refused with a nonzero code before the first memory request with all outputs bitwise unchanged; every option value in [-100,-5] and [5,100] for localization, filtering, spectrum types and inversion method, repeated bound states among three: nonzero code and no leak", outside="several violated preconditions at once, infinite interval ends that are ordered, preconditions the code documents as ignored (bound state localization for fast Manakov discretizations), outputs after an option value was refused late")
for t in ("nsev", "kdvv", "manakovv", "nsep", "inv", "invxi"): job("C02", t, "inval.c", "h_" + t, [], fp="ieee", reach=["refused"])
job("C02", "opts", "inval.c", "h_opts", [], reach=["refused"])

# ---------------------------------------------------------------- C30 periodic NSE polynomials
prop("C30", bounds="subsample-and-refine: D in {2,4,8}, Dsub in {2,4}, both kappas, 1..3 points per spine, every Floquet range with -1<=f0<=-1/4, 1/4<=f1<=1, with and without main and auxiliary spectrum; 2SPLIT2_MODAL and 2SPLIT2A with one sample (MODAL: both of two) arbitrary (modulus parameter w in [0.125,1.25], any phase), all other splittings of degree <= 12 and 4SPLIT4A/B with fixed samples and with normalization; phase shifts 0, 1.5, -0.75; first delivered root any point of the unit circle with frequency in [-1,1]; manual filter with two arbitrary roots and any box, capacities 0..3 and 0..2, phase shift 0 and 1.25; Newton: guesses anywhere in the unit box and any phase shift in [-3,3] without iterations", outside="refinement (it changes the points to other roots of the same equation), grid search (C33), automatic filter box, splittings 5A, 5B, 6A, 8A, rounding")
for m in range(2): job("C30", "poly-%s" % ("modal" if m else "2a"), "nseppoly.c", "h_poly", ["MODAL=%d" % m], reach=["main", "aux"])
job("C30", "sub", "nseppoly.c", "h_poly", ["NS=4", "SUB=2"], reach=["main", "aux"])
job("C30", "two-modal", "nseppoly.c", "h_poly", ["MODAL=1", "SYMS=3"], reach=["main", "aux"])
job("C30", "four-modal", "nseppoly.c", "h_poly", ["MODAL=1", "SYMS=1", "NS=4"], reach=["main", "aux"])
job("C30", "eight-sub", "nseppoly.c", "h_poly", ["MODAL=1", "SYMS=2", "NS=8", "SUB=4"], reach=["main", "aux"])
job("C30", "phase", "nseppoly.c", "h_poly", ["MODAL=1", "SYMS=0", "PHASE=1.5"], reach=["main", "aux"])
job("C30", "phase4", "nseppoly.c", "h_poly", ["MODAL=1", "SYMS=0", "PHASE=-0.75", "NS=4", "SUB=2"], reach=["main", "aux"])
for d in NSEPALL:
    if d[0] == "4": job("C30", "norm-%s" % d, "nseppoly.c", "h_poly", ["SYMS=0", "NORM=1", "NS=4", "UP=2", "MAXDEG=%d" % (32 if d[-1] == "A" else 16), "DIS=nse_discretization_%s" % d], reach=["main", "aux"])
    elif d not in ("2SPLIT5A", "2SPLIT5B", "2SPLIT8A", "2SPLIT6A"): job("C30", "norm-%s" % d, "nseppoly.c", "h_poly", ["SYMS=0", "NORM=1", "MAXDEG=24", "DIS=nse_discretization_%s" % d], reach=["main", "aux"])
for p in (0, 1.25): job("C30", "filter%d" % p, "nseppoly.c", "h_filt", ["PHASE=%g" % p], reach=["filt"])
job("C30", "newton", "nseppoly.c", "h_newton", [], reach=["newton"])

# ---------------------------------------------------------------- C34 filters
prop("C34", bounds="NSE: two samples (two signals), 2SPLIT2A, both delivered roots arbitrary with frequency in [-3,3] x [-1/2,2]i, all four filters, any box with b0 in [-2,1/2], b1 in [5/8,2], b3 in [0,3/4] for the manual one, capacities deg, deg-1, deg-2 and 2 deg; three samples with a repeated root; 2SPLIT4B (full filter) and 4SPLIT4B (basic) with one arbitrary root; Manakov 2SPLIT4B, no and basic filter, one arbitrary root out of eight", outside="roots within 1e-6 of the border of the filter or of each other (except exactly repeated ones); the box of the full filter for discretizations that resample the signal; Manakov full filter (documented as not implemented)")
for f in range(4): job("C34", "nsev-f%d" % f, "filt.c", "h_filt", ["FILT=%d" % f], reach=["filt"])
for f in range(2): job("C34", "manakovv-f%d" % f, "filt.c", "h_filt", ["FILT=%d" % f, "NR=1", "MAN=1", "D1=4", "DIS=fnft_manakov_discretization_2SPLIT4B"], reach=["filt"])
job("C34", "nsev-dup", "filt.c", "h_filt", ["FILT=1", "NS=3", "DUP=1"], reach=["filt"])
job("C34", "nsev-up", "filt.c", "h_filt", ["FILT=1", "NS=3", "NR=1", "D1=4", "DIS=nse_discretization_4SPLIT4B"], reach=["filt"])
job("C34", "nsev-deg", "filt.c", "h_filt", ["FILT=2", "NS=2", "NR=1", "D1=2", "DIS=nse_discretization_2SPLIT4B"], reach=["filt"])

# ---------------------------------------------------------------- C29 solitons
prop("C29", bounds="one bound state out of three (real parts 0.25, -0.375, 0.5), norming constant any complex number in [-2,2]^2 with modulus >= 1/4, four samples on T=[-1,1], given as norming constant or residue, without continuous spectrum or on top of an explicitly given zero seed potential: equal to the closed-form one-soliton to 1e-9 (real arithmetic); two bound states in both orders, norming constants or residues, one of the two norming constants u*(0.625-0.75i) or 0.5+u*i for all u in [0.25,2], four samples on T=[0,1]: equal signals to 1e-6", outside="defocusing kappa and continuous spectra (C07 covers safety only), three and more bound states, other eigenvalues, both norming constants symbolic at once; rounding")
job("C29", "one", "soliton.c", "h_one", [], reach=["one"])
job("C29", "order", "soliton.c", "h_order", ["NS=4", "TOL=1e-6", "TA=0", "TB=1"], reach=["order"])
# ---------------------------------------------------------------- C23, C24, C27 continuous spectra
prop("C23", bounds='fnft_nsev continuous spectrum, both kappas. All 2SPLIT* schemes, MODAL and BO against the product of the physical per-sample step operators written down from their definitions: D=2 with the first sample any complex number in [0.25,1]+[-0.75,0.75]i (one-parameter family q = x(1-0.75i) for polynomial degree > 4), D=3 with a vanishing sample for degree <= 6, two or three grid points of grids that are not centred at zero, all three output types, normalization on for degree <= 2 (narrow amplitude range); the same schemes and 4SPLIT4A/B, CF4_2, CF4_3, CF5_3, CF6_4, ES4, TES4 (against the slow scattering matrix, grid independence, order of outputs, rho*a = b) for one concrete signal and every start time in [-2,2]. Degree 105 (7A, 7B) in the thorough tier only', outside='more samples; symbolic signals for the discretizations that resample or use several exponentials per step; one-point grids; BO defocusing frequencies at which the square root vanishes; rounding')
prop("C24", bounds='fnft_kdvv continuous spectrum, q = (s*s, const), s in [0.5,1.25], both bases (with and without VANILLA) of all 2SPLIT* schemes, MODAL, BO against the product of physical step operators; D=3 with a vanishing sample for degree <= 6; normalization on for degree <= 4 (narrow range); the remaining discretizations for one concrete signal and every start time in [-2,2]', outside='more samples; symbolic signals for resampling or multi-exponential discretizations; negative samples; xi = 0; one-point grids; rounding')
prop("C27", bounds='fnft_nsev with the unitary schemes: MODAL, BO, 1A, 1B, 2A, 2B with a symbolic first sample at fixed frequencies, ES4 and TES4 for a concrete signal and every first grid frequency in [1.5,2.5]; fnft_manakovv with BO, three polarization directions, symbolic amplitude; both kappas', outside='CF4_2 and CF4_3 (expressions too large); the other splittings, whose symmetrization is not unitary; more samples; rounding')
def cont(pid, name, dis, eq, n, s, tier="quick", time=200, args=(), **d):
    job(pid, name, "contspec.c", "h_cont", ["DIS=" + dis, "EQ=%d" % eq, "SCH=%d" % n, "SFX='%s'" % s] + ["%s=%s" % (k, v) for k, v in d.items()], tier=tier, reach=["cont"], time=time, args=list(args))
SPC = [(m, n, s, deg) for m, (n, s, deg) in SPL.items() if m[0] == "2"] + [("BO", 1000, "B", 0)]
CSLOW = {"CF4_2": 2, "CF4_3": 3, "CF5_3": 3, "CF6_4": 4, "ES4": 3, "TES4": 3}
for m, n, s, deg in SPC:
    bo = m == "BO"; t = "thorough" if deg > 24 else "quick"; ti = 200 if deg <= 24 else 800
    for kap in (1, -1):
        x = dict(KAP="(%d)" % kap)
        if deg > 4: x["ONE"] = 1
        if bo and kap < 0: cont("C23", "BO-k-1-imag", "nse_discretization_BO", 0, n, s, X0="(-0.1875)", X1="0.125", **x); x.update(X0="1.5", X1="2.5")
        cont("C23", "%s-k%d" % (m, kap), "nse_discretization_" + m, 0, n, s, t, ti, **x)
        if deg <= 6: cont("C23", "%s-k%d-D3" % (m, kap), "nse_discretization_" + m, 0, n, s, LEN=3, ZEROAT=1, NPT=2, **x)
        if deg <= 2 and not bo: cont("C23", "%s-k%d-N" % (m, kap), "nse_discretization_" + m, 0, n, s, NORMF=1, NARROW=1, NPT=2, **dict(x, ONE=1))
        cont("C23", "%s-k%d-T" % (m, kap), "nse_discretization_" + m, 0, n, s, t, ti, CONC=1, T0SYM=1, NPT=2, **x)
    for eq, v in ((2, "_VANILLA"), (3, "")):
        cont("C24", "%s%s" % (m, v), "kdv_discretization_" + m + v, eq, n, s, t, ti)
        if deg <= 6: cont("C24", "%s%s-D3" % (m, v), "kdv_discretization_" + m + v, eq, n, s, LEN=3, ZEROAT=1, NPT=2)
        if deg <= 4 and m != "2SPLIT4A": cont("C24", "%s%s-N" % (m, v), "kdv_discretization_" + m + v, eq, n, s, NORMF=1, NARROW=1, NPT=2)
        cont("C24", "%s%s-T" % (m, v), "kdv_discretization_" + m + v, eq, n, s, t, ti, CONC=1, T0SYM=1, NPT=2)
for kap in (1, -1):
    for m, n, s, deg in [("4SPLIT4A", 4, "A", 4), ("4SPLIT4B", 4, "B", 2)]: cont("C23", "%s-k%d-T" % (m, kap), "nse_discretization_" + m, 0, n, s, UPS=2, LEN=3, ALLS=1, CONC=1, T0SYM=1, KAP="(%d)" % kap, NPT=2)
    for m in CSLOW: cont("C23", "%s-k%d-T" % (m, kap), "nse_discretization_" + m, 0, 4, "A", SLOW=1, UPS=CSLOW[m], LEN=3, ALLS=1, CONC=1, T0SYM=1, KAP="(%d)" % kap, NPT=2)
for m in list(CSLOW) + ["4SPLIT4A", "4SPLIT4B"]:
    for eq, v in ((2, "_VANILLA"), (3, "")): cont("C24", "%s%s-T" % (m, v), "kdv_discretization_" + m + v, eq, 4, "A", NOREF=1, LEN=3, NPT=2, CONC=1, T0SYM=1)
for m in ["2SPLIT2_MODAL", "BO", "2SPLIT1A", "2SPLIT1B", "2SPLIT2A", "2SPLIT2B", "ES4", "TES4"]:
    for kap in (1, -1): cont("C27", "%s-k%d" % (m, kap), "nse_discretization_" + m, 0, 4, "A", ENERGY=1, LEN=2 if m[0] in "2B" else 3, KAP="(%d)" % kap, NPT=2, X0="1.5", X1="2.5", **({} if m[0] in "2B" else dict(CONC=1, XISYM=1)))
# ---------------------------------------------------------------- C25 Manakov continuous spectra
prop("C25", bounds='fnft_manakovv continuous spectrum, q = s*direction, s in [0.25,1], three directions including vanishing components, both kappas, 2SPLIT3A/3B/4A/4B/6B and BO against the product of physical 3x3 step operators; these and 4SPLIT4A/4B/6B, CF4_2, FTES4_4A, FTES4_suzuki for one concrete signal and every start time in [-2,2] (polarization swap, grid independence, order of outputs, rho*a = b)', outside='more samples; general polarization per sample; symbolic signals for resampling discretizations; FTES4_4B (refused by the code); rounding')
def mcont(name, dis, n, s, tier="quick", time=200, pid="C25", args=(), **d):
    job(pid, name, "mcont.c", "h_mcont", ["DIS=manakov_discretization_" + dis, "SCH=%d" % n, "SFX='%s'" % s] + ["%s=%s" % (k, v) for k, v in d.items()], tier=tier, reach=["mcont"], time=time, args=list(args))
for m, n, s in [("2SPLIT3A", 3, "A"), ("2SPLIT3B", 3, "B"), ("2SPLIT4A", 4, "A"), ("2SPLIT4B", 4, "B"), ("2SPLIT6B", 6, "B"), ("BO", 1000, "B")]:
    for kap in (1, -1):
        x = dict(KAP="(%d)" % kap, REF=1); 
        if m == "BO": x.update(X0="1.5", X1="2.5")
        for dr in (0, 1, 2): mcont("%s-k%d-dir%d" % (m, kap, dr), m, n, s, DIR=dr, args=["--noangle"] if m != "2SPLIT3A" else [], **x)
        mcont("%s-k%d-T" % (m, kap), m, n, s, CONC=1, T0SYM=1, **x)
for kap in (1, -1):
    for m in ["4SPLIT4A", "4SPLIT4B", "4SPLIT6B", "CF4_2", "FTES4_4A", "FTES4_suzuki"]: mcont("%s-k%d-T" % (m, kap), m, 4, "A", LEN=4, CONC=1, T0SYM=1, KAP="(%d)" % kap)
for kap in (1, -1):
    for dr in (0, 1, 2): mcont("manakov-BO-k%d-dir%d" % (kap, dr), "BO", 1000, "B", pid="C27", ENERGY=1, KAP="(%d)" % kap, DIR=dr, X0="1.5", X1="2.5")
# ---------------------------------------------------------------- C26 Richardson extrapolation
prop("C26", bounds='fnft_nsev, fnft_kdvv, fnft_manakovv continuous spectrum with extrapolation against the weighted combination of two plain runs: D=4 (also 5, 6 for BO and 2SPLIT2A), one sample symbolic, all output types, order-2 schemes; order-4 schemes CF4_2 (constant signal of symbolic amplitude D=6, concrete with every start time D=7) and 4SPLIT4A/B (constant signal, every start time); a grid that contains a point beyond the validity limit 0.9 pi/(2 eps_sub), where the plain value must be kept', outside='D=2 (the sub-sampled grid is the grid itself); ES4, TES4, CF4_3, CF5_3, CF6_4; non-constant signals for resampling discretizations; the discrete spectrum (C28)')
def rich(name, eq, dis, order, L, ty, time=200, tier="quick", **d):
    job("C26", name, "rich.c", "h_rich", ["EQ=%d" % eq, "DIS=" + dis, "ORD=%d" % order, "LEN=%d" % L, "TYP=%d" % ty] + ["%s=%s" % (k, v) for k, v in d.items()], tier=tier, reach=["rich"], time=time, args=["--noangle"])
for m in ["2SPLIT2_MODAL", "BO", "2SPLIT1A", "2SPLIT2A", "2SPLIT2S", "2SPLIT3A", "2SPLIT4B"]:
    for L in (4, 5, 6) if m in ("2SPLIT2A", "BO") else (4,):
        for ty in (0, 1, 2) if m in ("2SPLIT2A", "BO") and L == 4 else (0,) if m == "BO" or m[6] in "12" else (2,):
            for kap in (1, -1): rich("nse-%s-k%d-D%d-t%d" % (m, kap, L, ty), 0, "nse_discretization_" + m, 2, L, ty, KAP="(%d)" % kap)
            for v in ("_VANILLA", ""): rich("kdv-%s%s-D%d-t%d" % (m, v, L, ty), 1, "kdv_discretization_" + m + v, 2, L, ty)
for m in ["BO", "2SPLIT3A", "2SPLIT4B"]:
    for L in (4, 5, 6) if m == "BO" else (4,):
        for ty in (0, 1, 2) if m == "BO" and L == 4 else (2,):
            for kap in (1, -1): rich("man-%s-k%d-D%d-t%d" % (m, kap, L, ty), 2, "manakov_discretization_" + m, 2, L, ty, KAP="(%d)" % kap)
for m in ["CF4_2", "4SPLIT4B", "4SPLIT4A"]:
    for L in (6, 7):
        if L == 7 and m != "CF4_2": continue
        for kap in (1, -1):
            rich("nse-%s-k%d-D%d-const" % (m, kap, L), 0, "nse_discretization_" + m, 4, L, 2, KAP="(%d)" % kap, CONST=1, **({} if m == "CF4_2" and L == 6 else dict(T0SYM=1)))
            rich("man-%s-k%d-D%d-const" % (m, kap, L), 2, "manakov_discretization_" + m, 4, L, 2, KAP="(%d)" % kap, CONST=1, **({} if m == "CF4_2" and L == 6 else dict(T0SYM=1)))
        for v in ("_VANILLA", ""): rich("kdv-%s%s-D%d-const" % (m, v, L), 1, "kdv_discretization_" + m + v, 4, L, 2, CONST=1, **({} if m == "CF4_2" and L == 6 else dict(T0SYM=1)))
# ---------------------------------------------------------------- C28 NSE discrete spectrum
prop("C28", bounds='fnft_nsev with Newton localization, two guesses. Newton: every tolerance in [0,1], every box edge in [-1,2] or no filter, 0..3 iterations, one concrete signal (D=3), every discretization family, with and without normalization, against a reference loop over nse_scatter_bound_states (itself decided by C18); one step from a guess proportional to a symbolic amplitude (BO based schemes). Norming constants, residues and their order for every start time in [-1,1] ([-1/16,0] with normalization), guesses unrefined; the same with Richardson extrapolation (D=4), distinct and coinciding guesses, all output types, and with refinement for every tolerance', outside='symbolic signals for norming constants (branches of the best splitting point); more guesses; more iterations; fast eigenvalue localization (C34 and C03 cover its bookkeeping); rounding')
def ds(name, entry, dis, base=None, tier="quick", time=200, reach=None, **d):
    job("C28", name, "dspec.c", entry, ["DIS=nse_discretization_" + dis] + (["BASE=nse_discretization_" + base] if base else []) + ["%s=%s" % (k, v) for k, v in d.items()], tier=tier, time=time, reach=reach or [entry[2:]])
for m in ("BO", "2SPLIT2A", "2SPLIT4B", "2SPLIT2_MODAL"):
    for g in (1, 4): ds("step-%s-%d" % (m, g), "h_step", m, "BO", G0=g, LEN=3)
for m, b in (("BO", "BO"), ("2SPLIT2A", "BO"), ("CF4_2", "CF4_2"), ("4SPLIT4B", "CF4_2"), ("4SPLIT4A", "CF4_2"), ("CF4_3", "CF4_3"), ("CF5_3", "CF5_3"), ("CF6_4", "CF6_4"), ("ES4", "ES4"), ("TES4", "TES4")):
    ds("types-%s-T" % m, "h_types", m, b, T0SYM=1)
    if m not in ("CF4_3", "CF5_3", "CF6_4"): ds("types-%s-TN" % m, "h_types", m, b, T0SYM=1, NORM=1)
    ds("newton-%s" % m, "h_newton", m, b); ds("newton-%s-N" % m, "h_newton", m, b, NORM=1)
for m in ("BO", "2SPLIT2A", "2SPLIT6B"):
    for x in (dict(), dict(NORM=1)):
        if not x: ds("rich-%s" % m, "h_richds", m, "BO", reach=["matched"])
        ds("rich-%s%s-refine" % (m, "-N" if x else ""), "h_richds", m, "BO", NIT=2, reach=["matched"], **x)
# ---------------------------------------------------------------- C33 grid search for polynomial roots
prop("C33", bounds='poly_roots_fftgridsearch, degree 2 and 3, 3 grid points (4 in part): one root anywhere on four straight lines through the cell within two grid spacings of the center, the other roots far away; degree 2, 3 with 3 or 5 points: root within 0.19 grid spacings of an interior grid point along the same lines. poly_roots_fftgridsearch_paraherm: degree 2 and 4, 2..4 grid points, real middle coefficient in [-2,2] and imaginary part of one coefficient in [-1,1] symbolic, values at grid points at least 1e-3 in modulus', outside='higher degrees and finer grids; several roots in one cell; para-hermitian polynomials that vanish exactly at a grid point')
LINES = [dict(DX=1, DY=0, OX=0, OY=0), dict(DX=0, DY=1, OX=0, OY=0), dict(DX="0.5", DY=1, OX="0.125", OY="(-0.0625)"), dict(DX=1, DY="(-0.75)", OX="(-0.0625)", OY="0.1875")]
for li, ln in enumerate(LINES):
    l = ["%s=%s" % kv for kv in ln.items()]
    for dg in (2, 3):
        for nph in (3, 4): job("C33", "grid-%d-%d-%d" % (dg, nph, li), "grid.c", "h_grid", ["DEG=%d" % dg, "NPH=%d" % nph] + l, reach=["some", "none"], tier="thorough" if nph == 4 and li in (1, 2) else "quick", time=400)
        for nph, at in ((3, 1), (5, 1), (5, 2), (5, 3)): job("C33", "inside-%d-%d-%d-%d" % (dg, nph, at, li), "grid.c", "h_grid", ["DEG=%d" % dg, "NPH=%d" % nph, "INSIDE=%d" % at, "RAD=0.1875"] + l, reach=["inside"])
for dg in (2, 4):
    for nph in (2, 3, 4): job("C33", "paraherm-%d-%d" % (dg, nph), "grid.c", "h_paraherm", ["DEG=%d" % dg, "NPH=%d" % nph, "P0=(-1.5)", "P1=1.75"], reach=["roots", "noroots"])
