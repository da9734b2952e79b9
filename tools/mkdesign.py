#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written text below plus, per property, statement, harness, jobs, bounds and planted bugs taken from the machinery itself."""
import json, os, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
HEAD = """# Solver-based checking of FNFT

(Generated by tools/mkdesign.py; the text is in that file, the lists come from checks.py, properties.jsonl, known_findings.json and seeded/.)

## Method
Every property is decided by one technique: symbolic execution of the real code at LLVM-IR level with z3.

* On every run `/repo/src` (working tree) is compiled to LLVM bitcode with clang -O0, so that undefined behaviour is still
  visible, linked with a C harness from `harness/`, and executed by our own engine (`engine/fsym.cpp`, `engine/poly.cpp`; LLVM
  C++ API + GMP + z3). `engine/bin/fsym-<sha>` is the compiled engine for exactly that source; it is rebuilt if the hash differs.
* Symbolic are: signal samples, frequencies, times, bounding boxes, tolerances, polynomial coefficients, option choices, sizes,
  the roots delivered by the (Fortran) root finder, and which allocation fails. Where a branch is not decided, the engine asks
  the solver which sides are feasible and explores both; each path ends by discharging the harness's assertions for all values.
* Built-in obligations on every path: every load, store, memcpy and free is in bounds and initialized (objects are byte
  addressed, with an initialization map), no division by an integer zero, no leak (`vf_leak`), no use after free.
* Three floating point domains, chosen per job:
  - `real`: exact rational functions over GMP rationals in the symbols and in atoms for cos, sin, exp, sqrt, csqrt of symbolic arguments
    with their algebraic relations (Pythagoras, angle addition and half angles, s*s = x). Doubles in the code are the rationals they
    are; concrete subexpressions of transcendental functions are evaluated in long double. Closeness assertions are discharged
    by clearing denominators and bounding the remaining polynomial: coefficients that are pure rounding noise are bounded over the symbols'
    box, anything else goes to z3's nonlinear arithmetic.
  - `ieee`: bit-precise IEEE-754 in z3 (filters, comparisons, NaN and infinity handling).
  - `abs`: IEEE comparisons exact, arithmetic uninterpreted, for structural properties.
* Roots and quotients: a harness may state what a complex square root or a quotient is (`vf_csqrt_hint`, `vf_hint`); the engine uses the
  hint only after it has verified the defining equation, so a wrong hint costs completeness, never soundness. Signals are
  parametrized so that these are rational (e.g. sample = s*s, or lambda and k from a Gaussian-rational pair).
* `--prune 1e-14` drops monomials of FFT noise size, accounted for in the tolerance.
* A violation is reported only if the same harness, compiled natively (-O0) together with the real code, fails
  on the solver's values too; `replay` files contain these values. A solver model that does not fail natively is listed as a "candidate" note,
  and the job counts as not discharged. This is also why a behaviour-preserving edit cannot raise an alarm by confusing the engine.
* Each job runs sampled native executions of the harness as well (`validated` in the evidence): the engine's concrete result has to
  agree with the compiled code. This guards the encoding; it decides nothing.
* The root finder (EISCOR) is Fortran and outside the encoding. Its contract (deg arbitrary complex numbers and a status) is a symbolic stub.

`run.py Cxx --tier quick|thorough` runs all jobs of a property in parallel, writes `evidence/Cxx.json` (functions encoded, bounds,
paths, assertions, queries, solver time, notes on anything left undecided) and exits 1 with a VIOLATION line on a confirmed one. Jobs
also name witnesses (`vf_reach`) that have to be reached, so that a harness cannot pass by assuming everything away.

## What rounding means here
In the `real` domain the claim is about the exact-arithmetic value of the code's formulas with its actual double constants, within 1e-7 or
better. Accumulated rounding errors are outside; tests and sampled validation runs cover them to their extent. Infinities, NaN and signed zeros are
covered in `ieee` jobs only.

## Design decisions worth knowing
* C03-C07 (sizes), C08 (allocation failures): memory checks run the complete transforms with concrete signal classes (generic, zero, constant) and symbolic
  options, capacities, roots and allocation failures. The control flow that decides sizes does not depend on sample values otherwise.
* C02: with `vf_allocfail(1)` an unchecked precondition shows up as an E_NOMEM instead of the argument error, so no heavy computation has to be executed.
* C15, C16, C17, C19, C23-C25: oracles are the splitting formulas and matrix exponentials written down independently in the harness (`SPL` table), not the code's.
* C18: KdV `b` is NaN when no sample is suitable for matching (positive values needed); the harness accepts NaN there and only there.
* C22: finvscatter is checked as left inverse of fscatter with the samples parametrized so that the peeled quotient is exact.
* C26: D = 2 is outside: the subsampled signal is the signal itself and the ratio is 1 (0/0 in the code; documented sizes exclude nothing, recorded as a remark).
* One-point grids (M = 1) have no documented grid spacing; outside.
* C29: K = 3 order jobs and seeds with continuous spectrum are not claimed.
* C30: filter NONE together with the default infinite box and grid search is refused by the code; accepted.
* C32: for even D the code maps the Nyquist bin to negative frequencies, for odd D it is symmetric (after the fix); both are the stated periodic shift.
* C28: residues of several bound states are compared through nse_scatter_bound_states, which C18 decides separately.

## Reaching what tests cannot
The repository's tests run one signal per discretization at one size with percent-level tolerances. The jobs here quantify over sample values, frequencies,
times, options, capacities, roots and failing allocations at small sizes, with relative tolerance 1e-7 or bit equality; the code's structure
(one loop body per sample, one tree level per doubling, one grid point per frequency) does not change with size, which is why small sizes are meaningful, and the bounds are
stated anyway.

## Cost
All quick checks together take about 25 minutes on 8 cores; none more than about 150 s. Thorough adds larger degrees (5A, 7A, 7B: up to 105), more paths and longer solver limits.
"""
L = [HEAD]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
bugs = collections.defaultdict(list)
for b in sorted(os.listdir(V + "/seeded")): bugs[json.load(open("%s/seeded/%s/meta.json" % (V, b)))["property"]].append(b)
kf = json.load(open(V + "/known_findings.json"))
L.append("## Properties\n")
for p in props:
    i = p["id"]; c = checks.CHECKS.get(i); L.append("### %s %s\n%s\n" % (i, p["title"], p["statement"]))
    if not c or not c["jobs"]: L.append("Not applicable: " + getattr(checks, "NOT_APPLICABLE", {}).get(i, "") + "\n"); continue
    q = [j for j in c["jobs"] if j["tier"] == "quick"]; doms = collections.Counter(j.get("fp", "real") for j in c["jobs"])
    L.append("* Harness: %s; entries %s; %d quick jobs, %d more in the thorough tier; domains %s." % (", ".join(sorted({"harness/" + j["src"] for j in c["jobs"]})), ", ".join(sorted({j["entry"] for j in c["jobs"]})), len(q), len(c["jobs"]) - len(q), ", ".join("%s (%d)" % x for x in sorted(doms.items()))))
    L.append("* Decided within: %s." % c.get("bounds", "")); L.append("* Outside: %s." % c.get("outside", ""))
    if bugs[i]: L.append("* Planted bugs caught by this check: %s." % ", ".join(bugs[i]))
    f = [x for x in kf["fixed"] if "property=%s " % i in x]
    for x in f: L.append("* Genuine defect found by this check and repaired: " + x.split("property=%s " % i)[1])
    L.append("")
L.append("## Known findings\n" + ("\n".join("* " + str(x) for x in kf["known"]) if kf["known"] else "None recorded unrepaired: every confirmed defect was small enough to repair.") + "\n")
L.append("""## Remarks on the code that are not claimed as defects
* `nsev`: the Newton loop's |a| <= tol test uses the normalized a when normalization is on.
* `kdvv` grid search: M = CEIL(dist/spacing) points give a step slightly above the requested spacing; with fewer than two points no bound states are reported.
* `nsev_max_K`, `manakovv_max_K` are bounds for the fast transfer matrix and do not account for upsampling.
* `manakovv` with bsloc NEWTON and a fast discretization uses fast eigenvalues, as documented.
* FTES4_4B is in the Manakov tables, but fast scattering refuses it.
* `poly_roots_fftgridsearch`: the test that is meant to skip the center point never applies for i > 0; the center contributes nothing to the fit, so it is harmless.

## Planted bugs
`seeded/<id>/`: each compiles, passes the repository's tests and has a demonstration. `tools/plant.py verify|check` validates them in a scratch clone. All listed bugs are caught by the check named in their meta.json.
""")
for i in sorted(bugs):
    for b in bugs[i]:
        m = json.load(open("%s/seeded/%s/meta.json" % (V, b))); L.append("* %s (%s): %s. Needs: %s." % (b, i, m["what_it_breaks"], m["needs"]))
open(V + "/DESIGN.md", "w").write("\n".join(L) + "\n")
