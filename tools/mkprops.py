#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the text is easier to review this way)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
S = "src/"; V = "src/private/"

p("C01", "Transforms never change the caller's options, inputs or the library defaults",
  "After any call of a transform (NSE forward, NSE inverse, periodic NSE, KdV, Manakov), successful or failing, the options structure that was passed in is bit-for-bit what it was, and the *_default_opts() functions still return the documented defaults. The const input arrays (signal samples, interval, grid) are unchanged too (a documented exception is the inverse transform, whose header says when its input spectrum is overwritten).",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "every combination of option values (also out-of-range ones), requested outputs, NULL options pointer, success and every error exit incl. failing allocations",
  "tests call each transform with a handful of option sets, mostly on success paths, and never look at the structure afterwards; the mutation only shows on error exits or in a second call that relies on defaults",
  [S+"fnft_nsev.c", S+"fnft_nsep.c", S+"fnft_kdvv.c", S+"fnft_manakovv.c", S+"fnft_nsev_inverse.c"],
  [("local working copy / restore of options", "fnft_nsev.c, fnft_kdvv.c: bound_state_localization, discspec_type; fnft_nsep.c: bounding_box")],
  ["return of fnft_nsev, fnft_nsep, fnft_kdvv, fnft_manakovv, fnft_nsev_inverse"],
  [("default_opts", "static default option structures", "top of each fnft_*.c")])

p("C02", "Invalid arguments are refused with an error code and nothing is written",
  "If a documented precondition of a transform is violated (missing mandatory array, too few samples, empty or reversed interval or grid, wrong sign of kappa, repeated or non-upper-half-plane bound states for the inverse), the call returns the error code for an invalid argument (or another documented nonzero code) without crashing, and leaves all output arrays and counters as they were; a NaN interval boundary or bound state counts as invalid. An unsupported discretization or option value leads to an error code as well, wherever the value matters for the outputs that were requested.",
  ["inputs", "configurations"],
  "every subset of missing pointers, every value of kappa and of each enumeration, every real (also NaN and infinite) interval/grid boundary, sizes around the limits",
  "tests exercise a few valid calls; almost no test passes an invalid argument and none combines them",
  [S+"fnft_nsev.c", S+"fnft_nsep.c", S+"fnft_kdvv.c", S+"fnft_manakovv.c", S+"fnft_nsev_inverse.c"],
  [("argument checks at function entry", "fnft_nsev.c, fnft_nsep.c, fnft_kdvv.c, fnft_manakovv.c, fnft_nsev_inverse.c")],
  ["return codes of the public functions"])

for id, name, f, doc in [
  ("C03", "NSE forward transform", "fnft_nsev", "M samples of the reflection coefficient, 2M for a and b, 3M for both; K_ptr entries for bound states and for norming constants or residues, 2*K_ptr for both"),
  ("C04", "KdV forward transform", "fnft_kdvv", "M samples of the reflection coefficient, 2M for a and b, 3M for both; K_ptr entries for bound states and for norming constants or residues, 2*K_ptr for both"),
  ("C05", "Manakov forward transform", "fnft_manakovv", "2M samples of reflection coefficients, 3M for a, b1 and b2, 5M for both; K_ptr entries for bound states; *K_ptr becomes 0 when no bound states are computed"),
]:
  p(id, f"The {name} writes only within the documented output sizes",
    f"For every combination of requested outputs and options, the {name} writes only inside the arrays the caller passed, with the documented lengths ({doc}), accesses no other memory, and releases everything it allocated. On success *K_ptr never exceeds its value on entry, and every reported bound state entry has been written.",
    ["inputs", "configurations"],
    "all option combinations (bound state filter and localization, spectrum types, discretization family, normalization, Richardson), all subsets of outputs requested, all small M, K, D, and arbitrary numbers of candidate roots delivered by the root finder",
    "tests run with generously sized arrays and a few option sets; an overrun or stale entry only shows for particular combinations (e.g. residues + Richardson) or when more roots than slots are found",
    [S+f+".c", "include/"+f+".h"],
    [("capacity clamp of *K_ptr and array strides", f+".c")], ["arrays passed to "+f])
p("C06", "The periodic NSE transform writes only within the documented output sizes",
  "For every combination of options, the periodic transform writes at most the number of main and auxiliary spectrum points the caller announced, accesses no other memory and releases everything it allocated. On success the two counters never exceed their values on entry, equal the number of points written, and an output that was not requested leaves its counter meaningful or untouched.",
  ["inputs", "configurations"],
  "all localization methods, filterings, bounding boxes, phase shifts, subset of outputs requested, small capacities, and arbitrary numbers of candidate roots",
  "tests pass large arrays and two or three option sets and never request only one of the two spectra",
  [S+"fnft_nsep.c", "include/fnft_nsep.h"], [("capacity clamps and filtering", "fnft_nsep.c")], ["arrays passed to fnft_nsep"])
p("C07", "The inverse NSE transform reads and writes only within documented sizes",
  "For every combination of options and of given spectra, the inverse transform reads only the M (or documented oversampled) values of the given continuous spectrum and the K entries of the discrete spectrum, writes exactly the D signal samples, accesses no other memory and releases everything it allocated.",
  ["inputs", "configurations"],
  "all inversion methods, continuous and discrete spectrum types, kappa, power-of-two D, M >= D, K = 0..2, NULL spectra",
  "tests run three or four configurations with one size each",
  [S+"fnft_nsev_inverse.c", V+"fnft__akns_finvscatter_q_from_r.inc", V+"fnft__poly_specfact.c"], [("buffer sizes", "fnft_nsev_inverse.c")], ["arrays passed to fnft_nsev_inverse"])
p("C08", "A failing allocation is reported, never a crash, a leak or a silent success",
  "If any single memory request made during a library call fails, the call returns a nonzero error code, touches no invalid memory, and releases everything it had allocated up to then. This holds for the transforms and for every building block they use (polynomial products, chirp transform, resampling, preprocessing, scattering, inverse scattering, spectral factorization).",
  ["fault_sequences", "configurations"],
  "every allocation site hit by a call, one failing at a time, over the option combinations that change the allocation pattern",
  "no test makes an allocation fail",
  [S+"fnft_nsev.c", S+"fnft_nsep.c", S+"fnft_kdvv.c", S+"fnft_manakovv.c", S+"fnft_nsev_inverse.c", V+"fnft__misc.c", V+"fnft__akns_discretization.c", V+"fnft__manakov_discretization.c", V+"fnft__akns_scatter.c", V+"fnft__poly_chirpz.c", V+"fnft__poly_fmult.c", V+"fnft__poly_specfact.c", V+"fnft__poly_roots_fftgridsearch.c"],
  [("NULL checks and clean-up labels", "all files that allocate")], ["return code, allocator state"])
p("C09", "Spectral filters keep exactly the values they are specified to keep",
  "The bounding-box filter keeps exactly the values whose real and imaginary parts lie inside the closed box, the inverse filter exactly those (non-NaN ones) that are not strictly inside, the non-real filter exactly those with |Im| above the tolerance; survivors keep their relative order, companion values travel with them, and the count is updated. Merging keeps the first value and returns a subset in which no two values are closer than the tolerance, and every removed value is closer than the tolerance to some earlier value of the input.",
  ["inputs"], "all complex values including NaN, infinities, signed zeros and values exactly on the border; all boxes and tolerances; all small counts",
  "tests use one hand-written list per filter",
  [V+"fnft__misc.c"], [("in-place compaction loops", "misc_filter, misc_filter_inv, misc_filter_nonreal, misc_merge")], ["arrays and counters after the call"])
p("C10", "Subsampling and preprocessing pick in-range, equally spaced samples",
  "Downsampling and the discretization-specific signal preprocessing return between 2 and D samples, taken at equally spaced original positions that start at the first sample and never pass the last one, and report exactly those positions. The preprocessed arrays have the documented length and the prescribed combination of (shifted) samples for each discretization, and r follows from q by the rule of the equation (-conj(q), +conj(q), or -1).",
  ["inputs", "configurations"], "all D and requested sizes in a range, all signals, all discretizations of all three equations, both signs of kappa",
  "tests use one or two sizes that divide evenly",
  [V+"fnft__misc.c", V+"fnft__akns_discretization.c", V+"fnft__nse_discretization.c", V+"fnft__kdv_discretization.c", V+"fnft__manakov_discretization.c"],
  [("index arithmetic with rounding", "misc_downsample, *_discretization_preprocess_signal")], ["returned arrays and index pair"])
p("C11", "Fast polynomial multiplication returns the exact product",
  "The fast product of n polynomials of equal degree returns the coefficients of their product (highest degree first), of degree n times the common degree, for every n including numbers that are no powers of two; with normalization, the returned polynomial times two to the returned power is that product and, for n >= 2, its largest coefficient has magnitude in [1,2).",
  ["inputs"], "all coefficient values, small degrees and numbers of polynomials incl. 1 and non powers of two, with and without normalization",
  "tests compare one coefficient set for three sizes",
  [V+"fnft__poly_fmult.c", "include/private/fnft__fft_wrapper.h", "include/private/fnft__misc.h"], [("pairwise FFT products, padding, rescaling", "fnft__poly_fmult.c")], ["result of fnft__poly_fmult"])
p("C12", "Fast products of 2x2 and 3x3 matrix polynomials are exact and ordered",
  "The fast product of n matrix polynomials returns the matrix product in the given order (not its reverse), with the documented memory layout and degree, for every n including non powers of two; with normalization, the returned matrix times two to the returned power is that product.",
  ["inputs"], "all coefficient values, small degrees and numbers of factors, with and without normalization",
  "tests compare one coefficient set per size",
  [V+"fnft__poly_fmult.c"], [("pairwise matrix products", "fnft__poly_fmult2x2, fnft__poly_fmult3x3")], ["result arrays"])
p("C13", "Polynomial evaluation, derivative and chirp transform compute what they say",
  "Evaluating a polynomial at given points returns its value there (and, for the derivative variant, value and first derivative), and the chirp transform returns the polynomial's values on the requested spiral A*W^-m, for every degree, coefficient vector and evaluation point inside or outside the unit circle.",
  ["inputs"], "all coefficients, points with modulus below, equal to and above one, all small degrees (incl. 0) and numbers of points, D larger and smaller than M",
  "tests use one polynomial and one set of points per routine",
  [V+"fnft__poly_eval.c", V+"fnft__poly_chirpz.c"], [("Horner with inversion for |z|>1", "fnft__poly_eval.c"), ("Bluestein chirp convolution", "fnft__poly_chirpz.c")], ["result arrays"])
p("C14", "The FFT layer is the discrete Fourier transform and its unnormalized inverse",
  "For every length the library can request, the forward plan computes the DFT, the inverse plan computes its unnormalized inverse (forward then inverse multiplies by the length), and the next-length helper returns a length that is at least the requested one and has no prime factors other than 2, 3 and 5.",
  ["inputs"], "all input vectors, every length up to a bound covering every butterfly (2, 3, 4, 5 and generic radix) and their compositions; every requested length up to a bound",
  "tests only run one random vector through it indirectly",
  ["src/3rd_party/kiss_fft/kiss_fft.c", "include/private/fnft__fft_wrapper.h"], [("mixed radix butterflies", "kiss_fft.c")], ["output buffer of the execute call"])
p("C15", "Fast AKNS scattering multiplies exactly the prescribed splitting steps",
  "For every supported splitting, the transfer-matrix polynomial returned for samples q, r is the ordered product over the samples (last sample leftmost) of the prescribed exponential splitting of the step matrix, with the announced degree and scaling exponent. In particular at frequency zero it equals the exact matrix exponential product, and for a vanishing signal it is pure delay.",
  ["inputs", "configurations"], "all q, r (r independent of q, or tied by the NSE/KdV rule), all 21 splittings, D = 1, 2, 3, with and without normalization",
  "tests compare a single 8-sample signal at few spectral points with a tolerance, for NSE-type signals only",
  [V+"fnft__akns_fscatter.c", V+"fnft__nse_fscatter.c", V+"fnft__kdv_fscatter.c"], [("hand-expanded polynomial coefficients", "fnft__akns_fscatter.c")], ["result, degree and exponent of the fast scattering routines"])
p("C16", "Fast Manakov scattering multiplies exactly the prescribed splitting steps",
  "For every supported Manakov splitting and both signs of kappa, the 3x3 transfer-matrix polynomial is the ordered product over the samples of the prescribed exponential splitting, with the announced degree and scaling exponent.",
  ["inputs", "configurations"], "all q1, q2 including zero samples, all fast Manakov discretizations, both kappas, D = 1, 2 (3)",
  "tests compare one 4..8-sample signal per discretization, focusing case mostly",
  [V+"fnft__manakov_fscatter.c"], [("hand-expanded polynomial coefficients", "fnft__manakov_fscatter.c")], ["result of the fast Manakov scattering"])
p("C17", "Slow AKNS scattering is the product of exact step exponentials",
  "For every slow discretization the scattering matrix is the ordered product of the step matrix exponentials, has determinant one, its optional derivative output is the derivative with respect to the spectral parameter, and enabling normalization changes the result only by the reported power of two.",
  ["inputs", "configurations"], "all q, r and complex spectral parameters in a bounded region, all slow discretizations, NSE and KdV bases, D = 1..3 samples, several spectral points, flag combinations",
  "tests compare one signal per discretization with a tolerance",
  [V+"fnft__akns_scatter.c", V+"fnft__nse_scatter.c", V+"fnft__kdv_scatter.c"], [("step exponentials and products", "fnft__akns_scatter.c")], ["result of the scattering-matrix routines"])
p("C18", "Bound-state scattering agrees with the scattering matrix",
  "The values a(lambda) and a'(lambda) returned by the bound-state routine equal those obtained from the scattering matrix of the same discretization after applying the boundary phases, and b is consistent with the forward and backward solutions at every possible matching point; with normalization they agree after applying the reported exponents.",
  ["inputs", "configurations"], "all signals, all complex spectral parameters in a bounded region, all slow discretizations, both equations, normalization and skip-b flags",
  "tests check a few solitons at exact eigenvalues where many errors cancel",
  [V+"fnft__akns_scatter.c"], [("forward/backward propagation", "akns_scatter_bound_states")], ["a, a', b outputs"])
p("C19", "Slow Manakov scattering is the product of exact step exponentials",
  "For both slow Manakov discretizations and both signs of kappa, the 3x3 scattering matrix is the ordered product over the samples of the step matrix exponential, including samples that vanish in one or both polarizations.",
  ["inputs", "configurations"], "all q1, q2, spectral parameters, kappas, D = 1..2, several spectral points",
  "tests compare one signal with a tolerance", [V+"fnft__manakov_scatter.c"], [("closed-form 3x3 exponential", "fnft__manakov_scatter.c")], ["result of manakov_scatter_matrix"])
p("C20", "Discretization tables, frequency maps and boundary phases are coherent",
  "For every discretization of every equation, the degree, upsampling factor, order, memory-size helpers, frequency maps and boundary phases agree with each other: lambda-to-z and z-to-lambda are inverse on the principal strip and use exactly (degree x upsampling) sub-steps, the phase factors satisfy phase(reflection) = phase(b) - phase(a), unknown discretizations are refused, and the NSE/KdV wrappers agree with the AKNS tables.",
  ["inputs", "configurations"], "every enumeration value incl. unknown ones, all spectral values, step sizes, intervals and sample counts",
  "tests use only a handful of discretizations end-to-end",
  [V+"fnft__akns_discretization.c", V+"fnft__nse_discretization.c", V+"fnft__kdv_discretization.c", V+"fnft__manakov_discretization.c"], [("switch tables", "*_discretization.c")], ["return values of the table functions"])
p("C21", "Change-of-basis matrices are mutually inverse with correct derivatives",
  "For every discretization and both equations, the matrices to and from the S-basis are inverse to each other, and in the derivative form their lower-left block is the derivative of the upper-left block with respect to the spectral parameter and the remaining blocks are as for a block lower triangular matrix with equal diagonal blocks.",
  ["inputs", "configurations"], "all nonzero complex spectral parameters, step sizes, discretizations, vanilla and non-vanilla variants",
  "no test looks at these matrices directly", [V+"fnft__akns_discretization.c", V+"fnft__kdv_discretization.c"], [("closed-form matrices", "change_of_basis_matrix_*")], ["4 or 16 matrix entries"])
p("C22", "Inverse scattering recovers the samples from the transfer matrix",
  "Applying the fast inverse scattering to the transfer matrix that the fast forward scattering produced for samples q returns q, for every supported discretization, sign of kappa and power-of-two number of samples; unsupported sizes, signs or discretizations are refused. For the KdV this is meant for the non-vanilla 2SPLIT2_MODAL discretization (with the sign convention of the repository's round-trip test); the KdV inverse for 2SPLIT2A is approximate by design and excluded.",
  ["inputs", "configurations"], "all samples for which the forward step is defined (bounded away from its singularities), D = 2, 4",
  "tests do one random round trip per size", [V+"fnft__akns_finvscatter_q_from_r.inc", V+"fnft__nse_finvscatter.c", V+"fnft__kdv_finvscatter.c"], [("recursive layer peeling", "fnft__akns_finvscatter_q_from_r.inc")], ["recovered samples"])
p("C23", "NSE continuous spectrum outputs are mutually consistent and correctly placed",
  "For every discretization, the reflection coefficient returned by the NSE transform equals b/a of the a- and b-coefficients returned by the same transform, the combined output is exactly reflection coefficient, a, b in this order at every grid point, the grid point i is XI[0] + i (XI[1]-XI[0])/(M-1), and the values are those of the scattering coefficients a and b of the discretization's own step operators on the signal's time window; shifting the time window leaves a unchanged and changes b only by the corresponding phase.",
  ["inputs", "configurations"], "signals with D = 2..3 samples, both kappas, every discretization, all output types, several grids incl. grids not centred at zero, all start times, normalization on and off",
  "tests use symmetric grids and large D with percent-level tolerances, one output type at a time",
  [S+"fnft_nsev.c", V+"fnft__poly_chirpz.c"], [("boundary phases and chirp evaluation", "fnft_nsev.c")], ["contspec array"])
p("C24", "KdV continuous spectrum outputs are mutually consistent and correctly placed",
  "For every discretization, the reflection coefficient returned by the KdV transform equals b/a of the a- and b-coefficients returned by the same transform, the combined output is exactly reflection coefficient, a, b in this order, the values belong to the documented grid points and are those of the discretization's own step operators on the signal's time window.",
  ["inputs", "configurations"], "all real signals with D = 2..4 samples, every discretization, all output types, several grids, normalization on and off",
  "tests use one grid and large D with tolerances", [S+"fnft_kdvv.c"], [("basis change and boundary phases", "fnft_kdvv.c")], ["contspec array"])
p("C25", "Manakov continuous spectrum outputs are mutually consistent",
  "For every discretization and sign of kappa, the two reflection coefficients returned by the Manakov transform equal b1/a and b2/a of the coefficients returned by the same transform, the combined output has the documented order, and swapping the two polarizations of the signal swaps the two coefficients; the values belong to the documented grid points and are those of the discretization's own step operators.",
  ["inputs", "configurations"], "all signals with D = 2..3 samples, every discretization, both kappas, all output types",
  "tests use one signal shape with tolerances", [S+"fnft_manakovv.c"], [("boundary phases", "fnft_manakovv.c")], ["contspec array"])
p("C26", "Richardson extrapolation combines full- and half-rate results as documented",
  "With Richardson extrapolation enabled, the continuous spectrum equals (2^p S_full - S_sub)/(2^p - 1) generalized to the actual subsampling ratio, where p is the order of the discretization, S_full the result without extrapolation and S_sub the result for the subsampled signal, at every grid point with |xi| < 0.9 pi/(2 eps_sub); all other points keep S_full.",
  ["inputs", "configurations"], "all signals with small even and odd D, the NSE, KdV and Manakov transforms, all output types, discretizations of order 2 and 4",
  "tests only check that errors shrink for one signal", [S+"fnft_nsev.c", S+"fnft_kdvv.c", S+"fnft_manakovv.c"], [("extrapolation loop", "fnft_nsev.c, fnft_kdvv.c, fnft_manakovv.c")], ["contspec array"])
p("C27", "Lossless discretizations conserve energy: |a|^2 + kappa |b|^2 = 1",
  "For real frequencies, every discretization whose steps are exactly (pseudo-)unitary returns coefficients with |a|^2 + kappa |b|^2 = 1 for every signal, in the focusing and the defocusing case, for the NSE and (with |b|^2 = |b1|^2 + |b2|^2) the Manakov transform.",
  ["inputs", "configurations"], "all signals with D = 2..3 samples, both kappas, the unitary splittings and the exponential integrators, several real frequencies",
  "tests never check this invariant", [S+"fnft_nsev.c", V+"fnft__akns_fscatter.c", V+"fnft__akns_scatter.c"], [("structure of the step matrices", "fnft__akns_fscatter.c, fnft__akns_scatter.c")], ["a and b outputs"])
p("C28", "NSE discrete spectrum: guesses, norming constants and residues belong together",
  "When the combined type is requested, norming constants come first and residues second, both in the order of the returned bound states, and each residue equals the corresponding norming constant divided by a'(lambda); requesting a single type returns exactly the corresponding half. Newton localization returns the refined guesses that lie in the filter's box in the order they were given; it performs exactly the configured number of Newton steps unless the increment or |a| falls below the tolerance or the iterate leaves the box. With Richardson extrapolation, bound states and a'(lambda) are extrapolated from the matching bound state of the subsampled signal and norming constants are kept, for each bound state independently.",
  ["inputs", "configurations"], "all signals and guesses within bounds, spectrum types, niter and tolerance values, K = 1..2",
  "tests compare sets of bound states via Hausdorff distance, so order and pairing errors cancel",
  [S+"fnft_nsev.c"], [("Newton refinement, norming constants", "fnft_nsev.c")], ["bound_states, normconsts_or_residues"])
p("C29", "Adding solitons in the inverse NSE transform is exact and order independent",
  "For a purely discrete spectrum with one bound state the inverse transform returns the samples of the exact one-soliton for every norming constant, and for two bound states the result does not depend on the order in which (bound state, norming constant) pairs are given; residues and norming constants describing the same spectrum give the same signal.",
  ["inputs"], "all norming constants in a bounded region away from zero, several bound state locations and grids, D = 2, 4",
  "tests check one three-soliton example", [S+"fnft_nsev_inverse.c"], [("Darboux transform", "fnft_nsev_inverse.c")], ["signal q"])
p("C30", "Periodic NSE spectra are the roots of the right polynomials",
  "The polynomials handed to the root finder for the main spectrum are the Floquet discriminant (with the requested quasi-momentum offset) minus +1 and minus -1, and the one for the auxiliary spectrum is the off-diagonal entry of the monodromy polynomial, up to a common nonzero factor, for every signal; the returned points are the frequencies of the delivered roots that pass the filter, in order, shifted as documented for nonzero phase shift.",
  ["inputs", "configurations"], "all signals with D = 2, 4 samples, both kappas, the supported discretizations, phase shifts, normalization on and off, arbitrary delivered roots",
  "tests check plane waves and constant signals only", [S+"fnft_nsep.c"], [("polynomial set-up before root finding", "fnft_nsep.c")], ["argument of the root finder, returned spectra"])
p("C31", "Messages go to the installed printer and never change the returned code",
  "Error and warning reporting passes each message to the printer currently installed for the calling thread (none if it was removed), the getter returns what the setter stored, and reporting returns the error code unchanged (negative of the subroutine's code for propagated failures).",
  ["inputs", "histories"], "all error codes, all sequences of setter, getter and failing calls of bounded length",
  "tests never replace the printer", [S+"fnft_errwarn.c", V+"fnft__errwarn.c"], [("thread-local function pointer", "fnft_errwarn.c")], ["printer calls, return codes"])
p("C32", "Band-limited resampling is the exact periodic shift",
  "Resampling by a shift delta is linear, returns the input for delta = 0, maps every band-limited exponential to its shifted copy, and reports success, for every number of samples and step size.",
  ["inputs"], "all sample vectors, D = 2..9, several shifts of both signs",
  "tests check one smooth signal with a tolerance", [V+"fnft__misc.c"], [("FFT, phase ramp, inverse FFT", "misc_resample")], ["q_new"])
p("C33", "Grid-search root finding returns genuine in-sector roots and respects capacity",
  "The grid search reports at most one root per interior grid point of the announced arc, reports success only with an initialized counter, every reported root lies within one grid spacing of the center of a grid cell at which the polynomial's magnitude is minimal among the cell's nine points, and a simple root well inside such a cell with the other roots far away is found, with an estimate within half a grid spacing. The variant for para-hermitian polynomials reports exactly one root per sign change between neighbouring grid points, on the unit circle, at the zero of the linear interpolation.",
  ["inputs", "configurations"], "polynomials of degree 2..4, grids with 2..5 points",
  "tests check one polynomial", [V+"fnft__poly_roots_fftgridsearch.c"], [("cell test and least-squares fit", "fnft__poly_roots_fftgridsearch.c")], ["roots and counter"])
p("C34", "Bound state filters select exactly the eigenvalues the options ask for",
  "For every delivered set of candidate roots, the bound states returned by the NSE (and Manakov) transform are exactly those candidates that satisfy the configured filter (upper half plane for the basic filter, additionally the documented physical box for the full filter, or the user's choice of none), in the order delivered and truncated to the capacity, where candidates that coincide up to the documented merge tolerance of the full pipeline are represented by one of them.",
  ["inputs", "configurations"], "all candidate sets with up to 3 roots incl. NaN, all filters, localization by fast eigenvalues, both spectrum types, K capacity 1..3",
  "tests compare final sets for one soliton signal", [S+"fnft_nsev.c", S+"fnft_manakovv.c"], [("bound state filtering", "fnft_nsev.c, fnft_manakovv.c")], ["bound_states, *K_ptr"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
