"""Per-property job definitions: which harness runs in which build variants, how many cases, what must be observed."""
from vlib import Variant

V4 = [(2, 2), (2, 3), (3, 2), (3, 3)]
A_MON = "the MATTER_MONITOR hook reports the state at the named points of advanceStep"
A_DET = "workloads are generated from VERIF_SEED; only executed configurations are covered"
A_REF = "the reference formulas in harness/ (written from the documentation and the literature, not from the code)"
A_COND = "comparisons are skipped (and counted) where rounding decides: particles within 1e-5 cell of a support edge, nodes within 1e-9 of a boundary surface"
A_FLY = "runs are ended, counted and not judged further once particles are non-finite, leave a periodic grid or fly apart (explicit integration can be unstable)"

def std(harness, quick, thorough, variants=V4, flavour="rel", **kw):
    """quick/thorough: cases per variant (int or dict dim->int)."""
    def jobs(tier):
        n = quick if tier == "quick" else thorough
        return [dict(variant=Variant(d, s, flavour), harness=harness, cases=n[d] if isinstance(n, dict) else n, **kw) for d, s in variants]
    return jobs

def entry(jobs, technique, note, rule, required=(), assumptions=(), min_eval=1000, **kw):
    d = dict(jobs=jobs, technique="runtime monitoring: " + technique, note=note, rule=rule, required=tuple(required),
             assumptions=[A_DET] + list(assumptions), min_eval=min_eval)
    d.update(kw)
    return d

def scaled(tier, q, t): return q if tier == "quick" else t

def c05_jobs(tier):
    j = [dict(variant=Variant(d, s, "tsan"), harness="c05", cases=scaled(tier, 900, 20000)) for d, s in ((2, 2), (3, 3))]
    j += [dict(variant=Variant(d, s, "ord"), harness="c05", cases=scaled(tier, 250, 8000)) for d, s in ((2, 3), (3, 2))]
    return j + [dict(variant=Variant(d, s, "rel"), harness="c05", cases=scaled(tier, 1500, 30000)) for d, s in ((2, 2), (3, 3))]

def c06_jobs(tier):
    j = [dict(variant=Variant(d, s, "asan"), harness="c06", cases=scaled(tier, 3000, 40000)) for d, s in (V4 if tier != "quick" else ((2, 2), (3, 3)))]
    # identical serial workload with differently filled stack and heap: results must agree bit for bit
    for d, s in ((2, 3), (3, 2)):
        j += [dict(variant=Variant(d, s, f), harness="c06", cases=scaled(tier, 3000, 40000), env={"VH_SERIAL": "1", "MALLOC_PERTURB_": m}) for f, m in (("pat", "165"), ("zero", "90"))]
    j += [dict(variant=Variant(d, s, "vg"), harness="c06", cases=scaled(tier, 64, 1500), env={"VH_SERIAL": "1", "VH_TINY": "1"}, timeout=800,
               prefix=("valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=96", "--undef-value-errors=yes")) for d, s in ((2, 2), (3, 3))]
    return j

def c06_post(r):
    n = 0
    for (v, h, tag), d in list(r.digests.items()):
        if not v.endswith("-pat"): continue
        e = r.digests.get((v[:-3] + "zero", h, tag), {})
        for i in sorted(set(d) & set(e)):
            n += 1
            if d[i] != e[i]:
                r.viol.append(dict(key="uninitialised-value", idx=i, variant=v, harness=h, tag=tag, detail=f"case {i} gives different results with differently filled memory: {d[i]} / {e[i]} (digest, values)"))
    r.counts["cases compared under different memory fill"] = n

def vdbs(harness, quick, thorough):
    return lambda tier: [dict(variant=Variant(d, 2, "rel", vdb=True), harness=harness, cases=scaled(tier, quick, thorough)) for d in (2, 3)]

def both(*js): return lambda tier: [x for j in js for x in j(tier)]

STEPS = "step hook over random whole simulations in the four builds (2D/3D x quadratic/cubic splines)"

CHECKS = {
    "C01": entry(std("c01", {2: 8000, 3: 4000}, {2: 150000, 3: 60000}),
        "online monitor of particle records and of every grid node's mass in every step, against an independently computed B-spline share",
        STEPS + "; each node of each step compared with the sum of textbook B-spline weights, plus totals and one-period totals",
        "distinct = (scheme, model, boundaries, layout kind, threads, step number)",
        ["steps checked", "nodes compared", "periodic steps"], [A_MON, A_REF, A_FLY]),
    "C02": entry(std("c02", {2: 10000, 3: 5000}, {2: 200000, 3: 80000}),
        "online momentum-balance and energy monitor on every step",
        STEPS + " without boundaries, all material models and schemes, gravity and gravity ramp; tolerance 1e-10 of the momentum and impulse scale",
        "distinct = (scheme, model, layout kind, ramp, threads, step number)",
        ["steps checked", "steps with gravity dominant", "steps with stresses", "steps inside the gravity ramp", "PIC steps with dissipation"], [A_MON, A_FLY]),
    "C03": entry(std("c03", {2: 30000, 3: 15000}, {2: 200000, 3: 80000}),
        "online monitor of exact-solution workloads (uniform, affine, torque-free motion)",
        STEPS + "; per-particle comparison with the exact motion, angular momentum balance for APIC",
        "distinct = (motion kind, scheme, layout kind, model, periodic, threads, step number)",
        ["uniform steps", "affine particle-steps", "angular momentum steps"], [A_MON, A_COND]),
    "C04": entry(std("c04", {2: 18000, 3: 9000}, {2: 200000, 3: 80000}),
        "differential monitoring of paired runs (original and renumbered / translated / mirrored / axis-exchanged set-up), step by step",
        "pairs of whole simulations with all models, plates, spheres; compared until accumulated rounding reaches 1e-5",
        "distinct = (transformations, scheme, model, boundaries, layout kind, step number)",
        ["steps compared", "plastic steps compared", "renumbered", "translated", "mirrored", "axes exchanged", "steps with plates"], [A_MON, A_COND, A_FLY,
         "iterative return mappings may differ within their documented stopping tolerances; the Cam-Clay ones are compared for moderate strains only"]),
    "C05": entry(c05_jobs,
        "ThreadSanitizer with an instrumented OpenMP run-time that injects delays and perturbs merge orders, plus differential monitoring against single-threaded twins",
        "random whole simulations with 1..16 threads (all models, schemes, periodic, boundaries, saving): every step recomputed with one thread from the same state; serial runs repeated bit for bit; happens-before race detection of every access in ThreadSanitizer builds",
        "distinct = (scheme, model, boundaries, periodic, friction source, threads, saving, step number)",
        ["parallel regions", "threads run", "critical sections", "injected delays", "distinct merge orders", "parallel steps", "periodic parallel steps", "parallel steps with material friction", "parallel MUSL steps", "parallel plastic steps", "more threads than particles", "saving runs", "steps compared with one thread", "steps repeated bit for bit", "runs whose threads report a failure"],
        [A_MON, A_FLY, "the OpenMP run-time gomp/gomp.c stands in for libgomp in the ThreadSanitizer and delay builds (fork/join, static schedule, critical, atomic, barrier)",
         "races inside the C++ stream objects are suppressed (gomp/tsan.supp): concurrent use of the standard streams is defined by the language"]),
    "C06": entry(c06_jobs,
        "AddressSanitizer, UndefinedBehaviorSanitizer, library assertions, valgrind memcheck, and bitwise comparison of runs with differently filled stack and heap",
        "random whole simulations (all options, terrains, saving, whole-cell motions, extreme deformations), driven material points with extreme trial states, sampling",
        "distinct = (workload kind, set-up signature, saving, terrain, thread count class)",
        ["simulations", "saving simulations", "simulations with terrain", "periodic simulations", "simulations with material friction", "multi-threaded simulations", "simulations moving by whole cells", "driven steps", "samplings", "steps in digests", "files in digests", "cases compared under different memory fill"],
        [A_FLY, "states that are no longer finite are excluded from the memory-fill comparison"], post=c06_post),
    "C07": entry(std("c07", {2: 7000, 3: 3500}, {2: 60000, 3: 30000}),
        "online checker of the (time, step length, frame) trace",
        STEPS + "; every step length must equal the smallest applicable limit, frames must end at multiples of the frame interval, prefixes of longer runs agree",
        "distinct = (frame interval / wave time, frames, CFL numbers, speed regime, minimum step)",
        ["dt limited by elastic", "dt limited by speed", "dt limited by frame", "dt limited by minimum", "frame boundaries", "prefix frames compared"], [A_MON, A_FLY]),
    "C08": entry(std("c08", {2: 20000, 3: 10000}, {2: 200000, 3: 80000}),
        "online monitor of the grid coordinates of every step against the particles and the lattice of the first step",
        STEPS + " with ballistic, whole-cell, separating, contracting and general motions",
        "distinct = (motion, layout kind, reference point, periodic, grid size, step number)",
        ["steps checked", "grid origin moved", "steps with displacement of a cell or more"], [A_MON, A_FLY]),
    "C09": entry(std("c09", {2: 9000, 3: 8000}, {2: 120000, 3: 80000}),
        "online monitor of stress against the elastic law of the stored deformation gradient, and of rotated copies against each other",
        "isolated particles driven through prescribed trial deformations (all models), plus every particle of random whole simulations, in the four builds",
        "distinct = (model, elastic law, kind of deformation, yielded or not, stress-update order, affine scheme, hardening law) and world signatures",
        ["elastic particles", "yielding particles", "rotation pairs", "world steps", "strongly compressed particles"], [A_MON, A_REF, "Cam-Clay and other iterative returns agree between rotated copies within their stopping tolerances"]),
    "C10": entry(std("c10", 6000, 120000),
        "online monitor: yield function, flow rule and untouched elastic states evaluated on the state after every driven step",
        "isolated particles driven through prescribed trial states (inside, on all sides of the surface, tip, apex) with random parameters and hardening histories",
        "distinct = (model, hardening law, region, history or single step, stress measure, volume correction, softening, cohesion, stress-update order)",
        ["VM elastic", "VM yield", "DP elastic", "DP tip", "DP yield", "DPSoft elastic", "DPSoft tip", "DPSoft softened-tip", "DPSoft yield", "MCC elastic"] + [a + b for a in ("NoHard", "ExpoExpl", "ExpoImpl", "SinhExpl", "SinhImpl") for b in (" cap", " softening")],
        [A_MON, A_REF, "Cam-Clay returns are judged for moderate strains (trial stresses up to five times the preconsolidation pressure) within the solvers' documented stopping tolerances",
         "the implicit sinh solver may give up, which it reports through the failure flag; such steps are counted, not judged"]),
    "C11": entry(std("c11", 6000, 120000),
        "online monitor of the rate equation, with a rate-independent twin run seeing the same trial states",
        "isolated particles driven through prescribed trial states; viscous times 0 and 1e-5..1e-1, exponents 0.3..2, step lengths 1e-6..1e-2",
        "distinct = (model, hardening law, region, formulation, linear/nonlinear, zero viscous time, softening, cohesion, friction output, stress measure, history, stress-update order)",
        ["Perzyna laws", "Duvaut-Lions laws", "Duvaut-Lions blends", "mu(I) laws", "zero viscous time", "friction values", "VMVisc tip", "DPVisc tip", "DPMui tip", "MCCMui elastic", "MCCVisc elastic", "DPMui elastic", "DPVisc elastic", "VMVisc elastic"],
        [A_MON, A_REF, "steps whose iteration gave up (failure flag raised) are counted, not judged", "Newton iterations stop at a residual of 0.01 Pa"]),
    "C12": entry(std("c12", 5000, 100000),
        "online monitor comparing plastic strain increments with the strain removed from the trial deformation",
        "isolated particles driven through prescribed trial states with all plastic models, single steps and histories; shear rate and viscosity fields are poisoned before each step",
        "distinct = (model, hardening law, region, history, stress-update order, formulation, linear/nonlinear, viscous, softening, stress measure, volume correction, cohesion)",
        [a + " shear" for a in ("VM", "DP", "DPSoft", "VMVisc", "DPVisc", "DPMui")] + [a + " both" for a in ("DP", "DPSoft", "MCC", "MCCVisc", "MCCMui", "VMVisc", "DPVisc", "DPMui")] + ["volume correction accumulated", "volume correction reset"],
        [A_MON, A_REF]),
    "C13": entry(std("c13", 12000, 100000),
        "online monitor of grid node velocities before/after the boundary response against the contact law",
        STEPS + " with plates of every type, real terrain objects and curved objects, moving plates, several simultaneous contacts, fixed and material-induced friction; every node of every step judged",
        "distinct = (boundary kinds and conditions, friction source, moving, number of contacts, scheme, step number)",
        ["contact nodes", "free nodes", "nodes with several contacts", "contacts with material friction"], [A_MON, A_REF, A_COND]),
    "C14": entry(std("c14", 15000, 120000),
        "online checker of the plate trace (position, extent, velocity per step), of the inside test, and of material held by the plate",
        STEPS + " with moving plates of every type, slow-down factors and loading periods; probes on both sides of each plate face and edge",
        "distinct = (plate type, condition, slow-down, loading, extent, periodic, step number)",
        ["steps while loading", "steps at the prescribed velocity", "steps with held material", "points inside", "points outside", "points on the surface"], [A_MON]),
    "C15": entry(both(std("c15", {2: 3000, 3: 2500}, {2: 40000, 3: 30000}), vdbs("c15v", 2500, 30000)),
        "online monitor of object queries (inside, normal) against the documented surfaces, and of particles pressed into terrains",
        "all terrain objects with random and documented parameters; surface points, flanks, symmetry points, points slightly inside and outside; whole simulations with material driven into the terrain",
        "distinct = (object, region, parameter class) and press-run signatures",
        ["points next to the surface", "press runs", "level-set points judged", "level-set normals judged"], [A_MON, A_REF]),
    "C16": entry(std("c16", 7000, 80000),
        "differential monitoring of cyclically shifted copies, plus online monitor of wrap-around, mass over one period and momentum balance",
        "random periodic simulations with material concentrated at the seam; each compared with a cyclically shifted copy step by step, and with the independent reference step",
        "distinct = (shift, scheme, model, boundaries, friction source, threads, step number)",
        ["crossings", "period mass checked", "momentum balances", "reference steps", "shifted steps", "shifted MUSL steps", "shifted steps with material friction", "shifted steps with plates", "particle-steps compared", "particles exactly on the seam"],
        [A_MON, A_REF, A_COND, A_FLY, "the period is a whole number of cells"]),
    "C17": entry(std("c17", 2000, 25000),
        "offline checker of the output directory against the state recorded at each frame, plus a paired run without saving",
        "random saving simulations with every option that changes the set of files or fields, written to a scratch directory, parsed independently",
        "distinct = (options, model, scheme, frames, threads, fields)",
        ["particle files", "grid files", "grid nodes compared", "values compared", "information files", "set-up copies", "timing files", "averages", "runs repeated without saving"], [A_MON, "the PLY writer tinyply is not in the sandbox and replaced by a stand-in with the same interface (standins/deps/tinyply.h): layout of the container itself is the stand-in's"]),
    "C18": entry(both(std("c18", 2500, 25000, variants=((2, 2), (3, 2))), vdbs("c18v", 1500, 20000)),
        "offline checker of the sampled particle set against the requested region (containment, spacing, filling, duplicates, mass and volume, initial state)",
        "regular and Poisson-disk sampling of boxes, gates, cylinders, silos and level sets with random extents, spacings and particles per cell; repeated with the same and other seeds",
        "distinct = (sampler, shape, extents class, particles per cell, number of particles class)",
        [a + "-" + b for a in ("regular", "poisson") for b in ("box", "gate", "cylinder", "silo")] + [a + "-vdb-" + b for a in ("regular", "poisson") for b in ("sphere", "box")] +
        ["cropped samples", "fill probes", "initial states", "lattice points", "samples repeated", "other seeds", "whole number of spacings", "fill probes in level sets"], []),
    "C20": entry(std("c20", 8000, 80000),
        "fault injection with a monitor of steps taken, flag, particle/plate state and output directory before and after",
        "uninitialised, incompatible and unwritable set-ups; invalid boundary conditions and hardening laws injected at a random step; trial states that iterations cannot solve; valid runs",
        "distinct = (kind of fault, set-up signature, step of the fault, saving, threads)",
        ["uninitialised", "incompatible", "no-output", "corrected runs", "invalid plate condition", "invalid object condition", "invalid hardening law", "hardening law not available", "invalid viscous exponent", "runs stopped by a failing return mapping", "unflagged returns solved", "failing runs with output", "valid runs"],
        [A_MON, A_FLY]),
    "C19": entry(std("c19", {2: 30000, 3: 10000}, {2: 150000, 3: 40000}),
        "online differential monitor: every step compared with an independent reference implementation of the MPM step",
        STEPS + "; positions, velocities, affine velocities, F (and stress for elastic, Von Mises, Drucker-Prager) per particle",
        "distinct = (stress-update order, scheme, model, boundaries, periodic, friction source, layout kind, step number)",
        ["particle-steps compared", "stress compared", "MUSL steps", "USL steps", "steps with boundaries", "periodic steps"], [A_MON, A_REF, A_COND]),
    "C21": entry(std("c21", 6000, 120000),
        "online monitor of the friction value carried by every particle, and differential monitoring of paired runs with other friction parameters",
        "isolated particles driven through prescribed trial states (all plastic models); pairs of whole simulations with boundaries whose friction parameters or carried friction values differ",
        "distinct = (model, hardening law, yielding or not, formulation, viscosity, stress region) and (kind of pair, set-up signature, step number)",
        ["initial values", "mobilised friction values", "values at the ends of the surface", "paired steps: other-boundary-friction", "paired steps: friction-without-the-option", "paired steps: constant-friction", "steps with contact"],
        [A_MON, A_REF, A_COND, A_FLY, "the friction law of the mu(I) models themselves is judged by C11, nodal averaging by C13 and C19"]),
    "C22": entry(std("c22", {2: 24000, 3: 12000}, {2: 200000, 3: 80000}),
        "differential monitoring of paired runs (original and rescaled units, or one step seen from a moving frame), step by step from synchronised states",
        "pairs of whole simulations with all models, schemes, boundaries and periodicity; factors are powers of two, which commute exactly with floating-point arithmetic",
        "distinct = (kind of pair, which units differ, scheme, model, boundaries, layout kind, step number)",
        ["steps in other units", "other length", "other time", "other mass", "plastic steps in other units", "steps of iterative models in other units", "steps with boundaries in other units", "steps in another frame of reference"],
        [A_MON, A_COND, A_FLY, "the iterative return mappings stop at residuals given in units of stress and are compared with the unit of stress unchanged; stresses stay far above 1e-10"]),
}
