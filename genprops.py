#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))
S = "src/simulation/"
H = "MATTER_MONITOR step hook in advanceStep"
TESTS = "The stable tests follow one particle with one set of parameters through a handful of 2D steps; "

prop("C01", "Mass and particles are conserved by every time step",
 "Every time step keeps the number of particles, the size of every per-particle record, and the particle mass and volume unchanged. The mass held by the background grid is non-negative, finite, located only within the interpolation support of particles (or their periodic images), and sums to the total particle mass; each node holds exactly the B-spline weighted share of the particle masses around it.",
 ["inputs", "configurations", "histories"], "all particle layouts (dense, sparse, aligned with nodes or half cells, coincident), 2D/3D, quadratic/cubic, all transfer schemes, periodic or not, any thread count, along whole simulations",
 TESTS + "mass conservation has a helper in the code that nobody calls.",
 [S+"p2g.cpp", S+"remesh.cpp", S+"pbc.cpp", "src/tools.hpp", S+"save_data.cpp"],
 [("partition of unity of the B-splines", "src/tools.hpp N()"), ("stencil accumulation", S+"p2g.cpp P2G()"), ("removal of periodic images", S+"pbc.cpp")],
 ["grid after the grid update", "saved grid files", "particles before/after each step"], H)

prop("C02", "Momentum changes only by gravity (and energy never by transfer alone)",
 "Without contact with boundaries, each time step changes the total linear momentum of the particles by exactly total mass times gravity times the step length, whatever the internal stresses, transfer scheme (PIC/FLIP/APIC/AFLIP, stress-last or modified stress-last), spline order, dimension or plastic model. The gravity applied in a step is the configured one, ramped linearly in time from zero when the gravity ramp is enabled. A pure PIC transfer without forces never increases kinetic energy.",
 ["inputs", "configurations", "histories"], "all particle states (positions, velocities, affine velocities, symmetric stresses), schemes and step lengths, over multi-step histories",
 TESTS + "no test looks at total momentum.",
 [S+"p2g.cpp", S+"explicit_euler_update.cpp", S+"g2p.cpp", S+"musl.cpp", S+"position_update.cpp", S+"update_dt.cpp"],
 [("internal forces from spline gradients sum to zero", S+"p2g.cpp"), ("velocity increment", S+"explicit_euler_update.cpp"), ("velocity blend", S+"position_update.cpp, "+S+"musl.cpp"), ("gravity ramp", S+"update_dt.cpp")],
 ["particle velocities before/after each step"], H)

prop("C03", "Uniform and affine motions are reproduced exactly",
 "A stress-free body in uniform motion keeps exactly that velocity, moves by velocity times time and does not deform, under every transfer scheme. A stress-free body whose particles carry an affine velocity field (including rigid rotation and shear) keeps exactly that field under the affine schemes (APIC, AFLIP): every particle velocity, affine matrix and velocity gradient equals the field, and the deformation gradient is multiplied by identity plus step length times the gradient. APIC conserves total angular momentum for arbitrary particle velocities when there are no forces.",
 ["inputs", "configurations"], "all particle layouts, affine fields, initial deformation gradients, spline orders, dimensions, both stress-update orders",
 TESTS + "none uses an affine field and none checks the deformation gradient.",
 [S+"p2g.cpp", S+"g2p.cpp", S+"musl.cpp", S+"deformation_update.cpp", S+"position_update.cpp", "src/tools.hpp"],
 [("affine term with D^-1", S+"p2g.cpp, simulation.cpp apicDinverse"), ("B matrix and velocity gradient", S+"g2p.cpp, "+S+"deformation_update.cpp")],
 ["particles before/after each step"], H)

prop("C04", "Results do not depend on labelling, placement or orientation of axes",
 "Renumbering the particles, translating the whole set-up (particles, objects, grid reference point), mirroring it along an axis or exchanging axes gives the correspondingly renumbered, translated, mirrored or exchanged result. This holds for whole simulations with any elastic/plastic model, transfer scheme and boundary plates.",
 ["inputs", "configurations"], "random set-ups compared with their transformed copies over several steps",
 TESTS + "no test compares two set-ups.",
 [S+"p2g.cpp", S+"g2p.cpp", S+"plasticity.cpp", S+"boundary_collision.cpp", S+"remesh.cpp", "src/objects/object_plate.hpp"],
 [("grid anchored to the particle bounding box", S+"remesh.cpp"), ("dimension-by-dimension formulas", S+"*.cpp")],
 ["final particle state of paired simulations"], None)

prop("C05", "Results are independent of threads and schedules; no data races",
 "For every number of threads, and every interleaving of them, a simulation gives the same particle and grid state as the single-threaded one up to floating-point summation order, and the same decisions (dt sequence, frame count, plastic/elastic classification away from ties). A single-threaded run is bitwise repeatable. No two threads access the same memory without synchronisation where one of them writes.",
 ["schedules", "configurations", "inputs"], "thread counts 1..16 (fewer and more than particles), delayed and permuted thread schedules, all models, schemes, periodic images, friction from the material",
 "The tests run single-threaded simulations.",
 [S+"p2g.cpp", S+"g2p.cpp", S+"musl.cpp", S+"pbc.cpp", S+"deformation_update.cpp", S+"explicit_euler_update.cpp", S+"position_update.cpp", S+"save_data.cpp"],
 [("thread-local grids merged in a critical section", S+"p2g.cpp, "+S+"musl.cpp"), ("reductions", S+"g2p.cpp, "+S+"deformation_update.cpp")],
 ["final state across thread counts", "ThreadSanitizer reports"], None)

prop("C06", "No out-of-bounds access, undefined behaviour or uninitialised values",
 "No simulation with a valid set-up reads or writes outside its arrays, uses freed memory, executes undefined arithmetic (integer overflow, invalid conversions) or lets an uninitialised value influence its result.",
 ["inputs", "configurations", "histories"], "all models, hardening laws, boundary objects, periodic images, material-induced friction, extreme layouts (single particle, exact grid alignment, displacement by whole cells, far apart), 2D/3D, quadratic/cubic, output on",
 TESTS + "without sanitizers, and with a build whose stack happens to be clean.",
 [S+"p2g.cpp", S+"g2p.cpp", S+"remesh.cpp", S+"pbc.cpp", S+"plasticity.cpp", S+"save_data.cpp", "src/objects", "src/plasticity_helpers"],
 [("grid margins", S+"remesh.cpp"), ("array sizes", "src/data_structures.hpp")],
 ["AddressSanitizer/UBSan/valgrind reports", "equality of runs whose stack is filled with different patterns"], None)

prop("C07", "Time steps respect the CFL limits and land on the frame times",
 "Every time step is positive and no longer than the particle-speed limit, the elastic-wave limit and the time left in the current frame, and is as long as these allow (never below the configured minimum). Frames therefore end at multiples of the frame interval, the simulation ends at the last frame after finitely many steps, and the state at a frame does not depend on how many further frames were requested.",
 ["inputs", "configurations", "histories"], "all frame rates (below and above the stable step), end frames, CFL coefficients, speeds from zero to above the wave speed",
 TESTS + "frame bookkeeping for incommensurable rates and long runs is not looked at.",
 [S+"update_dt.cpp", S+"simulation.cpp"],
 [("dt selection", S+"update_dt.cpp"), ("frame counting", S+"simulation.cpp simulate()")],
 ["sequence of (time, step length, frame)", "saved frames"], H)

prop("C08", "The adaptive grid always covers the particles, on one fixed lattice",
 "In every step the background grid contains the full interpolation stencil of every particle; its nodes are evenly spaced at the grid spacing and all grids of a non-periodic simulation lie on one common lattice. The grid stays tight: it extends no more than a few cells beyond the particles (and, initially, the reference point), shrinking and growing with them.",
 ["inputs", "histories"], "particle motions of any distance and direction per step (including exactly whole cells), expansion, contraction, separation of groups, reference points inside and outside the body",
 TESTS + "a single particle never stresses growth in several directions, and whole-cell moves do not occur.",
 [S+"remesh.cpp"], [("expansion/reduction factors", S+"remesh.cpp remeshFixedCont()"), ("initial grid", S+"remesh.cpp remeshFixedInit()")],
 ["grid coordinates of each step"], H)

prop("C09", "Stress is the configured elastic law of the elastic deformation",
 "After every step the Kirchhoff stress of every particle equals the configured elastic law (Hencky or Neo-Hookean) of its stored deformation gradient: it is symmetric, zero for a pure rotation, unchanged by a prior rotation of the reference, and rotates with the body. A purely elastic particle's deformation gradient is the trial one, whatever model is configured.",
 ["inputs", "configurations"], "all deformation gradients (large stretch, near-singular distinct and repeated principal stretches, rotations), elastic constants, 2D (plane strain) and 3D, all plastic models",
 TESTS + "they do not look at stress.",
 [S+"plasticity.cpp", S+"g2p.cpp", S+"deformation_update.cpp", S+"simulation.cpp"],
 [("stress from Hencky strains / Neo-Hookean Piola", S+"plasticity.cpp"), ("Lame parameters from E and nu", S+"simulation.cpp")],
 ["particle F and stress after each step"], None)

prop("C10", "Returned stresses satisfy the yield criterion of the model",
 "After every step of a rate-independent model (Von Mises, Drucker-Prager, softening Drucker-Prager, Modified Cam-Clay with each hardening law) every particle's stress lies inside or on the yield surface for the hardening state the law prescribes (the updated one for Von Mises and the implicit Cam-Clay laws, the one before the step for the explicit Cam-Clay laws, the predicted one for softening Drucker-Prager), and on it if the particle yielded (Cam-Clay: within the solver's stopping tolerance, for moderate trial states); a trial stress strictly inside is left untouched. The returned state follows the model's flow rule: pressure is unchanged for Von Mises and for Drucker-Prager away from the tip, goes to the tip if beyond it, and follows the associated flow rule for Cam-Clay.",
 ["inputs", "configurations", "histories"], "all trial deformations (tension, compression, shear, at the tip, near the surface), material parameters, hardening/softening states, stress measures (q prefactor), loading histories",
 "The stable tests run no plastic model.",
 [S+"plasticity.cpp", "src/plasticity_helpers/mcc_rma_explicit.hpp", "src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp", "src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp"],
 [("return mappings", S+"plasticity.cpp and src/plasticity_helpers")],
 ["particle F, stress and plastic strains before/after a step"], None)

prop("C11", "Rate-dependent models obey their viscous or mu(I) law",
 "After a step of a viscous model (Von Mises, Drucker-Prager, Cam-Clay; Perzyna or Duvaut-Lions) the overstress and the plastic shear rate satisfy the model's rate equation; the stress lies between the rate-independent result and the trial stress, tends to the former as the viscous time goes to zero, and equals it at zero viscous time. In the mu(I) models the friction coefficient lies between the static and limiting values, increases with the shear rate as mu(I) prescribes, and the returned shear stress is that friction times the pressure measure.",
 ["inputs", "configurations"], "all trial deformations, viscous times and exponents, step lengths, grain parameters, stress measures",
 "The stable tests run no plastic model.",
 [S+"plasticity.cpp"], [("viscous multipliers and Newton iterations", S+"plasticity.cpp"), ("quadratic for the mu(I) shear rate", S+"plasticity.cpp")],
 ["particle F, stress, plastic strains, shear rate, friction and viscosity before/after a step"], None)

prop("C12", "Plastic strain bookkeeping matches the deformation actually removed",
 "In every step, for every plastic model, the increments of the accumulated volumetric and deviatoric plastic strain equal the volumetric and deviatoric Hencky strain removed from the trial elastic deformation (with the volume correction of the Drucker-Prager models, expansion at the tip is remembered separately and recovered before pressure builds up again); the deviatoric measure never decreases. The return keeps the principal axes of the trial state. The reported plastic shear rate is the deviatoric increment (in the chosen shear-strain measure) per unit time, and zero for a particle that did not yield.",
 ["inputs", "configurations", "histories"], "all plastic models, trial deformations, stress measures, softening histories, both stress-update orders",
 "The stable tests run no plastic model.",
 [S+"plasticity.cpp", S+"g2p.cpp", S+"deformation_update.cpp"], [("plastic strain updates", S+"plasticity.cpp"), ("reset of the shear rate", S+"g2p.cpp, "+S+"deformation_update.cpp")],
 ["particle F and plastic strains before/after a step"], None)

prop("C13", "Boundary conditions hold at every grid node in contact",
 "A grid node whose position after the step would be inside an object or plate receives the boundary's condition: no-slip takes the boundary's velocity; slip conditions remove the approaching normal velocity and reduce the tangential relative velocity by at most the friction coefficient times the removed normal velocity, never reversing or turning it; separation is free for the separable condition and suppressed for the sticking one. With material-induced friction the coefficient is the mass-weighted average of the material's friction around the node. Nodes not in contact are unaffected, and several boundaries act one after the other.",
 ["inputs", "configurations"], "all approach velocities and directions, friction values, moving plates, finite plate extents, curved objects, several simultaneous contacts, 2D and 3D",
 TESTS + "with a single no-slip level set; plates, friction, separation and 3D are not exercised.",
 [S+"boundary_collision.cpp", S+"explicit_euler_update.cpp", S+"p2g.cpp", "src/objects/object_plate.hpp"],
 [("collision response", S+"boundary_collision.cpp"), ("nodal friction", S+"p2g.cpp")],
 ["grid velocities after the grid update", "particle velocities"], H)

prop("C14", "Moving plates follow their prescribed motion",
 "In each step a plate moves by its current velocity times the step length along its normal, its finite extent moves along with its tangential velocity, and its velocity is the prescribed one, divided by the slow-down factor during the initial loading period; the velocity with which it acts on material is the velocity it moves with. The plate occupies exactly the half-space (within its extent) on its side of its position. Material held by a no-slip plate moves with it.",
 ["inputs", "configurations", "histories"], "all plate types, velocities, slow-down factors, loading periods, extents, step-length sequences",
 "The tests contain no plates.",
 ["src/objects/object_plate.hpp", S+"simulation.cpp"], [("plate motion", "src/objects/object_plate.hpp move()"), ("inside test", "src/objects/object_plate.hpp inside()")],
 ["plate position and velocity after each step"], H)

prop("C15", "Terrain normals are unit, outward and consistent with the inside test",
 "Every terrain object (ground, bump, gate, ramp, curve, silo, level set from file) has a deterministic inside test whose boundary is its documented surface, and at every surface point returns a finite unit normal, perpendicular to the surface and pointing from inside to outside. Particles pressed against a no-slip terrain never sink into it by more than the reach of the interpolation.",
 ["inputs", "configurations"], "all points of the surfaces including steep flanks, symmetry points, and points slightly inside, in 2D and 3D",
 "The tests check the normal at a few points of one level set and of one analytic curve.",
 ["src/objects"], [("inside/normal of each object", "src/objects/*.hpp")],
 ["object queries"], None)

prop("C16", "Periodic boundaries are seamless",
 "With periodic boundaries in x (the period a whole number of cells), particles always end a step with x in [0, Lx], and material interacts across the seam exactly as in the interior: shifting the whole set-up cyclically by a whole number of cells gives the cyclically shifted result. Total mass, momentum balance and the number of particles are the same as without a seam, and periodic images never persist.",
 ["inputs", "configurations", "histories"], "particle layouts concentrated at the seam (including exactly at 0 and Lx), all schemes, friction from the material, thread counts, many steps with crossings",
 "No test uses periodic boundaries.",
 [S+"pbc.cpp", S+"position_update.cpp", S+"remesh.cpp", S+"musl.cpp"], [("periodic images", S+"pbc.cpp"), ("wrap-around", S+"position_update.cpp")],
 ["particles and grid of paired simulations"], H)

prop("C17", "Saved files are complete and faithful",
 "A simulation that saves writes one particle file (and, if requested, one grid file) per frame from 0 (grid: 1) to the last frame, each a valid binary PLY with every documented field for every particle or node in order, holding exactly the in-memory values at that frame; pressure, shear stress and elastic volume ratio are those of the stored stress and deformation. The information file, the copy of the set-up, the volume averages (on request) and the last-written marker agree with the run; saving does not change the simulation.",
 ["inputs", "configurations", "histories"], "all models and options that change the set of fields, frame counts, thread counts, dimensions",
 "The only file test loads a level set.",
 [S+"save_data.cpp", S+"simulation.cpp"], [("PLY export", S+"save_data.cpp"), ("frame loop", S+"simulation.cpp simulate()")],
 ["files in the output directory against recorded state"], H)

prop("C18", "Sampling fills the requested shape with consistent particles",
 "Regular and Poisson-disk sampling (from a box, a cropped shape or a level set) places all particles inside the requested region, at the documented spacing (as many whole spacings as fit in each direction, up to rounding) or at least the sampling radius apart, without duplicates and filling the region. Grid spacing, particle volume and mass are consistent with the density and the requested particles per cell so that total mass represents the sampled volume, and every particle starts undeformed, stress-free and at rest.",
 ["inputs", "configurations"], "all domain sizes, spacings/radii, particles per cell, crop shapes, level sets, seeds",
 "No stable test samples particles.",
 ["src/sampling", "src/data_structures.hpp"], [("samplers", "src/sampling/*.hpp"), ("initial particle state", "src/data_structures.hpp")],
 ["particle arrays after sampling"], None)

prop("C19", "Each step is the documented MPM step for the chosen scheme",
 "From the state before a step, the positions, velocities, affine velocities, deformation gradients and (for elastic, Von Mises and Drucker-Prager materials) stresses after it are those of the explicit MPM step with the chosen spline order, transfer scheme (PIC/FLIP ratio, APIC, AFLIP ratio) and stress-update order: particle-to-grid transfer, grid momentum update with internal force, gravity and boundary response, grid-to-particle transfer, position update with the interpolated grid velocity. The velocity is the configured blend of the interpolated velocity and the incremented old velocity.",
 ["inputs", "configurations", "histories"], "all states, schemes and boundary set-ups, step by step along simulations, 2D/3D, quadratic/cubic",
 TESTS + "agreement with the scheme's equations is not checked for any other configuration.",
 [S+"p2g.cpp", S+"explicit_euler_update.cpp", S+"g2p.cpp", S+"musl.cpp", S+"deformation_update.cpp", S+"position_update.cpp", S+"simulation.cpp", "src/tools.hpp"],
 [("step sequence", S+"simulation.cpp advanceStep()")],
 ["particles before/after each step"], H)

prop("C20", "Invalid set-ups and failures stop the run without touching the state",
 "A simulation that was not initialised, combines a plastic model with an incompatible elastic model, or could not create its output stops before the first step and leaves particles, plates and files untouched. A failure inside a step (invalid hardening law or boundary condition, invalid viscous exponent, a viscous or implicit sinh Cam-Clay return mapping whose iteration does not converge) raises the failure flag and ends the run without writing further frames; valid runs never raise it.",
 ["configurations", "fault_sequences", "inputs"], "all invalid combinations, unwritable or conflicting output paths, failures at any step and in any thread",
 "No test runs an invalid set-up.",
 [S+"simulation.cpp", S+"plasticity.cpp", S+"boundary_collision.cpp"], [("guards at the start of simulate()", S+"simulation.cpp"), ("failure flag", S+"simulation.cpp simulate()")],
 ["failure flag, particle state, output directory"], None)

prop("C21", "Material-induced boundary friction is the material's internal friction",
 "With material-induced boundary friction, boundaries resist sliding with the friction the material itself has, whatever friction their own parameters state: every particle carries a finite friction value which is the static friction of its model (M, or mu_1 for mu(I) models) initially and while it is elastic, the mobilised friction of its stress state while it yields, and M for models of constant friction, so that such a material behaves as if every boundary had friction M. Without the option the friction carried by particles has no effect on the motion.",
 ["inputs", "configurations", "histories"], "all plastic models, hardening laws, trial states and histories, boundary types and friction parameters",
 "No test uses friction.",
 [S+"plasticity.cpp", S+"p2g.cpp", S+"boundary_collision.cpp", S+"explicit_euler_update.cpp", S+"simulation.cpp"],
 [("friction of a particle", S+"plasticity.cpp"), ("choice of friction at a node", S+"boundary_collision.cpp"), ("initial values", S+"simulation.cpp")],
 ["friction value of particles after each step", "particles of paired simulations"], H)

prop("C22", "Results do not depend on units or on a common velocity",
 "Expressing a set-up in other units of length, time and mass (all lengths, velocities, densities, stiffnesses, strengths, accelerations, viscous times, grain sizes and frame rates converted) gives the same simulation in those units: same steps, step lengths, positions, velocities, deformations, stresses and plastic strains after conversion; no hidden absolute thresholds take part. (The iterative return mappings stop at residuals in units of stress, so for them the unit of stress is kept.) Away from boundaries, giving all particles an additional common velocity changes a step only by adding that velocity to the velocities and its displacement to the positions.",
 ["inputs", "configurations", "histories"], "all materials, schemes, boundaries, layouts and magnitudes, 2D/3D, quadratic/cubic",
 TESTS + "no test compares two set-ups.",
 [S+"update_dt.cpp", S+"p2g.cpp", S+"explicit_euler_update.cpp", S+"boundary_collision.cpp", S+"g2p.cpp", S+"musl.cpp", S+"position_update.cpp", S+"plasticity.cpp", S+"remesh.cpp", S+"simulation.cpp"],
 [("derived quantities", S+"simulation.cpp simulate()"), ("step length", S+"update_dt.cpp"), ("return mappings", S+"plasticity.cpp")],
 ["particles, plates and step lengths of paired simulations"], H)

with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
