"""Writes properties.jsonl and MANIFEST.json from one table.  Run by hand."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "code/cpp/src/"
P = []


def prop(i, title, statement, over, text, why, files, mech, state=(),
         observe=(), hook=None, technique=None, note=None, na=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=x, where=w) for n, x, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append((dict(id=i, title=title, statement=statement,
                   quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=a), technique, note, na))


RUNS = ("The project's tests only run the set-up of each test problem and one "
        "Krylov solve; the solver itself is never run, so they sample nothing "
        "of this.")

prop("C01", "No memory error, undefined behaviour or failed assertion",
     "On every valid input and in every supported option configuration, the "
     "solver never reads or writes outside of its arrays, never performs an "
     "undefined operation, and never aborts on an internal assertion. This "
     "covers whole simulations (one and two dimensions, every boundary type, "
     "flux, scheme and material mix) and every function offered to Python.",
     ["inputs", "configurations", "histories"],
     "all grid shapes down to the smallest supported, materials, interface "
     "positions (also at the edge of the domain), masks, boundary types, fluxes, "
     "schemes and option sets",
     RUNS + " Out-of-range reads are silent in ordinary builds.",
     [C + "solvers/iterator.cpp", C + "multi/fill.cpp", C + "etc/grid.cpp",
      C + "solvers/fv/fv.cpp", C + "solvers/weno/weno.cpp",
      C + "solvers/dg/dg.cpp", "code/cpp/bindings/bindings.cpp"],
     [("array sizing with ghost layers", C + "etc/grid.cpp extended_dimensions"),
      ("clamped probe indices", C + "multi/fill.cpp boundary_inds")],
     technique="ASan + UBSan + _GLIBCXX/Eigen assertions over whole simulations "
     "and function-level fuzzing",
     note="dynamic: holds on the executions run; alignment and vptr checks off")

prop("C02", "Results do not depend on uninitialised memory or on history",
     "The result of any call is a function of its arguments alone: it does not "
     "depend on what memory happened to contain, on earlier calls in the same "
     "process, or on repetition. Inputs that are not documented as outputs are "
     "left unchanged.",
     ["inputs", "configurations", "histories"],
     "any sequence of calls before, any contents of fresh heap and stack memory",
     RUNS + " A value that is read before it is written usually happens to be "
     "zero in a small test.",
     [C + "solvers/weno/weno_matrices.cpp", C + "solvers/dg/dg.cpp",
      C + "scipy/lgmres.cpp", C + "solvers/iterator.cpp", C + "etc/globals.cpp"],
     [("explicit setZero/initialisation before accumulation",
       C + "solvers/weno/weno_matrices.cpp, " + C + "system/equations.cpp")],
     technique="Valgrind Memcheck on every value of the results; differential "
     "monitors: the same workload in builds whose stack and heap start as zeros "
     "and as patterns, repeated and in another order",
     note="dynamic: flow through executed code")

prop("C03", "Threads neither race nor change the answer",
     "No two threads access the same memory location without ordering when one "
     "of them writes. The result of a simulation does not depend on the number "
     "of threads nor on the order in which they run.",
     ["schedules", "inputs", "configurations"],
     "every team size and every interleaving of the parallel regions",
     RUNS + " The tests use one host's thread count and one schedule.",
     [C + "solvers/steppers.cpp", C + "multi/fill.cpp"],
     [("slabs of rows with their own ghost rows",
       C + "solvers/steppers.cpp ader_stepper_para, split_stepper_para"),
      ("parallel loop over interface cells", C + "multi/fill.cpp "
       "fill_boundary_cells")],
     technique="ThreadSanitizer with a monitor-controlled OpenMP runtime; "
     "results compared across team sizes and schedules",
     note="dynamic: TSan reports races of the executed accesses irrespective of "
     "the order they happened in")

prop("C04", "Mass, momentum and energy are conserved",
     "In a periodic domain of a single material the totals of mass, momentum, energy and, without "
     "reactions, reactant mass (between symmetry planes: of mass, energy and "
     "tangential momentum) are constant to rounding through any number of steps, in one and two "
     "dimensions, with every flux and both schemes. With open boundaries they "
     "change only by the flux through the boundary, and reactions conserve "
     "total energy exactly while only consuming reactant.",
     ["inputs", "configurations", "histories"],
     "all initial states, materials, fluxes, schemes, grid shapes, time steps",
     RUNS,
     [C + "solvers/fv/fv.cpp", C + "solvers/fv/fluxes.cpp",
      C + "solvers/steppers.cpp", C + "etc/grid.cpp", C + "solvers/iterator.cpp"],
     [("one numerical flux per face, subtracted on one side and added on the "
       "other", C + "solvers/fv/fv.cpp interfs1_inner, interfs2_inner")],
     observe=["the solution array before and after each step"],
     technique="online conservation monitor over simulations",
     note="dynamic")

prop("C05", "Uniform states in equilibrium stay as they are",
     "A uniform state at rest or in uniform motion with nothing to relax stays "
     "exactly uniform and unchanged to rounding, in any direction, with every "
     "scheme, flux and matching boundary; so does a resting state next to solid "
     "walls. A contact of two materials at equal pressure and velocity keeps "
     "pressure and velocity.",
     ["inputs", "configurations", "histories"],
     "all materials, uniform velocities, grid shapes, boundaries, schemes",
     RUNS,
     [C + "solvers/iterator.cpp", C + "solvers/weno/weno.cpp",
      C + "solvers/dg/dg.cpp", C + "solvers/fv/fv.cpp", C + "multi/fill.cpp"],
     [("consistency of reconstruction, predictor and flux with constants",
       C + "solvers/")],
     technique="online invariance monitor over simulations", note="dynamic")

prop("C06", "The equations solved are those of the GPR model",
     "For every state of every supported material, the physical flux, the "
     "non-conservative terms, the source terms and the linearised system matrix "
     "in each direction are those that the Godunov-Peshkov-Romenski model "
     "prescribes (stress from the derivative of the energy, heat flux, "
     "relaxation, reaction), and the matrix equals flux Jacobian plus "
     "non-conservative matrix.",
     ["inputs", "configurations"],
     "all states, materials, rheologies, reactions, directions and option sets",
     RUNS + " The binding tests that would compare with a Python "
     "implementation do not run.",
     [C + "system/equations.cpp", C + "system/jacobians.cpp",
      C + "system/variables/state.cpp", C + "system/variables/sources.cpp",
      C + "system/energy/derivatives.cpp", C + "system/waves/shear.cpp"],
     [("hand-written fluxes and Jacobians", C + "system/equations.cpp, "
       + C + "system/jacobians.cpp")],
     technique="runtime oracle: an independent transcription of the model with "
     "complex-step derivatives, on random states", note="dynamic")

prop("C07", "Equation of state and change of variables are consistent",
     "Pressure and temperature recover exactly the internal energy for every "
     "equation of state, are unchanged by a change of frame or a rotation of the "
     "body, and satisfy the thermodynamic identities of the model. Conversion "
     "from conserved to primitive variables and back is the identity.",
     ["inputs", "configurations"],
     "all states over the range of validity of each equation of state",
     RUNS,
     [C + "system/energy/mg.cpp", C + "system/energy/eos.cpp",
      C + "system/energy/derivatives.cpp", C + "system/variables/state.cpp",
      C + "system/functions/vectors.cpp"],
     [("Mie-Grüneisen family", C + "system/energy/mg.cpp")],
     technique="runtime oracle: independent equation of state and "
     "thermodynamic identities on random states", note="dynamic")

prop("C08", "Wave speeds bound the spectrum and the time step obeys the CFL rule",
     "The reported largest wave speed in each direction is the spectral radius "
     "of the system. Each time step is the Courant number divided by "
     "the largest sum over directions of wave speed over cell size among the "
     "active cells, reduced for the first steps and cut to end at the final "
     "time exactly.",
     ["inputs", "configurations", "histories"],
     "all states, materials, grid spacings, Courant numbers and masks",
     RUNS,
     [C + "system/eig.cpp", C + "system/waves/speeds.cpp",
      C + "system/multi/eigenvecs.cpp", C + "solvers/iterator.cpp"],
     [("thermo-acoustic tensor", C + "system/eig.cpp"),
      ("timestep", C + "solvers/iterator.cpp timestep")],
     technique="runtime oracle: dense eigenvalues of the model's system matrix; "
     "trace monitor of the steps of simulations", note="dynamic")

prop("C09", "Interface fluxes are consistent, upwind and path-conservative",
     "With equal states on both sides every numerical flux is the physical flux. "
     "In general each adds the dissipation that defines it: the largest wave "
     "speed times the jump (Rusanov), the absolute value of the path-averaged "
     "system matrix (Roe) or the path average of the absolute value (Osher), and "
     "the non-conservative jump term is the path integral along the straight "
     "segment.",
     ["inputs", "configurations"],
     "all pairs of states of a material, all directions",
     RUNS + " The flux comparison tests do not run.",
     [C + "solvers/fv/fluxes.cpp"],
     [("quadrature over the segment between the states", C
       + "solvers/fv/fluxes.cpp D_OSH, D_ROE, D_RUS, Bint")],
     technique="runtime oracle: independent matrix functions of the model's "
     "system matrix on random pairs of states", note="dynamic")

prop("C10", "Reconstruction keeps averages, is exact and does not oscillate",
     "The reconstruction of a cell has the cell's average, reproduces "
     "polynomials of the design degree, treats both sides and both directions "
     "alike, is independent of what is outside of its stencil, and does not "
     "overshoot beyond a small fraction of a jump. It is the combination of its "
     "stencils' polynomials weighted by their smoothness.",
     ["inputs", "configurations"],
     "all data (smooth, discontinuous, of any scale), orders, dimensions and "
     "grid shapes",
     RUNS,
     [C + "solvers/weno/weno.cpp", C + "solvers/weno/weno_matrices.cpp"],
     [("weighted stencils", C + "solvers/weno/weno.cpp coeffs"),
      ("oscillation indicator", C + "solvers/weno/weno_matrices.cpp")],
     technique="runtime oracle: exact polynomial averages, symmetry and locality "
     "monitors, independent reconstruction", note="dynamic")

prop("C11", "Polynomial basis and quadrature are exact",
     "The nodes and weights integrate polynomials exactly to the degree of "
     "Gauss-Legendre quadrature; basis functions interpolate at the nodes, and "
     "their end values, derivatives and the matrices of the Galerkin weak form "
     "are the exact ones for every supported order.",
     ["configurations", "inputs"],
     "every order, every polynomial of the space",
     "No test evaluates the basis; the order is fixed at compile time.",
     [C + "scipy/legendre.cpp", C + "scipy/poly.cpp", C + "solvers/poly/basis.cpp",
      C + "solvers/poly/evaluations.cpp", C + "solvers/dg/dg_matrices.cpp",
      C + "etc/globals.cpp"],
     [("companion-matrix roots and Newton step", C + "scipy/legendre.cpp")],
     technique="runtime oracle: exact integrals of polynomials, through what "
     "the solver computes with them", note="dynamic")

prop("C12", "The predictor solves the local space-time problem",
     "The space-time predictor of a cell satisfies the weak form of the "
     "equations in that cell to its tolerance, with the reconstruction as "
     "initial data, with and without stiff sources, and reproduces exact "
     "solutions to the design order. It computes the cells that are asked for, "
     "each independently of the others.",
     ["inputs", "configurations"],
     "all reconstructed data, time steps up to the CFL limit, materials, masks",
     RUNS,
     [C + "solvers/dg/dg.cpp", C + "solvers/dg/dg1.cpp", C + "solvers/dg/dg2.cpp",
      C + "solvers/dg/initial_guess.cpp", C + "scipy/newton_krylov.cpp"],
     [("fixed-point iteration with a Newton-Krylov fallback",
       C + "solvers/dg/dg.cpp predictor")],
     technique="runtime residual monitor", note="dynamic")

prop("C13", "Ghost cells realise the boundary conditions",
     "The cells added around the domain realise the chosen condition on each "
     "side: copies of the edge (open), of the opposite side (periodic), or the "
     "mirror image in which the normal velocity (slip), every velocity (stick), "
     "the velocity relative to the moving lid, or all odd components (symmetric) "
     "change sign with density and internal energy kept. The interior is copied "
     "unchanged, and the mask of active cells is extended by exactly one "
     "neighbour.",
     ["inputs", "configurations"],
     "all states, grid shapes, combinations of conditions on the sides, masks",
     RUNS,
     [C + "etc/grid.cpp"],
     [("boundaries", C + "etc/grid.cpp boundaries1, boundaries2"),
      ("extend_mask", C + "etc/grid.cpp")],
     technique="runtime oracle on every ghost cell; in simulations through "
     "mirrored twins", note="dynamic")

prop("C14", "Relaxation of the distortion obeys its differential equation",
     "Advancing the distortion by its relaxation equation over any time keeps "
     "its determinant, its rotations and the conserved density, momentum and "
     "energy, never increases the shear energy, tends to the shear-free state "
     "for fluids and to the yield surface for plastic solids, leaves elastic "
     "solids alone, and approximates the exact solution within the accuracy of "
     "the model's analytic formula for every rheology.",
     ["inputs", "configurations"],
     "all distortions, time steps from far below to far above the relaxation "
     "time, all rheologies",
     RUNS,
     [C + "system/relaxation/analytic.cpp", C + "system/variables/sources.cpp"],
     [("closed form in singular values", C + "system/relaxation/analytic.cpp "
       "analyticSolver_distortion")],
     technique="runtime oracle: invariants, and high-accuracy integration of the "
     "independent relaxation equation", note="dynamic")

prop("C15", "Heat and reaction steps obey their differential equations",
     "Over any time step the thermal impulse decays along its direction as its "
     "relaxation equation says, and the reaction progress follows its rate law: "
     "the reactant fraction stays between zero and its initial value (and, in "
     "simulations, between zero and one in every cell), an inert or burnt material does not change, and the results converge to the exact "
     "solution as the step shrinks; everything else in the state is untouched. "
     "The scalar stiff solver offered to Python integrates linear and nonlinear "
     "equations to the order of its scheme.",
     ["inputs", "configurations"],
     "all states, rate laws and parameters, time steps",
     RUNS,
     [C + "system/relaxation/analytic.cpp", C + "system/relaxation/numerical.cpp",
      C + "system/variables/sources.cpp", C + "solvers/split/rk.cpp",
      C + "solvers/split/ode.cpp", C + "solvers/split/numeric.cpp"],
     [("analytic thermal solution, Runge-Kutta for reactions",
       C + "system/relaxation/")],
     technique="runtime oracle: high-accuracy integration of independent rate "
     "laws", note="dynamic")

prop("C16", "Distortion maintenance keeps the physical state",
     "Rescaling the distortion makes its determinant agree with the density and "
     "changes nothing else; resetting a contorted distortion removes exactly the "
     "shear energy it held and leaves pressure, velocity and density; rotating it "
     "keeps stress and energy. Vacuum cells are never touched and the contortion "
     "test reports exactly the states beyond its tolerance.",
     ["inputs", "configurations", "histories"],
     "all distortions, densities, material layouts and tolerances",
     RUNS,
     [C + "solvers/utils.cpp", C + "solvers/iterator.cpp"],
     [("renorm_distortion, reset_distortion, contorted", C + "solvers/utils.cpp")],
     technique="runtime oracle on whole-simulation steps that isolate the "
     "maintenance", note="dynamic")

prop("C17", "Level sets are redistanced without moving the interface",
     "Redistancing keeps the sign of every cell and returns the signed distance "
     "to the interface: exact for planar interfaces along the axes and within the "
     "order of the cell size otherwise, with unit slope away from the interface "
     "and from kinks, equivariant under mirrors, axis exchange and scaling, on "
     "any grid shape and spacing. A field without an interface keeps its sign.",
     ["inputs", "configurations"],
     "all level-set fields, interface positions, grid shapes and spacings",
     RUNS,
     [C + "multi/pfmm.cpp", C + "multi/functions.cpp",
      "code/cpp/include/skfmm/"],
     [("fast marching", C + "multi/pfmm.cpp distance")],
     technique="runtime oracle: exact distances and equivariance",
     note="dynamic")

prop("C18", "Materials are separated and reassembled by the level sets",
     "Every cell belongs to exactly one material, that whose number is how many "
     "level sets are not negative there. Each material's own cells are passed to its update unchanged, "
     "its ghost cells extend it from its side of the interface only, and after "
     "the update every cell holds its own material's state, or vacuum; inactive "
     "cells keep their values.",
     ["inputs", "configurations", "histories"],
     "all material layouts (also thin, isolated and touching the edge), numbers "
     "of materials and orders",
     RUNS,
     [C + "multi/fill.cpp", C + "multi/functions.cpp", C + "solvers/iterator.cpp",
      C + "system/functions/vectors.cpp"],
     [("fill_ghost_cells, make_u", C + "multi/fill.cpp, "
       + C + "solvers/iterator.cpp")],
     technique="runtime monitors on ghost filling and whole steps",
     note="dynamic")

prop("C19", "Interface states satisfy the jump conditions",
     "The star state computed at a material interface matches normal traction "
     "and normal velocity (tangential traction vanishing or matching as "
     "configured, no traction against vacuum), lies on the wave relations of its "
     "own material, and is independent of the orientation of the interface and "
     "of the frame. Equal states are left as they are, and the rotation used is "
     "orthogonal and undone exactly.",
     ["inputs", "configurations"],
     "all pairs of materials and states, interface normals, with heat and stick "
     "or slip",
     RUNS,
     [C + "system/multi/riemann.cpp", C + "system/multi/conditions.cpp",
      C + "system/multi/rotations.cpp", C + "system/multi/eigenvecs.cpp"],
     [("iterated linearised Riemann problem", C + "system/multi/riemann.cpp")],
     technique="runtime oracle on random Riemann problems", note="dynamic")

prop("C20", "Simulations commute with the symmetries of the equations",
     "With the Rusanov flux, mirroring along an axis (in two dimensions also in "
     "both), moving a problem along a periodic axis, turning the velocity and the "
     "tensors of a one-dimensional problem about the axis of variation, or "
     "rescaling length and time together, and then simulating gives the same as "
     "simulating first, for single and multiple materials; so does repeating a "
     "one-dimensional problem of a single material along the second axis and, "
     "where the corners of the domain are filled (NO_CORNERS off), exchanging or "
     "rotating the axes of a problem that varies along one of them. For elastic "
     "solids the agreement is to rounding; relaxation, the predictor's tolerance "
     "and interface states that do not converge amplify it.",
     ["inputs", "configurations", "histories"],
     "all initial states, boundaries, fluxes, schemes, materials",
     RUNS,
     [C + "solvers/", C + "etc/grid.cpp", C + "multi/fill.cpp"],
     [("dimension by dimension treatment", C + "solvers/")],
     technique="metamorphic monitors over pairs of simulations", note="dynamic")

prop("C21", "The Krylov solvers solve",
     "The linear solver returns a vector whose residual is below the requested "
     "tolerance for every regular, also preconditioned and ill-scaled, system "
     "within reach of its basis; the nonlinear solver finds a root within its "
     "tolerance for smooth systems near a root, but for rare stalls of its line "
     "search. Neither depends on earlier solves.",
     ["inputs", "histories"],
     "all regular linear systems, right-hand sides and starting points; smooth "
     "nonlinear systems",
     "One test solves one random system.",
     [C + "scipy/lgmres.cpp", C + "scipy/newton_krylov.cpp"],
     [("LGMRES with augmentation, line search", C + "scipy/")],
     technique="runtime residual monitor", note="dynamic")

prop("C22", "A run delivers finite snapshots up to the final time",
     "A run of positive duration ends at the requested final time and returns a "
     "hundred snapshots: the last is the final state; the others, in order, are "
     "each the first new state at or past their hundredth of the time (with "
     "fewer steps the latest are left empty). It prints its progress and time "
     "step after each step. When a value stops being a number the run ends and "
     "the last two snapshots are the last good and the bad state.",
     ["inputs", "configurations", "histories"],
     "all durations, numbers of steps, and failing states",
     RUNS,
     [C + "solvers/iterator.cpp"],
     [("iterator", C + "solvers/iterator.cpp")],
     technique="offline trace checker over the printed steps and the snapshots",
     note="dynamic")

prop("C23", "Simulations converge to exact solutions",
     "Simulated waves of every kind (sound, shear, entropy, heat, shock tubes, "
     "detonations, moving interfaces, viscous flow) agree with the exact or "
     "high-accuracy solution and the error falls at the order of the scheme as "
     "the grid is refined.",
     ["inputs", "configurations"],
     "all smooth and discontinuous initial data, materials, schemes and fluxes",
     RUNS,
     [C + "solvers/", C + "system/", C + "multi/"],
     [("the scheme as a whole", C + "solvers/steppers.cpp")],
     technique="runtime oracle: exact solutions", note="dynamic")

prop("C24", "The set-up interface builds what was asked for",
     "Materials made with material_params hold exactly the parameters given, with "
     "the flags that follow from them (power law, solid, Bingham) and, for "
     "mixtures, the second component's own parameters; states made with Cvec "
     "and Cvec_hyp hold the density, pressure (or deformation and entropy), "
     "velocity, distortion, heat impulse and concentration given, in the "
     "ordering and with the energy that the solver uses. State reads back what "
     "was put in, and the stresses, temperatures, derivatives, relaxation and "
     "reaction rates and wave speeds of the Python set-up and analysis functions "
     "are those of the solver's equations.",
     ["inputs", "configurations"],
     "all parameter sets, materials and states",
     "The tests only check that each set-up runs.",
     ["code/python/gpr/misc/", "code/python/gpr/vars/",
      "code/python/gpr/multi/__init__.py", "code/python/gpr/multi/rotations.py",
      C + "system/objects.h"],
     [("Cvec, material_params", "code/python/gpr/misc/")],
     technique="runtime oracle: round trips between the set-up functions and the "
     "solver", note="dynamic")

prop("C25", "A cell update is the balance of its fluxes and sources",
     "The finite-volume update changes a cell by the time step times the volume "
     "integral of sources and non-conservative products minus the face "
     "integrals of numerical flux and jump term, with the quadrature of the "
     "scheme, in one and two dimensions, with and without time levels. Only "
     "active cells' faces take part and nothing else is changed.",
     ["inputs", "configurations"],
     "all reconstructed data, grid shapes, masks, fluxes, materials",
     RUNS,
     [C + "solvers/fv/fv.cpp", C + "solvers/split/homogeneous.cpp",
      C + "solvers/poly/evaluations.cpp"],
     [("centers, interfs", C + "solvers/fv/fv.cpp"),
      ("half step of the split scheme", C + "solvers/split/homogeneous.cpp")],
     technique="runtime oracle: independent assembly from the module's own "
     "pointwise flux, source and product", note="dynamic")

prop("C26", "Mixtures share pressure and conserve their components",
     "For a mixture of reactant and product with different equations of state "
     "the pressure found is that at which the components, at their own densities "
     "and in temperature equilibrium, fill the volume and hold the energy of the "
     "mixture; in units in which the quantities are of order one it is found for "
     "most mixtures. The derivatives of the energy by density, and of the "
     "pressure by the energy and by the reactant's mass, are those along such "
     "states. A pure component has its own equation of state's pressure (not "
     "below zero), and a nearly pure one nearly that.",
     ["inputs", "configurations"],
     "all fractions, densities, energies and pairs of equations of state",
     RUNS,
     [C + "system/energy/multi.cpp"],
     [("iteration for the component densities", C + "system/energy/multi.cpp")],
     technique="runtime oracle: independent root finding", note="dynamic")

RE = dict(
    C01=240)


def main():
    have = {f[:-3].upper() for f in os.listdir(f"{V}/checks")
            if f.endswith(".py")}
    commits = []
    man = dict(version=1, setup_cmd="bin/setup",
               checks=[], not_applicable=[],
               notes="Checks build the module from /repo in /verif/build "
               "(ignored by git); known_findings.txt lists recorded defects.")
    with open(f"{V}/properties.jsonl", "w", encoding="utf-8") as f:
        for p, tech, note, na in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
            i = p["id"]
            if i in have:
                man["checks"].append(dict(
                    property=i, quick_cmd=f"bin/check {i} quick",
                    thorough_cmd=f"bin/check {i} thorough",
                    technique=tech, level="exploration",
                    level_note=note + "; exploration of the workloads described "
                    "in DESIGN.md, oracles independent of the code under test"))
            else:
                man["not_applicable"].append(dict(
                    property=i, reason=na or "no check built yet"))
    json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1,
              ensure_ascii=False)


main()
