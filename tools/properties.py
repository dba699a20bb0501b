#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is the list below)."""
import json, os
P = []
CL = "source/constitutive_laws.cc"
G = "source/gradient_crystal_plasticity/"


def prop(pid, title, statement, over, text, why, files, mech, observe,
         hook=False, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w}
                      for n, m, w in state]
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("P01", "Crystal frames: rotated, orthonormal slip systems; bad input is refused",
     "For every crystal, the slip directions, normals and (in 3D) binormals handed out are the listed reference systems, normalised and turned by that crystal's Euler angles (degrees; in-plane angle in 2D, Bunge z-x-z in 3D), so they are unit, mutually orthogonal, and the Schmid tensors are the (symmetrised) direction-normal dyads. "
     "The number of crystals and slip systems are those of the mesh and of the files. "
     "Files that are missing, have rows with a wrong number of entries, differing numbers of directions and normals, a number of orientations other than the number of crystals, or non-orthogonal systems are refused with an exception.",
     ["inputs"], "all orientation, slip direction and slip normal files (valid and malformed), 2D and 3D, any number of crystals and slip systems",
     "crystal_data_test reads one 2D and one 3D data set and compares against itself; angles, scalings, signs and malformed files are not varied.",
     ["source/crystal_data.cc", "include/gCP/crystal_data.h"],
     [("read_and_store_data", "source/crystal_data.cc:72"), ("compute_rotation_matrices", "source/crystal_data.cc"), ("compute_slip_systems", "source/crystal_data.cc")],
     ["public accessors of the crystal data after initialisation", "exceptions thrown by the initialisation"])

prop("P02", "Hooke's law: rotated cubic stiffness, symmetric, energy conserving",
     "The stress returned for any crystal and strain is the cubic elasticity law with the three given constants, evaluated in the crystal's frame and turned back, divided by the characteristic stiffness; the stiffness tetrad has minor and major symmetry and the tetrad and the stress function agree. "
     "Rotating crystal and strain together rotates the stress, and for isotropic constants the orientation does not matter. "
     "The three-dimensional tetrad used for plane-strain output has the two-dimensional one as its in-plane part.",
     ["inputs"], "all elastic constants, crystal orientations, strains and characteristic stiffnesses; 2D and 3D",
     "constitutive_laws_test is not registered; unit tests compare a single rotation with stored numbers.",
     [CL, "include/gCP/constitutive_laws.h"],
     [("HookeLaw::init", CL), ("HookeLaw::get_stress_tensor", CL)],
     ["stress tensors and stiffness tetrads returned by the law"])

prop("P03", "Elastic-plastic split is exact and resolved shear stress is power conjugate",
     "For any strain and slips, elastic strain plus the dimensionless factor times plastic strain is the total strain, plastic strain is the sum of slip times symmetrised Schmid tensor and is traceless. "
     "For any stress the plastic work rate, stress contracted with plastic strain rate, equals the sum of resolved shear stress times slip rate.",
     ["inputs"], "all strains, slips, stresses, orientations and slip systems; 2D and 3D",
     "No registered test evaluates the kinematics; the identities must hold for all tensors, not for a sampled one.",
     [CL, "include/gCP/constitutive_laws.h"],
     [("ElasticStrain::get_elastic_strain_tensor", CL + ":40"), ("get_resolved_shear_stress", "include/gCP/constitutive_laws.h")],
     ["tensors returned by the kinematic functions"])

prop("P04", "Scalar microstress: bounded, odd, monotone regularised flow rule and tangent",
     "The scalar microstress is the slip resistance times the configured regularisation of the slip rate: odd, non-decreasing, bounded by the slip resistance, with initial slope resistance over regularisation parameter, and the plain sign function in rate-independent mode; its product with the slip rate is never negative. "
     "Its tangent is finite for every rate, symmetric when resistances are equal, and equals the derivative of the microstress including the hardening matrix (with the sign of the second rate replaced by the regularisation). "
     "All five regularisations obey their defining formula, and the free-standing sigmoid helpers agree with it.",
     ["inputs", "configurations"], "all slips, old slips, resistances, time steps, regularisation functions and parameters, hardening parameters, flags",
     "No registered test covers it; overflow regions, each regularisation and sign combinations have to be explored.",
     [CL, "source/utilities.cc"],
     [("get_scalar_microstress", CL), ("ScalarMicrostressLaw::get_jacobian", CL), ("sigmoid_function", "source/utilities.cc")],
     ["microstress values and tangent matrices", "sigmoid helper values"])

prop("P05", "Vectorial microstress derives from the defect energy; tangent is its Hessian",
     "For every slip gradient the vectorial microstress is the gradient of the power-law defect energy in the edge and screw components of the gradient, so it does not depend on the component along the slip normal, is homogeneous of degree index minus one, and performs non-negative work; in dimensionless form the prefactor is one, otherwise initial slip resistance times length scale to the defect index. "
     "The tangent is the symmetric positive semidefinite derivative of that vector. "
     "Values are finite for every gradient, including zero, for defect indices of at least two.",
     ["inputs", "configurations"], "all gradients, orientations, slip systems and defect indices; 2D and 3D",
     "Only one gradient with index 2 is evaluated by an unregistered test.",
     [CL], [("get_vectorial_microstress", CL), ("VectorialMicrostressLaw::get_jacobian", CL)],
     ["microstress vectors and tangents"])

prop("P06", "Grain-boundary microtraction is the derivative of the boundary energy",
     "For every pair of different crystals, boundary normal and slips, the microtraction of each side is the negative derivative of the boundary free energy with respect to that side's slip (over the characteristic microstress), the energy being half the modulus times the squared jump of the boundary Burgers tensor; it is therefore symmetric under exchanging the two sides and vanishes when both sides have the same orientation and slips. "
     "Intra- and inter-grain interaction moduli and the tangents have the corresponding symmetries and the tangents are the exact derivatives. "
     "Any physically valid orientation pair and unit normal is accepted, and equal crystal identifiers are refused.",
     ["inputs"], "all orientation pairs, slip systems, normals and slips; 2D and 3D",
     "Stored numbers for one orientation pair in an unregistered test.",
     [CL], [("get_grain_interaction_moduli", CL + ":783"), ("get_microtraction", CL), ("get_free_energy_density", CL)],
     ["moduli, microtractions, tangents and energies returned by the law"])

prop("P07", "Cohesive law: envelope, secant unloading, irreversibility, exact tangent",
     "For every opening displacement the cohesive traction is along the effective direction (positive normal part plus squared-ratio-weighted tangential part), follows the exponential envelope peaking at the critical traction at the critical opening when the opening is the largest ever and growing, and unloads and reloads along the secant to that maximum otherwise; it is zero for pure compression and the derivative of the stored energy on loading. "
     "Tractions and tangents are finite for every admissible history, and the tangent is the symmetric derivative of the traction at fixed history with respect to the opening in physical units (the argument times the characteristic displacement). "
     "Around any closed opening cycle the law never returns more work than it took.",
     ["inputs", "histories"], "all openings, normals, maxima, previous openings, stiffness ratios, critical values; loading, unloading and reloading sequences; 2D and 3D",
     "An unregistered test samples one path; NaN corner cases (zero and compressive openings) and cycles are not visited.",
     [CL], [("get_cohesive_traction", CL), ("CohesiveLaw::get_jacobian", CL), ("get_effective_quantities", CL)],
     ["tractions, tangents and energies returned by the law along histories"])

prop("P08", "Contact law pushes back on penetration only, along the normal",
     "For every opening displacement the contact traction is zero when the crystals are apart or touching, and otherwise is the penalty coefficient times the penetration along the normal, opposing the penetration, never with a tangential part, scaled by the characteristic displacement over the characteristic stress. "
     "Its tangent is the derivative of the traction with respect to the opening in physical units (the argument times the characteristic displacement) away from first contact; both are finite for any opening including exactly zero.",
     ["inputs"], "all openings, normals, penalties and characteristic quantities; 2D and 3D",
     "No test at all.", [CL], [("get_contact_traction", CL), ("ContactLaw::get_jacobian", CL)],
     ["tractions and tangents returned by the law"])

prop("P09", "Slip resistances never soften and depend only on the last committed state",
     "Over any history of updates, commits and rollbacks each slip resistance starts at the initial resistance (over the characteristic one), equals the committed value plus the hardening matrix times the absolute slip increments of the last update, never decreases through an update, is unchanged under perfect plasticity, and is restored exactly by a rollback. "
     "Repeating an update, or making a different one first, does not change the result.",
     ["histories", "inputs"], "all sequences of update, store and reset with all slip increments and hardening parameters",
     "The unit test runs one update sequence with one set of values.",
     [G + "quadrature_point_history.cc", "include/gCP/quadrature_point_history.h"],
     [("QuadraturePointHistory::update_values", G + "quadrature_point_history.cc")],
     ["slip resistances read back after every operation"])

prop("P10", "Grain-boundary damage and maximum opening are monotone, bounded, revocable",
     "Over any history of updates, commits and rollbacks, the damage of a grain-boundary point stays within [0,1] and, like the largest effective opening ever reached, never falls below its committed value; both are functions of the committed state and the last update only, and are restored exactly by a rollback. "
     "Damage follows the configured evolution law (the exponential opening law, or accumulation with the rate of opening, decay and endurance limit) and stays zero when it is configured to. "
     "The history of a boundary face is one and the same object seen from both adjacent cells, and the boundary faces that have one are exactly the interior faces between different crystals.",
     ["histories", "inputs", "configurations"], "all sequences of update, store and reset; all openings, forces, parameters; all meshes with several crystals",
     "The unit test runs one sequence with one parameter set.",
     [G + "quadrature_point_history.cc", "include/gCP/quadrature_point_history.h"],
     [("InterfaceQuadraturePointHistory::update_values", G + "quadrature_point_history.cc"), ("InterfaceDataStorage::initialize", "include/gCP/quadrature_point_history.h")],
     ["damage and opening values read back after every operation"])

prop("P11", "Line search: bounded backtracking and Armijo acceptance",
     "For every sequence of trial values the relaxation parameter stays finite and positive, each reduction lies between a tenth and a half of the previous value, and for well-posed data it is the minimiser of the quadratic (first) or cubic (later) interpolant. "
     "A trial is accepted exactly when its value is below the initial value plus alpha times lambda times the slope (minus twice the initial value), or the iteration limit has been passed. "
     "Reinitialising discards everything from earlier searches.",
     ["histories", "inputs"], "all initial values, trial value sequences, parameters, and sequences of searches with one object",
     "One registered test minimises three fixed functions.",
     ["source/line_search.cc", "include/gCP/line_search.h"],
     [("get_lambda", "source/line_search.cc"), ("cubic_backtracking", "source/line_search.cc"), ("suficient_descent_condition", "include/gCP/line_search.h")],
     ["relaxation parameters returned", "acceptance decisions"])

prop("P12", "Parameter files: every entry reaches its setting; invalid files are refused",
     "A parameter file either configures the program exactly as written, every entry reaching the one setting it names and no other, with derived loading and dimensionless quantities following from them, or is refused with an exception that names the problem; it is never silently reinterpreted. "
     "Values outside the declared range or not among the listed choices, unknown entries, and inconsistent combinations that the program documents as such are refused; a missing file is replaced by a template of the defaults and reported.",
     ["inputs", "configurations"], "all parameter files: every declared entry, every listed choice, random combinations, and malformed files",
     "No test reads a parameter file.",
     ["source/run_time_parameters.cc", "include/gCP/run_time_parameters.h"],
     [("parse_parameters of every parameter group", "source/run_time_parameters.cc"), ("declare_parameters of every parameter group", "source/run_time_parameters.cc")],
     ["parameter structures after reading a file", "exceptions"])

prop("P13", "Loading programme: time steps and prescribed displacements hit every phase",
     "For every loading programme (monotonic, cyclic, cyclic with unloading) the time steps the schedule hands out add up to the end time, end exactly at the ends of the phases, and extrapolation is skipped exactly where configured. "
     "The prescribed strip displacement is the configured strain times the strip height over the characteristic displacement: zero at the start, proportional to time when monotonic, and in the cyclic programmes ramping to the mean load, oscillating between minimum and maximum load with the configured period. "
     "Only the sheared component of each crystal's displacement is prescribed, identically for every crystal. "
     "The application solves exactly these steps, with exactly these displacements at the boundaries.",
     ["inputs", "configurations"], "all loading programmes, loads, durations, step counts, cycles and strip heights",
     "No test evaluates the schedule or the boundary functions.",
     ["source/boundary_conditions.cc", "source/run_time_parameters.cc", "applications/simple_shear.cc"],
     [("DisplacementControl::vector_value", "source/boundary_conditions.cc"), ("get_next_time_step_size", "source/run_time_parameters.cc")],
     ["time step sizes and prescribed values"])

prop("P14", "The dimensionless formulation gives the same physical answer",
     "Solving a problem in dimensionless form and scaling the result back with the characteristic quantities gives the same displacements, slips, slip resistances and stresses as solving it in dimensional form, at every load step, up to solver tolerance. "
     "The characteristic quantities and dimensionless numbers satisfy their defining relations for every parameter set.",
     ["inputs", "configurations"], "all parameter sets for which both forms are admitted",
     "No test solves a problem; equality of two whole formulations is not a unit-level fact.",
     ["source/run_time_parameters.cc", G + "assembly.cc", G + "setup.cc"],
     [("DimensionlessForm::init", "source/run_time_parameters.cc"), ("characteristic scaling in assembly", G + "assembly.cc")],
     ["converged solutions of both forms", "characteristic quantities"])

prop("P15", "Finite element layout: continuity and jumps exactly where they should be",
     "For every mesh and crystal partition, displacements are one continuous field (or, with decohesion, one field per crystal), each slip is one continuous field per crystal that may jump across grain boundaries only, and each cell carries unknowns of its own crystal only. "
     "Every unknown is counted once, displacement and slip unknowns partition the whole set, and the component-extraction helpers address exactly the unknowns they name. "
     "Constraints applied for the affine and Newton problems match the prescribed values and their homogeneous counterparts, and in the strip every cell belongs to the crystal in whose layer it lies and opposite sides are equal.",
     ["configurations", "inputs"], "all meshes, crystal partitions, polynomial degrees, with and without decohesion; 2D and 3D",
     "The fe_collection tests are not registered and print layouts rather than check them.",
     ["source/fe_field.cc", "include/gCP/fe_field.h", G + "setup.cc", "applications/simple_shear.cc"],
     [("setup_extractors / update_ghost_material_ids / setup_dofs", "source/fe_field.cc")],
     ["dof indices, extractors and index sets", "values of fields across faces"])

prop("P16", "The assembled Jacobian is the derivative of the assembled residual",
     "At any admissible trial state, history and configuration the system matrix equals the directional derivative of the residual vector with respect to the unknowns in every direction (history variables that are staggered held fixed, and the documented symmetric approximation of the hardening term excepted). "
     "Without decohesion the matrix is symmetric for every configuration of the laws that is derived from a potential.",
     ["inputs", "configurations"], "all trial states, increments, hardening, microtraction and cohesive configurations; 2D and 3D",
     "No test assembles anything; a wrong term only degrades convergence and shows in no output.",
     [G + "assembly.cc"], [("assemble_local_jacobian", G + "assembly.cc:350"), ("assemble_local_residual", G + "assembly.cc")],
     ["assembled matrix and residual vectors"])

prop("P17", "A step reported as converged is in equilibrium and meets its constraints",
     "Whenever the solver reports a converged load step, the accepted state satisfies the balance of linear momentum and the microforce balance of every slip system, including grain-boundary terms, to the requested tolerance as measured by an independent evaluation of the weak form, and satisfies every boundary and grain-boundary constraint (clamped and prescribed displacements, microhard slips zero). "
     "When it cannot get there it reports failure by an exception instead of returning.",
     ["inputs", "configurations", "histories"], "all load histories, boundary conditions at grain boundaries, algorithms and material parameters",
     "No test runs the solver.",
     [G + "solve.cc", G + "assembly.cc", G + "setup.cc", "applications/simple_shear.cc"],
     [("solve_nonlinear_system", G + "solve.cc"), ("assemble_local_residual", G + "assembly.cc")],
     ["accepted solution vectors after every step"])

prop("P18", "Trial states never leak: an iteration starts from the committed state",
     "Evaluating, re-evaluating or abandoning trial states in any order does not change committed state: after a reset the slip resistances, damage and maximum openings are bit for bit those committed at the end of the last step, re-evaluating the same trial state gives the same residual, and a step's outcome does not depend on how many trial states were tried. "
     "Committing makes exactly the current trial values the new committed ones.",
     ["histories", "schedules"], "all interleavings of trial updates, residual evaluations, resets, commits and load steps, also with several threads",
     "No test runs the solver, and the leak only shows after rejected trials.",
     [G + "solve.cc", G + "assembly.cc", G + "quadrature_point_history.cc"],
     [("reset_and_update_quadrature_point_history", G + "assembly.cc"), ("store_trial_solution / reset_trial_solution", G + "solve.cc")],
     ["history variables at all quadrature points", "residuals of repeated evaluations"])

prop("P19", "The answer does not depend on the solution algorithm or the initial guess",
     "The monolithic algorithm, the staggered algorithms, with and without extrapolation of the initial guess, with and without line search, and the available linear solvers lead to the same solution of each load step up to the solver tolerance.",
     ["configurations", "inputs"], "all algorithm, extrapolation, line search and linear solver settings on all problems where they converge",
     "No test runs the solver even once.",
     [G + "solve.cc", G + "active_set.cc"],
     [("monolithic_algorithm", G + "solve.cc"), ("bouncing_algorithm", G + "solve.cc"), ("embracing_algorithm", G + "solve.cc"), ("extrapolate_initial_trial_solution", G + "solve.cc")],
     ["solutions after each load step"])

prop("P20", "Rate-independent active set: inactive slips stay put, active ones yield",
     "In rate-independent mode, after a converged step every slip unknown that is not active keeps its old value exactly, and its driving force, the trial microstress of the accepted displacements with the slips of the last step, does not exceed the committed slip resistance by more than a tolerance; every active slip unknown satisfies its microforce balance with the sign of slip given by the driving force. "
     "In rate-dependent mode every slip unknown is active.",
     ["inputs", "histories", "configurations"], "all load histories including reversals, and all slip system sets",
     "No test runs the solver.",
     [G + "active_set.cc", G + "solve.cc"], [("active_set_algorithm", G + "active_set.cc"), ("determine_active_set", G + "active_set.cc")],
     ["constraints on slips and the accepted solution"])

prop("P21", "Postprocessed fields and averages are those of the solution",
     "For every solution, each output field (displacement, slips, strains, stresses, equivalent strain and stress, with or without the fluctuation fields) has at each point the value its name says, computed from the solution and the material laws, crystal by crystal, and the volume averages and boundary averages written to the tables are the integrals of those fields over volume or boundary divided by its measure, one row for each reported step. "
     "The shear reported for the sheared strip is the prescribed one at every time of every programme, and without openings it is twice the average shear strain of the solution.",
     ["inputs", "configurations"], "all solutions, crystal partitions, meshes and output settings",
     "No test calls the postprocessing.",
     ["source/postprocessing.cc", "applications/simple_shear.cc"],
     [("Postprocessor::evaluate_vector_field", "source/postprocessing.cc"), ("Homogenization::compute_macroscopic_quantities", "source/postprocessing.cc"), ("SimpleShear", "source/postprocessing.cc")],
     ["field values and table columns"])

prop("P22", "Reported grain-boundary damage reflects the damage of the boundary points",
     "The damage field handed to the output is the area-weighted projection of the damage of the grain-boundary points: every node of a grain boundary gets a positive weight, a uniform damage gives exactly that value at every node of a grain boundary and zero away from it, and the weighted sum of the nodal values is the integral of the damage over the grain boundaries. "
     "The macroscopic damage is the area average of the point damages over all grain boundaries, between their least and greatest value, and only that, whatever was computed before.",
     ["inputs", "configurations"], "all damage distributions, meshes and crystal partitions with a grain boundary",
     "No test calls it; an uninitialised accumulator reads as zero most of the time.",
     [G + "assembly.cc"], [("get_damage_at_grain_boundaries", G + "assembly.cc"), ("get_macroscopic_damage", G + "assembly.cc:2000")],
     ["projected vector and macroscopic damage value"])

prop("P23", "No run reads or writes memory it does not own or has undefined behaviour",
     "No input that is accepted leads to out-of-bounds or use-after-free accesses, reads of uninitialised memory that influence results, signed overflow, division by zero of integers or other undefined behaviour, in any configuration, dimension or loading programme.",
     ["inputs", "configurations"], "all accepted inputs and configurations of the application and the library",
     "Tests run without sanitizers on a handful of inputs.",
     ["source", "applications/simple_shear.cc"],
     [("whole library and application", "source")],
     ["sanitizer reports and process exit status"])

prop("P24", "Results do not depend on the number of processes, threads or on repetition",
     "The same problem gives the same outputs up to floating-point summation order, however many MPI processes share the mesh of a single crystal and however many threads assemble, and repeating a serial run with the same settings gives the same outputs exactly. "
     "A polycrystal on several processes, a documented limitation, either gives the same outputs or ends with an error status.",
     ["schedules", "configurations"], "all process and thread counts and interleavings",
     "Tests run single processes and never a full solve.",
     [G + "assembly.cc", G + "solve.cc", "source/fe_field.cc"],
     [("WorkStream assembly", G + "assembly.cc"), ("ghost exchange in setup and solution vectors", "source/fe_field.cc")],
     ["output tables and solution norms of full runs"])

prop("P25", "A run of the application completes and leaves complete, ordered outputs",
     "Every run of the simple shear application with an accepted parameter file performs exactly the configured load steps in order, ends at the configured end time, and writes the configured results: one row per reported step in the homogenised tables, increasing times starting after the start, field files at the configured frequency with a matching index file, the parameter log, and solver logs and statistics with every step of the programme in order, finite consistent numbers and a last residual below the tolerance; a run whose solver fails terminates with an error status.",
     ["inputs", "configurations"], "all accepted parameter files",
     "No test runs the application.",
     ["applications/simple_shear.cc", "source/postprocessing.cc", G + "solve.cc"],
     [("SimpleShearProblem::run", "applications/simple_shear.cc"), ("data_output", "applications/simple_shear.cc")],
     ["files written by the run, exit status"])

prop("P26", "Logs, tables and file comparison tell the truth",
     "A log row shows exactly the last value given to each declared column, in declaration order and in the declared format, duplicates and undeclared formats being refused, and two files compare identical exactly when both exist and have the same bytes.",
     ["inputs", "histories"], "all column sets, values, call sequences and file contents",
     "No test uses the utilities.",
     ["source/utilities.cc", "include/gCP/utilities.h"],
     [("Logger::log_to_file", "source/utilities.cc"), ("files_are_identical", "source/utilities.cc")],
     ["text of the log file", "comparison results"])

prop("P27", "Every Newton update solves the linear system it belongs to",
     "Whatever the algorithm and linear solver, the update a Newton iteration applies solves the assembled linear system to the requested tolerance: the whole system (monolithic), the system of the displacements or of the slips alone (bouncing), or the system of the displacements with the slips following in equilibrium, D - E G^-1 F (embracing); prescribed displacements, held slips and slips outside the active set do not move, and neither do the unknowns of the other block. "
     "A linear solver that does not get there within its iterations ends the computation with an error instead of handing on an unsolved update.",
     ["inputs", "configurations", "histories"], "all assembled systems of all problems, all linear solvers, tolerances and iteration limits, all active sets",
     "No test assembles or solves a linear system; an update that does not solve its system shows only as poor convergence.",
     [G + "solve.cc"],
     [("solve_linearized_system", G + "solve.cc"), ("solve_decoupled_linearized_subsystem", G + "solve.cc"), ("solve_reduced_linearized_system", G + "solve.cc")],
     ["newton update put back into the jacobian and the residual"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
