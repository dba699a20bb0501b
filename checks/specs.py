"""What each property's check runs, and what it must have observed."""


class Spec:
    def __init__(self, programs, jobs, rule, needs=None, assumptions=(), parallel=8, after=None):
        self.programs, self.jobs, self.rule = programs, jobs, rule
        self.needs, self.assumptions = needs or {}, list(assumptions)
        self.parallel, self.after = parallel, after


def _job(*a, **k):
    import run
    return run.Job(*a, **k)


def material(pid, quick=6, thorough=16):
    def jobs(bins, tier, seed):
        n = thorough if tier == "thorough" else quick
        return [_job([bins["material"], pid, str(seed * 1000 + i), tier, "{report}"],
                     timeout=6000 if tier == "thorough" else 280,
                     name="material %s shard %d" % (pid, i)) for i in range(n)]
    return jobs


SAN = "compiled with AddressSanitizer and UndefinedBehaviorSanitizer, deal.II debug assertions on"
DEALII = "deal.II, Trilinos, MPI and the C++ library are correct"

SPECS = {}


def mat(pid, rule, needs=None, **k):
    SPECS[pid] = Spec(["material"], material(pid, **k),
                      rule + " Distinct: by the full description of the generated case. " + "The code runs " + SAN + ".",
                      needs, [DEALII])


mat("P01", "Random crystal files (2D and 3D, any number of crystals and systems, unnormalised rows, random number formatting) read by the real parser; every direction, normal, binormal and Schmid tensor compared with an independently rotated reference. Corrupted files (wrong row length, counts, non-orthogonal pairs, missing files) must be refused.",
    {})
mat("P02", "Random orientations, cubic constants, characteristic stiffness and strains; stress and tetrad compared with an independent rotation of the cubic law, plus symmetry, objectivity and isotropy relations.")
mat("P03", "Random crystals, displacement gradients, slips and stresses; elastic and plastic strain and resolved shear stress compared with their defining formulas and with each other (power identity).")
mat("P04", "Random regularisation, parameters, resistances, rates over many decades and exactly zero; value against its formula, oddness, monotonicity, bound, and tangent against the derivative.")
mat("P05", "Random crystals, energy index, length scale and gradients (including zero, along normal and direction); value and tangent against gradient and Hessian of the energy, invariances, positivity.")
mat("P06", "Random crystal pairs, equal orientations included, normals and slips; moduli, tractions, energy and tangents against an independent Burgers-tensor computation, exchange symmetry.")
mat("P07", "Random cohesive parameters and opening histories (mixed mode, unloading, reloading, compression, closed cycles); traction and tangent against envelope and secant, work over cycles.")
mat("P08", "Random penalty, characteristic values and openings (apart, exactly zero, penetrating, tangential); traction and tangent against the definition.")
mat("P09", "Random histories of init, store, update and reset; every slip resistance against a model of the committed state.")
mat("P10", "Random histories of store, update and reset for both evolution laws, and the interface history storage on random meshes and material partitions; against a model of the committed state and against the set of interior faces between crystals.")
mat("P11", "Random sequences of trial values (quadratic, cubic, erratic, flat, worsening) fed to the line search; acceptance, bounds and interpolation minimiser against an independent computation.")
mat("P12", "Random parameter files (any subset of the declared entries, any order, nesting and number format), read by the real classes and compared entry by entry with the text; the stored copy read back; files with one value out of range, one unknown name, or an inconsistent combination must be refused.", quick=4)
mat("P13", "Random loading programmes read from parameter files, stepped through as the application does; time, step sizes, phase ends, prescribed values of every component, extrema and extrapolation decisions against the programme's definition.")
mat("P26", "Random log columns, formats and values printed and parsed back; random pairs of files compared.")


def fem(pid, shards, mpi=(), threads=1, thorough=16, timeout=280):
    def jobs(bins, tier, seed):
        deep = tier == "thorough"
        t = 7000 if deep else timeout
        n = thorough if deep else shards
        res = [_job(["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(np), bins["fem"], pid,
                     str(seed * 1000 + 500 + np), tier, "{report}"], timeout=t,
                    name="fem %s on %d processes" % (pid, np)) for np in mpi]
        res += [_job([bins["fem"], pid, str(seed * 1000 + i), tier, "{report}"], threads=threads,
                     timeout=t, name="fem %s shard %d" % (pid, i)) for i in range(n)]
        return res
    return jobs


FEM = "random meshes (2D and 3D, layers or patches, distorted), crystals, slip systems, degrees, material parameters of all laws, with and without decohesion, grain-boundary conditions, loads"


def finite(pid, rule, needs=None, **k):
    SPECS[pid] = Spec(["fem"], fem(pid, **k), rule + " Distinct: by the full description of the generated case.", needs, [DEALII])
    SPECS[pid].technique = "runtime monitor (independent reference evaluation) over generated problems on the real solver, deal.II debug assertions on"


finite("P15", "Random meshes and crystal partitions, degrees 1-3, with and without decohesion, blocks or not, on one to three processes; every unknown of every cell is identified by place and meaning and compared with the numbering, the index sets, blocks, extractors, component helper, norms and ghost values of the real FEField.",
       {"cells": 1000, "ghost-cells": 100}, shards=3, mpi=(2, 3))
finite("P16", "The Jacobian assembled by the real solver times a random direction, against central differences of its own residual, row by row, and its symmetry; " + FEM + ", after a random history.",
       {"matrix-rows": 5000}, shards=6)
finite("P17", "(1) the residual and history of the real solver at random states along random histories against an independent evaluation of the weak form, row by row; (2) steps solved by the three algorithms: whenever one reports success the independent residual and the constraints are checked, and a refusal must be one of the documented failures and leave the solution alone; " + FEM + ".",
       {"residual-rows": 20000, "converged-steps": 60, "accepted-states": 300}, shards=7)
finite("P18", "(1) random sequences of trial evaluations, repeated evaluations, matrix assemblies, resets, backtracking and line searches between commits: committed history and resistances bit for bit unchanged, a repeated evaluation bit for bit equal, a reset back to the committed values, the residual equal to the independent one of the committed state, a commit equal to the last trial values; (2) the same steps with and without abandoned solves and other trial states in between; one and four threads; " + FEM + ".",
       {"re-evaluations": 1000, "commits": 200, "abandoned": 40, "line-searches": 300, "steps-compared": 60}, shards=5, threads=2)
finite("P20", "Rate-independent steps solved by the real algorithms over random histories with reversals: active and inactive slips identified from the Newton constraints, the driving forces the solver computes compared with an independent evaluation, inactive slips compared with their old values and their driving force with the committed resistance, active ones with the independent microforce balance; in rate-dependent mode every unconstrained slip must be active. " + FEM + ".",
       {"driving-forces-gradients": 500, "active": 500, "inactive": 500, "steps-mixed": 20, "inactive-near-yield": 100, "rate-dependent": 5}, shards=8)
finite("P14", "(1) the characteristic quantities and dimensionless numbers of random parameter sets against their definitions; (2) the same random problem posed once in dimensional and once in dimensionless form, solved step by step, displacements, slips and both kinds of slip resistances compared after scaling back; special values of the numbers included. " + FEM + ", without decohesion and microtraction, which the library does not offer in dimensionless form.",
       {"number-sets": 500, "steps-compared": 120, "steps-with-slip": 90}, shards=8)
finite("P19", "Every random problem is solved with the monolithic, direct, plain Newton setting and with a staggered algorithm, CG and GMRES, with random choices of line search, extrapolation and resets; the solutions are compared by place at every step. " + FEM + ", rate dependent, without decohesion.",
       {"steps-compared-1": 20, "steps-compared-2": 2, "steps-compared-3": 60, "steps-compared-4": 60}, shards=8)

finite("P27", "The Jacobian and residual assembled at random states of random problems, with random sets of held slips; the update computed by the monolithic, the decoupled and the reduced (Schur complement) solve with every linear solver is put back into the system with exact products (the inner system solved directly), the constrained unknowns must not move, the other block must stay; with few iterations allowed, solved or refused. " + FEM + ".",
       {"solved:monolithic %d" % k: 60 for k in range(3)} | {"solved:displacements %d" % k: 100 for k in range(3)} | {"solved:slips %d" % k: 100 for k in range(3)} | {"solved:reduced": 100, "with-held-slips": 100, "unsolved-starved": 5}, shards=6)
finite("P21", "(1) every output field of the real Postprocessor at every point of random states, 2D and 3D, dimensional or not, full and light output, against fields computed independently from the solution by place; (2) the rows of the homogenisation and boundary-stress tables of random histories against independent integrals. " + FEM + ".",
       {"points": 5000, "rows": 100, "full": 20, "light": 20, "dimensionless": 20}, shards=6)
finite("P22", "Random damage at the points of the grain boundaries (uniform, random, varying with place) put in the real history, 2D and 3D, one, two and more crystals; projected vector, weights and macroscopic damage against independent lumped integrals, repeated with other states in between. " + FEM + ".",
       {"nodes-on": 1000, "nodes-off": 1000, "uniform": 30, "random": 30}, shards=4)


def watched(pid, n, what, thorough=48, **force):
    """Whole runs of the application with the monitors of harness/strip.cc inside."""
    import random
    import strips
    spec = SPECS[pid]
    before = spec.jobs
    spec.programs = spec.programs + ["strip"]

    def jobs(bins, tier, seed):
        res = []
        deep = tier == "thorough"
        for i in range(thorough if deep else n):
            f = {k: v(None, i) if callable(v) else v for k, v in force.items()}
            key = "%s %d %d" % (pid, seed, i)
            c = strips.Case(random.Random(key), **f)
            if c.independent and (c.deco or c.bc == "microtraction"):
                # not offered, as its refusal says
                c = strips.Case(random.Random(key), independent=False, **f)
            t = c.times()
            lines = [c.dim, c.crystals, c.slips, c.rows, repr(float(c.height)), repr(float(c.ref_u)), int(c.homogenize), c.homogenization, c.out, len(t)]
            lines += ["%r %r %d" % (x, c.shear(x), c.skips(k)) for k, x in enumerate(t)]
            for k in ("euler", "directions", "normals"):
                lines.append(c.files["in/%s.txt" % k].replace(",", " "))
            files = dict(c.files)
            files.update({"run.prm": c.text(), "asked.txt": "\n".join(str(x) for x in lines) + "\n", "describe.txt": c.describe()})
            res.append(_job([bins["strip"], pid, str(seed * 1000 + i), tier, "{report}"], timeout=1500 if deep else 280,
                            name="application %s run %d" % (pid, i), files=files))
        return before(bins, tier, seed) + res
    spec.jobs = jobs
    spec.needs["watched-steps"] = 20
    spec.rule += (" And whole runs of the real application on random parameter files (2D and 3D, both programmes, all grain-boundary conditions), every call of the solver intercepted: " + what)


def app_jobs(which):
    def jobs(bins, tier, seed):
        import application
        return getattr(application, which)(bins, tier, seed)
    return jobs


APP = "Random parameter files of the real application (2D and 3D, one to three crystals, all grain-boundary conditions, decohesion, rate dependent and independent, both programmes, all output settings)"
SPECS["P24"] = Spec(["app", "apprace", "femrace"], app_jobs("p24"),
                    APP + ", run on one process and thread and again on two and three processes (single crystals: polycrystals in parallel are a documented known problem, where only an unnoticed difference would be a violation), on four and eight threads, and once more as before; the result tables are compared number by number, those of a repetition byte by byte. (2) Application and library workloads on a monitored WorkStream: every memory access of every task recorded, two tasks touching the same shared memory with one writing is a race whatever the schedule; and random legal schedules of workers and copiers have to give the same tables. Distinct: by description of the case.",
                    {"processes": 12, "threads": 12, "repetition": 5, "runs-compared": 22, "schedules": 24, "streams": 500, "tasks": 5000, "shared-writes": 10000, "entries": 1500}, [DEALII])
SPECS["P25"] = Spec(["app"], app_jobs("p25"),
                    APP + ", on one to three processes; exit status, every table, index, field and log file left by the run and what it printed are judged against the programme and settings in the parameter file; runs forced to fail and calls that must be refused. Distinct: by description of the case.",
                    {"complete-runs": 20, "failed-runs": 4, "refused-calls": 6, "boundary-rows": 100, "homogenized-rows": 40, "field-files": 60, "monotonic": 5, "cyclic": 5, "stale-files": 5, "printed-steps": 20}, [DEALII])
SPECS["P23"] = Spec(["appsan", "app", "femsan", "material"], app_jobs("p23"),
                    APP + ", run under AddressSanitizer and UndefinedBehaviorSanitizer with library preconditions and deal.II's debug assertions on, twice with fresh memory filled differently (the two runs must agree byte by byte, which they would not if uninitialised memory influenced a result) and once without sanitizers; then the generated workloads of the other properties' monitors under the same instrumentation. Distinct: by description of the case.",
                    {"sanitized-runs": 30, "files-compared": 30, "calls-observed": 5000, "decohesion": 2, "microtraction": 4, "microhard": 4, "3D": 3, "bouncing": 1, "debug-fields": 1, "threads": 1, "parallel": 1}, [DEALII])
SPECS["P23"].technique = "sanitizers (address, undefined behaviour, library preconditions) over whole runs of the real application and all generated workloads, differential run with other contents of fresh memory"
for p in ("P24", "P25"):
    SPECS[p].technique = "runtime monitor over whole runs of the real application: offline checkers of exit status, output and every file left"

watched("P13", 16, "the times of the steps, their number, where extrapolation is skipped, and the displacements asked for at the boundaries against the programme.",
         deco=False, homogenize=False, graphics=100)
watched("P15", 18, "the crystal of every cell by its place, and what both sets of constraints do to a random vector (prescribed, periodic and free unknowns by place).",
         bc=lambda r, i: ["microfree", "microhard", "microtraction"][i % 3], graphics=100, homogenize=False)
watched("P17", 14, "every accepted state has to satisfy the independent weak form on the periodic strip, and its boundary conditions.",
         bc=lambda r, i: ["microfree", "microhard", "microtraction"][i % 3], independent=False, graphics=100, homogenize=False)
watched("P21", 14, "the rows of both result tables against independent averages of the accepted states.",
         graphics=100, homogenize=True)
