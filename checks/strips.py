"""Random parameter files of the simple shear application, and what the
definition of the programme and of the outputs asks a run of each to leave."""
import math
import random

S = "1. Spatial discretization parameters"
T = "2. Temporal discretization parameters"
I = "3. Input parameters"
O = "4. Output parameters"
H = "5. Postprocessing parameters"
V = "6. Solver parameters"
LAWS = V + "/Constitutive laws' parameters"


def num(x):
    return repr(float(x))


def flag(b):
    return "true" if b else "false"


class Case:
    """One run of the application: settings, input files, expectations."""

    def __init__(self, rng, **force):
        self.rng = rng
        self.force = force
        self.p = {}
        self.files = {}
        self.draw()

    def pick(self, name, value):
        """The forced value of a trait, or the drawn one."""
        v = self.force.get(name, value)
        setattr(self, name, v)
        return v

    def draw(self):
        r, pick, p = self.rng, self.pick, self.p
        dim = pick("dim", 3 if r.random() < 0.2 else 2)
        nc = pick("crystals", r.choice([1, 2, 2, 3]))
        refine = pick("refine", 1 if r.random() < 0.25 and dim == 2 else 0)
        rows = pick("rows", r.randint(max(nc, 2), 3 if dim == 3 else (5 if refine else 8)))
        du = pick("degree_u", r.choice([1, 1, 2]) if dim == 3 else r.choice([1, 2, 2, 3]))
        ds = pick("degree_s", 1 if dim == 3 else r.choice([1, 1, 1, 2]))
        height = pick("height", r.choice([1.0, r.uniform(0.3, 3.0)]))
        bc = pick("bc", r.choice(["microfree", "microhard", "microtraction"]))
        deco = pick("deco", nc > 1 and r.random() < 0.35)
        independent = pick("independent", r.random() < 0.25)
        algorithm = pick("algorithm", r.choice(["monolithic"] * 3 + ["bouncing"]))
        dimensionless = pick("dimensionless", r.random() < 0.2 and not deco and bc != "microtraction")
        nslips = pick("slips", r.choice([1, 2, 2, 3]))
        # slip systems and orientations
        rows_d, rows_n = [], []
        for _ in range(nslips):
            if dim == 2:
                a = r.uniform(0, math.pi)
                d, n = [math.cos(a), math.sin(a)], [-math.sin(a), math.cos(a)]
            else:
                k = [(0, 1, -1), (1, 0, -1), (1, -1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0)]
                m = [(1, 1, 1), (1, 1, 1), (1, 1, 1), (1, 1, -1), (1, 1, -1), (1, -1, 1)]
                i = r.randrange(6)
                d, n = list(k[i]), list(m[i])
            rows_d.append(",".join(num(x) for x in d))
            rows_n.append(",".join(num(x) for x in n))
        euler = [",".join(num(r.uniform(-180, 180)) for _ in range(1 if dim == 2 else 3)) for _ in range(nc)]
        self.files = {"in/euler.txt": "\n".join(euler) + "\n", "in/directions.txt": "\n".join(rows_d) + "\n", "in/normals.txt": "\n".join(rows_n) + "\n"}
        p[I, "Euler angles path name"] = "in/euler"
        p[I, "Slip directions path name"] = "in/directions"
        p[I, "Slip normals path name"] = "in/normals"
        # mesh
        p[S, "Spatial dimension"] = dim
        p[S, "FE's polynomial degree - Displacements"] = du
        p[S, "FE's polynomial degree - Slips"] = ds
        p[S, "Mapping - Polynomial degree"] = r.choice([1, 1, 2])
        p[S, "Number of global refinements"] = refine
        p[S + "/Problem specific parameters", "Height of the strip"] = num(height)
        p[S + "/Problem specific parameters", "Number of elements in y-direction"] = rows
        p[S + "/Problem specific parameters", "Number of equally sized crystals in y-direction"] = nc
        # load
        load = pick("load", r.uniform(2e-3, 6e-3 if deco else 1.5e-2))
        low = load * r.choice([0.0, -0.5, r.uniform(-1, 0.9)])
        low = pick("low", max(0.0, low))
        kind = pick("kind", r.choice(["monotonic", "monotonic", "cyclic"]))
        L = T + "/Simple loading"
        p[L, "Loading type"] = kind
        p[L, "Maximum load"] = num(load)
        p[L, "Minimum load"] = num(low)
        duration = pick("duration", r.choice([1.0, r.uniform(0.2, 4.0)]))
        n_mono = pick("steps", r.randint(2, 6))
        p[L + "/Monotonic load parameters", "Duration of monotonic load"] = num(duration)
        p[L + "/Monotonic load parameters", "Number of steps during monotonic load"] = n_mono
        ramp = pick("ramp", r.choice([1.0, r.uniform(0.2, 3.0)]))
        n_ramp = pick("ramp_steps", r.randint(1, 4))
        period = pick("period", r.choice([1.0, r.uniform(0.2, 3.0)]))
        quarter = pick("quarter", r.randint(1, 2))
        cycles = pick("cycles", r.randint(1, 2 if quarter == 1 else 1))
        skip = pick("skip", r.random() < 0.5)
        C = L + "/Cyclic load parameters"
        p[C, "Duration of un- and loading phase"] = num(ramp)
        p[C, "Number of steps during un- and loading phase"] = n_ramp
        p[C, "Period"] = num(period)
        p[C, "Number of steps during a quarter cycle"] = quarter
        p[C, "Number of cycles"] = cycles
        p[C, "Skip unloading phase"] = flag(skip)
        # outputs
        self.out = pick("out", r.choice(["results/", "a/b/c/", "results/default/"]))
        p[O, "Graphical output directory"] = self.out
        p[O, "Graphical output frequency"] = pick("graphics", r.choice([1, 1, 2, 3, 100]))
        p[O, "Output damage variable field"] = flag(pick("damage", deco and r.random() < 0.6))
        p[O, "Output fluctuations fields"] = flag(pick("fluctuations", r.random() < 0.5))
        p[O, "Output dimensionless quantities"] = flag(pick("output_dimensionless", r.random() < 0.3))
        p[O, "Terminal output frequency"] = r.choice([1, 2])
        p[H + "/Homogenization", "Compute homogenized quantities"] = flag(pick("homogenize", r.random() < 0.8))
        p[H + "/Homogenization", "Homogenization frequency"] = pick("homogenization", r.choice([1, 1, 2, 3, 50]))
        # solver
        p["", "Verbose"] = flag(pick("verbose", r.random() < 0.3))
        p[V, "Verbose"] = flag(pick("solver_verbose", r.random() < 0.3))
        p[V, "Output debug fields"] = flag(pick("debug_fields", False))
        p[V, "Print sparsity pattern"] = flag(pick("print_sparsity", False))
        p[V, "Allow decohesion at grain boundaries"] = flag(deco)
        p[V, "Boundary conditions at grain boundaries"] = bc
        p[V, "Solution algorithm"] = algorithm
        p[V, "Extrapolation factor"] = num(r.choice([1.0, 0.5, 0.0]))
        p[V, "Skip extrapolation of start value"] = flag(r.random() < 0.3)
        p[V, "Skip extrapolation of start value at extrema"] = flag(r.random() < 0.5)
        p[V, "Zero damage evolution during un- and loading"] = flag(r.random() < 0.3)
        k = r.uniform(0.5, 2)
        p[LAWS + "/Hooke-Law's parameters", "C1111"] = num(134615.0 * k)
        p[LAWS + "/Hooke-Law's parameters", "C1122"] = num(57692.3 * k)
        p[LAWS + "/Hooke-Law's parameters", "C1212"] = num(38461.5 * k)
        p[LAWS + "/Hardening law's parameters", "Hardening parameter"] = num(r.choice([1.0, 1.4]))
        self.resistance = r.uniform(30, 90)
        p[LAWS + "/Hardening law's parameters", "Initial slip resistance"] = num(self.resistance)
        p[LAWS + "/Hardening law's parameters", "Linear hardening modulus"] = num(r.uniform(100, 2000))
        p[LAWS + "/Hardening law's parameters", "Perfect plasticity"] = flag(r.random() < 0.15)
        p[LAWS + "/Scalar microstress law's parameters", "Rate-independent behavior"] = flag(independent)
        p[LAWS + "/Scalar microstress law's parameters", "Regularization function"] = "tanh" if r.random() < 0.7 else r.choice(["erf", "gd", "sqrt", "atan"])
        p[LAWS + "/Scalar microstress law's parameters", "Regularization parameter"] = num(10 ** r.uniform(-3, -2))
        p[LAWS + "/Vectorial microstress law's parameters", "Defect energy index"] = num(2.0)
        p[LAWS + "/Vectorial microstress law's parameters", "Energetic length scale"] = num(r.choice([0.0, r.uniform(0.02, 0.4)]))
        p[LAWS + "/Vectorial microstress law's parameters", "Initial slip resistance"] = num(self.resistance)
        p[LAWS + "/Microtraction law's parameters", "Grain boundary modulus"] = num(r.choice([0.0, r.uniform(1, 60)]))
        p[LAWS + "/Cohesive law's parameters", "Critical cohesive traction"] = num(r.uniform(100, 900))
        p[LAWS + "/Cohesive law's parameters", "Critical opening displacement"] = num(10 ** r.uniform(-2.5, -1.3))
        p[LAWS + "/Cohesive law's parameters", "Tangential to normal stiffness ratio"] = num(r.choice([1.0, r.uniform(0.5, 2)]))
        p[LAWS + "/Damage evolution parameters", "Damage evolution model"] = r.choice(["M1", "OrtizEtAl"])
        p[LAWS + "/Damage evolution parameters", "Damage accumulation constant"] = num(r.uniform(0.1, 2))
        p[LAWS + "/Damage evolution parameters", "Couple microtraction to damage"] = flag(r.random() < 0.5)
        N = V + "/Dimensionless formulation parameters"
        p[N, "Solve the dimensionless problem"] = flag(dimensionless)
        self.ref_u = self.ref_s = self.ref_c = self.ref_t = 1.0
        if dimensionless:
            self.ref_u, self.ref_s = 10 ** r.uniform(-2, 0), self.resistance * r.uniform(0.5, 2)
            self.ref_c, self.ref_t = 1e5 * r.uniform(0.5, 2), 1.0
        R = N + "/Reference parameters"
        p[R, "Reference displacement value"] = num(self.ref_u)
        p[R, "Reference length value"] = num(1.0)
        p[R, "Reference slip resistance value"] = num(self.ref_s)
        p[R, "Reference stiffness value"] = num(self.ref_c)
        p[R, "Reference time value"] = num(self.ref_t)
        solver = pick("linear", r.choice(["cg", "gmres", "directsolver"]))
        if algorithm == "monolithic":
            p[V + "/Monolithic algorithm/Krylov parameters", "Solver type"] = solver
        for a in ("/Monolithic algorithm", "/Staggered algorithm/Linear momentum balance", "/Staggered algorithm/Pseudo-balance"):
            p[V + a + "/Newton-Raphson parameters", "Maximum number of iterations"] = 40
            p[V + a + "/Newton-Raphson parameters", "Line search algorithm"] = flag(True)
        p[V + "/Staggered algorithm", "Maximum number of solution loops"] = 200
        p.update(self.force.get("settings", {}))

    # the parameter file
    def text(self):
        tree = {}
        for (path, name), value in self.p.items():
            node = tree
            for part in [q for q in path.split("/") if q]:
                node = node.setdefault(part, {})
            node[name] = value

        def show(node, ind):
            res = ""
            for k, v in node.items():
                if isinstance(v, dict):
                    res += " " * ind + "subsection " + k + "\n" + show(v, ind + 2) + " " * ind + "end\n"
                else:
                    res += " " * ind + "set %s = %s\n" % (k, v)
            return res
        return show(tree, 0)

    # the programme
    def times(self):
        if self.kind == "monotonic":
            return [self.duration * (i + 1) / self.steps for i in range(self.steps)]
        t = [self.ramp * (i + 1) / self.ramp_steps for i in range(self.ramp_steps)]
        n = 4 * self.quarter * self.cycles
        t += [self.ramp + self.period * (i + 1) / 4 / self.quarter for i in range(n)]
        if not self.skip:
            t += [self.ramp + self.period * self.cycles + self.ramp * (i + 1) / self.ramp_steps for i in range(self.ramp_steps)]
        return t

    def shear(self, t):
        if self.kind == "monotonic":
            return self.load * t
        mean, amp = 0.5 * (self.load + self.low), 0.5 * (self.load - self.low)
        c0, u0 = self.ramp, self.ramp + self.period * self.cycles
        if t <= c0:
            return mean * t / self.ramp
        if t <= u0:
            return mean + amp * math.sin(2 * math.pi * (t - c0) / self.period)
        return mean * (1 - (t - u0) / self.ramp)

    def skips(self, k):
        """The starting value of step k (from 0) is not extrapolated: the first
        step of a phase, and the one after an extremum."""
        if self.kind == "monotonic":
            return False
        n, k = 4 * self.quarter * self.cycles, k - self.ramp_steps
        return k in (0, n) or 0 < k < n and k % (4 * self.quarter) in (self.quarter, 3 * self.quarter)

    def describe(self):
        return ("dim %d crystals %d rows %d refine %d degrees %d %d height %.4g %s decohesion %s independent %s %s %s dimensionless %s slips %d %s load %.4g %.4g steps %d"
                % (self.dim, self.crystals, self.rows, self.refine, self.degree_u, self.degree_s, self.height, self.bc, self.deco, self.independent,
                   self.algorithm, self.linear, self.dimensionless, self.slips, self.kind, self.load, self.low, len(self.times())))


def case(seed, **force):
    return Case(random.Random(seed), **force)
