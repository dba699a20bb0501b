"""Monitors over whole runs of the simple shear application (P23, P24, P25):
every run happens in its own scratch directory, and what it printed, its exit
status and every file it left are judged."""
import glob
import math
import os
import re
import shutil
import subprocess
import tempfile
import time
import xml.etree.ElementTree as ET

import strips


class Run:
    """A finished run: status, printed text and files by relative path."""

    def __init__(self, case, binary, np=1, threads=1, timeout=200, stale=False, env=None, wrap=()):
        import run as runner
        for attempt in range(3):
            self.once(case, binary, np, threads, timeout, stale, env, wrap)
            if self.status == 0 or not runner.NOT_STARTED.search(self.text):
                break
            time.sleep(1 + 3 * attempt)
        if self.status is None:  # a busy machine can be slow: once more
            self.once(case, binary, np, threads, 2 * timeout, stale, env, wrap)

    def once(self, case, binary, np, threads, timeout, stale, env, wrap):
        import run as runner
        self.case = case
        d = tempfile.mkdtemp(prefix="gcpa_")
        session = tempfile.mkdtemp(prefix="gcpm_")
        try:
            os.makedirs(d + "/in")
            for k, v in case.files.items():
                with open(os.path.join(d, k), "w") as f:
                    f.write(v)
            with open(d + "/case.prm", "w") as f:
                f.write(case.text())
            if stale:
                p = os.path.join(d, case.out, "paraview")
                os.makedirs(p)
                for n in ("solution_00098.pvtu", "solution_00098.0.vtu", "notes.txt"):
                    with open(os.path.join(p, n), "w") as f:
                        f.write("old\n")
            e = runner.base_env(threads, session)
            e.update(env or {})
            cmd = list(wrap) + [binary, "case.prm"]
            if np > 1:
                cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(np)] + cmd
            t = time.time()
            self.status = None
            with open(d + ".out", "wb") as out:
                p = subprocess.Popen(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, start_new_session=True)
                try:
                    self.status = p.wait(timeout=timeout)
                except subprocess.TimeoutExpired:
                    pass
                finally:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
            self.wall = time.time() - t
            with open(d + ".out", errors="replace") as f:
                self.text = f.read()
            self.files = {}
            for root, _, names in os.walk(d):
                for n in names:
                    path = os.path.join(root, n)
                    rel = os.path.relpath(path, d)
                    with open(path, "rb") as f:
                        self.files[rel] = f.read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(session, ignore_errors=True)
            if os.path.exists(d + ".out"):
                os.unlink(d + ".out")

    def get(self, name):
        return self.files.get(os.path.normpath(os.path.join(self.case.out, name)))

    def table(self, name):
        """(column names, rows of strings) or None."""
        b = self.get(name)
        if b is None:
            return None
        lines = [l for l in b.decode(errors="replace").split("\n") if l.strip()]
        cells = [[c.strip() for c in l.strip().strip("|").split("|")] for l in lines]
        return (cells[0], cells[1:]) if cells else ([], [])


class Judge:
    """Collects verdicts for one case into a Result."""

    def __init__(self, job, case):
        import run as runner
        self.r = runner.Result()
        self.r.evaluations = 1
        self.case = case
        self.desc = case.describe() if case else ""
        self.job = job
        if case:
            self.r.hashes.add(self.desc)
            self.r.samples.append(self.desc)

    def check(self, ok, key, msg=""):
        self.r.checks += 1
        if not ok:
            self.r.vcount[key] = self.r.vcount.get(key, 0) + 1
            if self.r.vcount[key] == 1:
                text = self.case.text() + "\n".join("# %s: %s" % (k, v.replace("\n", " ; ")) for k, v in self.case.files.items())
                self.r.viol.append({"key": key, "msg": str(msg)[:2000], "case": self.desc + "\n" + text, "job": self.job, "cmd": []})
        return ok

    def count(self, key, n=1):
        self.r.counts[key] = self.r.counts.get(key, 0) + n

    def close(self, a, b, tol, key, what=""):
        return self.check(abs(a - b) <= tol, key, "%s: %.12g instead of %.12g" % (what, a, b))


def number(s):
    try:
        return float(s)
    except ValueError:
        return None


def why(run):
    import run as runner
    d = runner.diagnose(run.text)
    m = re.search(r"Additional information:\s*(.{0,300})", run.text, re.S)
    return (d[0] + ": " + d[1] if d else "") + " ... " + (m.group(1) if m else run.text[-700:])


DOCUMENTED = ("The maximum number of iterations", "Iterative method reported convergence failure",
              "AztecOO::Iterate error code", "maximum number of solution loops")


def lenient(c):
    """Cases whose solver may, as documented, not find a solution."""
    return c.independent or c.deco or c.linear == "gmres"


def field_names(data):
    """Names of the point arrays of a vtu or pvtu file; raises if malformed."""
    # appended binary data is not XML
    data = re.sub(rb"<AppendedData.*?</AppendedData>", b"", data, flags=re.S)
    root = ET.fromstring(data)
    names, pieces = [], []
    for e in root.iter():
        tag = e.tag.split("}")[-1]
        if tag in ("DataArray", "PDataArray") and e.get("Name"):
            names.append(e.get("Name"))
        if tag == "Piece" and e.get("Source"):
            pieces.append(e.get("Source"))
    return names, pieces


def outputs(j, run, done=None):
    """What a run that performed `done` steps (None: all, and ended) must leave."""
    c = run.case
    times = c.times()
    ended = done is None
    n = len(times) if ended else done
    check = j.check
    # the parameter log
    log = run.get("parameter_file.prm")
    if check(log is not None, "parameter-log-missing"):
        got, path = {}, []
        for line in log.decode().split("\n"):
            line = line.strip()
            if line.startswith("subsection "):
                path.append(line[11:].strip())
            elif line == "end":
                path.pop()
            elif line.startswith("set "):
                k, _, v = line[4:].partition("=")
                got["/".join(path), k.strip()] = v.strip()
        for (p, k), v in c.p.items():
            g = got.get((p, k))
            same = g is not None and (g == str(v) or (number(g) is not None and number(str(v)) == number(g)))
            check(same, "parameter-log-differs", "%s/%s: %s instead of %s" % (p, k, g, v))
    check(run.get("triangulation.vtu"), "triangulation-missing")
    # the table of the boundary stress: one row for every step
    t = run.table("stress12_vs_shear_strain_at_boundary.txt")
    if check(t is not None or n == 0, "boundary-table-missing") and t:
        head, rows = t
        check(len(rows) == n, "boundary-table-rows", "%d rows instead of %d" % (len(rows), n))
        i = [k for k, h in enumerate(head) if "shear" in h]
        scale = max(abs(c.shear(x)) for x in times)
        for row, time_ in zip(rows, times):
            vals = [number(x) for x in row]
            check(len(row) == len(head) and all(v is not None and v == v and abs(v) < 1e300 for v in vals), "boundary-table-values", row)
            if i and vals[i[0]] is not None:
                j.close(vals[i[0]], c.shear(time_), 2e-6 * scale, "boundary-table-shear", "shear at t = %g" % time_)
            j.count("boundary-rows")
    t = run.table("solution_algorithm_statistics.txt")
    if check(t is not None or n == 0, "statistics-missing") and t:
        head, rows = t
        check([number(r[0]) for r in rows] == [float(k + 1) for k in range(n)], "statistics-rows", [r[0] for r in rows])
        for r in rows:
            v = [number(x) for x in r]
            check(len(r) == len(head) and all(x is not None and x == x and abs(x) < 1e300 for x in v), "statistics-values", r)
        j.count("statistics-rows", len(rows))
        solver_log(j, run, n, {int(number(r[0]) or 0): number(r[1]) for r in rows})
    # the homogenised quantities
    reported = [k + 1 for k in range(n) if (k + 1) % c.homogenization == 0 or k + 1 == len(times)]
    t = run.table("homogenization.txt")
    if check(t is not None, "homogenization-missing") and ended:
        head, rows = t
        want = reported if c.homogenize else []
        if check(len(rows) == len(want), "homogenization-rows", "%d rows instead of %d" % (len(rows), len(want))):
            shear = head.index("Strain_12") if "Strain_12" in head else None
            scale = max(abs(c.shear(x)) for x in times)
            for row, k in zip(rows, want):
                ok = check(len(row) == len(head), "homogenization-columns", "%d entries, %d columns" % (len(row), len(head)))
                if not ok:
                    continue
                j.close(number(row[0]) if number(row[0]) is not None else 1e300, times[k - 1], 1e-4, "homogenization-time", "time of step %d" % k)
                vals = [number(x) for x in row if x != '""']
                check(all(v is not None and v == v and abs(v) < 1e300 for v in vals), "homogenization-values", row)
                if shear is not None and not c.deco:
                    v = number(row[shear])
                    j.close(2 * (v if v is not None else 1e300) * c.ref_u, c.shear(times[k - 1]), 1e-7 * scale, "average-shear", "step %d" % k)
                j.count("homogenized-rows")
            if want:
                last = [number(r[0]) for r in rows]
                check(all(a <= b for a, b in zip(last, last[1:])) and last[0] >= 0, "homogenization-order", last)
    # the fields
    shown = [k + 1 for k in range(n) if (k + 1) % c.graphics == 0 or k + 1 == len(times)]
    para = {os.path.basename(f): b for f, b in run.files.items() if os.path.dirname(f) == os.path.normpath(os.path.join(c.out, "paraview"))}
    kinds = ["solution"] + (["damage"] if c.damage else [])
    index = sorted(f for f in para if f.endswith(".pvtu"))
    want = sorted("%s_%05d.pvtu" % (k, i) for k in kinds for i in range(len(shown)))
    digits = lambda names: sorted((f.rsplit("_", 1)[0], int(re.sub(r"\D", "", f.rsplit("_", 1)[-1]) or -1)) for f in names)
    check(digits(index) == digits(want), "field-files", "%s instead of %s" % (index, want))
    used = set()
    for f in index:
        try:
            names, pieces = field_names(para[f])
        except ET.ParseError as e:
            check(False, "field-index-unreadable", "%s: %s" % (f, e))
            continue
        check(pieces, "field-index-empty", f)
        for p in pieces:
            used.add(p)
            if check(p in para, "field-piece-missing", "%s names %s" % (f, p)):
                try:
                    inside, _ = field_names(para[p])
                    check(set(names) <= set(inside), "field-piece-arrays", "%s: %s" % (p, sorted(set(names) - set(inside))))
                except ET.ParseError as e:
                    check(False, "field-piece-unreadable", "%s: %s" % (p, e))
        if f.startswith("solution"):
            has = any("luctuation" in x for x in names)
            check(has == c.fluctuations, "fluctuation-fields", "%s in %s" % (names, f))
            check(any("isplacement" in x for x in names) and sum("lip" in x for x in names) >= c.slips, "fields-missing", names)
        j.count("field-files")
    vtu = {f for f in para if f.endswith(".vtu")}
    check(vtu == used, "field-files-left", sorted(vtu ^ used)[:6])


ROW = re.compile(r"^(?:\s+[-+]?(?:\d[\d.]*(?:[eE][-+]?\d+)?|nan|inf)){10}\s*$")


def solver_log(j, run, n, iterations):
    """The log of the nonlinear solver: the steps of the programme, the rows of
    every Newton loop counted up without a gap and finite, norms that agree
    with one another, a last row that met the tolerance, and the number of
    iterations the statistics report."""
    c = run.case
    log = [b for f, b in run.files.items() if os.path.basename(f) == "nonlinear_solver_log.txt"]
    if not j.check(len(log) == 1, "solver-log-missing", len(log)):
        return
    steps, cur = [], None
    for line in log[0].decode("utf-8", "replace").splitlines():
        m = re.match(r"Step (\d+): Solving for t = (\S+) with dt = (\S+)", line)
        if m:
            cur = (int(m[1]), number(m[2]), number(m[3]), [])
            steps.append(cur)
        elif cur and ROW.match(line):
            cur[3].append([number(x) for x in line.split()])
    times = c.times()
    # a failed run also logs the step it failed in
    j.check([s[0] for s in steps[:n]] == [k + 1 for k in range(n)] and len(steps) <= n + 1, "solver-log-steps", [s[0] for s in steps])
    tol = 1e-8
    prev = 0.0
    for (k, t, dt, rows), want in zip(steps[:n], times):
        j.close(t if t is not None else 1e300, want, 2e-6 * max(1, times[-1]), "solver-log-time", "step %d" % k)
        j.close(dt if dt is not None else 1e300, want - prev, 2e-6 * max(1, times[-1]), "solver-log-step-size", "step %d" % k)
        prev = want
        if not j.check(rows and all(v is not None and v == v and abs(v) < 1e300 for r in rows for v in r), "solver-log-values", rows[-3:]):
            continue
        for r in rows:
            for i in (3, 6):
                j.close(r[i], math.hypot(r[i + 1], r[i + 2]), 3e-6 * (abs(r[i]) + 1e-300), "solver-log-norms", r)
        j.check(rows[-1][6] < 1.5 * tol, "solver-log-converged", rows[-1])
        if c.algorithm == "monolithic":
            ok = rows[0][0] == 0 and all(b[0] == a[0] + 1 or b[0] == 0 and c.independent for a, b in zip(rows, rows[1:]))
            j.check(ok, "solver-log-count", [r[0] for r in rows])
            j.check(rows[-1][0] == iterations.get(k), "statistics-iterations", "%s instead of %s in step %d" % (iterations.get(k), rows[-1][0], k))
        j.count("solver-log-rows", len(rows))


def steps_printed(j, run, n):
    """The programme as the verbose application prints it."""
    c = run.case
    if not c.verbose:
        return
    times = c.times()
    got = re.findall(r"Step (\d+)\s*\| Solving for t = ([-+.\deE]+) with dt = ([-+.\deE]+)", run.text)
    j.check([int(g[0]) for g in got] == [k + 1 for k in range(n)], "printed-steps", got)
    prev = 0.0
    for g, t in zip(got, times):
        j.close(float(g[1]), t, 1e-5 * max(times[-1], 1), "printed-time", "step " + g[0])
        j.close(float(g[2]), t - prev, 1e-4 * max(times[-1], 1), "printed-step-size", "step " + g[0])
        prev = t
        j.count("printed-steps")


# --------------------------------------------------------------------- P25
def complete(binary, seed, force, np=1):
    def job():
        c = strips.case(seed, **force)
        j = Judge("run %d" % seed, c)
        stale = seed % 2 == 0
        r = Run(c, binary, np=np, threads=1, stale=stale)
        if not j.check(r.status is not None, "run-hangs", r.text[-500:]):
            return j.r
        if r.status == 0:
            outputs(j, r)
            steps_printed(j, r, len(c.times()))
            j.check("Exception" not in r.text, "printed-exception", r.text[-500:])
            if stale:
                p = os.path.join(c.out, "paraview", "notes.txt")
                j.check(r.files.get(os.path.normpath(p)) == b"old\n", "foreign-file-removed")
                j.count("stale-files")
            j.count("complete-runs")
            j.count(c.kind)
            j.count("parallel-runs", np > 1)
        else:
            # openings and the rate-independent law may end in states without a solution
            j.check(lenient(c) and any(x in r.text for x in DOCUMENTED), "run-does-not-complete", why(r))
            t = r.table("stress12_vs_shear_strain_at_boundary.txt")
            outputs(j, r, len(t[1]) if t else 0)
            j.count("documented-failures")
        return j.r
    return job


def fails(binary, seed, force, how):
    """A solver that is not allowed enough iterations must end the run with an error."""
    def job():
        f = dict(force)
        V = strips.V
        s = dict(f.get("settings", {}))
        if how == "newton":
            for a in ("/Monolithic algorithm", "/Staggered algorithm/Linear momentum balance", "/Staggered algorithm/Pseudo-balance"):
                s[V + a + "/Newton-Raphson parameters", "Maximum number of iterations"] = 1
        f["settings"] = s
        c = strips.case(seed, **f)
        j = Judge("failing run %d" % seed, c)
        r = Run(c, binary)
        if not j.check(r.status is not None, "run-hangs", r.text[-500:]):
            return j.r
        if j.check(r.status != 0, "failure-without-status", r.text[-500:]):
            j.check(any(x in r.text for x in DOCUMENTED), "failure-not-explained", why(r))
            t = r.table("stress12_vs_shear_strain_at_boundary.txt")
            n = len(t[1]) if t else 0
            j.check(n < len(c.times()), "failed-run-with-all-rows")
            outputs(j, r, n)
            j.count("failed-runs")
        return j.r
    return job


def refused(binary, args, files, key):
    """Calls of the program that must be refused with an error status."""
    def job():
        import run as runner
        j = Judge("call " + key, None)
        j.case = strips.case(1)
        j.desc = "call %s %s" % (key, args)
        j.r.hashes.add(j.desc)
        d = tempfile.mkdtemp(prefix="gcpa_")
        try:
            for k, v in files.items():
                os.makedirs(os.path.dirname(os.path.join(d, k)), exist_ok=True)
                with open(os.path.join(d, k), "w") as f:
                    f.write(v)
            for _ in range(3):
                p = subprocess.run([binary] + args, cwd=d, env=runner.base_env(1, d), stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                                   timeout=100)
                if not runner.NOT_STARTED.search(p.stdout):
                    break
                time.sleep(2)
            j.check(p.returncode == 1, "not-refused:" + key, "status %s: %s" % (p.returncode, p.stdout[-400:]))
            j.check("rror" in p.stdout or "xception" in p.stdout, "refusal-not-explained:" + key, p.stdout[-400:])
            j.count("refused-calls")
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return j.r
    return job


def p25(bins, tier, seed):
    app = bins["app"]
    deep = tier == "thorough"
    n = 400 if deep else 26
    base = seed * 100000
    res = []
    fast = {} if deep else {"refine": 0}
    for i in range(n):
        f = dict(fast)
        if i % 6 == 1:
            f.update(kind="cyclic", skip=False, independent=False)
        elif i % 6 == 2:
            f.update(deco=True, crystals=2, damage=True, algorithm="monolithic", independent=False)
        elif i % 6 == 3:
            f.update(graphics=2, homogenization=3, homogenize=True, fluctuations=True)
        elif i % 6 == 4:
            f.update(verbose=True)
        if i % 8:
            f.update(algorithm="monolithic")
        else:
            f.update(algorithm="bouncing", dim=2, rows=3, crystals=1 + (i // 8) % 2, degree_u=1, degree_s=1, independent=False)
        if not deep and (f.get("dim") or 0) == 0 and i % 9:
            f["dim"] = 2
        if f.get("independent") is None and i % 10:
            f["independent"] = False
        if strips.case(base + i, **f).independent:
            f["bc"] = "microfree" if i % 2 else "microhard"
        res.append(complete(app, base + i, f))
    for i in range(30 if deep else 3):
        # elsewhere it can run out of iterations
        f = dict(fast, algorithm="embracing", dim=2, rows=3, degree_u=1, degree_s=1, deco=False, independent=False)
        f.update([dict(crystals=1, bc="microfree"), dict(crystals=2, bc="microhard"), dict(bc="microhard")][i % 3])
        res.append(complete(app, base + 30000 + i, f))
    for i in range(40 if deep else 3):
        f = dict(fast, crystals=1, deco=False, independent=False, algorithm="monolithic", dim=3 if i % 3 == 2 else 2, degree_u=1)
        res.append(complete(app, base + 40000 + i, f, np=2 + i % 2))
    for i, how in enumerate(["newton"] * (40 if deep else 4)):
        res.append(fails(app, base + 50000 + i, dict(fast, dim=2, independent=False, algorithm=["monolithic", "bouncing"][i % 2], rows=3, degree_u=1, degree_s=1, linear="cg", load=1.5e-2, bc="microfree", deco=False, dimensionless=False, kind="monotonic"), how))
    c = strips.case(base)
    res.append(refused(app, ["no-extension"], {}, "no-extension"))
    res.append(refused(app, ["file.txt"], {"file.txt": c.text()}, "wrong-extension"))
    res.append(refused(app, ["a.prm", "b.prm"], {"a.prm": c.text()}, "two-arguments"))
    res.append(refused(app, ["missing.prm"], {}, "missing-file"))
    res.append(refused(app, ["a.prm"], {"a.prm": c.text()}, "missing-inputs"))
    res.append(refused(app, ["a.prm"], {"a.prm": "set Verbosity = 1\n"}, "unknown-entry"))
    for sec, k in (("4. Output parameters", "Graphical output frequency"), ("5. Postprocessing parameters/Homogenization", "Homogenization frequency")):
        z = strips.case(base, dim=2, bc="microfree", deco=False, independent=False, homogenize=True, settings={(sec, k): 0})
        res.append(refused(app, ["case.prm"], dict(z.files, **{"case.prm": z.text()}), "zero-frequency"))
    return res


# --------------------------------------------------------------------- P24
TABLES = ("homogenization.txt", "stress12_vs_shear_strain_at_boundary.txt", "solution_algorithm_statistics.txt")


def values(run, name):
    t = run.table(name)
    if t is None:
        return None
    return t[0], [[number(x) for x in row] for row in t[1]]


def same_tables(j, a, b, key, tol):
    for name in TABLES[:2]:
        x, y = values(a, name), values(b, name)
        if x is None and y is None:
            continue
        if not j.check(x is not None and y is not None and x[0] == y[0] and len(x[1]) == len(y[1]), key + ":rows", name):
            continue
        # quantities of one kind (stresses, strains, ...) share their scale
        group = lambda h: re.sub(r"(_\d+|VonMises|Fluctuations)", "", h)
        scale = {}
        for row in x[1]:
            for h, v in zip(x[0], row):
                if v is not None and v == v:
                    scale[group(h)] = max(scale.get(group(h), 0), abs(v))
        worst = (0, "")
        for p, q in zip(x[1], y[1]):
            j.count("entries", len(p))
            for h, u, v in zip(x[0], p, q):
                if u is None and v is None:
                    continue
                d = abs(u - v) / (scale[group(h)] or 1) if u is not None and v is not None else 1e300
                if not d <= worst[0]:
                    worst = (d, "%s %s: %r and %r" % (name, h, u, v))
        j.check(worst[0] <= tol, key + ":values", "%.3g %s" % worst)
        j.r.worst = max(getattr(j.r, "worst", 0), worst[0])


def same(binary, seed, force, runs):
    """runs: list of (kind, processes, threads); each compared with the run on one process and thread."""
    def job():
        c = strips.case(seed, **force)
        j = Judge("same results %d" % seed, c)
        first = Run(c, binary)
        j.check(first.status == 0 or lenient(c), "run-does-not-complete", why(first))
        for kind, np, threads in runs:
            r = Run(c, binary, np=np, threads=threads)
            if not j.check(r.status is not None, kind + ":hangs", "%d processes, %d threads: %s" % (np, threads, r.text[-800:])):
                continue
            j.count(kind)
            if kind == "polycrystal" and r.status != 0:
                # a documented limitation of the application; it must not go unnoticed
                j.count("polycrystals-refused")
                continue
            if kind == "independent-processes" and r.status != 0 and "local_lines for this and the other objects are not the same" in r.text:
                j.check(False, kind + ":constraints-on-different-lines", why(r))
                continue
            if not j.check((r.status == 0) == (first.status == 0), kind + ":status", "%s and %s: %s" % (first.status, r.status, why(r))):
                continue
            if kind == "repetition":
                names = [n for n in first.files if n.endswith(".txt") or n.endswith("parameter_file.prm")]
                for n in names:
                    j.check(first.files[n] == r.files.get(n), "repetition:file", n)
                f = {n for n in first.files if "paraview" in n}
                j.check(f == {n for n in r.files if "paraview" in n}, "repetition:files", f)
            elif first.status == 0:
                same_tables(j, first, r, kind, 2e-6)
                j.count("runs-compared")
        return j.r
    return job


_names = {}


def function_at(binary, pc):
    """Innermost function of /repo at an address of an instrumented binary."""
    if (binary, pc) not in _names:
        t = subprocess.run(["addr2line", "-Cfipe", binary, hex(int(pc, 16) - 1)], stdout=subprocess.PIPE, text=True).stdout
        t = [l.replace(" (inlined by) ", "") for l in t.split("\n") if l.strip()]
        ours = [l for l in t if "/source/" in l or "/include/gCP/" in l or "/applications/" in l] or t
        name = re.sub(r"<\d+>", "", ours[0].split(" at /")[0]) if ours else pc
        _names[binary, pc] = (re.sub(r"\(.*", "", name), " < ".join(t)[:600])
    return _names[binary, pc]


def races(text, binary, check, count):
    """Judges what the race runtime printed; False if it saw nothing."""
    seen = re.search(r"GCPV-OBSERVED epochs (\d+) tasks (\d+) accesses (\d+) shared-writes (\d+) races (\d+)", text)
    for m in re.finditer(r"GCPV-RACE (\S+) (0x\w+) (0x\w+) (tasks \d+ \d+)", text):
        a, b = function_at(binary, m.group(2)), function_at(binary, m.group(3))
        check(False, "race:%s/%s" % tuple(sorted((a[0], b[0]))), "%s, %s: %s and %s" % (m.group(1), m.group(4), a[1], b[1]))
    if seen:
        for k, n in zip(("streams", "tasks", "shared-accesses", "shared-writes"), seen.groups()):
            count(k, int(n))
        check(True, "")
    return bool(seen)


def scheduled(race, plain, seed, force, schedules):
    """The application on the monitored WorkStream: no two tasks may touch the
    same memory, and the tables are the same whatever the schedule."""
    def job():
        c = strips.case(seed, **force)
        j = Judge("schedules %d" % seed, c)
        first = Run(c, plain)
        for s in schedules:
            r = Run(c, race, env={"GCPV_SCHEDULE": str(s)})
            if r.status is None:
                j.count("too-long")
                continue
            races(r.text, race, j.check, j.count)
            if j.check((r.status == 0) == (first.status == 0), "schedule:status", "%s and %s: %s" % (first.status, r.status, why(r))) and first.status == 0:
                same_tables(j, first, r, "schedule", 1e-9)
                j.count("schedules")
        return j.r
    return job


def tasks_of(race, pid, seed, tier, schedule):
    """A property's generated workload on the monitored WorkStream; only races count here."""
    def job():
        import run as runner
        fd, out = tempfile.mkstemp(prefix="gcpr_")
        os.close(fd)
        try:
            r = runner.run_once(runner.Job([race, pid, str(seed), tier, "{report}"], name="tasks of " + pid,
                                           env={"GCPV_OUT": out, "GCPV_SCHEDULE": str(schedule)}), 300)
            with open(out) as f:
                text = f.read()
        finally:
            os.unlink(out)
        j = Judge("tasks of %s, seed %d, schedule %d" % (pid, seed, schedule), None)
        j.case = strips.case(1)
        j.desc = j.job
        j.r.evaluations, j.r.hashes, j.r.samples = r.evaluations, r.hashes, r.samples[:1]
        races(text, race, j.check, j.count)
        return j.r
    return job


def p24(bins, tier, seed):
    app = bins["app"]
    deep = tier == "thorough"
    base = seed * 100000 + 20000
    res = []
    for i, pid in enumerate(["P18", "P17", "P16", "P20", "P22"]):
        for k in range(4 if deep else 1):
            res.append(tasks_of(bins["femrace"], pid, seed * 1000 + 800 + k, "quick" if deep else "few4" if pid == "P16" else "few8", (k + i) % 3 * (seed * 10 + k + 1)))
    for i in range(60 if deep else 12):
        f = dict(dim=2, refine=i % 2, rows=4, degree_u=1 + i % 2, degree_s=1, kind=["monotonic", "cyclic"][i // 3 % 2], steps=2, ramp_steps=1, quarter=1, cycles=1, linear="directsolver",
                 crystals=1 + (i > 0), bc=["microtraction", "microfree", "microhard"][i % 3], algorithm="monolithic", independent=False, load=4e-3, homogenize=True, dimensionless=False)
        f["deco"] = f["damage"] = i > 0 and i % 2 == 1
        if i % 5 == 4:
            f.update(dim=3, refine=0, degree_u=1, rows=3, kind="monotonic")
        res.append(scheduled(bins["apprace"], app, base + 6000 + i, f, [0, 1 + i, 101 + i] + (list(range(201, 206)) if deep else [])))
    plain = dict(algorithm="monolithic", independent=False)
    for i in range(60 if deep else 8):
        f = dict(plain, crystals=1, deco=False, dim=3 if i % 4 == 3 else 2, refine=i % 2, linear="directsolver")
        if f["dim"] == 3:
            f.update(refine=0, degree_u=1)
        if i % 8 == 5:
            f.update(algorithm="bouncing", rows=3, refine=0, degree_u=1)
        res.append(same(app, base + i, f, [("processes", 2, 1), ("processes", 3, 1)] + ([("processes", 4, 2)] if deep else [])))
    for i in range(60 if deep else 8):
        f = dict(plain, dim=2, refine=2, linear="directsolver", rows=3 + i % 3, degree_u=1 + i % 2, degree_s=1, crystals=2 if i % 2 else 1 + i % 3,
                 bc=["microfree", "microtraction", "microhard"][i % 3], kind="monotonic", steps=3)
        f["deco"] = f["crystals"] > 1 and i % 4 == 1
        res.append(same(app, base + 1000 + i, f, [("threads", 1, t) for t in ((2, 3, 4, 8) if deep else (4, 8))]))
    for i in range(40 if deep else 6):
        f = dict(plain, dim=2, refine=0)
        if i % 3 == 1:
            f.update(deco=True, crystals=2, damage=True)
        if i % 3 == 2:
            f.update(independent=True, bc="microfree")
        res.append(same(app, base + 2000 + i, f, [("repetition", 1, 1)]))
    for i in range(10 if deep else 2):
        res.append(same(app, base + 3000 + i, dict(plain, dim=2, crystals=2, deco=i % 2 == 1), [("polycrystal", 2, 1)]))
    for i in range(6 if deep else 2):
        res.append(same(app, base + 4000 + i, dict(plain, dim=2, crystals=1, deco=False, independent=True, bc="microhard", slips=1, kind="monotonic", steps=3, load=0.004, linear="directsolver"),
                        [("independent-processes", 2, 1)]))
    return res


# --------------------------------------------------------------------- P23
FILL = ":max_malloc_fill_size=100000000:malloc_fill_byte=%d"


def unsafe(text, status):
    """(key, message) if a run showed an error of memory or undefined behaviour."""
    import run as runner
    m = re.search(r"Assertion '([^\n]*)' failed", text)
    if m and "/c++/" in text:
        return "library-precondition:" + m.group(1), text[max(0, m.start() - 400):m.end()]
    d = runner.diagnose(text)
    if d and d[0].startswith(("undefined-behaviour", "address-sanitizer")):
        i = text.find("runtime error:") if "runtime error" in text else text.find("ERROR: AddressSanitizer")
        return d[0], text[max(0, i - 200):i + 1800]
    if "ExcIndexRange" in text or "Index " in text and "is not in the half-open range" in text:
        return "index-out-of-range:" + (d[0] if d else ""), text[-2500:]
    m = re.search(r"Signal: (Segmentation fault|Bus error|Floating point exception|Illegal instruction)", text)
    if m:
        return "signal:" + m.group(1), text[-2500:]
    if status is not None and status < 0 and -status in (4, 7, 8, 11):
        return "signal:%d" % -status, text[-2500:]
    return None


def sanitized(san, plain, seed, force, np=1, threads=1):
    """A run under the sanitizers with memory filled in two ways, and one without them."""
    def job():
        import run as runner
        c = strips.case(seed, **force)
        j = Judge("sanitized run %d" % seed, c)
        runs = []
        for fill in (190, 0) if np == 1 and threads == 1 else (190,):
            r = Run(c, san, np=np, threads=threads, timeout=250,
                    env={"ASAN_OPTIONS": runner.base_env()["ASAN_OPTIONS"] + FILL % fill})
            if r.status is None:
                j.count("too-long")
                return j.r
            bad = unsafe(r.text, r.status)
            j.check(bad is None, bad[0] if bad else "", bad[1] if bad else "")
            j.count("sanitized-runs")
            runs.append(r)
            if bad:
                return j.r
        if len(runs) == 2:
            a, b = runs
            j.check(a.status == b.status, "depends-on-memory:status", "%s and %s: %s" % (a.status, b.status, why(b if b.status else a)))
            if a.status == b.status == 0:
                for n in sorted(a.files):
                    if n.endswith(".txt") or n.endswith("parameter_file.prm"):
                        j.check(a.files[n] == b.files.get(n), "depends-on-memory:" + os.path.basename(n))
                        j.count("files-compared")
                r = Run(c, plain)
                if j.check(r.status == 0, "depends-on-memory:plain-status", why(r)):
                    same_tables(j, a, r, "depends-on-memory", 2e-6)
            j.count("ended" if a.status == 0 else "failed")
        for t in (c.bc, "decohesion" if c.deco else "", "independent" if c.independent else "", "3D" if c.dim == 3 else "2D", c.algorithm,
                  c.kind, "dimensionless" if c.dimensionless else "", "debug-fields" if c.debug_fields else "", "parallel" if np > 1 else "", "threads" if threads > 1 else ""):
            if t:
                j.count(t)
        return j.r
    return job


def harness_under(binary, pid, seed, tier):
    """A property's own workload, instrumented; only memory errors count here."""
    def job():
        import run as runner
        r = runner.run_job(runner.Job([binary, pid, str(seed), tier, "{report}"], timeout=330, name="%s under sanitizers, seed %d" % (pid, seed)))
        keep = []
        for v in r.viol:
            k = unsafe(v["msg"], None) if v["key"].startswith("crash:") else None
            if k:
                v["key"] = k[0]
                keep.append(v)
        r.viol, r.vcount = keep, {v["key"]: 1 for v in keep}
        r.counts = {"calls-observed": r.checks, "workload-" + pid: r.evaluations}
        r.samples = r.samples[:1]
        return r
    return job


def p23(bins, tier, seed):
    san, plain = bins["appsan"], bins["app"]
    deep = tier == "thorough"
    base = seed * 100000 + 60000
    jobs = []
    few = "quick" if deep else "few8"
    for pid in ("P20", "P18", "P14", "P16", "P17", "P15", "P21", "P22"):
        for i in range(4 if deep else 1):
            jobs.append(harness_under(bins["femsan"], pid, seed * 1000 + 700 + i, few if deep or pid not in ("P18", "P20") else "few40"))
    small = dict(refine=0, degree_u=1, degree_s=1)
    for i in range(200 if deep else 24):
        f = dict(small, rows=2 if i % 2 else 3, kind=["monotonic", "cyclic"][i // 2 % 2], steps=2, ramp_steps=1, quarter=1, cycles=1)
        f["algorithm"] = "bouncing" if i % 12 == 7 else "monolithic"
        f["crystals"] = 1 if i % 5 == 0 else 2
        f["bc"] = ["microfree", "microhard", "microtraction"][i % 3]
        f["deco"] = f["crystals"] == 2 and i % 4 == 1
        f["damage"] = f["deco"]
        f["independent"] = i % 8 == 6
        f["fluctuations"] = i % 3 == 0
        f["homogenize"] = True
        f["linear"] = ["directsolver", "cg", "gmres"][i % 3] if not f["deco"] else "directsolver"
        f["dim"] = 3 if i % 6 == 2 else 2
        f["load"] = 4e-3
        if f["dim"] == 3:
            f.update(rows=2, kind="monotonic")
        if i % 9 == 4 and f["algorithm"] == "monolithic":
            f.update(debug_fields=True, print_sparsity=True, kind="monotonic")
        if i % 7 == 3:
            f["degree_u"] = 2
        jobs.append(sanitized(san, plain, base + i, f))
    for i in range(12 if deep else 2):
        jobs.append(sanitized(san, plain, base + 1000 + i, dict(small, dim=2, rows=3, crystals=1, deco=False, independent=False, algorithm="monolithic", linear="directsolver", kind="monotonic", steps=2, load=4e-3), np=2))
        jobs.append(sanitized(san, plain, base + 2000 + i, dict(small, dim=2, rows=4, crystals=2, refine=1, deco=i % 2 == 1, independent=False, algorithm="monolithic", linear="directsolver", kind="monotonic", steps=2, load=4e-3), threads=4))
    for i, pid in enumerate(["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P26"]):
        jobs.append(harness_under(bins["material"], pid, seed * 1000 + 700, few))
    return jobs
