#!/usr/bin/env python3
"""Runs the check of one property: builds what it needs from /repo's working
tree, runs the monitored workloads, gathers what the monitors saw, and decides.

usage: checks/run.py <property> [quick|thorough]
exit 0: held on everything observed; 1: VIOLATION printed; 2: no answer.
"""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
import build  # noqa: E402
import specs  # noqa: E402

FINDINGS = os.path.join(VERIF, "known_findings.txt")


def base_env(threads=1, scratch=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("OMPI_MCA")}
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             DEAL_II_NUM_THREADS=str(threads),
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98",
             OMPI_MCA_btl="self,vader", OMPI_MCA_btl_base_warn_component_unused="0",
             OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
             OMPI_MCA_plm_rsh_agent="/bin/false",
             # a process on its own does without the helper daemon, whose start can fail on a busy machine
             OMPI_MCA_ess_singleton_isolated="1",
             LC_ALL="C")
    if scratch:
        # Open MPI's session directories carry a number of few bits only, so
        # processes running at the same time can get into each other's
        e["OMPI_MCA_orte_tmpdir_base"] = scratch
    return e


_FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/\S+?):(\d+)")


def diagnose(text):
    """(key, message) for a process that died, from what it printed."""
    def frame():
        for m in _FRAME.finditer(text):
            if "/repo/" in m.group(2) or m.group(2).startswith(build.REPO):
                fn = re.sub(r"\(.*", "", m.group(1))
                return fn.split("::")[-1] or fn
        return ""
    m = re.search(r"runtime error: ([^\n]*)", text)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?", "#", m.group(1))
        return "undefined-behaviour:%s:%s" % (msg[:80], frame()), m.group(0)
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)[^\n]*", text)
    if m:
        return "address-sanitizer:%s:%s" % (m.group(1), frame()), m.group(0)
    m = re.search(r"An error occurred in line <\d+> of file <([^>]*)> in function\s*\n?\s*([^\n]*)", text)
    if m:
        v = re.search(r"The violated condition was:\s*\n\s*([^\n]*)", text)
        return "assertion:%s:%s" % (os.path.basename(m.group(1)),
                                    v.group(1).strip() if v else ""), m.group(2).strip()
    m = re.search(r"terminate called[^\n]*\n?[^\n]*", text)
    if m:
        return "uncaught-exception", m.group(0)
    return None


class Job:
    def __init__(self, cmd, threads=1, timeout=280, name="", env=None, files=None):
        self.cmd, self.threads, self.timeout, self.name = cmd, threads, timeout, name
        self.env, self.files = env or {}, files or {}


class Result:
    def __init__(self):
        self.viol, self.samples, self.counts = [], [], {}
        self.vcount = {}
        self.evaluations = self.checks = 0
        self.hashes = set()
        self.errors = []
        self.text = ""

    def merge(self, o):
        self.viol += o.viol
        self.samples += o.samples
        for k, n in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + n
        for k, n in o.vcount.items():
            self.vcount[k] = self.vcount.get(k, 0) + n
        self.evaluations += o.evaluations
        self.checks += o.checks
        self.hashes |= o.hashes
        self.errors += o.errors


# Open MPI could not set a process up: nothing of the code under test ran
NOT_STARTED = re.compile(r"MPI_INIT failed for some reason|orte_init failed|before MPI_INIT completed"
                         r"|start a daemon on the local node|unable to launch the specified application")


def run_job(job):
    """Runs a harness process; a watchdog that fires is repeated once before it
    counts, as a busy machine can be slow."""
    for attempt in range(3):
        r = run_once(job, job.timeout)
        if not (r.errors and not r.viol or NOT_STARTED.search(r.text)):
            break
        time.sleep(1 + 3 * attempt)
    if "crash:hang" in r.vcount and job.timeout < 1000:
        r = run_once(job, int(1.4 * job.timeout))
    return r


def run_once(job, timeout):
    """Runs one harness process ({report} in its command is its report file)."""
    r = Result()
    d = tempfile.mkdtemp(prefix="gcpv_")
    session = tempfile.mkdtemp(prefix="gcpm_")
    try:
        report = os.path.join(d, "report.jsonl")
        for name, text in job.files.items():
            path = os.path.join(d, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(text)
        cmd = [c.replace("{report}", report) for c in job.cmd]
        env = base_env(job.threads, session)
        env.update(job.env)
        out_path = os.path.join(d, "output.txt")
        status, why = None, ""
        with open(out_path, "wb") as out:
            p = subprocess.Popen(cmd, cwd=d, env=env, stdout=out, stderr=subprocess.STDOUT,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                status = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                why = "timeout"
            finally:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
        with open(out_path, errors="replace") as f:
            text = f.read()[-400000:]
        r.text = text[-20000:]
        last, ended = "", False
        # further ranks of a parallel run report to <report>.<rank>
        for path in sorted(glob.glob(report + "*")):
            first = path == report
            with open(path, errors="replace") as f:
                for line in f:
                    try:
                        x = json.loads(line)
                    except ValueError:
                        continue
                    t = x.get("t")
                    if not first and t in ("case", "sample"):
                        continue
                    if not first and t == "end":
                        r.checks += x["checks"]
                        continue
                    if t == "case":
                        last = x["c"]
                        r.evaluations += 1
                    elif t == "viol":
                        x["job"] = job.name
                        x["cmd"] = job.cmd
                        r.viol.append(x)
                    elif t == "sample":
                        r.samples.append(x["c"])
                    elif t == "count":
                        r.counts[x["k"]] = r.counts.get(x["k"], 0) + x["n"]
                    elif t == "vcount":
                        r.vcount[x["k"]] = r.vcount.get(x["k"], 0) + x["n"]
                    elif t == "hashes":
                        r.hashes |= set(x["h"])
                    elif t == "end":
                        ended = True
                        r.evaluations = x["evaluations"]
                        r.checks += x["checks"]
        if not (ended and status == 0):
            diag = diagnose(text)
            if diag is None and why == "timeout":
                diag = ("hang", "no result within %d s" % timeout)
            if diag is None and os.path.exists(report) and (last or ended):
                diag = ("died", "status %s; %s" % (status, text[-300:]))
            if diag is None:
                r.errors.append("%s: could not start (status %s): %s" % (job.name, status, text[-1500:]))
            else:
                key = "crash:" + diag[0]
                r.viol.append({"key": key, "msg": diag[1] + "\n" + text[-3000:],
                               "case": last, "job": job.name, "cmd": job.cmd})
                r.vcount[key] = r.vcount.get(key, 0) + 1
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(session, ignore_errors=True)


def known(pid):
    res = set()
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"known: property=(\S+) key=<([^>]*)>", line)
            if m and m.group(1) == pid:
                res.add(m.group(2))
    return res


def main():
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER")) or "quick"
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = specs.SPECS[pid]
    try:
        bins = build.build(spec.programs)
    except build.BuildError as e:
        print("cannot build: " + str(e)[-6000:])
        return 2
    jobs = spec.jobs(bins, tier, seed)
    total = Result()
    with concurrent.futures.ThreadPoolExecutor(spec.parallel) as ex:
        for r in ex.map(lambda j: j() if callable(j) else run_job(j), jobs):
            total.merge(r)
    if spec.after:
        spec.after(total, tier)
    for k, n in spec.needs.items():
        if total.counts.get(k, 0) < n:
            total.errors.append("the monitors saw only %d '%s'" % (total.counts.get(k, 0), k))
    kn = known(pid)
    new = [v for v in total.viol if v["key"] not in kn]
    old = sorted({v["key"] for v in total.viol if v["key"] in kn})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.hashes),
            "rule": spec.rule,
            "samples": [s[:1500] for s in total.samples[:8]],
            "oracle_comparisons": total.checks,
            "observed": dict(sorted(total.counts.items())),
            "processes": len(jobs),
        },
        "assumptions": spec.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "known_findings_seen": old,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s seed=%d: %d cases, %d distinct, %d comparisons, %.1f s" % (
        pid, tier, seed, total.evaluations, len(total.hashes), total.checks, time.time() - t0))
    if new:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = os.path.join(rd, "%s-%s.json" % (pid, re.sub(r"\W+", "_", v["key"])[:80]))
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "seed": seed, "violation": v,
                           "times_seen": total.vcount.get(v["key"], 1),
                           "reproduce": "VERIF_SEED=%d python3 checks/run.py %s %s" % (seed, pid, tier)},
                          f, indent=1)
                f.write("\n")
            print("  %s: %s [%s]" % (v["key"], v["msg"][:300], v["case"][:300].replace("\n", " / ")))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if total.errors:
        print("no answer: " + "; ".join(total.errors))
        return 2
    if not total.evaluations or not total.checks:
        print("no answer: nothing was observed")
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)
