"""Decides one property: runs its harnesses, replays, reports.

    python3-vt -m sx.main PROPERTY [--tier quick|thorough] [--only HARNESS]

Exit status: 0 the property held on everything explored; 1 with VIOLATION
lines for counterexamples that were reproduced on the unmodified code; 2 when
the check itself failed (a counterexample that does not reproduce, a harness
that never reached what it is about, an internal error).
"""

import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONCRETE = "/opt/venv/bin/python"
if not os.path.exists(CONCRETE):
    CONCRETE = sys.executable


class Server:
    """The concrete interpreter, running unmodified source."""

    def __init__(self, openssl, points):
        self.points = points
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE,
                   PYTHONHASHSEED="0")
        self.openssl = openssl
        self.p = subprocess.Popen(
            [CONCRETE, "-m", "sx.conc"], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=HERE,
            env=env, text=True)

    def run(self, module, harness, params, assignment):
        self.p.stdin.write(json.dumps({
            "module": module, "harness": harness, "params": params,
            "assignment": assignment, "openssl": self.openssl,
            "points": self.points}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"error": "concrete interpreter ended"}
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()


def run_job(job):
    """One harness with one parameter set, in this process."""
    from . import api, shim
    module, name, params, deadline, timeout_ms = job
    t0 = time.perf_counter()
    h0 = None
    openssl = job_openssl(module, name)
    points = job_points(module, name)
    f = api.setup(openssl=openssl, points=points)
    m = importlib.import_module("props." + module)
    h0 = m.HARNESSES[name]
    # every module of the package the harness may pull in lazily
    for extra in getattr(m, "PRELOAD", ()):
        importlib.import_module(extra)
    guard = shim.StateGuard(f.modules)
    x, rec = api.explore(h0.fn, params, guard, timeout_ms=timeout_ms,
                         deadline=deadline, max_values=h0.max_values,
                         max_paths=h0.max_paths)
    sym_s = time.perf_counter() - t0
    res = {
        "module": module, "harness": name, "params": params,
        "paths": x.stats.paths, "aborted": x.stats.aborted,
        "branches": x.stats.branches, "queries": x.stats.queries,
        "solver_s": x.stats.solver_s, "checks": x.stats.checks,
        "solver_checks": x.stats.solver_checks,
        "inconclusive": sorted(set(x.inconclusive)),
        "n_inconclusive": len(x.inconclusive),
        "reached": sorted(x.reached), "labels": rec.labels,
        "violations": [], "spurious": [], "mismatch": [],
        "validated": 0, "samples": [], "sym_s": sym_s,
        "files": sorted(f.files),
    }
    srv = Server(openssl, points)
    try:
        byl = {}
        for v in rec.violations:
            r = srv.run(module, name, params, v["assignment"])
            v["concrete"] = r
            if r.get("violations"):
                # the concrete run may stop at an earlier failed check
                v["label"] = r["violations"][0]["label"]
                v["info"] = r["violations"][0]["info"]
                byl.setdefault(v["label"], v)
                res["violations"].append(v)
            else:
                res["spurious"].append(v)
        for s in rec.samples:
            r = srv.run(module, name, params, s["assignment"])
            if r.get("error"):
                res["mismatch"].append({"sample": s, "concrete": r})
            elif r["violations"]:
                res["violations"].append({
                    "label": r["violations"][0]["label"],
                    "info": r["violations"][0]["info"],
                    "assignment": s["assignment"], "concrete": r})
            elif r["stop"] or r["notes"] != s["notes"]:
                res["mismatch"].append({"sample": s, "concrete": r})
            else:
                res["validated"] += 1
        res["samples"] = rec.samples[:2]
    finally:
        srv.close()
    return res


def job_openssl(module, name):
    """Read the flag without importing the harness (it pulls in snmp)."""
    from props import index
    return (module, name) in index.OPENSSL


def job_points(module, name):
    from props import index
    return index.POINTS.get((module, name), False)


def child(job, path):
    sys.stdin = open(os.devnull)
    try:
        res = run_job(job)
    except BaseException:
        import traceback
        res = {"module": job[0], "harness": job[1], "params": job[2],
               "error": traceback.format_exc()[-3000:]}
    with open(path, "w") as f:
        json.dump(res, f)


def run_jobs(jobs, workers, tmp, hard):
    """Run jobs in child processes, `workers` at a time."""
    pending = list(enumerate(jobs))
    live = {}
    results = [None] * len(jobs)
    while pending or live:
        while pending and len(live) < workers:
            i, job = pending.pop(0)
            path = os.path.join(tmp, "%d.json" % i)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    child(job, path)
                finally:
                    os._exit(0)
            live[pid] = (i, path)
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            if time.monotonic() > hard:
                for p in live:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
                hard = float("inf")
                pending = []
            time.sleep(0.02)
            continue
        if pid not in live:
            continue
        i, path = live.pop(pid)
        try:
            with open(path) as f:
                results[i] = json.load(f)
        except (OSError, ValueError):
            m, n, p = jobs[i][:3]
            results[i] = {"module": m, "harness": n, "params": p,
                          "killed": True}
    for i, r in enumerate(results):
        if r is None:
            m, n, p = jobs[i][:3]
            results[i] = {"module": m, "harness": n, "params": p,
                          "killed": True}
    return results


def known_findings():
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.jsonl")) as f:
            for line in f:
                line = line.strip()
                if line and line.startswith("{"):
                    out.append(json.loads(line))
    except FileNotFoundError:
        pass
    return out


def match_known(known, prop, r, v):
    """The listed finding this violation is an instance of, if any.

    An entry names the property, the harness and the label of the failed
    assertion, and the exact values (`where`) reported with the failure.
    """
    for k in known:
        if k["property"] != prop or k["harness"] != r["harness"]:
            continue
        if k["label"] != v["label"]:
            continue
        if all(v["info"].get(a) == b for a, b in k.get("where", {}).items()):
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    os.environ["PYTHONHASHSEED"] = "0"
    import z3                                # loaded once, before forking
    from props import index
    from . import core, api, env, loader, shim

    prop = a.property
    names = index.PROPERTIES[prop]
    tier = a.tier
    budget = a.budget or (240 if tier == "quick" else 700)
    deadline = t0 + budget
    hard = t0 + budget + 90

    # The list of parameter sets is read in a child, so that this process
    # stays free of the code under test.
    specs = child_specs(names)
    jobs = []
    for (module, name) in names:
        s = specs[module + "." + name]
        if a.only and a.only != name:
            continue
        plist = list(s["quick"])
        if tier == "thorough":
            plist += s["thorough"]
        for p in plist:
            jobs.append((s.get("weight", 1), (
                module, name, p, deadline,
                20000 if tier == "quick" else 60000)))
    tmp = os.path.join("/tmp", "sx-%d" % os.getpid())
    os.makedirs(tmp)
    try:
        results = run_jobs([j for w, j in jobs], a.workers, tmp, hard)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)

    status = 0
    known = known_findings()
    violations, seen_known = [], {}
    errors, incon = [], []
    reached = {}
    for r in results:
        key = (r["module"], r["harness"])
        tag = "%s.%s%s" % (r["module"], r["harness"],
                           json.dumps(r["params"], sort_keys=True))
        if r.get("killed"):
            incon.append(tag + ": ended by the time or memory limit")
            reached.setdefault(key, [set(), True])[1] = True
            continue
        if r.get("error"):
            errors.append(tag + ": " + r["error"])
            continue
        e = reached.setdefault(key, [set(), False])
        e[0] |= set(r["reached"])
        if r["inconclusive"]:
            e[1] = True
            incon.append("%s: %d x %s" % (
                tag, r["n_inconclusive"], "; ".join(r["inconclusive"])[:400]))
        if a.v:
            print("%-60s paths=%d aborted=%d branches=%d queries=%d checks=%d"
                  " validated=%d %.1fs (solver %.1fs)" % (
                      tag, r["paths"], r["aborted"], r["branches"],
                      r["queries"], r["checks"], r["validated"], r["sym_s"],
                      r["solver_s"]))
        for v in r["violations"]:
            k = match_known(known, prop, r, v)
            if k is not None:
                seen_known[k["what"]] = seen_known.get(k["what"], 0) + 1
            else:
                violations.append((r, v))
        for v in r["spurious"]:
            errors.append("%s: counterexample for %r does not reproduce: "
                          "%s" % (tag, v["label"], json.dumps(
                              {k: v[k] for k in ("assignment", "concrete",
                                                 "info")})[:3000]))
        for v in r["mismatch"]:
            errors.append("%s: symbolic and concrete runs differ: %s" % (
                tag, json.dumps(v)[:3000]))
    bykey = {}
    for r, v in violations:
        bykey.setdefault((r["harness"], v["label"]), (r, v))
    for key, (rs, inc) in reached.items():
        s = specs["%s.%s" % key]
        missing = set(s["reach"]) - rs
        if missing and not inc and not bykey and not a.only:
            errors.append("%s.%s: never reached %s" % (
                key[0], key[1], ", ".join(sorted(missing))))

    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    for k in known:
        if k["property"] == prop and k["what"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            seen_known.pop(k["what"])
    n = 0
    for (hn, label), (r, v) in bykey.items():
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        n += 1
        with open(path, "w") as f:
            json.dump({"property": prop, "module": r["module"],
                       "harness": r["harness"], "params": r["params"],
                       "openssl": job_openssl(r["module"], r["harness"]),
                       "points": job_points(r["module"], r["harness"]),
                       "label": v["label"], "info": v["info"],
                       "assignment": v["assignment"]}, f, indent=1)
        print("violated: %s in %s%s: %s" % (
            label, hn, json.dumps(r["params"]), json.dumps(v["info"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
    for e in incon:
        print("INCONCLUSIVE: " + e)
    for e in errors[:10]:
        print("ERROR: " + e)
    if errors and status == 0:
        status = 2

    wall = time.monotonic() - t0
    evidence(prop, tier, results, specs, incon, errors, violations, wall)
    ok = [r for r in results if "paths" in r]
    print("%s %s: %d jobs, %d paths, %d queries, %d assertions, %d violation"
          "(s), %d inconclusive, %.1f s" % (
              prop, tier, len(results), sum(r["paths"] for r in ok),
              sum(r["queries"] for r in ok), sum(r["checks"] for r in ok),
              len(bykey), len(incon), wall))
    return status


def child_specs(names):
    """Parameter sets of the harnesses, obtained in a child process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        out = {}
        try:
            from . import api
            from props import index
            api.setup(openssl=any(job_openssl(*n) for n in names))
            for module, name in names:
                h = index.spec(module, name)
                out[module + "." + name] = h
            data = json.dumps(out)
        except BaseException:
            import traceback
            data = json.dumps({"error": traceback.format_exc()})
        with os.fdopen(w, "w") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = json.loads(data)
    if "error" in out:
        print("ERROR: " + out["error"])
        sys.exit(2)
    return out


def evidence(prop, tier, results, specs, incon, errors, violations, wall):
    ok = [r for r in results if "paths" in r]
    def total(k):
        return sum(r[k] for r in ok)
    hs = {}
    for r in ok:
        s = specs["%s.%s" % (r["module"], r["harness"])]
        h = hs.setdefault(r["harness"], {
            "functions": s["functions"], "bound": s["bound"],
            "jobs": 0, "paths": 0, "queries": 0, "solver_s": 0.0,
            "assertions": 0, "assertions_by_solver": 0, "by_label": {}})
        h["jobs"] += 1
        h["paths"] += r["paths"]
        h["queries"] += r["queries"]
        h["solver_s"] = round(h["solver_s"] + r["solver_s"], 3)
        h["assertions"] += r["checks"]
        h["assertions_by_solver"] += r["solver_checks"]
        for k, n in r["labels"].items():
            h["by_label"][k] = h["by_label"].get(k, 0) + n
    samples = []
    for r in ok:
        for s in r["samples"][:1]:
            if len(samples) < 8:
                samples.append({"harness": r["harness"], "params": r["params"],
                                "assignment": s["assignment"],
                                "observed": s["notes"]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": total("paths"),
            "transitions": total("branches"),
            "traces_validated_against_impl": total("validated"),
            "samples": samples,
            "explanation": "states = symbolic paths of the real code explored "
            "to the end (each stands for every input satisfying its path "
            "condition); transitions = symbolic decisions put to the solver; "
            "traces_validated_against_impl = sampled paths whose model was "
            "run on the unmodified code with identical observations.",
            "harnesses": hs,
            "queries": total("queries"),
            "solver_s": round(total("solver_s"), 3),
            "assertions": total("checks"),
            "assertions_decided_by_solver": total("solver_checks"),
            "paths_cut_by_assumptions": total("aborted"),
            "modules_encoded": sorted({f for r in ok for f in r["files"]}),
            "jobs": len(results),
            "inconclusive": incon,
            "errors": [e[:500] for e in errors],
            "exhaustive": not incon and not errors,
        },
        "assumptions": [
            "everything outside the stated bounds of the harnesses is outside "
            "the claim",
            "clock, threads, locks, randomness, sockets, hashes and ciphers "
            "are the stubs of sx/env.py (arbitrary values within the "
            "documented contract)",
        ],
        "violations": len(violations),
        "wall_s": round(wall, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
