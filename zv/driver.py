"""Runs the check of one property: proof tasks in worker processes, the battery on the real code, replay
of refuting models, verdict and evidence."""
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback
import fcntl
import harness

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"

sys.setrecursionlimit(200000)


class Task:
    """fn(prog, deadline) -> {"records": [...], "used": {...}, "queries": n, "solver_s": s, ...}"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


class Battery:
    """A bounded check on the real code. fn(seed, tier) -> {"cases": n, "bound": text, "failures": [...],
    "notes": [...]}; a failure is {"what", "input", "expected", "actual"}."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


def bat_fn(b, seed, tier):
    """Batteries build with cargo in one shared target directory, one after another."""
    def run(prog, deadline):
        d = os.path.join(ROOT, ".build")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "lock"), "w") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            r = b.fn(seed, tier)
            if harness.profile_dependent():
                try:
                    with harness.Profile():
                        r2 = b.fn(seed, tier)
                except Exception as e:
                    return dict(r, notes=list(r.get("notes", [])) + ["without debug assertions: %s" % str(e)[:300]])
                r = dict(r, cases=r.get("cases", 0) + r2.get("cases", 0),
                         bound=r.get("bound", "") + "; once more built without debug assertions",
                         failures=list(r.get("failures", [])) + [dict(x, profile="without debug assertions")
                                                                 for x in r2.get("failures", [])])
            return r
    return run


class Check:
    def __init__(self, pid, tasks, batteries, confirm=None, assumptions=(), backend="", level_note="", findings=None):
        self.pid = pid
        self.tasks = tasks
        self.batteries = batteries
        self.confirm = confirm
        self.assumptions = list(assumptions)
        self.backend = backend


def worker(task, prog, budget, conn):
    try:
        import threading
        threading.stack_size(512 * 1024 * 1024)
        box = {}

        def run():
            try:
                box["r"] = task.fn(prog, time.time() + budget)
            except BaseException as e:
                box["r"] = {"records": [], "error": "%s: %s" % (type(e).__name__, str(e)[:500]),
                            "trace": traceback.format_exc(limit=-6)[-1500:]}
        t = threading.Thread(target=run)
        t.start()
        t.join()
        r = box["r"]
    except BaseException as e:
        r = {"records": [], "error": repr(e)}
    try:
        conn.send(json.dumps(r, default=str))
    except BaseException as e:
        conn.send(json.dumps({"records": [], "error": "result: %r" % e}))
    conn.close()
    os._exit(0)


def run_tasks(tasks, prog, budget, nproc, bat_budget=0):
    """{task name: result}"""
    ctx = mp.get_context("fork")
    todo = list(tasks)
    live = []
    out = {}
    t_end = time.time() + budget
    t_bat = time.time() + max(budget, bat_budget)
    while todo or live:
        while todo and len(live) < nproc:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            left = max(10.0, t_end - time.time())
            p = ctx.Process(target=worker, args=(t, prog, left - 5, b))
            p.start()
            b.close()
            live.append((t, p, a, time.time()))
        time.sleep(0.05)
        now = time.time()
        nxt = []
        for t, p, a, t0 in live:
            if a.poll():
                try:
                    out[t.name] = json.loads(a.recv())
                except EOFError:
                    out[t.name] = {"records": [], "error": "the prover process died"}
                p.join()
            elif not p.is_alive():
                out[t.name] = {"records": [], "error": "the prover process died (exit %s)" % p.exitcode}
            elif now > (t_bat if t.name.startswith("battery ") else t_end):
                p.kill()
                p.join()
                out[t.name] = {"records": [], "error": "out of time"}
            else:
                nxt.append((t, p, a, t0))
        live = nxt
    return out


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line.split(" ", 2)[2])
    return out


def main(check, tier, seed):
    t0 = time.time()
    sys.path.insert(0, HERE)
    budget = 420 if tier == "quick" else 780
    pid = check.pid
    load_err = None
    prog = None
    try:
        import program
        prog = program.Program(REPO)
    except Exception as e:
        load_err = "the sources could not be read: %r" % e
    bat_tasks = [Task("battery " + b.name, bat_fn(b, seed, tier)) for b in check.batteries]
    results = run_tasks(bat_tasks + (check.tasks if prog is not None else []), prog, budget, 7 + len(bat_tasks), 840)
    bats = []
    for b, t in zip(check.batteries, bat_tasks):
        r = dict(results[t.name])
        r.pop("records", None)
        r.setdefault("failures", [])
        r.setdefault("cases", 0)
        bats.append((b.name, r))
    # ---- obligations
    obligations, models, refuted, undecided = [], [], [], []
    used, queries, solver, paths = {}, 0, 0.0, 0
    for t in check.tasks:
        r = results.get(t.name) or {"records": [], "error": load_err or "not run"}
        for k, v in (r.get("used") or {}).items():
            used[k] = used.get(k, 0) + (v if isinstance(v, int) else 1)
        queries += r.get("queries", 0)
        solver += r.get("solver_s", 0.0)
        paths += r.get("paths", 0)
        if r.get("error"):
            obligations.append({"name": t.name, "status": "undecided", "detail": [r["error"]]})
            undecided.append(obligations[-1])
            if os.environ.get("ZV_TRACE"):
                print(t.name, r["error"], r.get("trace"), file=sys.stderr)
        for x in r["records"]:
            o = {"name": x["name"], "status": x["status"], "vcs": x.get("vcs", 0), "detail": x.get("detail", [])}
            obligations.append(o)
            if x["status"] == "refuted":
                refuted.append(x)
            elif x["status"] != "proved":
                undecided.append(o)
    # ---- failing inputs
    failures = []
    for name, r in bats:
        for f in r.get("failures", []):
            failures.append(dict(f, found_by="battery " + name))
    replay_log = []
    if refuted and check.confirm and not failures:
        try:
            for f in check.confirm(refuted, replay_log):
                failures.append(dict(f, found_by="model of the failed obligation, replayed on the real code"))
        except Exception as e:
            replay_log.append("replay failed: %r" % e)
    known = known_findings(pid)
    fresh = []
    shown = set()
    for f in failures:
        k = [x for x in known if x in f.get("what", "")]
        if k:
            shown.update(k)
        else:
            fresh.append(f)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    proved = [o for o in obligations if o["status"] == "proved"]
    if proved and len(proved) == len(obligations):
        level_now = "all obligations discharged"
    else:
        level_now = "%d of %d obligations discharged; the rest rest on the bounded battery" % (len(proved), len(obligations))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obligations), "discharged": len(proved),
            "obligation_list": obligations,
            "verification_conditions": sum(o.get("vcs", 0) for o in obligations),
            "paths": paths,
            "solver": "z3 (python bindings), rlimit bounded", "solver_queries": queries, "solver_s": round(solver, 2),
            "functions_under_contract": sorted(k for k in used),
            "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (pid, tier),
            "trusted_base": ["zv (parser and symbolic executor of /verif/zv)", "z3"] + check.assumptions,
            "summary": level_now,
            "bounded": [dict({k: v for k, v in r.items() if k != "failures"}, name=n,
                             failures=len(r.get("failures", []))) for n, r in bats],
            "known_findings": known,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    if not check.tasks:
        n = sum(r.get("cases", 0) for _, r in bats)
        ev["level"] = "exploration"
        ev["coverage"] = {"evaluations": n, "distinct_nontrivial": n,
                          "rule": "comparisons made by the bounded battery; " + "; ".join(r.get("bound", "") for _, r in bats),
                          "samples": [x for _, r in bats for x in r.get("samples", [])][:5] or ["none"],
                          "bounded": ev["coverage"]["bounded"]}
        level_now = "bounded battery only"
    if load_err:
        ev["coverage"]["error"] = load_err
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s: %s; %s; %.0f s" % (pid, level_now, ", ".join(
        "%s: %s cases%s" % (n, r.get("cases"), " ERROR " + r["error"][:300] if r.get("error") else "") for n, r in bats),
        time.time() - t0))
    for o in undecided:
        print("  not discharged: %s: %s" % (o["name"], "; ".join(o["detail"])[:400]))
    if fresh or refuted:
        rd = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + ".json")
        with open(path, "w") as f:
            json.dump({"property": pid, "failing_inputs": fresh[:20], "failed_obligations": refuted[:10],
                       "replay_log": replay_log[:20],
                       "rerun": "python3-vt /verif/check.py %s --tier %s" % (pid, tier)}, f, indent=1, default=str)
            f.write("\n")
        if fresh:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if not known:
            print("  failed obligation: %s: %s" % (refuted[0]["name"], "; ".join(refuted[0]["detail"])[:400]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
            return 1
    elif (undecided or load_err) and bats and not any(r.get("cases") for _, r in bats):
        # what the undischarged obligations would rest on did not run: no answer
        print("%s: no answer: nothing stands in for the obligations which are not discharged" % pid)
        return 2
    return 0
