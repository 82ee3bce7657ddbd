"""Runs one property's workload: python -m vmon.runner C01 [--tier ..] [--seed ..] [--replay ..]

Exit 0: held on everything observed; 1: VIOLATION; 2: harness error; 3: inconclusive.
"""
import argparse
import collections
import importlib
import json
import os
import select
import signal
import sys
import time

from . import monitor
from .hrandom import HRandom

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_S = 120          # watchdog per case: CPU seconds, far beyond any legitimate case
RUN_WALL_S = {"quick": 600, "thorough": 4 * 3600}


def check_repo(repo):
    try:
        import d42
        import d42.custom_type      # noqa: F401
        import d42.utils            # noqa: F401
    except BaseException as e:
        print("INCONCLUSIVE cannot import d42 from %s: %r" % (repo, e))
        sys.exit(3)
    f = os.path.realpath(d42.__file__)
    if f != os.path.realpath(os.path.join(repo, "d42", "__init__.py")):
        print("INCONCLUSIVE d42 imported from %s, not from %s" % (f, repo))
        sys.exit(3)


def case_list(mod, tier, limit):
    n = mod.CASES[tier] if limit is None else limit
    ids = ["d%d" % i for i in range(len(getattr(mod, "DIRECTED", ())))]
    return ids + list(range(n))


def run_case(mod, m, idx, seed):
    m.idx = idx
    rng = HRandom("%s:%s:%s" % (seed, m.pid, idx))
    if isinstance(idx, str):
        mod.DIRECTED[int(idx[1:])](m, rng)
    else:
        mod.case(m, rng, idx)


def on_alarm(signum, frame):
    raise monitor.Watchdog()


def guarded_case(mod, m, idx, seed):
    """-> None | ("violation", msg, witness) | ("harness"|"watchdog", text)"""
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        m.c["cases"] += 1
        run_case(mod, m, idx, seed)
        return None
    except monitor.Skip:
        m.c["skipped"] += 1
        return None
    except monitor.Violation as v:
        return ("violation", v.message, v.witness)
    except monitor.Watchdog:
        return ("watchdog", "case %s exceeded %ss of CPU" % (idx, CASE_CPU_S))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        where = monitor.d42_frame(e, m.repo)
        if where and isinstance(e, Exception):
            return ("violation", "unexpected %s escaped from d42 at %s: %s"
                    % (type(e).__name__, where, str(e)[:300]),
                    {"traceback": monitor.fmt_exc(e)})
        return ("harness", monitor.fmt_exc(e))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def worker(mod, m, ids, seed, fd, deadline, observe):
    lines = monitor.Lines(m.repo)
    if observe:
        lines.start()
    out = {"result": None, "timeout": False, "errors": [], "slowest": [0, None]}
    for idx in ids:
        if time.monotonic() > deadline:
            out["timeout"] = True
            break
        t0 = time.process_time()
        res = guarded_case(mod, m, idx, seed)
        spent = time.process_time() - t0
        if spent > out["slowest"][0]:
            out["slowest"] = [round(spent, 2), str(idx)]
        if res is not None:
            if res[0] == "violation":
                out["result"] = [str(idx)] + list(res)
                break
            out["errors"].append([str(idx)] + list(res))
            if len(out["errors"]) >= (2 if res[0] == "watchdog" else 20):
                break
    out["counters"] = dict(m.c)
    out["distinct"] = [h.hex() for h in m.distinct_set]
    out["samples"] = m.samples
    out["lines"] = sorted(map(list, lines.hit))
    data = json.dumps(out).encode()
    with os.fdopen(fd, "wb") as f:
        f.write(data)


def run_parallel(mod, pid, tier, seed, repo, ids, jobs):
    deadline = time.monotonic() + RUN_WALL_S[tier]
    procs = {}
    sys.stdout.flush()
    for w in range(jobs):
        mine = ids[w::jobs]
        if not mine:
            continue
        r, wfd = os.pipe()
        child = os.fork()
        if child == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                worker(mod, monitor.Monitor(pid, tier, seed, repo), mine, seed, wfd, deadline,
                       True)
            except BaseException as e:
                sys.stderr.write(monitor.fmt_exc(e))
                code = 2
            finally:
                os._exit(code)
        os.close(wfd)
        procs[r] = [child, b""]
    results, open_fds = [], set(procs)
    stopping = None
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 5)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                procs[fd][1] += chunk
                continue
            open_fds.discard(fd)
            os.close(fd)
            child, data = procs[fd]
            _, status = os.waitpid(child, 0)
            if status != 0 or not data:
                if stopping is None:
                    results.append({"result": ["?", "harness", "worker died, status %s" % status],
                                    "counters": {}, "distinct": [], "samples": [], "lines": [],
                                    "timeout": False, "errors": [], "slowest": [0, None]})
                continue
            res = json.loads(data)
            results.append(res)
            if res["result"] is not None and res["result"][1] == "violation" and not stopping:
                stopping = time.monotonic()
                for other in open_fds:
                    try:
                        os.killpg(procs[other][0], signal.SIGKILL)
                    except OSError:
                        pass
    return results


def executable_lines(repo, files):
    total = {}
    for f in files:
        path = os.path.join(repo, f)
        try:
            with open(path, encoding="utf8") as fh:
                code = compile(fh.read(), path, "exec")
        except (OSError, SyntaxError):
            continue
        lines, stack = set(), [code]
        while stack:
            co = stack.pop()
            if co is not code:         # bodies only: module level runs at import
                lines.update(ln for _, _, ln in co.co_lines() if ln and ln != co.co_firstlineno)
            stack += [x for x in co.co_consts if hasattr(x, "co_code")]
        total[os.path.relpath(path, os.path.join(repo, "d42"))] = lines
    return total


def anchors(pid):
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        for line in f:
            d = json.loads(line)
            if d["id"] == pid:
                return d["anchors"]["files"]
    return []


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return [x for x in json.load(f)["findings"] if x["property"] == pid]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run this single case index")
    ap.add_argument("--all", action="store_true", help="report every violating case")
    a = ap.parse_args()
    sys.stdout.reconfigure(errors="backslashreplace")
    pid, tier = a.pid, ("thorough" if a.tier == "thorough" else "quick")
    repo = os.environ.get("VMON_REPO", "/repo")
    t0 = time.monotonic()
    check_repo(repo)
    mod = importlib.import_module("vmon.props." + pid.lower())
    seed = a.seed
    if hasattr(mod, "setup"):
        mod.setup(tier, seed)

    if a.replay or a.only is not None:
        if a.replay:
            with open(a.replay) as f:
                rep = json.load(f)
            seed, idx = rep["seed"], rep["case"]
            tier = rep["tier"]
        else:
            idx = a.only
        idx = idx if idx.startswith("d") else int(idx)
        m = monitor.Monitor(pid, tier, seed, repo)
        res = guarded_case(mod, m, idx, seed)
        print(json.dumps(res, indent=1) if res else "case %s: held" % idx)
        if res and res[0] == "violation":
            print("VIOLATION property=%s replay=%s" % (pid, a.replay or "-"))
            sys.exit(1)
        sys.exit(0 if res is None else 3)

    ids = case_list(mod, tier, a.cases)
    if a.all:
        m = monitor.Monitor(pid, tier, seed, repo)
        bad = 0
        for idx in ids:
            res = guarded_case(mod, m, idx, seed)
            if res:
                bad += 1
                print(idx, json.dumps(res, indent=1, ensure_ascii=False)[:1800])
        print("cases", len(ids), "bad", bad, dict(m.c))
        sys.exit(1 if bad else 0)

    # known findings: a targeted probe each, reported and never part of the verdict
    known_report = []
    for kf in known_findings(pid):
        probe = getattr(mod, "KNOWN", {}).get(kf["probe"])
        if probe is None:
            continue
        try:
            still = probe()
        except Exception:       # something else is broken: the workload decides about that
            still = False
        known_report.append({"probe": kf["probe"], "still_fails": bool(still)})
        if still:
            print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))

    results = run_parallel(mod, pid, tier, seed, repo, ids, a.jobs)
    counters = collections.Counter()
    distinct, samples, lines = set(), [], set()
    violations, errors, timeouts, slowest = [], [], 0, (0, "")
    for r in results:
        counters.update(r["counters"])
        distinct.update(r["distinct"])
        samples += r["samples"]
        lines.update(map(tuple, r["lines"]))
        timeouts += bool(r["timeout"])
        errors += r["errors"]
        slowest = max(slowest, (r["slowest"][0], str(r["slowest"][1])))
        if r["result"]:
            (violations if r["result"][1] == "violation" else errors).append(r["result"])

    replay = None
    if violations:
        violations.sort(key=lambda v: (v[0].startswith("d") is False, len(v[0]), v[0]))
        v = violations[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (pid, seed, v[0]))
        with open(replay, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "case": v[0],
                       "message": v[2], "witness": v[3],
                       "how": "run.sh %s --replay %s" % (pid, replay)}, f, indent=1)

    want = executable_lines(repo, anchors(pid))
    cov = {f: [len(ls & {ln for g, ln in lines if g == f}), len(ls)] for f, ls in want.items()}
    inconclusive = []
    if not violations:
        if errors:
            inconclusive += ["%s: %s" % (e[1], e[2]) for e in errors]
        minimum = getattr(mod, "MIN", {})
        for name, n in minimum.items():
            if a.cases is None and counters[name] < n:
                inconclusive.append("monitor reached %s only %d times (needs %d)"
                                    % (name, counters[name], n))
        if counters["builds"] and counters["build_failed"] * 2 > counters["builds"]:
            inconclusive.append("most generated schemas could not be built (%d of %d)"
                                % (counters["build_failed"], counters["builds"]))
    evals = counters[getattr(mod, "EVALUATIONS", "cases")]
    wall = time.monotonic() - t0
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples[:8] or ["(none)"],
            "counters": dict(sorted(counters.items())),
            "anchor_lines_executed": cov,
            "cut_by_wall_clock": timeouts,
            "slowest_case_cpu_s": list(slowest),
            "known_findings_probed": known_report,
            "exhaustive": False,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if inconclusive:
        evidence["coverage"]["inconclusive"] = [x[:2000] for x in inconclusive]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)

    if violations:
        v = violations[0]
        print("case %s: %s" % (v[0], v[2]))
        for k, x in v[3].items():
            print("  %s: %s" % (k, x))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.exit(1)
    if inconclusive:
        for x in inconclusive[:3]:
            print("INCONCLUSIVE property=%s %s" % (pid, x[:200] + " ... " + x[-400:] if len(x) > 700 else x))
        sys.exit(2 if any(e[1] == "harness" for e in errors) else 3)
    print("held property=%s tier=%s seed=%s evaluations=%d distinct=%d cases=%d wall=%.1fs slowest=%s"
          % (pid, tier, seed, evals, len(distinct), counters["cases"], wall, slowest))


if __name__ == "__main__":
    main()
