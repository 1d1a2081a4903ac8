"""Shared engine: bounded-exhaustive exploration of the real library code.

A check module defines
    PROPERTY, LEVEL, BOUNDS (text), ASSUMPTIONS (list)
    cases(tier)      -> list of JSON-able case descriptions, simplest first
    run_case(case,R) -> explores one case on the real code, recording into R

R (Recorder):
    R.state(key)   a canonical state / configuration was reached
    R.step(n)      n transitions (calls of the code under test) were executed
    R.trace(n)     n complete executions were compared with the oracle
    R.outcome(key) an observed outcome (to show the exploration is not vacuous)
    R.fail(key,msg) the property does not hold; key identifies the failure
The runner enumerates *all* cases (never samples).  The seed is reported only.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VK_OUT", VERIF)
REPO = os.environ.get("LEGUME_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")
CASE_TIMEOUT = 400


class CaseTimeout(BaseException):
    pass


class Recorder:
    def __init__(self):
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.outcomes = set()
        self.fails = []
        self.notes = {}

    def state(self, key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        if len(self.outcomes) < 100000:
            self.outcomes.add(
                hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def fail(self, key, msg):
        self.fails.append((str(key), str(msg)))

    def check(self, cond, key, msg=""):
        if not cond:
            self.fail(key, msg)
        return bool(cond)


def _alarm(signum, frame):
    raise CaseTimeout()


def _setup_process():
    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all="ignore")
    if os.environ.get("VK_COV"):
        _coverage(os.environ["VK_COV"])


def _coverage(folder):
    """Record which source lines of the library run (tools/cov.py)."""
    mon, tool = sys.monitoring, sys.monitoring.COVERAGE_ID
    if mon.get_tool(tool):
        return
    os.makedirs(folder, exist_ok=True)
    root = os.path.join(os.path.realpath(REPO), "legume") + os.sep

    def line(code, n):
        f = os.path.realpath(code.co_filename)
        if f.startswith(root):
            with open(os.path.join(folder, str(os.getpid())), "a") as o:
                o.write("%s %d\n" % (f[len(root):], n))
        return mon.DISABLE
    mon.use_tool_id(tool, "vk")
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)


def _run_one(job):
    modname, idx, case = job
    mod = importlib.import_module(modname)
    R = Recorder()
    t0 = time.time()
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    out = sys.stdout
    if not os.environ.get("VK_VERBOSE"):
        sys.stdout = open(os.devnull, "w")
    try:
        import legume
        legume.set_backend("numpy")
        mod.run_case(case, R)
    except CaseTimeout:
        R.fail("timeout", "the case did not finish in %d s" % CASE_TIMEOUT)
    except Exception as e:
        R.fail("exception:" + type(e).__name__,
               "unexpected exception on a valid input: %s\n%s" %
               (e, traceback.format_exc(limit=-8)))
    finally:
        signal.alarm(0)
        sys.stdout = out
    return (idx, R.states, R.steps, R.traces, R.outcomes, R.fails, R.notes,
            time.time() - t0)


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=<id> key=<key> :: <what fails>
                body, what = line[len("finding: "):].split(" :: ", 1)
                prop, key = body.split(" ", 1)
                out[(prop.split("=", 1)[1], key.split("=", 1)[1])] = what
    return out


def main(modname):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int,
                    default=int(os.environ.get("VERIF_JOBS", "0")) or
                    (os.cpu_count() or 2))
    ap.add_argument("--only", type=int, default=None)
    ap.add_argument("--slow", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    _setup_process()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    import legume
    if os.path.realpath(os.path.dirname(os.path.dirname(
            legume.__file__))) != os.path.realpath(REPO):
        print("harness error: legume imported from", legume.__file__)
        return 2

    if a.replay:
        rep = json.load(open(a.replay))
        res = _run_one((modname, 0, rep["case"]))
        for k, m in res[5]:
            print("FAIL", k, m)
        print("replay:", "violated" if res[5] else "holds")
        return 1 if res[5] else 0

    t0 = time.time()
    cases = list(mod.cases(a.tier))
    if a.only is not None:
        cases = [cases[a.only]]
    budget = getattr(mod, "BUDGET", {}).get(a.tier,
                                            780 if a.tier == "quick" else 10**9)
    jobs = [(modname, i, c) for i, c in enumerate(cases)]
    states, outcomes, steps, traces = set(), set(), 0, 0
    fails, notes, done, times = [], {}, 0, []
    capped = False

    def absorb(res):
        nonlocal steps, traces, done
        idx, st, sp, tr, oc, fl, nt, dt = res
        states.update(st)
        outcomes.update(oc)
        steps += sp
        traces += tr
        done += 1
        times.append((dt, idx))
        for k, m in fl:
            fails.append((idx, k, m))
        for k, v in nt.items():
            notes[k] = notes.get(k, 0) + v

    if a.jobs <= 1 or len(jobs) == 1:
        for j in jobs:
            absorb(_run_one(j))
    else:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(min(a.jobs, len(jobs)), initializer=_setup_process)
        try:
            it = pool.imap_unordered(_run_one, jobs, chunksize=1)
            while True:
                try:
                    # (a worker that dies takes its result with it)
                    res = it.next(timeout=max(1, t0 + budget - time.time()))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    capped = True
                    break
                absorb(res)
                if fails and os.environ.get("VK_STOP"):
                    capped = True
                    break
                if time.time() - t0 > budget:
                    capped = done < len(jobs)
                    break
        finally:
            pool.terminate()
            pool.join()

    if a.slow:
        for dt, i in sorted(times, reverse=True)[:15]:
            print("%.2fs case %d %s" % (dt, i, json.dumps(cases[i])[:200]))

    known = load_known()
    fails.sort()
    hit, viol = {}, []
    for idx, k, m in fails:
        if (prop, k) in known:
            hit.setdefault(k, []).append(idx)
        else:
            viol.append((idx, k, m))
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, k)]))
    rc = 0
    if viol:
        rc = 1
        rdir = os.path.join(OUT, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for idx, k, m in viol:
            if k in seen or len(seen) >= 10:
                continue
            seen.add(k)
            path = os.path.join(rdir, "%s-%s.json" % (
                prop, hashlib.sha1((k + repr(cases[idx])).encode())
                .hexdigest()[:10]))
            json.dump({"property": prop, "module": modname,
                       "case": cases[idx], "key": k, "message": m,
                       "replay_cmd": "/verif/run.sh %s --replay %s" %
                       (prop, path)}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key=%s\n  case=%s\n  %s" % (k, json.dumps(cases[idx])[:600],
                                              m[:2000]))
        print("%d violating observations in total" % len(viol))

    samp_i = sorted(set([0, len(cases) // 2, len(cases) - 1]))
    cov = {
        "states": len(states),
        "transitions": steps,
        "traces_validated_against_impl": traces,
        "samples": [cases[i] for i in samp_i],
        "exhaustive": not capped and a.only is None,
        "cases_total": len(cases),
        "cases_done": done,
        "distinct_outcomes": len(outcomes),
        "bounds": mod.BOUNDS[a.tier] if isinstance(mod.BOUNDS, dict)
        else mod.BOUNDS,
        "known_findings_hit": sorted(hit),
    }
    if notes:
        cov["counters"] = notes
    if mod.LEVEL == "exploration":
        cov["evaluations"] = traces
        cov["distinct_nontrivial"] = len(outcomes)
        cov["rule"] = mod.RULE
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough")
        else "quick",
        "seed": seed, "level": mod.LEVEL, "coverage": cov,
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s tier=%s cases=%d/%d states=%d transitions=%d traces=%d "
          "outcomes=%d violations=%d known=%d wall=%.1fs%s" %
          (prop, a.tier, done, len(cases), len(states), steps, traces,
           len(outcomes), len(viol), len(hit), time.time() - t0,
           " CAPPED" if capped else ""))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv.pop(1)))
