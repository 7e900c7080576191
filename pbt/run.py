"""Runs the check of one property: searches every clause with Hypothesis, shrinks any
failure to a replay file, writes the evidence file."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback

from . import core
from .core import Violation, Runaway, HarnessError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PHASE_SHRINK_S = 60
MEMORY_LIMIT, MEMORY_HARD = 3 << 30, 7 << 29
GRACE_S = 45


# ---- runaway detection ----------------------------------------------------------------
# A case that has used a lot of CPU time is not judged by the clock: the clock only starts
# counting the calls and backward jumps the repository's code still executes. Only that
# count, far beyond any terminating case on the unchanged tree, decides.
CPU_START_S = float(os.environ.get("VERIF_CPU_START", "20"))
WORK_LIMIT = 20_000_000
_TOOL = 4


class Stop(BaseException):
    """A violation that must not be repeated (it exhausts time or memory): no shrinking."""


class Watch:
    def __init__(self):
        self.count = 0
        self.on = False
        signal.signal(signal.SIGVTALRM, self._fire)

    def _fire(self, *_):
        if self.on:
            return
        self.on = True
        self.count = 0
        m = sys.monitoring
        try:
            m.use_tool_id(_TOOL, "runaway")
        except ValueError:
            return
        repo = os.path.realpath(core.REPO) + os.sep
        ok = {}

        def bump(code, *_a):
            hit = ok.get(code)
            if hit is None:
                hit = ok[code] = os.path.realpath(code.co_filename).startswith(repo)
            if not hit:
                return m.DISABLE
            self.count += 1
            if self.count > WORK_LIMIT:
                self.stop()
                raise Runaway("does not terminate: the code executed more than %d further calls and jumps "
                              "after %g s of CPU time on one case" % (WORK_LIMIT, CPU_START_S))

        m.register_callback(_TOOL, m.events.PY_START, bump)
        m.register_callback(_TOOL, m.events.JUMP, bump)
        m.set_events(_TOOL, m.events.PY_START | m.events.JUMP)

    def start(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_START_S)

    def stop(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if self.on:
            m = sys.monitoring
            m.set_events(_TOOL, 0)
            m.free_tool_id(_TOOL)
            self.on = False


MALFORMED = (TypeError, ValueError, IndexError, KeyError, AttributeError)


def execute(clause, case, watch=None):
    """Run one case. Returns its labels, raises Violation or HarnessError."""
    if watch:
        watch.start()
    try:
        labels = clause.check(core.roundtrip(case))
    except Runaway as e:
        raise Stop(str(e)) from None
    except Violation:
        raise
    except MemoryError as e:
        if not core.innermost_is_repo(e):
            raise
        e.__traceback__ = None
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_HARD, MEMORY_HARD))
        raise Stop("MemoryError: the code under test uses more than %d MB" % (MEMORY_LIMIT >> 20)) from None
    except RecursionError as e:
        raise Violation("RecursionError: the code under test recurses without end") from e
    except Exception as e:
        if core.innermost_is_repo(e):
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("raised %s: %s (at %s:%s)" % (type(e).__name__, e, os.path.relpath(tb.filename, core.REPO), tb.name)) from e
        if isinstance(e, MALFORMED) and core.innermost_is_check(e):
            # the check's own lines trip over what they were given: not of the kind the statement promises
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("answers with something else than it should: %s: %s (while judging %s)" % (type(e).__name__, e, (tb.line or "")[:120])) from e
        raise
    finally:
        if watch:
            watch.stop()
    if labels is None:
        return []
    if isinstance(labels, str):
        return [labels]
    return sorted(set(labels))


def derive_seed(*parts):
    return int.from_bytes(hashlib.blake2b(":".join(map(str, parts)).encode(), digest_size=6).digest(), "big")


def load(pid):
    core.import_repo()
    return importlib.import_module("pbt.props." + pid.lower()).CLAUSES


def known_findings(pid, clause):
    path = os.path.join(HERE, "known_findings.json")
    try:
        entries = json.load(open(path))["findings"]
    except FileNotFoundError:
        return []
    return [e for e in entries if e.get("status") == "open" and e["property"] == pid and e.get("clause") == clause]


def worker(job):
    """Search one clause with one seed. Returns a result dict."""
    pid, cname, tier, seed, shard, n = job
    t0 = time.time()
    out = dict(clause=cname, shard=shard, evaluations=0, nontrivial=[], labels={}, samples=[],
               violation=None, error=None, known=[])
    try:
        if mp.parent_process() is not None:
            # code that fills the memory gets a MemoryError instead of taking the machine down
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_HARD))
        clause = next(c for c in load(pid) if c.name == cname)
        known = {core.canon(e["case"]): e for e in known_findings(pid, cname)}
        import hypothesis
        from hypothesis import settings, given, HealthCheck, Phase, Verbosity
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = PHASE_SHRINK_S
        watch = Watch()
        seen = set()
        state = dict(last=None, first=None)

        def one(case):
            key = core.canon(case)
            out["evaluations"] += 1
            try:
                labels = execute(clause, case, watch)
            except Stop as v:
                if key in known:
                    if key not in out["known"]:
                        out["known"].append(key)
                    return
                state["stop"] = (case, str(v))
                raise
            except Violation as v:
                if key in known:
                    if key not in out["known"]:
                        out["known"].append(key)
                    return
                state["last"] = (case, str(v))
                if state["first"] is None:
                    state["first"] = (case, str(v))
                raise
            for l in labels:
                out["labels"][l] = out["labels"].get(l, 0) + 1
            if any(l.startswith("*") for l in labels):
                d = core.digest(case)
                if d not in seen:
                    seen.add(d)
                    k = len(seen)
                    if len(key) < 1500 and (k in (1, 10, 100) or (k % 997 == 0 and len(out["samples"]) < 4)):
                        out["samples"].append(dict(clause=cname, case=case, labels=labels))

        def violated(case, msg, mode="case"):
            out["violation"] = dict(property=pid, clause=cname, mode=mode, case=case, message=msg,
                                    tier=tier, seed=seed, shard=shard, n=n)

        # known findings and fixed corner cases first (they bypass the library)
        if shard == 0:
            for e in known.values():
                try:
                    one(e["case"])
                except Violation:
                    pass
            for case in clause.examples:
                try:
                    one(case)
                except (Violation, Stop) as v:
                    violated(case, str(v))
                    break
        if not out["violation"]:
            test = given(clause.strategy)(one)
            test = hypothesis.seed(derive_seed(seed, pid, cname, shard))(test)
            test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                            report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet,
                            phases=(Phase.generate, Phase.shrink),
                            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                   HealthCheck.large_base_example])(test)
            try:
                test()
            except Stop:
                violated(*state["stop"])
            except Violation:
                violated(*state["last"])
            except hypothesis.errors.Flaky:
                # the code under test answered the same case differently: its result depends on
                # what ran before. The whole deterministic run is the replay.
                violated(state["first"][0], state["first"][1] + " [depends on earlier calls: the same case passed when repeated]", "rerun")
            except BaseExceptionGroup as g:
                if state["last"] and all(isinstance(x, (Violation, hypothesis.errors.Flaky)) for x in g.exceptions):
                    violated(*state["last"])
                else:
                    raise
        out["nontrivial"] = len(seen)
    except BaseException as e:  # reported as an error of the check, never as a violation
        out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
        out["nontrivial"] = out["nontrivial"] if isinstance(out["nontrivial"], int) else 0
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def _child(conn, job):
    conn.send(worker(job))
    conn.close()


def run_jobs(jobs, procs):
    """Run the jobs in processes of their own. When one has found a violation the others get some
    time to finish and are then stopped; a process that dies is an error of the check."""
    ctx = mp.get_context("fork")
    todo, running, stop_at = list(jobs), {}, None
    while todo or running:
        while todo and len(running) < procs and stop_at is None:
            job = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, job))
            p.start()
            w.close()
            running[r] = (p, job)
        if not running:
            break
        left = None if stop_at is None else max(0, stop_at - time.time())
        ready = mp.connection.wait(list(running), left)
        if not ready:
            for p, _ in running.values():
                p.kill()
                p.join()
            break
        for r in ready:
            p, job = running.pop(r)
            try:
                res = r.recv()
            except (EOFError, OSError):
                res = dict(clause=job[1], shard=job[4], evaluations=0, nontrivial=0, labels={}, samples=[], violation=None, known=[], wall_s=0,
                           error="the worker process of shard %d died" % job[4])
            r.close()
            p.join()
            if res["violation"] and stop_at is None:
                stop_at = time.time() + GRACE_S
            yield res


def save_replay(v):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s-%s.json" % (v["property"], v["clause"], hashlib.blake2b(core.canon(v["case"]).encode(), digest_size=4).hexdigest())
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
        f.write("\n")
    return os.path.relpath(path, HERE)


def replay(path):
    v = json.load(open(path))
    if v.get("mode") == "rerun":
        r = worker((v["property"], v["clause"], v["tier"], v["seed"], v["shard"], v["n"]))
        if r["error"]:
            print(r["error"])
            return 2
        bad = r["violation"]
        msg = bad and bad["message"]
    else:
        clause = next(c for c in load(v["property"]) if c.name == v["clause"])
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_HARD))
        try:
            execute(clause, v["case"], Watch())
            msg = None
        except (Violation, Stop) as e:
            msg = str(e)
    if msg:
        print("clause %s: %s" % (v["clause"], msg))
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    print("case passes")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--clause")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    pid, tier = a.pid.upper(), a.tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = derive_seed(os.environ["VERIF_SEED"])
    t0 = time.time()
    try:
        clauses = load(pid)
    except BaseException:
        traceback.print_exc()
        return 2
    jobs = []
    for c in clauses:
        if a.clause and c.name != a.clause:
            continue
        total = int((c.quick if tier == "quick" else c.thorough) * a.scale)
        shards = c.shards if tier == "quick" else max(c.shards, min(16, total // 2000 + 1))
        for s in range(shards):
            jobs.append((pid, c.name, tier, seed, s, max(1, total // shards)))
    procs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    results = []
    for r in run_jobs(jobs, min(procs, len(jobs))):
        results.append(r)
        if a.v:
            print(r["clause"], r["shard"], r["evaluations"], r["nontrivial"], r["wall_s"], r["labels"], "VIOLATION " + r["violation"]["message"] if r["violation"] else "", "ERROR" if r["error"] else "", flush=True)
    results.sort(key=lambda r: (r["clause"], r["shard"]))
    per, samples, violations, errors, known = {}, [], [], [], []
    for r in results:
        p = per.setdefault(r["clause"], dict(evaluations=0, distinct_nontrivial=0, labels={}))
        p["evaluations"] += r["evaluations"]
        p["distinct_nontrivial"] += r["nontrivial"]
        for k, n in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + n
        if r["shard"] == 0:
            samples += r["samples"][:2]
        if r["violation"]:
            violations.append(r["violation"])
        if r["error"]:
            errors.append((r["clause"], r["error"]))
        known += [(r["clause"], k) for k in r["known"]]
    for c in clauses:
        if c.name in per:
            per[c.name]["rule"] = c.rule
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="exploration",
              coverage=dict(evaluations=sum(p["evaluations"] for p in per.values()),
                            distinct_nontrivial=sum(p["distinct_nontrivial"] for p in per.values()),
                            rule="Cases are drawn by Hypothesis from the per-clause strategy; a case is non-trivial when its check "
                                 "attached a label starting with '*' (see each clause's rule); distinct by hash of the case within each shard.",
                            samples=samples[:24], clauses=per),
              assumptions=["PathLib is imported from %s as it is" % core.REPO],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for cname, key in known:
        e = next(e for e in known_findings(pid, cname) if core.canon(e["case"]) == key)
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    seen = set()
    for v in violations:
        if v["clause"] in seen:
            continue
        seen.add(v["clause"])
        print("clause %s: %s\n  case: %s" % (v["clause"], v["message"], core.canon(v["case"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, save_replay(v)))
    for cname, e in errors:
        print("ERROR in clause %s:\n%s" % (cname, e), file=sys.stderr)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %d errors, %.1f s" %
          (pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], len(seen), len(errors), time.time() - t0))
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
