"""Exploration engine: enumerate the cases (executions) of a property exhaustively,
run each of them on the real code, compare every step with the reference model.

    python -m mc.run C05 [--tier quick|thorough] [--replay FILE]

The parent starts worker processes, each of which walks a fixed slice of the case list
(no sampling; the seed only rotates the order).  A worker writes what it covered to a
JSON file, the parent merges them, writes the evidence file and prints the verdict.
Any exception, crash or hang while a case runs is a violation of the property by the
code under test: on the unchanged tree no case raises.
"""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
MAXVIOL = 3  # per worker
DEADLINE = {"quick": 780, "thorough": 6 * 3600}
CASE_LIMIT = {"quick": 240, "thorough": 1800}


class Violation(Exception):
    "The property does not hold for the case at hand."


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def h64(*key):
    return hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest()


class Ctx:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.quick = tier == "quick"
        self._states = set()
        self._blocks = {}
        self.transitions = 0
        self.traces = 0
        self._outcomes = set()
        self.samples = []
        self.extra = {}
        self.caps = []

    # --- coverage ------------------------------------------------------------------
    def state(self, *key):
        self._states.add(h64(*key))

    def states(self, n, *key):
        "n pairwise distinct states, named by key"
        self._blocks[h64(*key)] = int(n)

    def step(self, n=1):
        "n calls into the code under test"
        self.transitions += int(n)

    def trace(self, n=1):
        "n executions compared step by step with the reference model"
        self.traces += int(n)

    def outcome(self, arr):
        import numpy as np

        a = np.asarray(arr, dtype=float)
        self._outcomes.add(
            hashlib.blake2b(np.round(a, 9).tobytes(), digest_size=6).hexdigest()
        )

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def maximum(self, name, v):
        v = float(v)
        self.extra["max_" + name] = max(self.extra.get("max_" + name, 0.0), v)

    def cap(self, text):
        if text not in self.caps:
            self.caps.append(text)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def dump(self):
        return dict(
            states=sorted(self._states),
            blocks=self._blocks,
            transitions=self.transitions,
            traces=self.traces,
            outcomes=sorted(self._outcomes)[:200000],
            samples=self.samples,
            extra=self.extra,
            caps=self.caps,
        )


def setup_process():
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")


def import_library():
    import hyperelastic

    path = os.path.realpath(hyperelastic.__file__)
    want = os.path.realpath(os.path.join(REPO, "src", "hyperelastic"))
    require(path.startswith(want + os.sep), f"imported {path} instead of {want}")
    return hyperelastic


def load_property(pid):
    return importlib.import_module("mc.props." + pid.lower())


def worker(pid, tier, seed, shard, nshards, out, only=None):
    setup_process()
    ctx = Ctx(tier, seed)
    viol = []
    t0 = time.time()
    ncases = done = 0
    cur = out + ".case"
    nhung = out + ".hung"

    def record(case, msg):
        viol.append(dict(case=case, message=msg))

    def finish():
        res = ctx.dump()
        res.update(viol=viol, ncases=ncases, done=done, wall=time.time() - t0)
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(out + ".tmp", out)

    try:
        import_library()
        mod = load_property(pid)
        if only is not None:
            cases = [only]
        else:
            cases = list(mod.cases(ctx))
            ctx.extra["case_space"] = len(cases)
            mine = cases[shard::nshards]
            k = seed % max(len(mine), 1)
            cases = mine[k:] + mine[:k]
    except Exception:
        record(None, "the library could not be loaded: " + traceback.format_exc()[-1500:])
        finish()
        return
    ncases = len(cases)
    deadline = t0 + DEADLINE[tier] - 60
    for case in cases:
        if time.time() > deadline:
            ctx.cap(f"time limit: {done} of {ncases} cases of shard {shard} explored")
            break
        with open(cur, "w") as f:
            json.dump(case, f)
        try:
            mod.run(case, ctx)
        except Violation as e:
            record(case, str(e))
        except Exception as e:  # raised by the code under test
            tb = traceback.format_exc()
            record(case, f"unexpected {type(e).__name__}: {e}\n{tb[-1500:]}")
        done += 1
        if len(viol) >= MAXVIOL:
            break
    finish()


def spawn(pid, tier, seed, shard, n, out, only=None):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPYCACHEPREFIX=os.path.join(os.path.dirname(out), "pyc"),
        PYTHONNOUSERSITE="1",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(os.path.dirname(out), "mpl"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
    )
    cmd = [PY, "-c", "import sys; sys.path.insert(0, %r); from mc.core import worker_main; worker_main()" % VERIF,
           pid, tier, str(seed), str(shard), str(n), out]
    if only is not None:
        cmd.append(json.dumps(only))
    log = open(out + ".log", "w")
    return subprocess.Popen(cmd, cwd=os.path.dirname(out), env=env, stdout=log, stderr=log,
                            start_new_session=True)


def worker_main():
    pid, tier, seed, shard, n, out = sys.argv[1:7]
    only = json.loads(sys.argv[7]) if len(sys.argv) > 7 else None
    worker(pid, tier, int(seed), int(shard), int(n), out, only)
    # do not wait for threads the code under test may have left behind
    sys.stdout.flush()
    os._exit(0)


def known_findings(pid):
    path = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=" + pid + " "):
                # finding: property=<id> key=<json of the case> :: <what fails>
                body, _, what = line.partition(" :: ")
                key = body.split(" key=", 1)[1]
                res.append((key, what))
    return res


def main(argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    pid, tier = a.property.upper(), a.tier
    if tier not in DEADLINE:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    only = None
    if a.replay:
        only = json.load(open(a.replay))["case"]
    n = 1 if only is not None else NWORKERS
    viol, results = [], []
    with tempfile.TemporaryDirectory(prefix="mc-") as tmp:
        procs = []
        for s in range(n):
            out = os.path.join(tmp, f"w{s}.json")
            procs.append((s, out, spawn(pid, tier, seed, s, n, out, only)))
        pending = list(procs)
        watch = {}
        while pending:
            time.sleep(0.05)
            for item in list(pending):
                s, out, p = item
                rc = p.poll()
                now = time.time()
                if rc is None:
                    try:
                        m = os.stat(out + ".case").st_mtime
                    except OSError:
                        m = t0
                    hung = now - m > CASE_LIMIT[tier] or now - t0 > DEADLINE[tier]
                    if not hung:
                        continue
                    os.killpg(p.pid, 9)
                    p.wait()
                    rc = "no answer within the time limit of a case"
                pending.remove(item)
                if os.path.exists(out) and rc == 0:
                    r = json.load(open(out))
                    results.append(r)
                    viol += r["viol"]
                else:
                    case = None
                    if os.path.exists(out + ".case"):
                        try:
                            case = json.load(open(out + ".case"))
                        except ValueError:
                            pass
                    tail = open(out + ".log").read()[-1500:]
                    viol.append(dict(case=case, message=f"worker ended without result ({rc}): {tail}"))
    known, fresh = [], []
    kf = known_findings(pid)
    for v in viol:
        key = json.dumps(v["case"], sort_keys=True)
        hit = [w for k, w in kf if k == key]
        (known if hit else fresh).append((v, hit[0] if hit else None))
    if only is None:
        write_evidence(pid, tier, seed, results, len(fresh), time.time() - t0)
    for v, what in known:
        print(f"KNOWN-FINDING: property={pid} {what}")
    if fresh:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for k, (v, _) in enumerate(fresh[:5]):
            path = a.replay or os.path.join(rdir, f"{pid}-{k}.json")
            if not a.replay:
                with open(path, "w") as f:
                    json.dump(dict(property=pid, tier=tier, **v, rerun=f"python3 -m mc.run {pid} --tier {tier} --replay {path}"), f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print("  case:", json.dumps(v["case"])[:600])
            print("  " + v["message"][:1500].replace("\n", "\n  "))
        return 1
    states = sum(len(r["states"]) for r in results)
    print(f"OK property={pid} tier={tier} cases={sum(r['done'] for r in results)} "
          f"transitions={sum(r['transitions'] for r in results)} wall={time.time()-t0:.1f}s")
    return 0


def write_evidence(pid, tier, seed, results, nviol, wall):
    mod_doc, bounds, assumptions = "", "", []
    sys.path.insert(0, VERIF)
    try:
        import ast

        tree = ast.parse(open(os.path.join(HERE, "props", pid.lower() + ".py")).read())
        mod_doc = ast.get_docstring(tree) or ""
        for node in tree.body:
            if isinstance(node, ast.Assign) and node.targets[0].id == "ASSUMPTIONS":
                assumptions = ast.literal_eval(node.value)
    except Exception:
        pass
    states, blocks, outcomes = set(), {}, set()
    extra, samples, caps = {}, [], []
    for r in results:
        states |= set(r["states"])
        blocks.update(r["blocks"])
        outcomes |= set(r["outcomes"])
        caps += r["caps"]
        for s in r["samples"]:
            if len(samples) < 6:
                samples.append(s)
        for k, v in r["extra"].items():
            if k.startswith("max_") or k == "case_space":
                extra[k] = max(extra.get(k, 0), v)
            else:
                extra[k] = extra.get(k, 0) + v
    done = sum(r["done"] for r in results)
    cov = dict(
        states=len(states) + sum(blocks.values()),
        transitions=sum(r["transitions"] for r in results),
        traces_validated_against_impl=sum(r["traces"] for r in results),
        evaluations=done,
        distinct_outcomes=len(outcomes),
        rule=mod_doc,
        samples=samples or ["(no case completed)"],
        exhaustive=not caps and nviol == 0 and done == extra.get("case_space", -1),
        caps=caps,
        **{k: v for k, v in extra.items()},
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=assumptions, wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
