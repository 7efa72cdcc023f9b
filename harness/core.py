"""Shared machinery: running the specification, collecting verdicts, evidence."""

import glob
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")


class Mismatch(Exception):
    """The implementation left the behaviours the specification allows."""

    def __init__(self, clause, **info):
        super().__init__(clause)
        self.clause = clause
        self.info = info


class Machinery(Exception):
    """Something is wrong with the machinery itself (never the implementation)."""


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout()


class watchdog:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.seconds)

    def __exit__(self, *a):
        signal.alarm(0)
        return False


def quint_run(spec, main, seed, samples, steps, invariant="inv", timeout=400):
    """Simulate a module; returns (list of traces, stdout). Raises Machinery."""
    from . import itf

    d = tempfile.mkdtemp(prefix="verif_itf_")
    try:
        cmd = [
            "quint", "run", os.path.join(SPEC, spec), "--main", main,
            f"--max-samples={samples}", f"--n-traces={samples}",
            f"--max-steps={steps}", f"--seed={seed}", "--backend=typescript",
            f"--out-itf={d}/t.itf.json", "--verbosity=1",
        ]
        if invariant:
            cmd.append(f"--invariant={invariant}")
        env = dict(os.environ)
        env["NODE_OPTIONS"] = "--max-old-space-size=2500"
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env)
        if p.returncode != 0:
            tail = (p.stdout + p.stderr)[-3000:]
            raise Machinery(f"specification run failed ({spec} {main} seed {seed}):\n{tail}")
        files = glob.glob(f"{d}/t*.itf.json")
        files.sort(key=lambda f: (len(f), f))
        return [itf.load(f) for f in files]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def jsonable(x):
    import numpy as np
    from fractions import Fraction

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


class Result:
    """What one job found."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.impl_calls = 0
        self.actions = {}
        self.covered = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.machinery = []

    def count(self, key, n=1):
        self.covered[key] = self.covered.get(key, 0) + n

    def act(self, name):
        self.actions[name] = self.actions.get(name, 0) + 1

    def merge(self, o):
        for a in ("states", "transitions", "traces", "impl_calls"):
            setattr(self, a, getattr(self, a) + getattr(o, a))
        for d in ("actions", "covered"):
            for k, v in getattr(o, d).items():
                getattr(self, d)[k] = getattr(self, d).get(k, 0) + v
        self.samples = (self.samples + o.samples)[:3]
        self.violations += o.violations
        self.known += [k for k in o.known if k not in self.known]
        self.machinery += o.machinery


def crash_info(e):
    tb = traceback.extract_tb(e.__traceback__)
    return {
        "exception": f"{type(e).__name__}: {e}",
        "where": [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-6:]],
    }


def replay_one(tr, replayer, res, meta, limit):
    """Replay one trace; the outcome goes into res."""
    try:
        with watchdog(limit):
            replayer(tr, res)
    except Mismatch as e:
        res.violations.append({"clause": e.clause, **jsonable(e.info), **meta})
    except Timeout:
        res.violations.append({"clause": "no answer from the implementation", **meta})
    except Machinery as e:
        res.machinery.append(str(e))
    except (MemoryError, OSError) as e:
        res.machinery.append(f"{meta}: " + "".join(traceback.format_exception(e))[-2500:])
    except Exception as e:  # verdicts are total: a result nothing can be done with is wrong
        res.violations.append({"clause": "result cannot be interpreted", **crash_info(e), **meta})


def replay_apart(tr, replayer, res, meta, limit):
    """The same in a child process, so that nothing has happened before the trace."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            mine = Result()
            replay_one(tr, replayer, mine, meta, limit)
            with os.fdopen(w, "wb") as f:
                pickle.dump(mine, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    status = os.waitpid(pid, 0)[1]
    try:
        res.merge(pickle.loads(data))
    except Exception:
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE):
            res.violations.append({"clause": "the implementation crashed", "signal": sig, **meta})
        else:
            res.machinery.append(f"{meta}: the replaying process ended with status {status}")


def replay_traces(traces, replayer, res, meta, limit=60, max_viol=3):
    """Replay traces with replayer(trace, res); turn outcomes into verdicts.

    Every other trace starts from a fresh process, the others follow each other
    in one process: what the implementation remembers must not matter either way.
    """
    import warnings

    warnings.simplefilter("ignore")
    for i, tr in enumerate(traces):
        res.traces += 1
        res.states += len(tr)
        res.transitions += max(len(tr) - 1, 0)
        go = replay_apart if i % 2 == 0 and len(traces) > 1 else replay_one
        go(tr, replayer, res, {**meta, "trace": i}, limit)
        if len(res.violations) >= max_viol:
            break
    if traces and len(res.samples) < 1:
        tr = traces[0]
        res.samples.append({**meta, "steps": [jsonable(s.get("op", s)) for s in tr[:3]]})
    return res


def _job(fn, args):
    res = Result()
    try:
        fn(res, **args)
    except Machinery as e:
        res.machinery.append(str(e))
    except subprocess.TimeoutExpired as e:
        res.machinery.append(f"timeout {args}: {e}")
    except Exception as e:
        res.machinery.append(f"{args}: " + "".join(traceback.format_exception(e))[-3000:])
    return res


def run_jobs(jobs, workers=8):
    total = Result()
    if len(jobs) == 1:
        total.merge(_job(*jobs[0]))
        return total
    with ProcessPoolExecutor(max_workers=min(workers, len(jobs))) as ex:
        futs = [ex.submit(_job, fn, a) for fn, a in jobs]
        for f in as_completed(futs):
            total.merge(f.result())
    return total


def known_findings(prop):
    """The texts listed for this property in known-findings.txt (fixed: excluded)."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                body = line[len("finding: "):]
                if body.startswith(f"property={prop} "):
                    out.append(body[len(f"property={prop} "):])
    return out


def finish(prop, tier, seed, total, t0, assumptions, extra=None):
    """Write evidence, print verdict lines, return the exit status."""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    listed = known_findings(prop)
    cov = {
        "states": total.states,
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "implementation_calls": total.impl_calls,
        "actions": total.actions,
        "covered": total.covered,
        "samples": total.samples or [{"note": "no traces"}],
    }
    if extra:
        cov.update(extra)
    viol = list(total.violations)
    known_lines = []
    for k in total.known:
        hit = [t for t in listed if t.split(" ", 1)[0] == k]
        if hit:
            known_lines.append(hit[0])
        else:
            viol.append({"clause": "unlisted finding", "finding": k})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for line in sorted(set(known_lines)):
        print(f"KNOWN-FINDING: property={prop} {line}")
    if viol:
        os.makedirs(WORK, exist_ok=True)
        rp = os.path.join(WORK, f"replay_{prop}.json")
        with open(rp, "w") as f:
            json.dump(viol, f, indent=1, default=repr)
        for v in viol[:5]:
            print("  " + json.dumps(v, default=repr)[:1500])
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if total.machinery:
        print("MACHINERY ERROR (no verdict):")
        for m in total.machinery[:5]:
            print(m)
        return 2
    if total.traces == 0 and not (extra or {}).get("exhaustive"):
        print("MACHINERY ERROR: nothing was replayed")
        return 2
    print(
        f"{prop}: held on {total.traces} traces, {total.transitions} transitions, "
        f"{total.impl_calls} calls of the implementation; {ev['wall_s']} s"
    )
    return 0
