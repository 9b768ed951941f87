"""Driver shared by all checks: enumerates every case of a check's bounded space on all cores, keeps measured
statistics, turns failures into replayable artefacts and writes the evidence file.

A check module (mc/checks/cXX.py) offers
    ID, TITLE, LEVEL, RULE, ASSUMPTIONS
    cases(tier)          -> list/iterator of JSON-able case descriptors, in a fixed order, simplest first
    run(case, rec)       -> explores that case on the real code, reporting to `rec`
    CASE_CPU (optional)  -> CPU seconds after which a case counts as non-terminating
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import io
import json
import logging
import multiprocessing as mp
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

JOBS = 8
DEADLINE = 820.0  # a check gets 900 s; reached only if the machine is far slower than the one used here
MAX_REPORT = 5


class Violation(Exception):
    def __init__(self, sig, msg, details=None):
        super().__init__(msg)
        self.sig, self.msg, self.details = sig, msg, details or {}


class CaseTimeout(BaseException):
    pass


def jsonable(o):
    import numpy as np
    import pandas as pd
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (float, np.floating)):
        f = float(o)
        return f if f == f and abs(f) != float("inf") else repr(f)
    if isinstance(o, (pd.DataFrame, pd.Series)):
        return repr(o)
    if o is None or isinstance(o, (str, int, bool)):
        return o
    return repr(o)


def key_hash(key) -> int:
    if not isinstance(key, (bytes, bytearray)):
        key = canon_bytes(key)
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), "big")


def canon_bytes(o) -> bytes:
    import numpy as np
    if isinstance(o, bytes):
        return b"b" + o
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return b"O" + repr(o.tolist()).encode()
        o = np.ascontiguousarray(o)
        if o.dtype.kind == "f":
            o = o + 0.0  # -0.0 -> 0.0
        return o.dtype.str.encode() + repr(o.shape).encode() + o.tobytes()
    if isinstance(o, (tuple, list)):
        return b"(" + b",".join(canon_bytes(v) for v in o) + b")"
    if isinstance(o, dict):
        return b"{" + b",".join(canon_bytes(k) + b":" + canon_bytes(o[k]) for k in sorted(o, key=str)) + b"}"
    return repr(o).encode()


class Rec:
    """Collects what one worker explored."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.extra = Counter()
        self.outcomes = set()
        self.samples = []

    # -- measured coverage
    def state(self, *key):
        h = key_hash(key)
        new = h not in self.states
        self.states.add(h)
        return new

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """n executions of the implementation were compared with the model/oracle."""
        self.traces += n

    def execs(self, n=1):
        """n executions of the implementation."""
        self.evaluations += n

    def count(self, name, n=1):
        self.extra[name] += n

    def outcome(self, *key):
        self.outcomes.add(key_hash(key))

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    # -- judgement
    def fail(self, sig, msg, **details):
        raise Violation(sig, msg, jsonable(details))

    def check(self, cond, sig, msg="", **details):
        if not cond:
            raise Violation(sig, msg or sig, jsonable(details))
        return True

    def close(self, got, want, sig, msg="", rtol=1e-7, atol=0.0, scale=None, **details):
        """Numeric agreement; atol is absolute, `scale` adds rtol*scale to the allowance."""
        import numpy as np
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            raise Violation(sig, f"{msg or sig}: not numeric: {e}", jsonable(dict(got=got, want=want, **details)))
        if g.shape != w.shape:
            raise Violation(sig, f"{msg or sig}: shape {g.shape} instead of {w.shape}",
                            jsonable(dict(got=g, want=w, **details)))
        nan = np.isnan(w)
        ok = np.where(nan, np.isnan(g), False)
        with np.errstate(all="ignore"):
            tol = atol + rtol * np.abs(w) + (rtol * scale if scale is not None else 0.0)
            ok |= (g == w) | (np.abs(g - w) <= tol)
        if not np.all(ok):
            raise Violation(sig, f"{msg or sig}: got {np.array2string(g, threshold=20)}"
                                 f" expected {np.array2string(w, threshold=20)}",
                            jsonable(dict(got=g, want=w, **details)))

    def call(self, fn, *a, **k):
        """A call of the library that has to succeed."""
        try:
            return fn(*a, **k)
        except Exception as e:  # noqa: BLE001
            raise Violation("exception:" + type(e).__name__, f"{type(e).__name__}: {e} raised on admissible input",
                            {"traceback": traceback.format_exc()[-3000:]})

    def raises(self, excs, sig, fn, *a, **k):
        """A call of the library that has to be refused with one of excs."""
        try:
            r = fn(*a, **k)
        except excs as e:
            return e
        except Exception as e:  # noqa: BLE001
            raise Violation(sig, f"{sig}: raised {type(e).__name__}: {e} instead of "
                                 f"{getattr(excs, '__name__', excs)}", {"traceback": traceback.format_exc()[-2000:]})
        raise Violation(sig, f"{sig}: was accepted (returned {type(r).__name__})", {})

    def dump(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    evaluations=self.evaluations, extra=self.extra, outcomes=self.outcomes, samples=self.samples)

    def merge(self, d):
        self.states |= d["states"]
        self.outcomes |= d["outcomes"]
        self.transitions += d["transitions"]
        self.traces += d["traces"]
        self.evaluations += d["evaluations"]
        for k, n in d["extra"].items():
            if k.startswith(("max_", "min_")):
                self.extra[k] = (max if k[1] == "a" else min)(self.extra[k], n) if k in self.extra else n
            else:
                self.extra[k] += n
        for s in d["samples"]:
            if len(self.samples) < 6:
                self.samples.append(s)


def _on_timeout(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, rec):
    """-> None or a violation dict"""
    limit = getattr(mod, "CASE_CPU", 60.0)
    signal.signal(signal.SIGPROF, _on_timeout)
    signal.setitimer(signal.ITIMER_PROF, limit, 1.0)
    try:
        mod.run(case, rec)
        return None
    except Violation as v:
        return dict(sig=v.sig, msg=v.msg, details=v.details)
    except CaseTimeout:
        return dict(sig="no-termination", msg=f"no result within {limit} s of CPU time", details={})
    except RecursionError as e:
        return dict(sig="exception:RecursionError", msg=str(e), details={})
    except Exception as e:  # noqa: BLE001
        # nothing on the checked tree ends here: the library handed out something the oracle cannot even read
        return dict(sig="exception:" + type(e).__name__, msg=f"{type(e).__name__}: {e}",
                    details={"traceback": traceback.format_exc()[-3000:]})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        try:
            import matplotlib.pyplot as plt
            plt.close("all")
        except Exception:  # noqa: BLE001
            pass


def _quiet():
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    sys.stderr = open(os.devnull, "w")
    sys.stdout = io.StringIO()


def _worker(modname, cases, conn, chunk):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _quiet()
    mod = importlib.import_module(modname)
    rec = Rec()
    out = []
    while True:
        try:
            start = conn.recv()
        except EOFError:
            break
        if start is None:
            break
        res = []
        for i in range(start, min(start + chunk, len(cases))):
            t0 = time.perf_counter()
            v = run_case(mod, cases[i], rec)
            out.append((time.perf_counter() - t0, i))
            if v is not None:
                res.append((i, v))
                break
        conn.send(("chunk", start, res))
    out.sort(reverse=True)
    conn.send(("done", rec.dump(), out[:5]))
    conn.close()


def load_known(root, prop):
    known = []
    p = os.path.join(root, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+sig=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def main(argv, repo, root):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(JOBS, os.cpu_count() or 1))
    ap.add_argument("--limit", type=int, default=None, help="development: only the first N cases")
    ap.add_argument("--prof", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    scratch = tempfile.mkdtemp(prefix="robpy-mc-")
    os.environ["MPLCONFIGDIR"] = scratch
    t0 = time.time()
    try:
        code = _main(a, repo, root, seed, tier, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def _main(a, repo, root, seed, tier, t0):
    modname = f"mc.checks.{a.prop.lower()}"
    warnings.filterwarnings("ignore")
    try:
        import robpy
        assert os.path.realpath(robpy.__file__).startswith(os.path.realpath(repo) + os.sep), robpy.__file__
        for sub in ("univariate", "preprocessing", "outliers", "covariance", "regression", "pca", "datasets"):
            importlib.import_module("robpy." + sub)  # once, before the workers fork
        mod = importlib.import_module(modname)
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc()
        if repo + "/robpy" in tb and not isinstance(e, AssertionError):
            # a library that cannot be imported breaks every property
            return report(a, root, seed, tier, t0, None, [(None, dict(
                sig="import", msg=f"robpy cannot be imported: {e}", details={"traceback": tb[-3000:]}))], None, 0, True)
        raise
    assert mod.ID == a.prop
    if a.replay:
        data = json.load(open(a.replay))
        _stdout = sys.stdout
        err = os.dup(2)
        rec = Rec()
        sys.stdout = io.StringIO()
        logging.disable(logging.CRITICAL)
        import numpy as np
        np.seterr(all="ignore")
        v = run_case(mod, data["case"], rec)
        sys.stdout = _stdout
        os.close(err)
        print("case:", json.dumps(data["case"]))
        if v is None:
            print("replay: the property holds on this case")
            return 0
        print("replay:", v["sig"], "-", v["msg"])
        print(json.dumps(v["details"], indent=1)[:6000])
        print(f"VIOLATION property={a.prop} replay={a.replay}")
        return 1
    cases = list(mod.cases(tier))
    if a.limit:
        cases = cases[: a.limit]
    json.dumps(cases[:1])
    chunk = max(1, min(getattr(mod, "CHUNK", 64), len(cases) // (a.jobs * 8) or 1))
    ctx = mp.get_context("fork")
    workers = []
    for _ in range(a.jobs):
        c1, c2 = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(modname, cases, c2, chunk), daemon=True)
        p.start()
        c2.close()
        workers.append(dict(p=p, c=c1, start=None, t=time.time()))
    nxt = 0
    found = []
    rec = Rec()
    slow = []
    done_cases = 0
    capped = False
    stop = False
    limit = getattr(mod, "CASE_CPU", 60.0)

    def feed(w):
        nonlocal nxt
        if nxt < len(cases) and not stop:
            w["start"], w["t"] = nxt, time.time()
            w["c"].send(nxt)
            nxt += chunk
        else:
            w["start"] = None
            w["c"].send(None)

    for w in workers:
        feed(w)
    live = list(workers)
    while live:
        ready = mp.connection.wait([w["c"] for w in live], timeout=1.0)
        for w in [w for w in live if w["c"] in ready]:
            try:
                m = w["c"].recv()
            except EOFError:
                i = w["start"]
                live.remove(w)
                found.append((i, dict(sig="crash", msg="the process running this case died", details={})))
                stop = True
                continue
            if m[0] == "chunk":
                done_cases += min(chunk, len(cases) - m[1])
                found += m[2]
                if len(found) >= MAX_REPORT:
                    stop = True
                feed(w)
            else:
                rec.merge(m[1])
                slow += m[2]
                live.remove(w)
        now = time.time()
        for w in list(live):
            # a case stuck in C code never sees the timer signal; a minute of grace, wall clock
            if w["start"] is not None and now - w["t"] > chunk * 0 + max(4 * limit, 120) + chunk * 5:
                w["p"].kill()
                found.append((w["start"], dict(sig="no-termination", msg="a case does not end", details={})))
                live.remove(w)
                stop = True
        if now - t0 > DEADLINE and not stop:
            stop = capped = True
        if now - t0 > DEADLINE + 45:
            for w in live:
                w["p"].kill()
            break
    for w in workers:
        w["p"].join(timeout=5)
    if a.prof:
        for t, i in sorted(slow, reverse=True)[:10]:
            print(f"slow case {t:.2f}s {json.dumps(cases[i])[:200]}")
    return report(a, root, seed, tier, t0, mod, found, (rec, cases), done_cases, not capped and not a.limit)


def report(a, root, seed, tier, t0, mod, found, data, done_cases, exhaustive):
    prop = a.prop
    known = load_known(root, prop)
    real, listed = [], {}
    for i, v in found:
        for pat, what in known:
            if re.fullmatch(pat, v["sig"]):
                listed[what] = listed.get(what, 0) + 1
                break
        else:
            real.append((i, v))
    for what, n in sorted(listed.items()):
        print(f"KNOWN-FINDING: property={prop} {what} ({n} cases)")
    rec, cases = data if data else (Rec(), [])
    lines = []
    if real:
        os.makedirs(os.path.join(root, "replays"), exist_ok=True)
        seen = set()
        for i, v in sorted(real, key=lambda t: (t[0] is None, t[0] or 0)):
            if v["sig"] in seen or len(seen) >= MAX_REPORT:
                continue
            seen.add(v["sig"])
            case = cases[i] if i is not None and cases else None
            body = dict(property=prop, case=case, **v)
            h = hashlib.blake2b(json.dumps(body, sort_keys=True, default=repr).encode(), digest_size=5).hexdigest()
            path = os.path.join("replays", f"{prop}-{h}.json")
            json.dump(body, open(os.path.join(root, path), "w"), indent=1, default=repr)
            lines.append(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['sig']}: {v['msg'][:600]}")
            print(f"  case: {json.dumps(case)[:300]}")
    level = mod.LEVEL if mod else "model_checking"
    wall = time.time() - t0
    samples = list(rec.samples)
    if cases and not samples:
        samples = [cases[0], cases[len(cases) // 2], cases[-1]]
    cov = dict(cases=done_cases, distinct_outcomes=len(rec.outcomes), samples=jsonable(samples) or ["none"],
               exhaustive=bool(exhaustive and not real), rule=mod.RULE if mod else "")
    if level == "model_checking":
        cov.update(states=len(rec.states), transitions=rec.transitions, traces_validated_against_impl=rec.traces)
        if rec.evaluations:
            cov["executions"] = rec.evaluations
    else:
        cov.update(evaluations=rec.evaluations, distinct_nontrivial=len(rec.states))
    for k, n in sorted(rec.extra.items()):
        cov["n_" + k] = n
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(real))
    os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(root, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} tier={tier} cases={done_cases}/{len(cases)} states={len(rec.states)} "
          f"transitions={rec.transitions} traces={rec.traces} executions={rec.evaluations} "
          f"outcomes={len(rec.outcomes)} {dict(rec.extra)} wall={wall:.1f}s")
    for ln in lines:
        print(ln)
    return 1 if lines else 0
