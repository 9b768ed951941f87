import logging

import numpy as np
import pandas as pd

from mc.core import key_hash
from mc.objects import adapters, diff, vdiff

ID, LEVEL = "C29", "model_checking"
TECHNIQUE = "breadth-first search of the object-state graph of every estimator class under the alphabet {fit each data set, failing fits, uses}; in every state, fitting each data set on the real object is compared with a newly constructed one"
NOTE = "States are fingerprints of the complete attribute dictionary (nested estimators included), reached by replaying the shortest history on a new object; the search runs to closure or to the stated depth. The reference model of an object with history is: the object without it."
RULE = "a state is a distinct fingerprint of one estimator's attributes; a transition is one call (fit, failing fit, predict/transform/impute on every data set); a trace is one refit compared in all public outcomes with a fresh object"
ASSUMPTIONS = ["n_components=None of a PCA and method='auto' of the power transformer are settings chosen during fit"]
CHUNK = 1
CASE_CPU = 300


def cases(tier):
    order = sorted(adapters(), key=lambda k: ("pca/rob" not in k, "regr/s" not in k, "cov/Ce" not in k, "regr" not in k))  # slowest first
    return [dict(est=k, depth=6 if tier == "thorough" else 3, maxstates=60 if tier == "thorough" else 24) for k in order]


def canon(o, depth=0):
    if isinstance(o, np.ndarray):
        return ("a", o.dtype.str, o.shape, repr(o.tolist()) if o.dtype == object else o.tobytes())
    if isinstance(o, (pd.DataFrame, pd.Series)):
        return ("f", repr(list(o.index)), repr(list(getattr(o, "columns", [o.name] if hasattr(o, "name") else []))), canon(o.to_numpy()))
    if isinstance(o, logging.Logger) or callable(o) and not hasattr(o, "__dict__"):
        return ("l", getattr(o, "__name__", ""))
    if isinstance(o, np.random.Generator):
        return ("g", repr(o.bit_generator.state))
    if isinstance(o, dict):
        return ("d",) + tuple((str(k), canon(v, depth + 1)) for k, v in sorted(o.items(), key=lambda t: str(t[0])))
    if isinstance(o, (list, tuple)):
        return ("t",) + tuple(canon(v, depth + 1) for v in o)
    if callable(o) and hasattr(o, "__qualname__"):
        return ("q", o.__qualname__)
    if hasattr(o, "__dict__") and depth < 5:
        return ("o", type(o).__name__, canon(vars(o), depth + 1))
    if isinstance(o, (int, float, str, bool, type(None), np.generic)):
        return (type(o).__name__, repr(o))
    return ("?", type(o).__name__)


def settings(ad, est):
    return {s: canon(getattr(est, s)) for s in ad.settings if hasattr(est, s)}


def run(case, rec):
    ad = adapters()[case["est"]]
    base = {}

    def fresh(d, like=None):
        e = ad.make()
        for s in ad.sticky:
            if like is not None:
                setattr(e, s, like[s])
        key = (d, tuple(getattr(e, s) for s in ad.sticky))
        if key not in base:
            rec.call(ad.fit, e, ad.data[d])
            base[key] = ad.observe(e)
        return base[key]

    for d in ad.data:
        fresh(d)
    ops = [("fit", d) for d in ad.data] + [("bad", b) for b in ad.bad] + [("use", None)]
    init = settings(ad, ad.make())

    def apply(e, op):
        kind, d = op
        if kind == "fit":
            rec.call(ad.fit, e, ad.data[d])
        elif kind == "bad":
            try:
                ad.fit(e, ad.bad[d])
            except Exception:  # noqa: BLE001  (which error is C32's business)
                pass
        else:
            try:
                ad.observe(e)
            except Exception:  # noqa: BLE001  (not fitted, or left behind by a failed fit)
                pass

    def build(hist):
        e = ad.make()
        for op in hist:
            apply(e, op)
        return e

    seen = {key_hash(canon(vars(ad.make())))}
    frontier = [()]
    level = 0
    while frontier and level <= case["depth"]:
        nxt = []
        for hist in frontier:
            for d in ad.data:
                e = build(hist)
                like = {s: getattr(e, s) for s in ad.sticky}
                rec.call(ad.fit, e, ad.data[d])
                rec.trans(len(hist) + 1)
                got = ad.observe(e)
                r = diff(got, fresh(d, like))
                rec.trace()
                rec.check(r is None, "refit", f"{case['est']}: after {hist}, fit({d}) is not what a new object gives: {r}", history=hist, data=d)
                now = settings(ad, e)
                rec.check(now == init, "settings", f"{case['est']}: fit changed the constructor settings {[k for k in init if now.get(k) != init[k]]}", history=hist)
                again = ad.observe(e)
                r = diff(again, got)
                rec.check(r is None, "use-changes", f"{case['est']}: the same calls after using the estimator answer differently: {r}", history=hist, data=d)
                rec.outcome(case["est"], d, repr(like))
            if level < case["depth"]:
                for op in ops:
                    e = build(hist + (op,))
                    h = key_hash(canon(vars(e)))
                    if h not in seen and len(seen) < case["maxstates"]:
                        seen.add(h)
                        nxt.append(hist + (op,))
        frontier = nxt
        level += 1
    for h in seen:
        rec.state(case["est"], h)
    if frontier:
        rec.count("stopped_at_depth")
    else:
        rec.count("graphs_closed")
    # fitting other objects in between must not matter either: everything again on new objects
    for d in ad.data:
        e = ad.make()
        rec.call(ad.fit, e, ad.data[d])
        r = diff(ad.observe(e), fresh(d))
        rec.trace()
        rec.check(r is None, "instances", f"{case['est']}: a new object fitted on {d} is influenced by earlier objects: {r}")
    rec.sample(dict(est=case["est"], states=len(seen)))
