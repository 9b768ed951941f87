import numpy as np

from mc.objects import adapters, diff
from mc.sched import library_dir, preempt, record

ID, LEVEL = "C31", "model_checking"
TECHNIQUE = "preemption-bounded exploration of the real code: two real threads under a controlled scheduler that can switch at every executed line of the library (sys.settrace); every schedule with one, and a grid of schedules with two preemptions, is compared with the sequential runs"
NOTE = "Each thread constructs, fits and uses its own estimator. One preemption: thread A is stopped at every program point (quick: first, second, middle and last occurrence of every source line, for the slow estimators first and last; thorough: every line event up to 1500 per pair, then evenly thinned occurrences; the default MM estimator and ROBPCA with its final MCD step only in their own modules (their sub-estimators have pairs of their own)), B runs to its end, A resumes; both role assignments. Two preemptions: A stopped at a point, B stopped at a point, A ends, B resumes, for the first occurrences of the lines. Line granularity: a switch inside one line is not explored."
RULE = "a state is a distinct (pair, stop point of A, stop point of B); transitions are context switches performed; a trace is one complete schedule whose two outcomes were compared with the sequential ones"
ASSUMPTIONS = ["estimators of the two threads are distinct objects and their data are distinct arrays", "switches happen between lines of library code"]
CHUNK = 1
CASE_CPU = 600

# (estimator of thread A, data, estimator of thread B, data)
PAIRS = [("scaler/default", "A", "scaler/default", "B"), ("ddc/default", "A", "ddc/default", "C"), ("scaler/default", "C", "cov/InitialDDCW", "A"),
         ("regr/mm-default", "A", "regr/mm-default", "C"), ("regr/s", "A", "regr/s", "C"), ("regr/lts", "A", "regr/lts-raw", "C"), ("regr/mm", "A", "regr/mm", "C"),
         ("regr/lts", "A", "regr/s", "C"), ("cov/CellMCD", "A", "cov/CellMCD", "C"), ("cov/FastMCD", "A", "cov/FastMCD-raw", "C"), ("cov/DetMCD", "A", "cov/DetMCD-raw", "C"),
         ("cov/OGK", "A", "cov/OGK-rew", "C"), ("cov/Wrapping", "A", "cov/Wrapping-2", "C"), ("cov/Kendall", "A", "cov/Kendall", "C"),
         ("pca/rob-2", "A", "pca/rob-2", "C"), ("pca/rob-noMCD", "A", "pca/rob-noMCD", "C"), ("pca/spca-2", "A", "pca/spca-none", "C"), ("cov/FastMCD", "A", "pca/rob-2", "C"),
         ("power/auto", "pos", "power/auto", "sign"), ("power/yj", "sign", "power/bc", "pos"), ("cleaner/default", "B", "cleaner/cols", "C"),
         ("uni/Qn", "A", "uni/Qn", "B"), ("uni/UnivariateMCD", "A", "uni/UnivariateMCD-9", "B"), ("uni/Tau", "A", "uni/Tau", "C"),
         ("uni/Huber", "A", "uni/Cellwise", "C"), ("uni/Cellwise", "A", "uni/Huber", "B"), ("uni/Wrapping", "A", "uni/Wrapping", "C"), ("scaler/default", "A", "uni/UnivariateMCD", "B"),
         ("ddc/default", "A", "ddc/wrap", "C"), ("cov/CellMCD", "A", "ddc/default", "C"), ("scaler/qn", "A", "scaler/qn", "B")]


# a fit of the default MM estimator takes a second and runs the S estimator, which has pairs of its own: stop it in its own code
OWN = {"regr/mm-default": ("regression/mm.py", "regression/base.py"), "pca/rob-2": ("/pca/", "outlyingness.py")}


def more():
    """the adapters of mc.objects plus estimators built with every default"""
    from mc.objects import Adapter
    ads = dict(adapters())
    from robpy.regression import MMRegression
    m = ads["regr/mm"]
    ads["regr/mm-default"] = Adapter(MMRegression, m.data, m.bad, m.uses, m.look, settings=m.settings)
    return ads


def cases(tier):
    th = tier == "thorough"
    out = []
    for a, d, b, e in PAIRS:
        slow = any(x.startswith(("regr/mm", "regr/s", "cov/CellMCD", "pca/rob", "cov/FastMCD", "cov/DetMCD", "cov/InitialDDCW")) for x in (a, b))
        parts = (16 if th else 4) if slow else (8 if th else 2)
        for (x, dx, y, dy) in ([(a, d, b, e), (b, e, a, d)] if (a, d) != (b, e) else [(a, d, b, e)]):
            out += [dict(a=x, da=dx, b=y, db=dy, n=1, part=i, parts=parts, full=th and not slow, light=slow and not th) for i in range(parts)]
        if "default" in a and a.startswith("regr/mm") and not th:
            continue
        out += [dict(a=a, da=d, b=b, db=e, n=2, part=i, parts=parts, grid=((24 if th else 6) if not slow else (7 if th else 3))) for i in range(parts)]
    for c in out:
        if not th and c["n"] == 1 and c["a"].startswith(("ddc", "regr", "cleaner")):
            c["light"] = True
    out.sort(key=lambda c: (not c["a"].startswith(("regr/mm-default", "cov/CellMCD")), not c["a"].startswith(("regr", "pca/rob"))))
    return out


def work(ad, d):
    def go():
        e = ad.make()
        args = tuple(x.copy() for x in ad.data[d])
        ad.fit(e, args)
        out = {a: getattr(e, a) for a in ad.look if getattr(e, a, None) is not None}
        for u, f in ad.uses.items():
            try:
                out[u] = f(e, args)
            except ValueError:
                out[u] = "ValueError"
        return out
    return go


def points(where, full, own, light):
    if full and len(where) <= 1500:
        return list(range(len(where)))
    at = {}
    for k, w in enumerate(where):
        if own is None or any(o in w[0] for o in own):
            at.setdefault(w, []).append(k)
    out = set()
    for ks in at.values():
        out |= {ks[0], ks[-1]} if light else {ks[0], ks[min(1, len(ks) - 1)], ks[-1], ks[len(ks) // 2]}
        if full:
            out |= set(ks[:: max(1, len(ks) // 40)])
    return sorted(out)


def run(case, rec):
    ads = more()
    A, B = ads[case["a"]], ads[case["b"]]
    fa, fb = work(A, case["da"]), work(B, case["db"])
    root = library_dir()
    want_a, where_a = rec.call(record, fa, root)
    want_b, where_b = rec.call(record, fb, root)
    r = diff(rec.call(fa), want_a)
    rec.check(r is None, "sequential", f"{case['a']}: two runs alone differ: {r}")
    rec.extra["max_points"] = max(rec.extra["max_points"], len(where_a))
    if case["n"] == 1:
        plans = [(k,) for k in points(where_a, case["full"], OWN.get(case["a"]), case["light"])]
    else:
        def firsts(where):
            seen, out = set(), []
            for k, w in enumerate(where):
                if w not in seen:
                    seen.add(w)
                    out.append(k)
            return out[:: max(1, -(-len(out) // case["grid"]))]
        plans = [(k, m) for k in firsts(where_a) for m in firsts(where_b)]
    for plan in plans[case["part"]::case["parts"]]:
        ra, rb, reached = preempt(fa, fb, plan, root)
        rec.trace()
        rec.trans(1 + len(plan))
        where = "A stopped at {}:{}".format(where_a[plan[0]][0].split("/robpy/")[-1], where_a[plan[0]][1])
        if len(plan) > 1:
            where += ", B stopped at {}:{}".format(where_b[plan[1]][0].split("/robpy/")[-1], where_b[plan[1]][1])
        for nm, got, want in (("A", ra, want_a), ("B", rb, want_b)):
            if isinstance(got, BaseException):
                rec.fail("interference", f"{case['a']} and {case['b']} fitted concurrently ({where}): thread {nm} fails with {type(got).__name__}: {got}", plan=plan)
            r = diff(got, want)
            rec.check(r is None, "interference", f"{case['a']} and {case['b']} fitted concurrently ({where}): thread {nm} gets another result: {r}", plan=plan)
        if reached[0]:
            rec.state(case["a"], case["da"], case["b"], case["db"], plan)
        rec.outcome(case["a"], case["b"], where)
