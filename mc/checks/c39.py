import copy
import itertools
import pickle

import numpy as np
import pandas as pd
from scipy.stats import iqr, median_abs_deviation

from mc.data import lattice, mixed
from mc.objects import adapters, diff, gather

ID, LEVEL = "C39", "model_checking"
TECHNIQUE = "exhaustive enumeration of the histories of an estimator (fits on two data sets, every setting changed and put back with set_params, copies by pickle, deepcopy, copy and clone, the history going on with the copy or with the original) up to a length, on the real code, against a model that knows only the current settings and the last fit"
NOTE = "The model of an object is (its settings, the data and the settings of its last fit); what it must answer is what a newly constructed object with these settings answers after that one fit. Every object of a history is observed at the end."
RULE = "a state is a history; a transition is one operation (fit, set_params, copy); a trace is the comparison of every object alive at the end of a history with the model's answer"
ASSUMPTIONS = ["settings are changed with set_params (univariate estimators and DDC have none: only copied and refitted)", "after set_params without a fit only the fitted attributes, not the use of the object, are claimed to stay", "a refused fit leaves no claim until the next fit", "PCA stores the number of components that a fit chose as its setting, as documented"]
CHUNK = 1
CASE_CPU = 500


def mean_of(x, axis=0):
    return np.mean(x, axis=axis)


def spoiled(n, p, key, share=0.3):
    """two clusters and some strays: a hard search, so that the tuning settings matter"""
    X = mixed(n, p, key)
    k = int(share * n)
    X[:k] = X[:k] * 0.4 + 6.0 + 0.1 * key
    X[k] -= 25.0
    X[k + 1, 0] += 40.0
    return X


def xy(n, p, key):
    X = mixed(n, p, key)
    y = X @ (1.0 + np.arange(p)) + 0.5 * lattice(n, 1, key + 5, 6)[:, 0]
    k = int(0.35 * n)
    y[:k] = -2.0 * X[:k, 0] + 4.0 + 0.4 * lattice(k, 1, key + 9, 6)[:, 0]
    y[k] += 60.0
    return X, np.round(y, 5)


def dirty(n, key):
    f = pd.DataFrame(np.round(mixed(n, 4, key), 5), columns=list("abcd"))
    f.iloc[: int(0.4 * n), 1] = np.nan
    f.iloc[: int(0.65 * n), 2] = np.nan
    f.iloc[0, [0, 3]] = np.nan
    f["few"] = [1.0, 2.0, 3.0, 4.5] * (n // 4) + [1.0] * (n % 4)
    f["flat"] = 1.0 + 0.01 * np.arange(n) * (np.arange(n) > 2 * n // 3)
    f["text"] = [f"t{i % 5}" for i in range(n)]
    f["id"] = np.arange(n)
    return f


def settings():
    from robpy.regression import FastLTSRegression, SRegression
    from robpy.univariate import Qn, Tau
    from robpy.utils.rho import Huber, TukeyBisquare
    return {
        "scaler": dict(scale_estimator=[Qn(), Tau()], with_centering=[True, False], with_scaling=[True, False]),
        "power": dict(method=["auto", "yeojohnson", "boxcox"], standardize=[True, False], lambda_range=[(-4.0, 6.0), (-0.2, 0.3)], quantile=[0.99, 0.7], nsteps=[1, 2, 4]),
        "cleaner": dict(max_missing_frac_cols=[0.2, 0.8], max_missing_frac_rows=[0.2, 0.6], min_unique_values=[2, 6], min_abs_scale=[1e-12, 2.0], clean_na_first=["rows", "columns", "automatic"], min_n_rows=[3, 100]),
        "regr/lts": dict(alpha=[0.6, 0.9], n_initial_subsets=[1, 40], n_initial_c_steps=[0, 3], n_best_models=[1, 4], reweighting=[True, False], tolerance=[1e-15, 1e6], random_state=[3, 4]),
        "regr/s": dict(rho=[TukeyBisquare(), TukeyBisquare(c=3.0)], n_initial_subsets=[1, 12], n_initial_i_steps=[0, 3], n_best_subsets=[1, 3], max_scale_iterations=[1, 30], b=[0.1, 0.3], fit_intercept=[True, False], relative_tolerance=[1e-8, 0.9], scale_tolerance=[1e-8, 0.9], random_state=[3, 4]),
        "regr/mm": dict(initial_estimator=[FastLTSRegression(n_initial_subsets=4), SRegression(n_initial_subsets=4)], rho=[TukeyBisquare(c=3.0), Huber()], max_iterations=[1, 40], epsilon=[1e-9, 0.9]),
        "cov/FastMCD": dict(alpha=[0.6, 0.9], n_initial_subsets=[1, 30], n_initial_c_steps=[1, 3], n_best_subsets=[1, 5], n_partitions=[None, 2], tolerance=[1e-8, 1e6], correct_covariance=[True, False], reweighting=[True, False], store_precision=[True, False], assume_centered=[True, False], random_seed=[3, 4]),
        "cov/DetMCD": dict(alpha=[0.6, 0.9], tolerance=[1e-8, 1e6], correct_covariance=[True, False], reweighting=[True, False]),
        "cov/OGK": dict(store_precision=[True, False], assume_centered=[True, False], location_estimator=[np.median, mean_of], scale_estimator=[median_abs_deviation, iqr], n_iterations=[1, 3], reweighting=[True, False], reweighting_beta=[0.6, 0.95]),
        "cov/Kendall": {},
        "cov/Wrapping": dict(b=[1.2, 1.5], c=[3.0, 4.0], q1=[1.5, 1.6], q2=[0.8, 0.86], store_precision=[True, False], assume_centered=[True, False]),
        "cov/CellMCD": dict(alpha=[0.75, 0.95], quantile=[0.7, 0.999], crit=[1e-4, 1e6], max_c_steps=[1, 50], min_eigenvalue=[1e-4, 0.5]),
        "cov/InitialDDCW": dict(alpha=[0.75, 0.95], min_eigenvalue=[1e-4, 0.5]),
        "pca/rob": dict(n_components=[None, 1, 2], k_min_var_explained=[0.5, 0.95], alpha=[0.6, 0.9], final_MCD_step=[True, False], random_seed=[3, 4]),
        "pca/spca": dict(n_components=[None, 1, 2], k_min_var_explained=[0.5, 0.95]),
    }


def changes(name):
    """every (setting, value) of an adapter's class"""
    for k, v in sorted(settings().items(), key=lambda kv: -len(kv[0])):
        if name.startswith(k):
            return [(p, i) for p, vs in v.items() for i in range(len(vs))], v
    return [], {}


def data(name, ad):
    """two data sets of the same shape with the arguments of fit"""
    fam = name.split("/")[0]
    if fam == "scaler":
        return [(mixed(13, 2, 0),), (mixed(13, 2, 1) * 40 - 7,)]
    if fam == "power":
        z = lattice(24, 1, 1, 6)[:, 0]
        a, b = np.exp(0.8 * z) * 3, (6.0 + z + 0.3 * z**2) ** 2
        a[3], b[5] = a.max() * 4, b.max() * 2
        return [(np.round(a, 5),), (np.round(b, 5),)]
    if fam == "cleaner":
        return [(dirty(16, 0),), (dirty(20, 1).drop(columns="few"),)]
    if fam == "regr":
        return [xy(26, 2, 0), xy(26, 2, 1)]
    if fam == "cov":
        share = 0.1 if "Cell" in name or "DDCW" in name else 0.3
        return [(spoiled(30, 3, 0, share),), (spoiled(30, 3, 1, share + 0.03) * 5 - 2,)]
    if fam == "pca":
        return [(spoiled(22, 3, 0),), (spoiled(22, 3, 1) * 7 + 3,)]
    if fam == "uni":
        return [(lattice(14, 1, 0, 6)[:, 0],), (lattice(14, 1, 1, 6)[:, 0] * 30.0 - 200.0,)]
    def frame(key, scale):
        X = mixed(18, 3, key) * scale
        X[2, 1] += 60.0 * scale
        X[9 + key, 0] = np.nan
        return pd.DataFrame(X, columns=["v0", "v1", "v2"])
    return [(frame(0, 1.0),), (frame(1, 25.0),)]


COPIES = ("deepcopy", "pickle", "copy", "clone")


def duplicate(kind, e):
    if kind == "deepcopy":
        return copy.deepcopy(e)
    if kind == "pickle":
        return pickle.loads(pickle.dumps(e))
    if kind == "copy":
        return copy.copy(e)
    from sklearn.base import clone
    return clone(e)


def words(length, kinds, sets):
    """all histories: F0 F1 fits, S a setting changed, R put back, C+kind go on with the copy, O+kind go on with the original"""
    letters = ["F0", "F1"] + (["S", "R"] if sets else []) + [m + k for k in kinds for m in "CO"]
    for n in range(1, length + 1):
        for w in itertools.product(letters, repeat=n):
            if sum(x[0] in "CO" for x in w) > 1 or "R" in w and "S" not in w[:w.index("R")] or sets and "S" not in w or w[-1] == "S":
                continue
            if not any(x[0] == "F" for x in w):
                continue
            yield w


def cases(tier):
    out = []
    for name in adapters():
        ch, _ = changes(name)
        out.append(dict(est=name, change=None, tier=tier))
        few = {"pca/rob-none": ("n_components", "k_min_var_explained"), "regr/s-noint": ("fit_intercept", "rho")}.get(name) if tier == "quick" else None
        out += [dict(est=name, change=list(c), tier=tier) for c in ch if few is None or c[0] in few]  # the other adapter of that class has them all
    return out


class Model:
    """answers of newly constructed objects, by settings and data"""

    def __init__(self, name, ad, sets, rec):
        self.ad, self.sets, self.rec, self.memo = ad, sets, rec, {}
        self.fresh = name.split("/")[0] not in ("uni", "ddc")
        self.pca = name.startswith("pca")
        self.auto = name.startswith("power")
        self.data = data(name, ad)
        self.name = name
        self.probe = {str(i): a for i, a in enumerate(self.data)}

    def make(self, given):
        e = self.ad.make()
        if given:
            kw = e.get_params(deep=False)
            for p, v in given:
                kw[p] = v if p == "n_components" else copy.deepcopy(self.sets[p][v])
            e = type(e)(**kw)
        return e

    def look(self, e):
        skip = {"method", "n_components"} if (self.pca or self.auto) else ()
        return {k: copy.deepcopy(v) for k, v in gather(e, [a for a in self.ad.look if a not in skip]).items()}

    def use(self, e, d):
        if self.name.startswith("cleaner"):
            try:
                r = e.transform(self.data[d][0])
            except ValueError:
                return {"t": "ValueError"}
            return {"t": (np.asarray(r.to_numpy(), dtype=object), np.array([repr(r.columns.tolist()), repr(r.index.tolist()), repr(e.dropped_columns), repr(e.dropped_rows)], dtype=object))}
        out = self.look(e)
        if self.auto:
            out["method"] = e.method
        for u, f in self.ad.uses.items():
            try:
                out[u] = f(e, self.data[d])
            except ValueError:
                out[u] = "ValueError"
        return out

    def answer(self, given, d):
        """(observation, number of components) of a new object, or (None, None) where it refuses"""
        key = (given, d)
        if key not in self.memo:
            e = self.make(given)
            if fit(self, e, d):
                self.memo[key] = (self.use(e, d), self.look(e), getattr(e, "n_components", None))
            else:
                self.memo[key] = (None, None, None)
        return self.memo[key]


def fit(m, e, d):
    args = tuple(a.copy() for a in m.data[d])
    def attempt():
        try:
            e.fit(*args, **m.ad.fitkw)
            return True
        except ValueError:
            return False
    return m.rec.call(attempt)


def same(m, got, want):
    if m.auto:  # location_pre and the like of an earlier fit may linger where the present settings do not use them
        got = {k: v for k, v in got.items() if k in want}
    return diff(got, want)


def play(m, word, change):
    """the objects of one history: (estimator, settings, fit) each"""
    rec = m.rec
    alive = [[m.ad.make(), (), None, False]]  # object, settings given (sorted), (data, settings) of the last fit or None, "?" after a refusal, set_params since
    cur = 0
    for x in word:
        e, given, last, changed = alive[cur]
        rec.trans()
        if x[0] == "F":
            d = int(x[1])
            ok = fit(m, e, d)
            want, _, k = m.answer(given, d)
            rec.check(ok == (want is not None), "refusal", f"{m.name}: history {word} with {change}: fit {'accepted' if ok else 'refused'}, unlike a new object", history=word)
            alive[cur][2:] = [(d, given) if ok else "?", False]
            if ok and m.pca:
                alive[cur][1] = tuple(sorted([g for g in given if g[0] != "n_components"] + [("n_components", k)]))
        elif x in "SR":
            p, i = change
            if x == "S":
                v = m.sets[p][i]
            else:
                v = m.ad.make().get_params(deep=False)[p]
            r = rec.call(e.set_params, **{p: copy.deepcopy(v)})
            rec.check(r is e, "set_params", f"{m.name}: set_params({p}) does not return the estimator")
            g = [q for q in given if q[0] != p]
            if x == "S" or p == "n_components":
                g.append((p, v if p == "n_components" else i))
            alive[cur][1] = tuple(sorted(g))
            alive[cur][3] = True
        else:
            kind = x[1:]
            c = rec.call(duplicate, kind, e)
            rec.check(c is not e, "copy", f"{m.name}: {kind} is the same object")
            alive.append([c, given, None if kind == "clone" else last, changed])
            if x[0] == "C":
                cur = len(alive) - 1
    return alive


def run(case, rec):
    name = case["est"]
    ad = adapters()[name]
    chg, sets = changes(name)
    m = Model(name, ad, sets, rec)
    t = case["tier"] == "thorough"
    if case["change"] is None:
        kinds = COPIES if m.fresh else COPIES[:3]
        ws = list(words(4 if t and not slow(name) else 3, kinds, False))
        if very_slow(name) and not t:  # every kind of copy in shorter histories
            ws = sorted(set(words(3, kinds[:1], False)) | set(words(2, kinds, False)))
        change = None
    else:
        change = tuple(case["change"])
        ws = list(words(4, ("deepcopy", "clone"), True) if t and not slow(name) else words(3, COPIES if t else ("deepcopy",), True))
    for w in ws:
        alive = play(m, w, change)
        rec.state(name, case["change"], w)
        for j, (e, given, last, changed) in enumerate(alive):
            if last is None or last == "?":
                continue
            d, then = last
            want, look, _ = m.answer(then, d)
            rec.trace()
            touched = m.auto and changed
            now = tuple(g for g in given if g[0] != "n_components")
            if not touched and now == tuple(g for g in then if g[0] != "n_components"):
                r = same(m, m.use(e, d), want)
            else:
                r = same(m, m.look(e), look)
                rec.count("observed_between_set_params_and_fit")
            rec.check(r is None, "history:" + name, f"{name}: history {w} with {change and (change[0], sets[change[0]][change[1]])}, object {j}: {r}", history=w)
            rec.count("objects_observed")
        if len(alive) > 1:
            rec.count("histories_with_a_copy")
    rec.outcome(name)


def slow(name):
    return name.startswith(("regr", "cov/FastMCD", "cov/Cell", "cov/Initial", "pca/rob", "ddc"))


def very_slow(name):
    return name in ("pca/rob-2", "pca/rob-none", "regr/s-noint") or name.startswith("cov/DetMCD")
