import itertools
import math

import numpy as np
import pandas as pd

from mc.ref import uni

ID, LEVEL = "C12", "model_checking"
TECHNIQUE = "exhaustive enumeration of missingness patterns, column kinds and call histories on the real code against a cell-by-cell reference"
NOTE = ("All 2^(n*p) missing patterns of small frames under every order and threshold setting, all column-kind combinations (pairs and "
        "triples in every position), and all histories of fits and transforms on three frames.")
RULE = ("states are (frame, settings); edges are fit and transform calls; each result is compared with a plain cell-by-cell evaluation of the "
        "documented rules")
ASSUMPTIONS = ["row and column shares are judged on the columns that the rules applied at fit time leave"]
CHUNK = 4
BASE = [[0.5, 10.0, -3.25, 7.5, 2.25], [1.75, 12.5, 4.0, -6.0, 9.0], [-2.0, 11.25, 0.5, 3.0, -1.5], [3.5, 17.0, 8.0, 1.25, 4.75],
        [6.0, 9.5, -7.75, 0.25, 5.5]]
KINDS = ["real", "int", "text", "mixed", "bool", "three", "four", "const", "tiny", "rows", "rowsnan", "rows1", "miss", "half", "inf", "zeros",
         "textnan", "allnan", "boolnan"]
MISSING = [math.nan, math.inf, -math.inf]


def column(kind, n, j):
    real = [round(((i * 37 + j * 11) % 17) * 1.5 - 7 + 0.25 * i, 3) for i in range(n)]
    if kind == "real":
        return real
    if kind == "int":
        return [int(v * 4) for v in real]
    if kind == "text":
        return [f"t{i}" for i in range(n)]
    if kind == "mixed":
        return [("x" if i == 1 else real[i]) for i in range(n)]
    if kind == "textnan":
        return [(None if i == 0 else f"t{i}") for i in range(n)]
    if kind == "bool":
        return [bool(i % 2) for i in range(n)]
    if kind == "boolnan":
        return [(math.nan if i == 0 else float(i % 2)) for i in range(n)]
    if kind == "three":
        return [float(i % 3) for i in range(n)]
    if kind == "four":
        return [float(i % 4) * 2 + 1 for i in range(n)]
    if kind == "const":
        return [2.5] * n
    if kind == "tiny":
        return [5 + 1e-13 * i * i for i in range(n)]
    if kind == "rows":
        return list(range(n))
    if kind == "rows1":
        return list(range(1, n + 1))
    if kind == "rowsnan":
        return [(math.nan if i == 2 else float(i)) for i in range(n)]
    if kind == "miss":
        return [(math.nan if i < n - 2 else real[i]) for i in range(n)]
    if kind == "half":
        return [(math.nan if i % 2 else real[i]) for i in range(n)]
    if kind == "inf":
        return [(MISSING[1 + i % 2] if i in (0, 3) else real[i]) for i in range(n)]
    if kind == "zeros":
        return [(0.0 if i < n - 3 else real[i]) for i in range(n)]
    if kind == "allnan":
        return [math.nan] * n


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, p in ((2, 2), (3, 3), (4, 2), (2, 4), (1, 5), (1, 4)) + (((4, 3), (3, 4)) if not th else ((4, 3), (3, 4), (5, 3), (4, 4))):
        total = 2 ** (n * p)
        step = 64
        out += [dict(kind="pattern", n=n, p=p, lo=lo, hi=min(lo + step, total)) for lo in range(0, total, step)]
    pairs = list(itertools.product(range(len(KINDS)), repeat=2))
    out += [dict(kind="kinds", cols=[list(c) + [0] for c in pairs[i:i + 8]], n=n) for n in (8, 9) for i in range(0, len(pairs), 8)]
    trip = list(itertools.combinations(range(len(KINDS)), 3)) if not th else list(itertools.permutations(range(len(KINDS)), 3))
    out += [dict(kind="kinds", cols=[list(c) for c in trip[i:i + 16]], n=8) for i in range(0, len(trip), 16)]
    out += [dict(kind="settings", a=a) for a in range(6)]
    out += [dict(kind="history", first=i, depth=4 if th else 3) for i in range(6)]
    return out


def is_missing(v):
    return v is None or (isinstance(v, float) and (math.isnan(v) or math.isinf(v)))


def ref_fit(cols, mu=3, ms=1e-12):
    nonnum, disc, bad = [], [], []
    for name, vals in cols.items():
        seen = [v for v in vals if not is_missing(v)]
        if any(isinstance(v, str) for v in seen):
            nonnum.append(name)
        if len(set(seen)) <= mu:
            disc.append(name)
    for name, vals in cols.items():
        if name in nonnum or name in disc:
            continue
        seen = [float(v) for v in vals if not is_missing(v)]
        if seen and uni.mad(seen) <= ms:
            bad.append(name)
    return nonnum, disc, bad


def ref_transform(cols, fit, n, mc=0.5, mr=0.5, order="automatic"):
    """-> (row numbers cols, missing cols, missing row positions)"""
    p = len(cols)
    rown = [c for c, v in cols.items() if all(not is_missing(v[i]) and not isinstance(v[i], str) and v[i] == i for i in range(n))]
    left = [c for c in cols if all(c not in f for f in fit)]
    if order == "automatic":
        order = "columns" if p >= 5 * n else "rows"
    rows = list(range(n))
    missc, missr = [], []

    def cc():
        for c in left:
            k = sum(is_missing(cols[c][i]) for i in rows)
            if rows and k / len(rows) >= mc:
                missc.append(c)

    def rr():
        use = [c for c in left if c not in missc]
        for i in list(rows):
            k = sum(is_missing(cols[c][i]) for c in use)
            if use and k / len(use) >= mr:
                missr.append(i)

    if order == "columns":
        cc()
        rr()
    else:
        rr()
        rows = [i for i in rows if i not in missr]
        cc()
    return rown, missc, missr


def frame(cols, index):
    return pd.DataFrame({c: pd.Series(v, index=index, dtype=object if any(isinstance(w, str) or w is None for w in v) else None)
                         for c, v in cols.items()}, index=index)


def judge(rec, cl, df, cols, index, fit, out, kw, tag):
    n = len(index)
    rown, missc, missr = ref_transform(cols, fit, n, **kw)
    gone = set(fit[0]) | set(fit[1]) | set(fit[2]) | set(rown) | set(missc)
    keepc = [c for c in cols if c not in gone]
    keepr = [i for i in range(n) if i not in missr]
    rec.trace()
    info = dict(frame={str(c): v for c, v in cols.items()}, settings=kw)
    rec.check(list(out.columns) == keepc, tag + "-columns", f"columns left {list(out.columns)} instead of {keepc}", **info)
    rec.check(list(out.index) == [index[i] for i in keepr], tag + "-rows", f"rows left {list(out.index)} instead of {[index[i] for i in keepr]}",
              **info)
    for c in keepc:
        got = out[c].tolist()
        for v, i in zip(got, keepr):
            w = cols[c][i]
            same = (v != v) if is_missing(w) else v == w and isinstance(v, (bool, np.bool_)) == isinstance(w, bool)
            rec.check(same, tag + "-cells", f"cell ({index[i]}, {c}) is {v} instead of {w}", **info)
    dc, dr = cl.dropped_columns, cl.dropped_rows
    want = dict(non_numeric_cols=fit[0], cols_discrete=fit[1], cols_bad_scale=fit[2], cols_rownumbers=rown, cols_missings=missc)
    for k, w in want.items():
        rec.check(sorted(map(str, dc[k])) == sorted(map(str, w)), tag + "-report-" + k, f"reported {dc[k]} instead of {w}", **info)
    rec.check(list(dr["rows_missings"]) == [index[i] for i in missr], tag + "-report-rows", f"reported {dr['rows_missings']}", **info)
    rec.outcome(keepc, keepr)


def run(case, rec):
    from robpy.preprocessing import DataCleaner
    kind = case["kind"]
    if kind == "pattern":
        n, p = case["n"], case["p"]
        names = [f"c{j}" for j in range(p)] if n % 2 else [10 + j for j in range(p)]
        index = [f"r{i}" for i in range(n)] if p % 2 else [5 - i // 2 for i in range(n)]  # with repeated labels
        base = {c: [BASE[i % 5][j % 5] + 0.125 * i + (i // 5) for i in range(n)] for j, c in enumerate(names)}
        # a second, longer frame with the same columns decides the rules of fit
        longer = {c: [BASE[i % 5][j % 5] * (1 + i) for i in range(8)] for j, c in enumerate(names)}
        fitdf = frame(longer, list(range(8)))
        kws = [dict(mc=a, mr=b, order=o) for o in ("rows", "columns", "automatic") for a, b in ((0.5, 0.5), (0.25, 0.75), (0.75, 0.25), (1.0, 0.4))]
        kws.append(dict(mc=0.0, mr=1.1, order="rows"))
        cleaners = []
        for kw in kws:
            cl = DataCleaner(max_missing_frac_cols=kw["mc"], max_missing_frac_rows=kw["mr"], clean_na_first=kw["order"], min_n_rows=1)
            rec.call(cl.fit, fitdf)
            cleaners.append(cl)
        for bits in range(case["lo"], case["hi"]):
            cols = {c: list(v) for c, v in base.items()}
            for k in range(n * p):
                if bits >> k & 1:
                    cols[names[k % p]][k // p] = MISSING[(k + bits) % 3]
            df = frame(cols, index)
            keep = df.copy()
            sel = range(len(kws)) if n * p <= 9 else [(bits + k) % len(kws) for k in (0, 3, 7, 10)]
            for q in sel:
                out = rec.call(cleaners[q].transform, df)
                rec.trans()
                judge(rec, cleaners[q], df, cols, index, ([], [], []), out, kws[q], "pattern")
            rec.check(df.equals(keep), "input-changed", "transform changed its input")
            rec.state("pattern", n, p, bits)
        rec.sample(dict(n=n, p=p, bits=bits))
    elif kind == "kinds":
        n = case["n"]
        index = [f"r{i}" for i in range(n)] if n == 9 else list(range(100, 100 + n))
        for kk in case["cols"]:
            cols = {f"{KINDS[k]}_{j}": column(KINDS[k], n, j) for j, k in enumerate(kk)}
            df = frame(cols, index)
            keep = df.copy()
            fit = ref_fit(cols)
            for order in ("automatic", "columns"):
                cl = DataCleaner(clean_na_first=order)
                out = rec.call(cl.fit_transform, df)
                rec.trans()
                judge(rec, cl, df, cols, index, fit, out, dict(order=order), "kinds")
            rec.check(df.equals(keep), "input-changed", "fit_transform changed its input")
            rec.state("kinds", n, kk)
        rec.sample(dict(columns=list(cols)))
    elif kind == "settings":
        a = case["a"]
        n = 8
        index = list(range(n))
        cols = {f"{k}_{j}": column(k, n, j) for j, k in enumerate(["real", "three", "four", "tiny", "int", "half", "zeros"])}
        cols["five"] = [float(i % 5) for i in range(n)]
        cols["small"] = [1e-3 * v for v in column("real", n, 3)]
        df = frame(cols, index)
        for mu in range(0, 9):
            for ms in (1e-12, 1e-2, 1e-15, 3.0, uni.mad(cols["small"]), 0.0):
                mc, mr = [(0.5, 0.5), (0.51, 0.5), (0.5, 0.1), (0.4, 0.2), (1.0, 1.0), (0.125, 0.125)][a]
                cl = DataCleaner(min_unique_values=mu, min_abs_scale=ms, max_missing_frac_cols=mc, max_missing_frac_rows=mr)
                # without any column left no row share exists
                fit = ref_fit(cols, mu, ms)
                if all(any(c in f for f in fit) for c in cols):
                    continue
                out = rec.call(cl.fit_transform, df)
                rec.trans()
                rec.state("settings", a, mu, ms)
                judge(rec, cl, df, cols, index, fit, out, dict(mc=mc, mr=mr), "settings")
        for need in range(1, 12):
            cl = DataCleaner(min_n_rows=need)
            if n < need:
                rec.raises(ValueError, "too-few-rows", lambda: cl.fit(df).transform(df))
            else:
                rec.call(lambda: cl.fit(df).transform(df))
            rec.state("minrows", need)
        for order in ("first", "", "Rows", None):
            rec.raises(ValueError, "unknown-order", lambda: DataCleaner(clean_na_first=order).fit(df).transform(df))
    else:
        n = 8
        mats = [{f"c{j}": column(k, n, j) for j, k in enumerate(ks)} for ks in
                (["real", "three", "half", "int"], ["three", "real", "real", "tiny"], ["inf", "miss", "int", "rows"])]
        index = list(range(n))
        dfs = [frame(c, index) for c in mats]
        fits = [ref_fit(c) for c in mats]
        ops = [("fit", i) for i in range(3)] + [("tr", i) for i in range(3)]
        for d in range(case["depth"]):
            for rest in itertools.product(range(6), repeat=d):
                hist = [ops[case["first"]]] + [ops[r] for r in rest]
                cl = DataCleaner(max_missing_frac_cols=0.6, max_missing_frac_rows=0.6)
                cur = None
                for op, i in hist:
                    if op == "fit":
                        rec.call(cl.fit, dfs[i])
                        cur = i
                    elif cur is None:
                        rec.raises(Exception, "not-fitted", cl.transform, dfs[i])
                    else:
                        out = rec.call(cl.transform, dfs[i])
                        judge(rec, cl, dfs[i], mats[i], index, fits[cur], out, dict(mc=0.6, mr=0.6), "history")
                    rec.trans()
                rec.state("history", cur, hist[-1], hist)
        rec.sample(dict(history=hist))
