import csv
import itertools
import os
import pathlib
import subprocess
import sys

import numpy as np
import pandas as pd

ID, LEVEL = "C33", "model_checking"
TECHNIQUE = "exhaustive exploration of load/mutate histories of the real loaders (every data set, format and mutation of what was returned, up to a depth), each final state compared with an independent reading of the bundled files"
NOTE = "The reference model has no state: every load returns the bundled file. Histories up to the stated depth are enumerated over all loaders, formats and mutations; environments (encoding, working directory) are enumerated in new processes."
RULE = "a state is one history of loads and mutations; a transition is one load or mutation; a trace is one comparison of a returned Bunch with the file"
ASSUMPTIONS = ["the documented sizes are those of the loaders' docstrings"]
CHUNK = 1
CASE_CPU = 400
DOC = {"telephone": (24, ["Year", "Calls"]), "stars": (47, ["Te", "light"]), "animals": (28, ["body", "brain"]), "glass": (180, [f"V{i}" for i in range(1, 751)]),
       "topgear": (297, "Make Model Type Fuel Price Cylinders Displacement DriveWheel BHP Torque Acceleration TopSpeed MPG Weight Length Width Height AdaptiveHeadlights AdjustableSteering AlarmSystem "
                        "Automatic Bluetooth ClimateControl CruiseControl ElectricSeats Leather ParkingSensors PowerSteering SatNav ESP Verdict Origin".split())}
NUMERIC = "Price Cylinders Displacement BHP Torque Acceleration TopSpeed MPG Weight Length Width Height Verdict".split()
# a few published values (Rousseeuw & Leroy 1987, MASS, robustHD): row, column, value
KNOWN = {"telephone": [(0, 0, 50.0), (14, 1, 11.9), (19, 1, 21.2), (23, 1, 2.9)], "stars": [(0, 0, 4.37), (6, 0, 3.84), (10, 0, 3.49), (10, 1, 5.73), (46, 1, 4.5)],
         "animals": [(0, 0, 1.35), (5, 0, 11700.0), (25, 0, 87000.0), (14, 1, 5712.0), (27, 1, 180.0)]}
MUTATIONS = ["nothing", "overwrite data", "scale data", "reverse data", "append feature name", "clear feature names", "sort feature names", "edit categories", "drop keys", "rename columns", "drop rows"]


def cases(tier):
    out = [dict(kind="content", name=n) for n in DOC]
    depth = 3 if tier == "thorough" else 2
    out += [dict(kind="history", name=n, frame=f, first=m, depth=min(depth, 1 if tier == "quick" else 2) if n == "glass" else depth) for n in DOC for f in (False, True) for m in MUTATIONS]
    out += [dict(kind="cross", name=n, frame=f) for n in DOC for f in (False, True)]
    out += [dict(kind="environment", env=e, cwd=c) for e in ({}, {"LC_ALL": "C"}, {"LC_ALL": "C", "PYTHONUTF8": "0"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"PYTHONOPTIMIZE": "2"}) for c in ("/", "/tmp")]
    return out


def run(case, rec):
    globals()["_" + case["kind"]](case, rec)


def loader(name):
    import robpy.datasets
    return getattr(robpy.datasets, "load_" + name)


_RAW = {}


def raw(name):
    """the bundled file, read without pandas: header, rows of str/float/None"""
    if name not in _RAW:
        import robpy
        path = pathlib.Path(robpy.__file__).parent / "datasets" / "data" / f"{name}.csv"
        with open(path, encoding="utf-8", newline="") as f:
            head, *rows = list(csv.reader(f))
        text = [name == "topgear" and h not in NUMERIC for h in head]
        _RAW[name] = head, [[None if v in ("", "NA") else v if t else float(v) for v, t in zip(r, text)] for r in rows]
    return _RAW[name]


def same(v, w):
    if w is None:
        return v is None or v != v
    if isinstance(w, str):
        return isinstance(v, str) and v == w
    return isinstance(v, (int, float, np.integer, np.floating)) and abs(v - w) <= 4e-16 * abs(w)


def compare(rec, name, b, frame, when):
    rec.trace()
    rec.trans()
    n, cols = DOC[name]
    head, rows = raw(name)
    what = f"load_{name}(as_frame={frame}) {when}"
    rec.check(isinstance(b.data, pd.DataFrame if frame else np.ndarray), "format", f"{what}: data is {type(b.data).__name__}")
    rec.check(b.data.shape == (n, len(cols)), "size", f"{what}: shape {b.data.shape}, documented {(n, len(cols))}")
    rec.check(list(b.feature_names) == cols, "feature-names", f"{what}: feature_names {list(b.feature_names)[:8]}... expected {cols[:8]}...")
    rec.check(isinstance(b.filename, str) and b.filename == f"{name}.csv" and pathlib.Path(b.data_folder, b.filename).is_file(), "filename", f"{what}: filename {b.filename!r}")
    rec.check(isinstance(b.DESCR, str) and b.DESCR.lstrip().startswith(f".. _{name}_dataset:") and str(n) in b.DESCR, "description", f"{what}: DESCR {str(b.DESCR)[:60]!r}")
    if name == "topgear":
        rec.check(list(b.categorical_features) == [c for c in cols if c not in NUMERIC], "categories", f"{what}: categorical_features {list(b.categorical_features)}")
    if frame:
        rec.check(list(b.data.columns) == cols and list(b.data.index) == list(range(n)), "labels", f"{what}: columns {list(b.data.columns)[:8]} index {list(b.data.index)[:5]}")
        for c in cols:
            num = pd.api.types.is_numeric_dtype(b.data[c])
            rec.check(num == (name != "topgear" or c in NUMERIC), "dtype", f"{what}: column {c} has dtype {b.data[c].dtype}", column=c)
        V = b.data.to_numpy()
    else:
        V = b.data
        rec.check(name == "topgear" or V.dtype.kind in "fiu", "dtype", f"{what}: array of dtype {V.dtype}")
    pick = [head.index(c) for c in cols]
    if name != "topgear":
        W = np.array([[r[j] for j in pick] for r in rows])
        bad = np.argwhere(~(np.abs(V - W) <= 4e-16 * np.abs(W)))
    else:
        bad = [(i, j) for i in range(n) for j in range(len(cols)) if not same(V[i, j], rows[i][pick[j]])]
    if len(bad):
        i, j = bad[0]
        rec.check(False, "values", f"{what}: row {i}, column {cols[j]} holds {V[i, j]!r}, the file {rows[i][pick[j]]!r}")


def _content(case, rec):
    name = case["name"]
    head, rows = raw(name)
    rec.check(len(rows) == DOC[name][0] and set(head) >= set(DOC[name][1]), "file", f"{name}.csv has {len(rows)} rows and columns {head[:5]}...")
    for i, j, v in KNOWN.get(name, []):
        rec.check(rows[i][head.index(DOC[name][1][j])] == v, "published", f"{name}.csv row {i} column {j} is {rows[i][j]}, published {v}")
    for frame in (False, True):
        compare(rec, name, loader(name)(as_frame=frame), frame, "in a new process")
        rec.state(name, frame)
        rec.outcome(name, frame)
    compare(rec, name, loader(name)(), False, "by default")
    a, f = loader(name)(as_frame=False).data, loader(name)(as_frame=True).data
    rec.check(all((u == v) or (u != u and v != v) for u, v in zip(a.ravel().tolist(), f.to_numpy().ravel().tolist())), "formats-differ", f"{name}: array and DataFrame hold different values")
    rec.sample(dict(name=name, shape=list(a.shape)))


def mutate(b, m, frame):
    d = b.data
    if m == "overwrite data":
        if frame:
            d.iloc[:, :] = d.iloc[::-1, :].to_numpy()
            d[d.columns[0]] = 0
        else:
            d.flags.writeable = True
            d[...] = 0
    elif m == "scale data":
        if frame:
            for c in d.columns:
                if pd.api.types.is_numeric_dtype(d[c]):
                    d[c] *= 3
        else:
            for j in range(d.shape[1]):
                if not isinstance(d[0, j], str):
                    d[:, j] = d[:, j] * 3
    elif m == "reverse data":
        b.data = d[::-1]
        np.asarray(d)[0], np.asarray(d)[1]
    elif m == "append feature name":
        b.feature_names.append("extra")
    elif m == "clear feature names":
        b.feature_names.clear()
    elif m == "sort feature names":
        b.feature_names.sort(reverse=True)
    elif m == "edit categories":
        if "categorical_features" in b:
            b.categorical_features.pop()
            b.categorical_features.insert(0, "Price")
        b["filename"] = "other.csv"
    elif m == "drop keys":
        for k in list(b):
            del b[k]
    elif m == "rename columns":
        if frame:
            d.columns = [f"c{i}" for i in range(d.shape[1])]
        b.DESCR = ""
    elif m == "drop rows":
        if frame:
            d.drop(index=d.index[:5], inplace=True)
            d.insert(0, "new", 1)
        b.data_folder = None


def _history(case, rec):
    import warnings
    warnings.simplefilter("ignore")
    name, depth = case["name"], case["depth"]
    steps = [(f, m) for f in (False, True) for m in MUTATIONS]
    for rest in itertools.chain.from_iterable(itertools.product(steps, repeat=k) for k in range(depth)):
        hist = ((case["frame"], case["first"]),) + rest
        kept = []
        for i, (f, m) in enumerate(hist):
            b = loader(name)(as_frame=f)
            rec.trans()
            if i == len(hist) - 1:
                compare(rec, name, b, f, f"after {hist[:-1]}")
            kept.append(b)
            mutate(b, m, f)
            rec.trans()
        rec.state(name, hist)
        for f in (False, True):
            compare(rec, name, loader(name)(as_frame=f), f, f"after {hist}")
    # two results held at the same time share nothing
    a, b = loader(name)(as_frame=case["frame"]), loader(name)(as_frame=case["frame"])
    mutate(a, case["first"], case["frame"])
    compare(rec, name, b, case["frame"], f"while another result had: {case['first']}")
    rec.outcome(case["first"], case["frame"])


def _cross(case, rec):
    import warnings
    warnings.simplefilter("ignore")
    for m in MUTATIONS:
        b = loader(case["name"])(as_frame=case["frame"])
        mutate(b, m, case["frame"])
        for other in DOC:
            if other != "glass" or m in ("overwrite data", "clear feature names"):
                for f in (False, True):
                    compare(rec, other, loader(other)(as_frame=f), f, f"after {m} of {case['name']}")
                    rec.state(case, m, other, f)


SCRIPT = """
import sys; sys.path[:0] = [{verif!r}, {repo!r}]
import mc.checks.c33 as c
from mc.core import Rec, Violation
r = Rec()
try:
    for n in c.DOC:
        for f in (False, True):
            c.compare(r, n, c.loader(n)(as_frame=f), f, "in environment {env}")
except Violation as v:
    print("VIOLATED", v.sig, ascii(v.msg))
except Exception as e:
    print("VIOLATED", "environment", type(e).__name__, ascii(str(e)))
else:
    print("FINE", r.traces)
"""


def _environment(case, rec):
    import robpy
    repo = str(pathlib.Path(robpy.__file__).resolve().parent.parent)
    verif = str(pathlib.Path(__file__).resolve().parent.parent.parent)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
    env.update(case["env"], PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
    out = subprocess.run([sys.executable, "-c", SCRIPT.format(verif=verif, repo=repo, env=case["env"])], env=env, cwd=case["cwd"], capture_output=True, text=True, timeout=300)
    rec.trans()
    rec.trace()
    rec.state("env", case["env"], case["cwd"])
    rec.check("FINE" in out.stdout, "environment", f"loading with {case['env']} in {case['cwd']}: {out.stdout.strip()[:300]} {out.stderr.strip()[-200:]}")
