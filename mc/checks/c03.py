import itertools
import math

import numpy as np

from mc import explore
from mc.ref import uni

ID, LEVEL = "C03", "model_checking"
TECHNIQUE = "explicit-state enumeration of samples on the real estimators vs. closed-form reference"
NOTE = ("Every sample of the grids gives the published closed forms; grids place observations on both sides of every "
        "cutoff in units of the sample's own start scale. Bounded in length and alphabet.")
RULE = ("states are samples reached by appending values of an alphabet, breadth first up to a length, plus samples with "
        "a fixed median/MAD core and one or two probes swept over every cutoff; each is fitted by every estimator and "
        "setting and compared with naive formulas; edges are the probe moves / appended observations")
ASSUMPTIONS = ["samples whose MCD start is tied to 1e-9 relative or has a point on the cutoff are skipped for wrapping",
               "probes stay 1e-6 away from a cutoff; the published functions are continuous there"]
CHUNK = 8
ALPH = {"ties": [0.0, 1.0, 2.0, 7.0, -30.0], "irreg": [0.0, 0.45, 1.7, 3.9, -2.6, 50.0]}
TAUS = [(4.5, 3.0, True), (4.5, 3.0, False), (2.0, 3.0, True), (4.5, 1.0, True), (6.0, 5.0, False), (1.5, 0.7, True)]
CORES = [[-1.7, -1.0, -0.2, 0.0, 0.3, 1.0, 1.9], [-2.0, -1.0, 0.0, 1.0, 2.2], [-0.5, -1.0, 0.0, 1.0, 1.4, 0.1, -1.3, 1.2, -0.2]]
CUTS = [1.5, 2.5, 3.0, 4.0, 4.5]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name, a in ALPH.items():
        for n in range(2, 8 if deep else 7):
            m = math.comb(len(a) + n - 1, n)
            out += [dict(kind="grid", alph=name, n=n, lo=i, hi=min(i + 20, m)) for i in range(0, m, 20)]
    for c in range(len(CORES)):
        for unit in (1.0, 1e-5, 3e4):
            for shift in (0.0, 17.0):
                out.append(dict(kind="probe", core=c, unit=unit, shift=shift, two=deep))
    return out


def judge(rec, x, key, light=False):
    from robpy.univariate import CellwiseOneStepM, HuberOneStepM, OneStepWrapping, Tau
    from robpy.univariate.onestep_m import OneStepM
    from robpy.utils.rho import Huber, TukeyBisquare
    a = np.array(x, dtype=float)
    if all(float(v).is_integer() and abs(v) < 1e15 for v in x) and len(x) % 2:
        a = a.astype(int)
    rec.state(key)
    size = float(np.ptp(a)) or 1.0
    at = 1e-12 * (size + float(np.max(np.abs(a))))

    def cmp(name, est, want):
        keep = a.copy()
        e = rec.call(est.fit, a)
        rec.trace()
        rec.check(np.array_equal(a, keep), "input-changed:" + name)
        rec.close(e.location, want[0], name + "-location", rtol=1e-8, atol=at, x=a)
        rec.close(e.scale, want[1], name + "-scale", rtol=1e-8, atol=at if want[1] else 0.0, x=a)
        rec.outcome(name, round(float(e.location), 9), round(float(e.scale), 9))

    for c1, c2, cons in TAUS[:2] if light else TAUS:
        cmp("tau", Tau(c1=c1, c2=c2, consistency_correction=cons), uni.tau(a, c1, c2, cons))
    cmp("tau", Tau(), uni.tau(a))
    cmp("huber", HuberOneStepM(), uni.huber_one(a))
    cmp("cellwise", CellwiseOneStepM(), uni.cellwise_one(a))
    if not light:
        cmp("onestep", OneStepM(loc_rho=TukeyBisquare(c=2.0), scale_rho=Huber(b=1.0), delta=0.5),
            uni.one_step_m(a, uni.psi_tukey(2.0), uni.psi_huber(1.0), 0.5))
        big = size * 10
        cmp("onestep-min", OneStepM(loc_rho=Huber(b=1.5), scale_rho=Huber(b=1.5), delta=0.7784655, min_abs_scale=big),
            uni.one_step_m(a, uni.psi_huber(1.5), uni.psi_huber(1.5), 0.7784655, big))
    loc, s, margin = uni.wrapping_one(a)
    if margin > 1e-9 or s == 0 and margin > 0:
        cmp("wrapping", OneStepWrapping(), (loc, s))
    else:
        rec.count("wrapping_ties")


def run(case, rec):
    if case["kind"] == "grid":
        ms = itertools.islice(explore.multisets(ALPH[case["alph"]], case["n"]), case["lo"], case["hi"])
        for k, x in enumerate(ms):
            rec.trans(len(set(x)))
            judge(rec, x if k % 2 else x[::-1], x)
        rec.sample(dict(sample=list(x)))
        return
    core = np.array(CORES[case["core"]])
    u, b = case["unit"], case["shift"]
    # probes added in pairs keep median and (nearly) MAD, so that they sweep the cutoffs in start-scale units
    m, s = uni.med(core), uni.mad(core)
    probes = []
    for f in (1.0, 1 / 0.6744897501960817):
        for c in CUTS:
            probes += [f * c * (1 - 1e-3), f * c * (1 - 1e-6), f * c * (1 + 1e-6), f * c * (1 + 1e-3), f * c * 1.3]
    probes += [0.4, 100.0, 1e6]
    for p in probes:
        for q in ([p] if not case["two"] else [p, 0.7, 3.1]):
            x = np.concatenate([core, [m + p * s, m - q * s]])
            rec.trans()
            judge(rec, x * u + b, (case["core"], u, b, p, q), light=False)
    # the start scale changes with the probes: sweep against the final sample's own scale too
    for c in CUTS:
        for f in (1.0, 1 / 0.6744897501960817):
            for d in (-1e-6, 1e-6):
                lo = c
                for _ in range(60):  # fixed point: probe sits exactly c scales from the centre of the sample
                    x = np.concatenate([core, [m + lo * s]])
                    lo = (uni.med(x) - m + c * f * uni.mad(x)) / s
                x = np.concatenate([core, [m + lo * (1 + d) * s]])
                rec.trans()
                judge(rec, x * u + b, (case["core"], u, b, c, f, d))
    rec.sample(dict(core=list(core), probes=probes[:4], unit=u, shift=b))
