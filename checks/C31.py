"""C31: quality reports compute their documented measures."""
import math

import numpy as np

from hrosailing.pipeline.quality_assurance import (ComformingQualityAssurance,
                                                   MinimalQualityAssurance)
from hrosailing.polardiagram import PolarDiagramCurve
from hrv import Check, gen

check = Check(
    "C31",
    "Tables, clouds and curves in both units are judged against test data of "
    "all sizes (repeated, nearly equal, negative speeds, single, none); all "
    "measures are recomputed from the diagram's own values record by record "
    "with exact sums, and curves that record what they are asked and follow "
    "a known law at zero degrees pin the zero measures.",
    ["how densely the winds between 0 and 20 are sampled for the zero "
     "measures is not documented: means are compared with a tolerance"],
)

ERRORS = ("max_error", "min_error", "average_error",
          "average_quadratic_error")


def diagram(rng):
    return gen.pick(rng, [gen.table, gen.cloud, gen.lobed_curve,
                          gen.curve])(rng)


def test_data(rng, n):
    ws, wa = rng.uniform(2, 20, n), rng.uniform(0, 360, n)
    if n and gen.chance(rng, 0.6):  # several records at nearly the same wind
        k = max(1, n // 4)
        idx = rng.integers(0, k, n)
        ws = np.round(ws[idx]) + rng.uniform(-0.45, 0.45, n)
        wa = np.round(wa[idx]) + rng.uniform(-0.45, 0.45, n)
        wa = np.clip(wa, 0, 360)
    if n > 1 and gen.chance(rng, 0.4):  # around straight ahead
        k = rng.integers(0, n, max(2, n // 3))
        wa[k] = rng.choice([0, 0.2, 359.8, 360, 180, 1], len(k))
        ws[k] = ws[k[0]]
    bsp = rng.uniform(-3 if gen.chance(rng, 0.3) else 0, 15, n)
    if n and gen.chance(rng, 0.2):
        bsp[:] = bsp[0]
    return np.column_stack([ws, wa, bsp])


def values(pd, pts):
    out = []
    for ws, wa, _ in pts:
        try:
            v = float(gen.at(pd, ws, wa))
        except (ValueError, ZeroDivisionError):  # no data around
            return None
        if not math.isfinite(v) or abs(v) > 1e12:
            return None
        out.append(v)
    return out


def errors(pts, vals):
    d = [abs(p[2] - v) for p, v in zip(pts, vals)]
    return {"max_error": max(d), "min_error": min(d),
            "average_error": math.fsum(d) / len(d),
            "average_quadratic_error": math.fsum(x * x for x in d) / len(d)}


def as_given(rng, pts):
    if gen.chance(rng, 0.15):
        return np.asfortranarray(pts)
    return pts.copy()


@check.case(quick=200, thorough=4000, budget=20_000_000)
def error_measures(m):
    rng = m.rng
    pd = diagram(rng)
    n = int(gen.pick(rng, [1, 2, int(rng.integers(3, 40))]))
    pts = test_data(rng, n)
    vals = values(pd, pts)
    if vals is None:
        return
    if gen.chance(rng, 0.2):  # exact hits
        i = int(rng.integers(n))
        pts[i, 2] = vals[i]
    m.given(diagram=repr(pd)[:300], data=pts)
    before = repr(pd)
    want = errors(pts, vals)
    for qa in (MinimalQualityAssurance(), ComformingQualityAssurance()):
        name = type(qa).__name__
        data = as_given(rng, pts)
        report = qa.check(pd, data)
        m.event("reports")
        m.equal(data, pts, "test-data-unchanged")
        m.equal(repr(pd), before, "diagram-unchanged")
        for k in ERRORS:
            m.ok(k in report, "measure-present", measure=k, of=name)
            m.close(float(report[k]), want[k], k, rtol=1e-7, atol=1e-7,
                    of=name)
        # the order of the records does not matter
        again = qa.check(pd, pts[rng.permutation(n)])
        for k in report:
            if report[k] is None:  # no values around zero degrees
                m.ok(again[k] is None, "order-of-records", measure=k)
                continue
            m.close(float(again[k]), float(report[k]), "order-of-records",
                    rtol=1e-7, measure=k)
        # a report is the caller's own
        report["max_error"] = report["execution time"] = -1
        once = qa.check(pd, data)
        m.close(float(once["max_error"]), want["max_error"],
                "report-owned", rtol=1e-7, atol=1e-7)
        m.ok("execution time" not in once, "report-owned")


def exact(pts):
    groups = {}
    for ws, wa, b in pts:
        k = (math.floor(ws + 0.5), math.floor(wa + 0.5))
        groups.setdefault(k, []).append(b)
    return groups


@check.case(quick=300, thorough=5000)
def covering(m):
    rng = m.rng
    pd = gen.table(rng)
    n = gen.scaled(rng, gen.pick(rng, [1, 2, int(rng.integers(3, 60))]))
    pts = test_data(rng, n)
    frac = np.abs(pts[:, :2] % 1 - 0.5)
    pts = pts[np.all(frac > 1e-6, axis=1)]  # no ties when rounding
    if not len(pts):
        return
    m.given(data=pts)
    if values(pd, pts) is None:
        return
    report = ComformingQualityAssurance().check(pd, pts.copy())
    g = exact(pts)
    m.event("covered", len(g))
    m.equal(int(report["test_covering"]), len(g), "test-covering")
    diff = [max(v) - min(v) for v in g.values()]
    m.close(float(report["local_test_data_difference"]), max(diff),
            "local-difference")
    m.close(float(report["average_local_test_data_difference"]),
            math.fsum(diff) / len(diff), "average-local-difference")
    m.state("groups", (len(g), len(pts)))


@check.case(quick=150, thorough=2000)
def zero_measures(m):
    rng = m.rng
    a, b, c = rng.uniform(0, 3), rng.uniform(0, 0.5), rng.uniform(0, 2)
    rad = gen.chance(rng, 0.5)
    full = 2 * math.pi if rad else 360.0
    asked = []

    def law(ws, wa, a, b, c):
        # a + b ws straight ahead, the angle 360 adds c
        ws, wa = np.asarray(ws, float), np.asarray(wa, float)
        asked.append((ws, wa))
        near0 = np.minimum(wa, full - wa) < 1e-6
        return np.where(near0, a + b * ws + c * (wa > full / 2), 99.0)

    pd = PolarDiagramCurve(law, a, b, c, radians=rad)
    pts = test_data(rng, int(rng.integers(1, 10)))
    m.given(a=a, b=b, c=c, radians=rad, data=pts)
    wraps = abs(float(np.asarray(gen.at(pd, 10.0, 360))) - (
        a + 10 * b)) < 1e-9
    full_value = float(np.asarray(pd(10.0, full))) - (a + 10 * b)
    c_ = 0.0 if abs(full_value) < 1e-9 else c
    asked.clear()
    r = ComformingQualityAssurance().check(pd, pts)
    m.event("zero reports")
    m.event("evaluations watched", len(asked))
    # the mean of x over an even sampling of [0, 20] is 10
    m.close(float(r["min_zero_val"]), a, "min-zero", atol=1e-7)
    m.close(float(r["max_zero_val"]), a + 20 * b + c_, "max-zero", atol=1e-7)
    m.close(float(r["average_zero_val"]), a + 10 * b + c_ / 2,
            "average-zero", atol=1e-7)
    u, v = a + 10 * b, a + 10 * b + c_
    var = (20 * b) ** 2 / 12
    m.close(float(r["average_quadratic_zero_val"]),
            (u * u + v * v) / 2 + var, "average-quadratic-zero",
            atol=0.2 * var + 1e-7)
    m.state("law", (rad, wraps))


@check.case(quick=60, thorough=1000, budget=20_000_000)
def zero_of_diagrams(m):
    rng = m.rng
    pd = gen.pick(rng, [gen.table, gen.cloud])(rng)
    pts = test_data(rng, int(rng.integers(1, 5)))
    m.given(diagram=repr(pd)[:300])
    dense = []
    for ws in np.linspace(0, 20, 81):
        for wa in (0, 360):
            try:
                dense.append(float(pd(float(ws), wa)))
            except (ValueError, ZeroDivisionError):  # no value there
                m.event("no value")
    if len(dense) < 100 or values(pd, pts) is None:
        return
    r = ComformingQualityAssurance().check(pd, pts)
    m.event("zero reports")
    lo, hi = r["min_zero_val"], r["max_zero_val"]
    spread = max(dense) - min(dense)
    m.ok(min(dense) - 0.2 * spread - 1e-9 <= lo
         <= r["average_zero_val"] + 1e-9, "zero-order", report=r)
    m.ok(r["average_zero_val"] <= hi + 1e-9
         and hi <= max(dense) + 0.2 * spread + 1e-9, "zero-order", report=r)
    m.ok(r["average_quadratic_zero_val"] + 1e-9
         >= r["average_zero_val"] ** 2, "zero-quadratic-mean", report=r)


@check.case(quick=20, thorough=100)
def no_data(m):
    pd = gen.table(m.rng)
    m.given(diagram=repr(pd)[:300])
    for qa in (MinimalQualityAssurance(), ComformingQualityAssurance()):
        r = qa.check(pd, np.empty((0, 3)))
        m.event("empty reports")
        m.ok(r["max_error"] is None and r["min_error"] is None,
             "no-data-no-error", report=r)
        if "test_covering" in r:
            m.equal(r["test_covering"], 0, "no-data-no-covering")


gen.large_case(check, covering, 2000)
