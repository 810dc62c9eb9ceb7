"""C27: injected points and smoothed series respect the measured data."""
import datetime as dt

import numpy as np

from hrosailing.core.data import Data, WeightedPoints
from hrosailing.processing import AffineSmoother, LazySmoother, ZeroInjector
from hrv import Check, gen

check = Check(
    "C27",
    "Time series with plateaus of all lengths, ramps, single records, "
    "irregular and equal time stamps, missing values and further columns of "
    "all types are smoothed with all time spans; values are compared with an "
    "independent piecewise affine interpolation through the documented "
    "knots, and with the range of the neighbouring readings.  Point sets are "
    "injected into with all numbers of artificial points.",
    ["angles are smoothed as numbers, as the library does, not around the "
     "circle"],
)

T0 = dt.datetime(2022, 3, 1, 10)


def column(rng, n, kind):
    if kind == 0:  # plateaus
        out, v = [], float(np.round(rng.uniform(0, 20), 1))
        p = float(gen.pick(rng, [0.1, 0.3, 0.6]))
        for _ in range(n):
            if rng.uniform() < p:
                v = float(np.round(v + rng.normal(0, 3), 1))
            out.append(v)
        return out
    if kind == 1:  # ramp
        return [float(3 + 0.5 * i) for i in range(n)]
    if kind == 2:  # constant
        return [7.5] * n
    if kind == 3:  # noise
        return [float(x) for x in rng.uniform(-20, 400, n)]
    if kind == 4:  # up and back to the same values
        return [float(gen.pick(rng, [0.0, 1.0, 1.0, 2.0])) for _ in range(n)]
    # hardly different readings
    step = float(gen.pick(rng, [1e-2, 1e-3, 1e-4, 1e-6]))
    base = float(gen.pick(rng, [0.0, 5.0, 359.0]))
    return [base + step * int(gen.pick(rng, [0, 1, 1, 2]))
            for _ in range(n)]


def stamps(rng, n, kind):
    if kind == 0:
        step = float(gen.pick(rng, [0.5, 1, 10, 20, 120]))
        secs = np.arange(n) * step
    elif kind == 1:
        secs = np.cumsum(rng.uniform(0.1, 60, n))
    elif kind == 2:  # with long pauses
        secs = np.cumsum(rng.choice([1.0, 2.0, 500.0], n))
    else:  # several records per second
        secs = np.cumsum(rng.choice([0.0, 0.0, 1.0, 5.0], n))
    return [T0 + dt.timedelta(seconds=float(np.round(s, 3))) for s in secs]


def runs(ys):
    """(first, last, value) of the constant intervals"""
    out = []
    for i, y in enumerate(ys):
        if out and out[-1][2] == y:
            out[-1][1] = i
        else:
            out.append([i, i, y])
    return out


def knots(xs, ys, span):
    rs = runs(ys)
    kx, ky = [], []
    for j, (a, b, y) in enumerate(rs):
        lo = xs[0] if j == 0 else (xs[a - 1] + xs[a]) / 2
        hi = xs[-1] if j == len(rs) - 1 else (xs[b] + xs[b + 1]) / 2
        before = y if j == 0 else (rs[j - 1][2] + y) / 2
        after = y if j == len(rs) - 1 else (rs[j + 1][2] + y) / 2
        if hi - lo < 2 * span:
            mid = (lo + hi) / 2
            part = [(lo, before), (mid, y), (hi, after)]
        else:
            part = [(lo, before), (lo + span, y), (hi - span, y),
                    (hi, after)]
        kx += [p[0] for p in part]
        ky += [p[1] for p in part]
    return kx, ky


def neighbours(xs, ys):
    """range of the readings around every record"""
    rs = runs(ys)
    of = {i: j for j, (a, b, _) in enumerate(rs) for i in range(a, b + 1)}
    out = []
    for i, x in enumerate(xs):
        same = [k for k in range(len(xs)) if xs[k] == x]
        js = {of[k] + d for k in same for d in (-1, 0, 1)}
        vals = [rs[j][2] for j in js if 0 <= j < len(rs)]
        out.append((min(vals), max(vals)))
    return out


def raw(data):
    return {k: list(v) for k, v in data.data.items()}


@check.case(quick=1500, thorough=20000)
def smoothing(m):
    rng = m.rng
    n = int(gen.pick(rng, [1, 2, 3, int(rng.integers(3, 40)),
                           int(rng.integers(3, 40))]))
    if gen.chance(rng, 0.02):
        n = int(rng.integers(100, 300))
    n = gen.scaled(rng, n)
    tkind = int(rng.integers(4))
    ts = stamps(rng, n, tkind)
    span = gen.pick(rng, [None, 0, 0.75, 1, 7.5, 15, 30, 600, 90000])
    cols = {"datetime": ts, "TWS": column(rng, n, int(rng.integers(6))),
            "TWA": column(rng, n, int(rng.integers(6)))}
    if gen.chance(rng, 0.5):
        cols["name"] = [f"r{i // 3}" for i in range(n)]
    for k in ("lat", "lon", "BSP", "SOG", "AWS", "heel", "temp", ""):
        if gen.chance(rng, 0.12):
            cols[k] = column(rng, n, int(rng.integers(6)))
    if gen.chance(rng, 0.3):
        cols["valid"] = [i % 2 == 0 for i in range(n)]
    missing = gen.chance(rng, 0.25)
    if missing:
        c = cols["TWS"]
        for i in range(n):
            if rng.uniform() < 0.3:
                c[i] = None
    if gen.chance(rng, 0.5):
        names = list(cols)
        cols = {names[i]: cols[names[i]] for i in rng.permutation(len(names))}
    m.given(columns=cols, timespan=span)
    data = Data.from_dict(cols)
    types = {k: data.type(k) for k in cols}
    sm = (AffineSmoother() if span is None
          else AffineSmoother(dt.timedelta(seconds=span)))
    span = 30.0 if span is None else float(span)
    with m.steps(20_000 * (n + 1)):
        out = sm.smooth(data)
    m.event("series smoothed")
    m.equal(raw(data), cols, "smooth-data-unchanged",
            "the data given was modified")
    got = raw(out)
    m.equal(list(got), list(cols), "smooth-columns")
    m.equal(out.n_rows, n, "smooth-records")
    for k, v in cols.items():
        if types[k] is not float:
            m.equal(got[k], v, "smooth-other-columns",
                    "a column that is no reading changed", column=k)
            continue
        known = [i for i in range(n) if v[i] is not None]
        m.equal([x is None for x in got[k]], [x is None for x in v],
                "smooth-missing-stay", column=k)
        if not known:
            continue
        xs = [(ts[i] - ts[0]).total_seconds() for i in known]
        ys = [v[i] for i in known]
        g = [got[k][i] for i in known]
        m.event("readings", len(known))
        m.equal(len(g), len(ys), "smooth-count")
        if len(set(ys)) == 1:
            m.close(g, ys, "smooth-constant", "a constant series changed")
            m.event("constant")
        for x, y, got_, (lo, hi) in zip(xs, ys, g, neighbours(xs, ys)):
            eps = 1e-7 * (hi - lo) + 1e-12 * (abs(lo) + abs(hi))
            m.ok(lo - eps <= got_ <= hi + eps, "smooth-between",
                 "not between the neighbouring different readings",
                 column=k, reading=y, got=got_, lo=lo, hi=hi)
        if all(b > a for a, b in zip(xs, xs[1:])):
            kx, ky = knots(xs, ys, span)
            want = np.interp(xs, kx, ky)
            m.close(g, want, "smooth-affine",
                    "not the affine interpolation between the intervals",
                    rtol=0, atol=1e-7 * (max(ys) - min(ys))
                    + 1e-12 * max(map(abs, ys)), column=k)
            m.event("compared with the knots", len(xs))
            m.close((g[0], g[-1]), (ys[0], ys[-1]), "smooth-ends")
            steps = {b - a for a, b in zip(xs, xs[1:])}
            if len(steps) == 1 and len(runs(ys)) == n and len(
                    {round(b - a, 9) for a, b in zip(ys, ys[1:])}) == 1:
                m.close(g, ys, "smooth-ramp", "a smooth series changed")
                m.event("ramps")
            if span == 0:
                m.close(g, ys, "smooth-no-span", atol=1e-9)
    # the result is the caller's own
    for k in list(got):
        out[k][0] = None
    m.equal(raw(data), cols, "smooth-result-owned")
    m.state("shape", (n, tkind, span, missing))


@check.case(quick=60, thorough=600)
def order_of_time(m):
    rng = m.rng
    n = int(rng.integers(2, 15))
    secs = np.cumsum(rng.uniform(1, 50, n))
    i, j = sorted(rng.choice(n, 2, replace=False))
    secs[[i, j]] = secs[[j, i]]
    ts = [T0 + dt.timedelta(seconds=float(s)) for s in secs]
    cols = {"datetime": ts, "TWS": column(rng, n, 0)}
    m.given(columns=cols)
    data = Data.from_dict(cols)
    m.raises(ValueError, lambda: AffineSmoother().smooth(data),
             "unordered-rejected", "a series out of order")
    m.equal(raw(data), cols, "unordered-unchanged")
    m.event("rejected")


@check.case(quick=40, thorough=400)
def nothing_to_do(m):
    rng = m.rng
    n = int(rng.integers(1, 20))
    cols = {"TWS": column(rng, n, 0), "name": [str(i) for i in range(n)]}
    m.given(columns=cols)
    data = Data.from_dict(cols)
    out = LazySmoother().smooth(data)
    m.equal(raw(out), cols, "lazy-smoother")
    m.event("lazy")


@check.case(quick=600, thorough=8000)
def injecting(m):
    rng = m.rng
    n = gen.scaled(rng, rng.integers(1, 40))
    k = gen.scaled(rng, gen.pick(rng, [0, 1, 2, 5, 17]))
    pts = np.column_stack([rng.uniform(0, 30, n), rng.uniform(0, 360, n),
                           rng.uniform(0, 15, n)])
    if gen.chance(rng, 0.2):
        pts[:, 0] = pts[0, 0]
    if gen.chance(rng, 0.2):
        pts[int(rng.integers(n)), 1:] = 0
    w = rng.uniform(0, 1, n)
    m.given(points=pts, weights=w, n_zeros=k)
    wp = WeightedPoints(pts.copy(), w.copy())
    inj = ZeroInjector(k)
    app = inj.inject(wp)
    m.event("injected", k)
    m.equal(wp.data, pts, "inject-points-unchanged")
    m.equal(wp.weights, w, "inject-weights-unchanged")
    new = np.asarray(app.data)
    m.equal(new.shape, (2 * k, 3), "inject-number")
    m.equal(np.asarray(app.weights), np.ones(2 * k), "inject-weights")
    m.equal(new[:, 2], np.zeros(2 * k), "inject-zero-speed")
    for a in (0, 360):
        ws = np.sort(new[new[:, 1] == a, 0])
        m.close(ws, np.linspace(pts[:, 0].min(), pts[:, 0].max(), k),
                "inject-spread", "not equally distributed over the winds",
                angle=a)
    stats = inj.get_latest_statistics()
    m.equal(stats.get("n_injected"), 2 * k, "inject-statistics")
    wp.extend(app)
    m.equal(wp.data, np.concatenate([pts, new]), "extend-points",
            "the given points are not all there, followed by the new ones")
    m.equal(wp.weights, np.concatenate([w, np.ones(2 * k)]),
            "extend-weights")


@check.case(quick=30, thorough=300)
def bad_points(m):
    rng = m.rng
    kind = int(rng.integers(4))
    data = [np.empty((0, 3)), np.ones((4, 2)), np.ones(3),
            np.array([])][kind]
    m.given(kind=kind)
    m.raises(ValueError, lambda: ZeroInjector(3).inject(
        WeightedPoints(data, np.ones(len(data)))), "bad-points-rejected",
        f"points of shape {data.shape}")
    m.event("rejected")
    m.raises(TypeError, lambda: ZeroInjector(3).inject(
        WeightedPoints([[1, 2, 3]], np.ones(1))), "bad-type-rejected",
        "points in a list")


gen.large_case(check, smoothing, 2000)
gen.large_case(check, injecting, 2000)
