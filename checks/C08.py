"""C08: interpolators reproduce data, stay within it, ignore its order."""
import math

import numpy as np

from hrosailing.core.computing import (
    euclidean_norm,
    scaled_euclidean_norm,
    scaled_norm,
)
from hrosailing.core.data import WeightedPoints
from hrosailing.core.exceptions import (
    BilinearInterpolatorNoGridException,
    BilinearInterpolatorOutsideGridException,
)
from hrosailing.processing import (
    ArithmeticMeanInterpolator,
    Ball,
    IDWInterpolator,
    ImprovedIDWInterpolator,
    ScalingBall,
)
from hrosailing.processing.interpolator import (
    BilinearGridInterpolator,
    ShepardInterpolator,
)
from hrv import Check, gen, ref

check = Check(
    "C08",
    "Weighted point sets (scattered, on grids, single, equidistant, "
    "collinear) are interpolated at data winds, near data, between and "
    "outside by every interpolator with random parameters and norms; results "
    "are compared with independent implementations of the documented "
    "weighting, the data range, and the result for the permuted points.",
    ["data winds are distinct"],
)


def manhattan(v):
    return np.abs(v[:, 0]) / 40 + np.abs(v[:, 1]) / 360


def bare(distances, weights):
    return (0.5 + weights) / (1 + distances)


NORMS = {"scaled": scaled_euclidean_norm, "euclid": euclidean_norm,
         "manhattan": manhattan}


def point_set(rng):
    kind = int(rng.integers(6))
    n = gen.size(rng, 1, 30, 400)
    pts = gen.cloud_points(rng, n=n)
    if kind == 1:  # a grid
        ws = gen.wind_speeds(rng, int(rng.integers(1, 5)))
        wa = gen.wind_angles(rng, int(rng.integers(1, 6)))
        b = gen.bsps(rng, len(wa), len(ws))
        pts = ref.table_points(ws, wa, b)
    elif kind == 2:  # equidistant around a centre
        c = np.array([20.0, 180.0])
        k = int(rng.integers(1, 5))
        off = np.array([[4, 0], [-4, 0], [0, 36], [0, -36]])[:k]
        pts = np.column_stack([c + off, rng.uniform(0, 20, k)])
    elif kind == 3:  # a tight cluster and a far point
        pts = gen.cloud_points(rng, n=max(2, n))
        pts[:-1, :2] = pts[0, :2] + rng.normal(
            size=(len(pts) - 1, 2)) * 10.0 ** -rng.uniform(2, 9)
    elif kind == 4:
        pts[:, 2] = float(rng.uniform(-3, 20))
    # distinct winds
    u = {(p[0], p[1]): p for p in pts}
    pts = np.array(list(u.values()))
    return pts[rng.permutation(len(pts))], kind


def query(rng, pts, kind):
    k = int(rng.integers(4))
    if kind == 2 and gen.chance(rng, 0.7):
        return np.array([20.0, 180.0])
    if k == 0:
        return pts[int(rng.integers(len(pts))), :2].copy()
    if k == 1:
        return pts[int(rng.integers(len(pts))), :2] + rng.normal(
            size=2) * gen.pick(rng, [1, 1, 1e-2, 1e-5, 1e-8])
    return np.array([rng.uniform(0, 40), rng.uniform(0, 360)])


def weights_for(rng, n):
    k = int(rng.integers(4))
    if k == 0:
        return 1, np.ones(n)
    w = rng.uniform(0, 1, n)
    if k == 2:
        w = np.round(w)
    if k == 3:
        w = w * 3
    return w, w


@check.case(quick=1500, thorough=20000)
def distance_weighted(m):
    rng = m.rng
    pts, kind = point_set(rng)
    at = query(rng, pts, kind)
    warg, w = weights_for(rng, len(pts))
    nname = gen.pick(rng, sorted(NORMS))
    norm = NORMS[nname]
    dist = norm(pts[:, :2] - at)
    which = gen.pick(rng, ["idw", "mean", "improved", "mean-own",
                           "mean-bare"])
    s = 1
    if which == "idw":
        p = int(rng.integers(0, 6))
        it = IDWInterpolator(p=p, norm=norm)
        formula = lambda q, d, v: ref.idw(q, at, p, dist=d)  # noqa: E731
        par = p
        if dist.max() and (dist[dist > 0].min() / dist.max()) ** p < 1e-250:
            return
    elif which == "mean":
        par = float(rng.uniform(0.1, 200))
        s = float(gen.pick(rng, [1, 1, 2.5, 0.3]))
        if nname == "euclid":
            par /= 40
        it = ArithmeticMeanInterpolator(s=s, norm=norm, params=(par,))
        formula = lambda q, d, v: ref.arithmetic_mean(  # noqa: E731
            q, at, weights=v, alpha=par, s=s, dist=d)
        if gen.chance(rng, 0.2) and nname != "euclid":
            par = 100
            it = ArithmeticMeanInterpolator(s, norm)
        if np.max(par * w * dist) > 600:
            return
    elif which == "mean-own":
        par = float(rng.uniform(0.5, 3))
        distr = lambda d, v, a=par: (0.1 + v) / (1 + d) ** a  # noqa: E731
        it = ArithmeticMeanInterpolator(
            norm=norm, distribution=lambda d, v, a: (0.1 + v) / (1 + d) ** a,
            params=(par,))
        formula = lambda q, d, v: ref.arithmetic_mean(  # noqa: E731
            q, at, weights=v, dist=d, distr=distr)
    elif which == "mean-bare":  # a distribution without any parameters
        par = None
        it = gen.pick(rng, [
            lambda: ArithmeticMeanInterpolator(norm=norm, distribution=bare),
            lambda: ArithmeticMeanInterpolator(
                norm=norm, distribution=bare, params=()),
        ])()
        formula = lambda q, d, v: ref.arithmetic_mean(  # noqa: E731
            q, at, weights=v, dist=d, distr=bare)
    else:
        par = None
        it = ImprovedIDWInterpolator(norm=norm)
        formula = lambda q, d, v: ref.improved_idw(q, at, d)  # noqa: E731
    m.given(pts=pts, at=at, w=warg, which=which, par=par, norm=nname, s=s)
    wp = WeightedPoints(pts.copy(), np.copy(warg) if np.ndim(warg) else warg)
    keep = (pts.copy(), at.copy(), w.copy())
    got = it.interpolate(wp, at)
    m.equal((wp.data, at, wp.weights), keep, "inputs-kept")
    m.ok(np.ndim(got) == 0 and np.isfinite(got), which + "-finite", got=got)
    hit = np.flatnonzero(dist == 0)
    if len(hit):
        m.equal(got, pts[hit[0], 2], which + "-exact-at-data")
        m.event("at-data")
    else:
        m.close(got, formula(pts, dist, w), which + "-formula", rtol=1e-8,
                atol=1e-9)
        lo, hi = pts[:, 2].min(), pts[:, 2].max()
        tol = 1e-9 * (1 + abs(hi))
        m.ok(lo - tol <= got / s <= hi + tol, which + "-range",
             f"{got} not in {s}*[{lo}, {hi}]")
        m.event("between-data")
    o = rng.permutation(len(pts))
    again = it.interpolate(WeightedPoints(pts[o], w[o]), at)
    m.close(again, got, which + "-order", rtol=1e-9, atol=1e-9)
    m.state("kind", (which, nname, kind))
    # the interpolator keeps no memory of other data
    other, k2 = point_set(rng)
    try:
        it.interpolate(WeightedPoints(other, 1), query(rng, other, k2))
    except ZeroDivisionError:
        pass
    m.equal(it.interpolate(wp, at), got, which + "-repeatable")


@check.case(quick=400, thorough=4000)
def shepard(m):
    rng = m.rng
    n = gen.size(rng, 2, 14, 60, 0.05)
    pts = np.column_stack([rng.uniform(0, 10, n), rng.uniform(0, 10, n),
                           rng.uniform(0, 15, n)])
    at = rng.uniform(0, 10, 2)
    if gen.chance(rng, 0.2):
        at = pts[int(rng.integers(n)), :2].copy()
    const = gen.chance(rng, 0.2)
    if const:
        pts[:, 2] = float(rng.uniform(0, 10))
    slope = float(gen.pick(rng, [0.1, 0.5, 0.01]))
    k = int(rng.integers(3))
    if k == 0:
        r = float(rng.uniform(0.3, 15))
        nh = Ball(radius=r, norm=euclidean_norm)
        inside = lambda d: np.hypot(d[:, 0], d[:, 1]) <= r  # noqa: E731
    elif k == 1:
        q = int(rng.integers(1, n))
        nh = ScalingBall(q, norm=euclidean_norm)

        def inside(d):
            h = np.hypot(d[:, 0], d[:, 1])
            return h <= sorted(h)[q - 1]
    else:
        nh = Ball(radius=100, norm=euclidean_norm)
        inside = lambda d: np.ones(len(d), bool)  # noqa: E731
    m.given(pts=pts, at=at, slope=slope, nh=repr(nh))
    it = ShepardInterpolator(nh, slope=slope, norm=euclidean_norm)
    got = it.interpolate(WeightedPoints(pts.copy(), 1), at)
    d = euclidean_norm(pts[:, :2] - at)
    if np.any(d == 0):
        m.equal(got, pts[np.argmin(d), 2], "shepard-exact-at-data")
    elif const:
        m.close(got, pts[0, 2], "shepard-constant", rtol=1e-9)
    else:
        m.close(got, ref.shepard(pts, at, inside, slope, d),
                "shepard-formula", rtol=1e-6, atol=1e-7)
        o = rng.permutation(n)
        m.close(it.interpolate(WeightedPoints(pts[o], 1), at), got,
                "shepard-order", rtol=1e-7, atol=1e-8)
    m.event("shepard")
    # within the tolerance of data, the data is preferred
    tol = float(gen.pick(rng, [0.3, 1, 3, 8]))
    it = ShepardInterpolator(nh, tol, slope, euclidean_norm)
    near = pts[d < tol, 2]
    if len(near) and not np.any(np.abs(d - tol) < 1e-9):
        got = it.interpolate(WeightedPoints(pts.copy(), 1), at)
        if np.any(d == 0):
            m.equal(got, pts[np.argmin(d), 2], "shepard-exact-at-data")
        elif len(near) == 1:
            m.close(got, near[0], "shepard-tolerance")
        m.ok(near.min() - 1e-9 <= got <= near.max() + 1e-9,
             "shepard-tolerance", f"{got} with {near} in reach")
        for _ in range(2):
            o = rng.permutation(n)
            m.close(it.interpolate(WeightedPoints(pts[o], 1), at), got,
                    "shepard-order", rtol=1e-9, atol=1e-9)
        m.event("within tolerance", len(near))
    # constant and exact also with the default norm
    wind = pts * [4, 36, 1]
    it = ShepardInterpolator(ScalingBall(1))
    got = it.interpolate(WeightedPoints(wind.copy(), 1), at * [4, 36])
    dw = scaled_euclidean_norm(wind[:, :2] - at * [4, 36])
    if np.any(dw == 0):
        m.equal(got, wind[np.argmin(dw), 2], "shepard-exact-at-data")
    elif const:
        m.close(got, pts[0, 2], "shepard-constant", rtol=1e-6)


def bilinear(c, x, y):
    return c[0] + c[1] * x + c[2] * y + c[3] * x * y


@check.case(quick=800, thorough=8000)
def bilinear_grid(m):
    rng = m.rng
    nw, na = gen.size(rng, 1, 6, 30), gen.size(rng, 1, 7, 60)
    ws = np.sort(gen.wind_speeds(rng, nw))
    wa = np.sort(gen.wind_angles(rng, na))
    na = len(wa)
    whole = gen.chance(rng, 0.5)
    c = rng.normal(size=4)
    b = (bilinear(c, ws[None, :], wa[:, None]) if whole
         else gen.bsps(rng, na, nw))
    pts = ref.table_points(ws, wa, b)
    o = rng.permutation(len(pts))
    wp = WeightedPoints(pts[o], 1)
    it = BilinearGridInterpolator()
    m.given(ws=ws, wa=wa, b=b)
    for _ in range(6):
        i = int(rng.integers(max(1, na - 1)))
        j = int(rng.integers(max(1, nw - 1)))
        i2, j2 = min(i + 1, na - 1), min(j + 1, nw - 1)
        fx, fy = rng.uniform(0, 1, 2)
        if gen.chance(rng, 0.3):
            fx = float(gen.pick(rng, [0, 1]))
        if gen.chance(rng, 0.3):
            fy = float(gen.pick(rng, [0, 1]))
        x = ws[j] if fx == 0 else ws[j2] if fx == 1 else \
            ws[j] + fx * (ws[j2] - ws[j])
        y = wa[i] if fy == 0 else wa[i2] if fy == 1 else \
            wa[i] + fy * (wa[i2] - wa[i])
        got = it.interpolate(wp, np.array([x, y]))
        cell = np.array([[b[i, j], b[i, j2]], [b[i2, j], b[i2, j2]]])
        gx = 0 if j == j2 else (x - ws[j]) / (ws[j2] - ws[j])
        gy = 0 if i == i2 else (y - wa[i]) / (wa[i2] - wa[i])
        want = ((1 - gy) * ((1 - gx) * cell[0, 0] + gx * cell[0, 1])
                + gy * ((1 - gx) * cell[1, 0] + gx * cell[1, 1]))
        m.close(got, want, "bilinear-cell", rtol=1e-9, atol=1e-9)
        tol = 1e-9 * (1 + abs(cell).max())
        m.ok(cell.min() - tol <= got <= cell.max() + tol, "bilinear-range")
        if whole:
            m.close(got, bilinear(c, x, y), "bilinear-reproduced",
                    rtol=1e-7, atol=1e-7)
        if fx in (0, 1) and fy in (0, 1):
            m.equal(got, cell[i2 - i if fy else 0, j2 - j if fx else 0],
                    "bilinear-exact-at-data")
        m.event("bilinear")
    e = float(rng.uniform(0.01, 5))
    for q in ((ws[0] - e, wa[0]), (ws[-1] + e, wa[0]),
              (ws[0], wa[0] - e), (ws[-1], wa[-1] + e)):
        m.raises(BilinearInterpolatorOutsideGridException,
                 lambda: it.interpolate(wp, np.array(q)),  # noqa: B023
                 "bilinear-outside")
        m.event("outside")


@check.case(quick=300, thorough=3000)
def bilinear_no_grid(m):
    rng = m.rng
    nw, na = int(rng.integers(3, 6)), int(rng.integers(3, 7))
    ws = np.sort(gen.wind_speeds(rng, nw))
    wa = np.sort(gen.distinct(rng, 0, 360, na))
    b = gen.bsps(rng, na, nw)
    i, j = int(rng.integers(na - 1)), int(rng.integers(nw - 1))
    x = ws[j] + rng.uniform(0.1, 0.9) * (ws[j + 1] - ws[j])
    y = wa[i] + rng.uniform(0.1, 0.9) * (wa[i + 1] - wa[i])
    corner = (i + int(rng.integers(2)), j + int(rng.integers(2)))
    pts = np.array([(ws[q], wa[p], b[p, q]) for p in range(na)
                    for q in range(nw) if (p, q) != corner])
    rng.shuffle(pts)
    m.given(pts=pts, x=x, y=y)
    m.raises(BilinearInterpolatorNoGridException,
             lambda: BilinearGridInterpolator().interpolate(
                 WeightedPoints(pts, 1), np.array([x, y])),
             "bilinear-missing-corner")
    k = gen.pick(rng, [2, 4])
    m.raises(BilinearInterpolatorNoGridException,
             lambda: BilinearGridInterpolator().interpolate(
                 WeightedPoints(np.ones((4, k)), 1), np.array([1, 1])),
             "bilinear-wrong-columns")
    m.event("no-grid", 2)


@check.case(quick=100, thorough=300)
def settings(m):
    rng = m.rng
    v = -float(rng.uniform(0.1, 9))
    m.given(v=v)
    m.raises(ValueError, lambda: IDWInterpolator(p=int(v) - 1), "bad-setting")
    m.raises(TypeError, lambda: IDWInterpolator(p=-v + 0.5), "bad-setting")
    m.raises(ValueError, lambda: ArithmeticMeanInterpolator(v), "bad-setting")
    m.raises(ValueError, lambda: ShepardInterpolator(Ball(), tol=v),
             "bad-setting")
    m.raises(ValueError, lambda: ShepardInterpolator(Ball(), slope=v),
             "bad-setting")
    m.raises(ValueError, lambda: IDWInterpolator().interpolate(
        WeightedPoints(np.empty((0, 3)), 1), np.array([1, 1])),
        "no-points")


@check.case(quick=200, thorough=3000)
def norms(m):
    """the library's norms, which the other cases measure with"""
    rng = m.rng
    n, d = int(rng.integers(0, 8)), int(rng.integers(1, 6))
    v = rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-6, 4)
    if gen.chance(rng, 0.3):
        v[:, int(rng.integers(d))] = 0
    if gen.chance(rng, 0.1):
        v[:] = 0
    s = rng.uniform(0.01, 3, d)
    m.given(v=v, s=s)

    def want(v):
        return [math.sqrt(sum(x * x for x in row)) for row in v.tolist()]

    with m.unmutated("points-kept", v=v, s=s):
        m.close(euclidean_norm(v), want(v), "euclidean-norm", rtol=1e-9,
                atol=0)
        sc = gen.pick(rng, [s, s.tolist(), tuple(s.tolist())])
        m.close(scaled_norm(euclidean_norm, sc)(v), want(v * s),
                "scaled-norm", rtol=1e-9, atol=0)
        m.close(scaled_norm(lambda x: np.abs(x).sum(axis=1), sc)(v),
                np.abs(v * s).sum(axis=1), "scaled-norm", rtol=1e-9, atol=0)
        if d in (2, 3):
            f = np.array([1 / 40, 1 / 360, 1 / 20])[:d]
            m.close(scaled_euclidean_norm(v), want(v * f), "standard-norm",
                    rtol=1e-9, atol=0)
        else:
            m.raises(NotImplementedError, lambda: scaled_euclidean_norm(v),
                     "norm-dimensions")
    m.event("norm", n)


@check.case(quick=1, thorough=1)
def shepard_scaled_probe(m):
    """scaling the winds and scaling the norm have to agree"""
    rng = np.random.default_rng(0)
    pts = np.column_stack([rng.uniform(2, 20, 12), rng.uniform(0, 360, 12),
                           rng.uniform(5, 6, 12)])
    at = np.array([10, 180.0])
    m.given(pts=pts, at=at)
    got = ShepardInterpolator(Ball(0.5)).interpolate(
        WeightedPoints(pts, 1), at)
    sc = np.array([1 / 40, 1 / 360])
    want = ref.shepard(np.column_stack([pts[:, :2] * sc, pts[:, 2]]),
                       at * sc, lambda d: np.hypot(*d.T) <= 0.5)
    m.ok(abs(got - want) < 1e-6, "shepard-default-norm",
         f"speeds in [5, 6], scaled Shepard gives {want}, got {got}")


gen.large_case(check, distance_weighted, 2000)
