"""C25: pipeline extensions turn points into the matching polar diagram."""
import warnings

import numpy as np

from hrosailing.core.data import WeightedPoints
from hrosailing.pipeline import (CurveExtension, PointcloudExtension,
                                 TableExtension)
from hrosailing.pipeline.extensions import InterpolationWarning
from hrosailing.polardiagram import PolarDiagramTable
from hrosailing.processing import (ArchimedeanSampler,
                                   ArithmeticMeanInterpolator, Ball, Cuboid,
                                   Ellipsoid, FibonacciSampler,
                                   IDWInterpolator, ImprovedIDWInterpolator,
                                   Interpolator, LeastSquareRegressor,
                                   Regressor, Sampler, ScalingBall,
                                   UniformRandomSampler)
from hrv import Check, gen

check = Check(
    "C25",
    "Weighted points of all shapes (scattered, on the grid, dense, few, at "
    "the extreme winds) are processed by every extension with all kinds of "
    "resolutions, neighbourhoods, samplers, interpolators and regressors; "
    "each entry of the diagram is compared with the component applied to the "
    "neighbours selected here, and components that record what they are "
    "given are compared with the points.",
    ["angles are not wrapped when neighbours are selected",
     "'min_max' and 'auto' are judged by their ends, their order and their "
     "distinctness only"],
)


class Recording(Interpolator):
    """A value that depends on every neighbour, weight and on the point."""

    def __init__(self):
        self.asked = []

    def interpolate(self, w_pts, grid_pt):
        self.asked.append((np.array(w_pts.data), np.array(w_pts.weights),
                           np.array(grid_pt)))
        return signature(w_pts.data, w_pts.weights, grid_pt)


def signature(pts, weights, at):
    return float(np.sum(pts[:, 2] * weights) / np.sum(weights)
                 + 0.01 * np.sum(pts[:, 0]) + 0.001 * np.sum(pts[:, 1])
                 + at[0] * 0.3 + at[1] * 0.007)


class Listed(Sampler):
    def __init__(self, pts):
        self.pts = pts
        self.given = []

    def sample(self, pts):
        self.given.append(np.array(pts))
        return self.pts.copy()


class Watched(Sampler):
    def __init__(self, inner):
        self.inner, self.out = inner, []

    def sample(self, pts):
        self.out.append(np.array(self.inner.sample(pts)))
        return self.out[-1].copy()


def points(rng, n_min=1):
    kind = int(rng.integers(6))
    n = int(rng.integers(n_min, 60))
    ws, wa = rng.uniform(0.5, 20, n), rng.uniform(0, 360, n)
    if kind == 0 and gen.chance(rng, 0.3):  # hardly any wind
        ws[rng.integers(n)] = gen.pick(rng, [0.05, 0.2, 0.45])
    if kind == 1:  # whole numbers, also at the ends
        ws, wa = np.round(ws), np.round(wa)
    elif kind == 2:  # dense in a small range
        n = int(rng.integers(100, 400))
        lo, a = rng.uniform(1, 20), rng.uniform(0, 300)
        ws = rng.uniform(lo, lo + rng.uniform(0, 5), n)
        wa = rng.uniform(a, a + rng.uniform(0, 60), n)
    elif kind == 3:  # the full circle
        wa[0] = gen.pick(rng, [0.0, 0.3])
        wa[-1] = gen.pick(rng, [359.8, 360.0, 359.0])
    elif kind == 4:  # one wind speed or one angle
        if gen.chance(rng, 0.5):
            ws[:] = ws[0]
        else:
            wa[:] = wa[0]
    elif kind == 5:  # dense at steps of the automatic resolution
        n = int(rng.integers(100, 300))
        ws = gen.pick(rng, [2.0, 10.0, 18.0]) + rng.choice([0., 2., 4.], n)
        wa = gen.pick(rng, [0.0, 30.0, 200.0]) + rng.choice(
            [0., 5., 40., 160.], n)
    bsp = rng.uniform(0, 15, len(ws))
    pts = np.column_stack([ws, wa, bsp])
    w = (np.ones(len(pts)) if gen.chance(rng, 0.3)
         else rng.uniform(0.05, 1, len(pts)))
    return pts, w


def neighbourhood(rng):
    r = float(rng.choice([0.5, 2, 10, 40, 200]))
    return gen.pick(rng, [
        lambda: Ball(radius=r),
        lambda: Ball(norm=lambda x: np.linalg.norm(x, axis=1), radius=r),
        lambda: Cuboid(dimensions=(r / 10, r)),
        lambda: Ellipsoid(radius=r),
        lambda: ScalingBall(min_pts=int(rng.integers(1, 6)))])()


def interpolator(rng):
    return gen.pick(rng, [
        lambda: ArithmeticMeanInterpolator(
            params=(float(rng.choice([5, 50])),)),
        lambda: IDWInterpolator(p=int(rng.integers(1, 4))),
        lambda: ImprovedIDWInterpolator(),
        lambda: Recording(), lambda: Recording(), lambda: Recording()])()


def expected(pts, w, at, nb, interp):
    """(value, has neighbours) at one wind"""
    mask = np.asarray(nb.is_contained_in(pts[:, :2] - at), bool)
    if not mask.any():
        return 0.0, False
    near, nw = pts[mask], w[mask]
    if isinstance(interp, Recording):
        return signature(near, nw, at), True
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return float(interp.interpolate(WeightedPoints(near, nw), at)), True


def processed(m, ext, pts, w):
    with m.unmutated("points-unchanged", points=pts, weights=w):
        wp = WeightedPoints(pts, w)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            pd = ext.process(wp)
        m.ok(wp.data is pts or np.array_equal(wp.data, pts),
             "points-unchanged")
    return pd, any(issubclass(c.category, InterpolationWarning)
                   for c in caught)


def judge_entries(m, got, winds, pts, w, nb, interp, warned, kind):
    bare = 0
    asked = list(getattr(interp, "asked", ()))
    for g, at in zip(got, winds):
        want, has = expected(pts, w, at, nb, interp)
        bare += not has
        if has:
            m.close(g, want, "interpolated-value", f"{kind} at {at}",
                    rtol=1e-9, atol=1e-9)
        else:
            m.ok(g == 0, "no-neighbours-zero", f"{kind} at {at}", got=g)
        m.event("entry judged")
    m.event("wind without neighbours", bare)
    m.equal(warned, bare > 0, "no-neighbours-warning",
            "a warning tells about winds without neighbours")
    if isinstance(interp, Recording):
        m.equal(len(asked), len(winds) - bare, "one-interpolation-per-wind")
    m.state("entries", (kind, type(nb).__name__, type(interp).__name__,
                        bare > 0, bare == len(winds)))


@check.case(quick=500, thorough=8000, budget=30_000_000)
def table(m):
    rng = m.rng
    pts, w = points(rng)
    nb, interp = neighbourhood(rng), interpolator(rng)
    mode = gen.pick(rng, ["auto", "min_max", "arrays", "steps", "mixed",
                          "arrays", "steps", "mixed", "default"])
    if mode in ("auto", "min_max"):
        res = mode
    elif mode == "default":
        res = gen.pick(rng, [None, (None, None), (None, 90), (9, None),
                             (gen.wind_speeds(rng, 2).tolist(), None)])
    else:
        ws = (float(rng.choice([5, 8, 12.5])) if mode == "steps" or (
            mode == "mixed" and gen.chance(rng, 0.5))
            else gen.wind_speeds(rng, int(rng.integers(1, 6))))
        wa = (float(rng.choice([30, 45, 100])) if mode == "steps" or (
            mode == "mixed" and np.ndim(ws))
            else gen.wind_angles(rng, int(rng.integers(1, 8))))
        if gen.chance(rng, 0.4):
            ws, wa = np.asarray(ws).tolist(), np.asarray(wa).tolist()
        res = (ws, wa)
    m.given(points=pts, weights=w, resolution=res,
            neighbourhood=repr(nb), interpolator=type(interp).__name__)
    ext = TableExtension(wind_resolution=res, neighbourhood=nb,
                         interpolator=interp)
    pd, warned = processed(m, ext, pts, w)
    ws, wa = np.asarray(pd.wind_speeds), np.asarray(pd.wind_angles)
    lo, hi = np.round(pts[:, 0].min()), np.round(pts[:, 0].max())
    if mode == "auto" or mode == "min_max":
        m.ok(np.all(np.diff(ws) > 0) and np.all(np.diff(wa) > 0),
             "distinct-winds", f"{mode}: {ws} {wa}")
        m.ok(ws[0] == lo and ws[-1] <= hi and ws[-1] > hi - 2,
             "resolution-of-the-data", f"{mode}: {ws} in [{lo}, {hi}]")
        if mode == "auto":
            a, b = np.round(pts[:, 1].min()), np.round(pts[:, 1].max())
            m.equal(ws[-1], hi, "resolution-of-the-data", "auto: last")
            m.ok({a % 360, b % 360} <= set(wa) and np.all(
                (wa >= a) & (wa <= b) | (wa == b % 360)),
                "resolution-of-the-data", f"auto: {wa} in [{a}, {b}]")
            # crowded winds are kept, empty ranges are not
            for x, got, step, many in ((pts[:, 0], ws, 2, 200),
                                       (pts[:, 1], wa, 5, 60)):
                x = x[(x >= round(x.min())) & (x <= round(x.max()))]
                if not len(x):
                    continue
                for v in range(int(x.min()) // step * step + step,
                               int(x.max()) + 1, step):
                    n_below = np.sum((x >= v - step) & (x <= v))
                    n_above = np.sum((x >= v) & (x <= v + step))
                    if min(n_below, n_above) >= many:
                        m.ok(v % 360 in got, "resolution-of-the-data",
                             f"auto: many points at {v}: {got}")
                        m.event("crowded wind")
                    elif n_below == n_above == 0:
                        m.ok(v % 360 not in got, "resolution-of-the-data",
                             f"auto: no points at {v}: {got}")
                        m.event("empty wind")
        m.event(f"resolution {mode}")
    else:
        # the same resolution of a table without speeds
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            like = PolarDiagramTable(*(res or (None, None)))
        m.equal(ws, like.wind_speeds, "given-resolution", "wind speeds")
        m.equal(wa, like.wind_angles, "given-resolution", "wind angles")
    winds = [(s, a) for a in wa for s in ws]
    if len(winds) > 150 and not m.thorough:
        keep = rng.permutation(len(winds))[:150]
    else:
        keep = np.arange(len(winds))
    flat = np.asarray(pd.boat_speeds).ravel()
    if isinstance(interp, Recording):
        keep = np.arange(len(winds))
    if len(keep) == len(winds):
        # angles are compared as given to the neighbourhood
        judge_entries(m, flat, [np.array(x) for x in winds], pts, w, nb,
                      interp, warned, "table")
    else:
        for i in keep:
            want, has = expected(pts, w, np.array(winds[i]), nb, interp)
            m.close(flat[i], want, "interpolated-value",
                    f"table at {winds[i]}")
            m.event("entry judged")
    # components are used as configured, again and again
    pd2, _ = processed(m, ext, pts, w)
    m.equal(pd2.boat_speeds, pd.boat_speeds, "repeatable")
    m.equal(pd2.wind_angles, pd.wind_angles, "repeatable")
    # what was processed before does not matter
    other, w3 = points(rng)
    a, _ = processed(m, ext, other, w3)
    b, _ = processed(m, TableExtension(
        wind_resolution=res, neighbourhood=nb, interpolator=interp),
        other, w3)
    for get in ("wind_speeds", "wind_angles", "boat_speeds"):
        m.equal(getattr(a, get), getattr(b, get), "history-free", get)
    m.event("entry judged", a.boat_speeds.size)


@check.case(quick=300, thorough=5000, budget=30_000_000)
def cloud(m):
    rng = m.rng
    pts, w = points(rng, 8)
    pts[:, 1] %= 360
    nb, interp = neighbourhood(rng), interpolator(rng)
    flat = np.ptp(pts[:, 0]) < 1e-3 or np.ptp(pts[:, 1]) < 1e-3 or \
        np.linalg.matrix_rank(pts[:, :2] - pts[0, :2]) < 2
    n = int(rng.integers(1, 40))
    kind = gen.pick(rng, ["listed"] * 3 + ["uniform", "fib", "arch"])
    if flat or n < 3 or kind == "listed":
        kind = "listed"
        s = np.column_stack([rng.uniform(0.5, 20, n),
                             rng.uniform(0, 359.9, n)])
        for i in range(0, n, 3):
            s[i] = pts[int(rng.integers(len(pts))), :2]
        sampler = Listed(s)
    else:
        sampler = Watched({"uniform": UniformRandomSampler,
                           "fib": FibonacciSampler,
                           "arch": ArchimedeanSampler}[kind](n))
    m.given(points=pts, weights=w, sampler=kind, n=n,
            neighbourhood=repr(nb), interpolator=type(interp).__name__)
    ext = PointcloudExtension(sampler=sampler, neighbourhood=nb,
                              interpolator=interp)
    pd, warned = processed(m, ext, pts, w)
    if kind == "listed":
        m.equal(len(sampler.given), 1, "sampled-once")
        m.equal(sampler.given[0][:, :2], pts[:, :2], "sampled-data",
                "the sampler gets the data")
        s = sampler.pts
    else:
        m.equal(len(sampler.out), 1, "sampled-once")
        s = sampler.out[0]
    got = np.asarray(pd.points)
    m.equal(got.shape, (len(s), 3), "one-point-per-sample")
    m.close(got[:, 0], s[:, 0], "sampled-winds", "wind speeds", atol=0,
            rtol=0)
    m.close_angle(got[:, 1], s[:, 1], "sampled-winds", "wind angles",
                  atol=1e-9)
    if kind != "listed":
        lo, hi = pts[:, :2].min(0) - 1e-6, pts[:, :2].max(0) + 1e-6
        m.ok(np.all((got[:, :2] >= lo) & (got[:, :2] <= hi)),
             "within-the-data", f"{kind} samples")
    judge_entries(m, got[:, 2], list(s), pts, w, nb, interp, warned, "cloud")


class Recorder(Regressor):
    def __init__(self, func, params):
        self._func, self._params = func, params
        self.fits, self._now = [], None

    @property
    def model_func(self):
        return self._func

    @property
    def optimal_params(self):
        return self._now

    def fit(self, data):
        self.fits.append(np.array(data))
        self._now = self._params[len(self.fits) - 1]


def waves(ws, wa, a, b, c):
    """Takes angles in radians."""
    return a * ws + b * np.sin(wa / 2) ** 2 + c


def slopes(ws, wa, a, b, c):
    return a * ws + b * wa / 100 + c


@check.case(quick=250, thorough=4000, budget=30_000_000)
def curve(m):
    rng = m.rng
    pts, w = points(rng, 6)
    radians = gen.chance(rng, 0.5)
    func = gen.pick(rng, [waves, slopes])
    params = [tuple(float(x) for x in rng.uniform(0.1, 2, 3))
              for _ in range(3)]
    m.given(points=pts, weights=w, radians=radians, func=func.__name__,
            params=params)
    rec = Recorder(func, params)
    ext = CurveExtension(regressor=rec, radians=radians)
    for k in range(int(rng.integers(1, 4))):
        pd, _ = processed(m, ext, pts, w)
        want = pts.copy()
        if radians:
            want[:, 1] = np.radians(want[:, 1])
        m.equal(len(rec.fits), k + 1, "fitted-once")
        m.close(rec.fits[k], want, "fitted-data",
                "the regressor gets the points in its angles", rtol=1e-12,
                atol=1e-12)
        m.ok(pd.curve is func, "fitted-function")
        m.equal([float(x) for x in pd.parameters], list(params[k]),
                "fitted-parameters")
        m.equal(pd.radians, radians, "radians")
        for _ in range(3):
            ws, wa = float(rng.uniform(0.5, 30)), float(rng.uniform(0, 359))
            m.close(gen.at(pd, ws, wa), func(
                ws, np.radians(wa) if radians else wa, *params[k]),
                "fitted-values", f"at {ws} {wa}")
            m.event("curve value judged")
        m.state("fit", (k, radians, func.__name__))


@check.case(quick=60, thorough=800, budget=30_000_000)
def recover(m):
    """Fitted curves reproduce the function behind the points."""
    rng = m.rng
    n = int(rng.integers(20, 60))
    radians = gen.chance(rng, 0.5)
    func = waves if radians else slopes
    p = tuple(float(x) for x in rng.uniform(0.2, 2, 3))
    pts = np.column_stack([rng.uniform(1, 20, n), rng.uniform(0, 360, n),
                           np.zeros(n)])
    pts[:, 2] = func(pts[:, 0], np.radians(pts[:, 1]) if radians
                     else pts[:, 1], *p)
    m.given(points=pts, params=p, radians=radians)
    ext = CurveExtension(
        regressor=LeastSquareRegressor(func, init_vals=(1, 1, 1)),
        radians=radians)
    for _ in range(2):
        pd, _ = processed(m, ext, pts, np.ones(n))
        for ws, wa, bsp in pts[:10]:
            m.close(gen.at(pd, ws, wa), bsp, "fitted-values", f"at {ws} {wa}",
                    rtol=1e-5, atol=1e-5)
            m.event("recovered value judged")


@check.case(quick=40, thorough=600, budget=30_000_000)
def default_parts(m):
    """Parts not given are the documented ones."""
    rng = m.rng
    pts, w = points(rng, 8)
    m.given(points=pts, weights=w)
    nb, interp = Ball(radius=1), ArithmeticMeanInterpolator(params=(50,))
    a, _ = processed(m, TableExtension(), pts, w)
    b, _ = processed(m, TableExtension("min_max", nb, interp), pts, w)
    for get in ("wind_speeds", "wind_angles", "boat_speeds"):
        m.equal(getattr(a, get), getattr(b, get), "defaults", get)
    s = np.column_stack([rng.uniform(0.5, 20, 5), rng.uniform(0, 359, 5)])
    s[0] = pts[0, :2] % 360
    a, _ = processed(m, PointcloudExtension(sampler=Listed(s)), pts, w)
    b, _ = processed(m, PointcloudExtension(
        sampler=Listed(s), neighbourhood=nb, interpolator=interp), pts, w)
    m.equal(a.points, b.points, "defaults", "points")
    m.event("defaults compared")
