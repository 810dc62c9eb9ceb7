"""C33: no call modifies the caller's data, earlier results or defaults."""
import copy
import os
import random
from datetime import datetime, timedelta

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas  # noqa: E402

import hrosailing.core.modelfunctions as model  # noqa: E402
import hrosailing.cruising as cr  # noqa: E402
import hrosailing.pipeline as pl  # noqa: E402
import hrosailing.plotting as hplt  # noqa: E402
import hrosailing.polardiagram as pol  # noqa: E402
import hrosailing.processing as pc  # noqa: E402
from hrosailing.core.computing import (  # noqa: E402
    convert_apparent_wind_to_true, convert_true_wind_to_apparent,
    data_dict_to_numpy)
from hrosailing.core.data import Data, WeightedPoints  # noqa: E402
from hrosailing.models import (  # noqa: E402
    FlatMercatorProjection, IdentityInfluenceModel, SphericalGlobe,
    WindAngleCorrectingInfluenceModel)
from hrosailing.models.weather_model import (  # noqa: E402
    GriddedWeatherModel, MultiWeatherModel, WeatherModel)
from hrosailing.pipeline.quality_assurance import (  # noqa: E402
    ComformingQualityAssurance, MinimalQualityAssurance)
from hrosailing.processing.interpolator import ShepardInterpolator  # noqa: E402,E501
from hrv import Check, gen, weather  # noqa: E402

check = Check(
    "C33",
    "Sessions of dozens of public operations on shared objects of the caller "
    "(arrays, lists, dictionaries, frames, data containers, weighted points, "
    "diagrams, models, components) run in random order.  After every single "
    "operation all objects of the caller and everything handed out so far "
    "are compared with their snapshots; then all operations run again in "
    "another order, and once more after everything handed out was "
    "overwritten in place, and have to give the same results.",
    ["operations whose documented purpose is to change their own object "
     "(update, extend, rename, change_entries, fit ...) act on fresh ones",
     "random samples are not compared"],
)


# -- snapshots ---------------------------------------------------------------
def canon(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objects", x.shape, [canon(v) for v in x.ravel()])
        return ("array", str(x.dtype), x.shape,
                np.ascontiguousarray(x).tobytes())
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if isinstance(x, np.generic):
        return repr(x.item())
    if x is None or isinstance(x, (bool, int, str, datetime, timedelta)):
        return repr(x)
    if isinstance(x, dict):
        return ("dict", [
            (canon(k), canon(v)) for k, v in x.items()
            if k != "execution time"])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if isinstance(x, (pandas.DataFrame, pandas.Series)):
        return ("frame", list(map(str, getattr(x, "columns", []))),
                canon(np.asarray(x, object)))
    if isinstance(x, Data):
        return ("data", x.n_rows, x.n_cols,
                [(k, canon(x[k])) for k in x.keys()])
    if isinstance(x, WeightedPoints):
        return ("points", canon(x.data), canon(x.weights))
    if isinstance(x, pol.PolarDiagramMultiSails):
        return ("multi", canon(list(x.sails)), [canon(d) for d in x.diagrams])
    if isinstance(x, pol.PolarDiagramTable):
        return ("table", canon(x.wind_speeds), canon(x.wind_angles),
                canon(x.boat_speeds))
    if isinstance(x, pol.PolarDiagramPointcloud):
        return ("cloud", canon(x.points))
    if isinstance(x, pol.PolarDiagramCurve):
        return ("curve", x.curve.__name__, canon(list(x.parameters)),
                x.radians)
    if isinstance(x, GriddedWeatherModel):
        return ("weather", canon(list(x.grid)), canon(x.data),
                canon(x.attrs))
    if isinstance(x, cr.Direction):
        return ("direction", repr(float(x.angle)), repr(float(x.proportion)),
                x.sail)
    if type(x).__name__ in ("Statistics", "PipelineOutput"):
        return (type(x).__name__, canon(list(x)) if isinstance(x, tuple)
                else canon(vars(x)))
    return type(x).__name__


def alike(a, b):
    """equal up to rounding (which may depend on memory alignment)"""
    if a == b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        try:
            return close(float(a), float(b))
        except ValueError:
            return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b) or type(a) is not type(b):
            return False
        if len(a) == 4 and a[0] == b[0] == "array":
            return (a[1:3] == b[1:3] and a[1].startswith("float")
                    and close(np.frombuffer(a[3], a[1]),
                              np.frombuffer(b[3], b[1])))
        return all(alike(x, y) for x, y in zip(a, b))
    return False


def close(x, y):
    return bool(np.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True))


def spoil(x, seen):
    """the caller overwrites what was handed out, in place"""
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fiu":
            x[...] = 77
        elif x.flags.writeable and x.dtype.kind == "b":
            x[...] = ~x
    elif isinstance(x, list):
        for v in x:
            spoil(v, seen)
        x[:] = ["spoilt"]
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, seen)
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v, seen)
        x.clear()


DOCUMENTED = (ValueError, TypeError, ZeroDivisionError, ArithmeticError,
              LookupError, RuntimeError, AttributeError, NotImplementedError,
              np.linalg.LinAlgError, pol.PolarDiagramException
              if hasattr(pol, "PolarDiagramException") else ValueError)


class Session:
    def __init__(self, m, spoiling=True):
        self.m, self.rng = m, m.rng
        self.objects, self.ops, self.handed = [], [], []
        self.spoiling = spoiling

    def own(self, name, obj):
        self.objects.append((name, obj, canon(obj)))
        return obj

    def op(self, name, fn, det=True, keep=True):
        self.ops.append((name, fn, det, keep))

    def call(self, fn):
        np.random.seed(5)
        random.seed(5)
        try:
            return fn()
        except DOCUMENTED as e:
            self.m.event("rejected")
            return "raised " + type(e).__name__

    def look(self, name):
        m = self.m
        for n, obj, want in self.objects:
            same = canon(obj) == want
            m.ok(same, "caller-data",
                 f"`{name}` changed the caller's `{n}`", operation=name,
                 object=n, now=None if same else repr(obj)[:300])
        m.event("objects inspected", len(self.objects))

    def look_back(self, name):
        m = self.m
        for n, obj, want in self.handed:
            same = canon(obj) == want
            m.ok(same, "handed-out",
                 f"`{name}` changed what `{n}` had handed out",
                 operation=name, object=n,
                 now=None if same else repr(obj)[:300])
        m.event("results inspected", len(self.handed))

    def run(self):
        m, rng = self.m, self.rng
        first = {}
        order = [self.ops[i] for i in rng.permutation(len(self.ops))]
        for name, fn, det, keep in order:
            out = self.call(fn)
            m.event("operations")
            self.look(name)
            first[name] = canon(out)
            if keep:
                self.handed.append((name, out, first[name]))
            if gen.chance(rng, 0.2):
                self.look_back(name)
        self.look_back(order[-1][0])
        again = [self.ops[i] for i in rng.permutation(len(self.ops))]
        self.repeat(again, first, "repeatable")
        self.look_back(again[-1][0])
        if self.spoiling:
            seen = {id(o) for _, o, _ in self.objects}
            for _, out, _ in self.handed:
                spoil(out, seen)
            self.look("overwriting results")
            self.repeat(order, first, "own-copies")
        m.state("order", [n for n, *_ in order])

    def repeat(self, order, first, mech):
        m = self.m
        before = "nothing"
        for name, fn, det, _ in order:
            out = canon(self.call(fn))
            self.look(name)
            if det:
                m.ok(alike(out, first[name]), mech,
                     f"`{name}` gives something else when repeated, "
                     f"after `{before}`", operation=name)
                m.event("repeated")
            before = name


def own_copy(s, name, make, *args):
    """what was built does not depend on what becomes of its ingredients"""
    def build():
        mine = [list(a) if isinstance(a, list) else np.array(a)
                for a in copy.deepcopy(args)]
        x = make(*mine)
        before = canon(x)
        spoil(mine, set())
        s.m.ok(canon(x) == before, "own-copies",
               f"`{name}` shares storage with what it was built from")
        return x

    s.op(f"independent {name}", build)


def some(rng, seq, n):
    """a random choice of the workload's operations"""
    seq = list(seq)
    idx = sorted(rng.permutation(len(seq))[:n])
    return [seq[i] for i in idx]


def either(rng, x):
    """array or (nested) list"""
    return np.array(x) if gen.chance(rng, 0.6) else np.array(x).tolist()


# -- diagrams ----------------------------------------------------------------
def small_curve(rng):
    return gen.lobed_curve(rng)


@check.case(quick=40, thorough=600, budget=40_000_000)
def diagrams(m):
    rng = m.rng
    s = Session(m)
    ws, wa, b = gen.table_parts(rng, 5, 8)
    ws, wa = s.own("ws", either(rng, ws)), s.own("wa", either(rng, wa))
    b = s.own("bsps", either(rng, b))
    pts = s.own("points", either(rng, gen.cloud_points(
        rng, int(rng.integers(2, 12)))))
    t = s.own("table", pol.PolarDiagramTable(ws, wa, b))
    one = s.own("one sided", gen.smooth_table(rng, 3, 7))
    c = s.own("cloud", pol.PolarDiagramPointcloud(pts))
    params = s.own("params", gen.curve_params(rng, "ws_s_s_dt_wa_gauss_comb"))
    cu = s.own("curve", small_curve(rng))
    pds = s.own("diagrams", [t, one, cu][:int(rng.integers(1, 4))])
    names = s.own("names", ["Jib", "Main", "Spi"])
    mu = s.own("multi", pol.PolarDiagramMultiSails(pds, names))
    at_ws = s.own("slice ws", either(rng, np.sort(rng.uniform(3, 15, 2))))
    winds = s.own("winds", np.column_stack(
        [rng.uniform(3, 15, 3), rng.uniform(0, 360, 3)]))
    aws = s.own("array ws", rng.uniform(3, 15, 4))
    awa = s.own("array wa", rng.uniform(-400, 700, 4))
    order = [int(i) for i in rng.permutation(len(ws))]
    new = s.own("new bsps", either(rng, rng.uniform(0, 9, len(wa))))
    new1 = s.own("new entry", either(rng, rng.uniform(0, 9, 1)))
    sel_ws = s.own("selected ws", [float(ws[order[0]])])
    sel_wa = s.own("selected wa", [float(wa[0]) % 360])
    m.given(ws=ws, wa=wa, bsps=b, points=pts)
    d = m.scratch()

    s.op("Table", lambda: pol.PolarDiagramTable(ws, wa, b))
    s.op("Table apparent", lambda: pol.PolarDiagramPointcloud(
        pts, apparent_wind=True))
    s.op("Table steps", lambda: pol.PolarDiagramTable(
        ws_resolution=5, wa_resolution=60))
    s.op("Table default", lambda: pol.PolarDiagramTable())
    s.op("Cloud", lambda: pol.PolarDiagramPointcloud(pts))
    s.op("Curve", lambda: pol.PolarDiagramCurve(
        model.ws_s_s_dt_wa_gauss_comb, *params))
    s.op("Multi", lambda: pol.PolarDiagramMultiSails(pds, names))
    s.op("Multi unnamed", lambda: pol.PolarDiagramMultiSails(pds))
    s.op("Multi too few names", lambda: pol.PolarDiagramMultiSails(
        pds, ["x"]))
    s.op("table getters", lambda: (t.wind_speeds, t.wind_angles,
                                   t.boat_speeds))
    s.op("cloud getters", lambda: (c.points, c.wind_speeds, c.wind_angles,
                                   c.boat_speeds))
    s.op("curve getters", lambda: (cu.parameters, cu.radians))
    s.op("multi getters", lambda: (mu.sails, mu.diagrams))
    s.op("multi item", lambda: mu[mu.sails[0]])

    def edited():
        x = pol.PolarDiagramTable(ws, wa, b)
        views = x.wind_speeds, x.wind_angles, x.boat_speeds
        x.change_entries(new1, ws=sel_ws, wa=sel_wa)
        return views, x.boat_speeds

    def edited_symmetrized():
        x = one.symmetrize()
        x.change_entries([3.0], ws=[float(x.wind_speeds[0])],
                         wa=[float(x.wind_angles[0])])
        return x

    def edited_column():
        x = pol.PolarDiagramTable(ws, wa, b)
        x.change_entries(new, ws=sel_ws)
        return x

    s.op("change_entries", edited)
    s.op("change_entries of a column", edited_column)
    s.op("change_entries of the symmetrized", edited_symmetrized)

    def added():
        x = pol.PolarDiagramPointcloud(pts)
        y = x.points
        x.add_points([[5, 60, 4.0]])
        x.add_points(pts)
        return y, x

    s.op("add_points", added)
    for n, pd in (("table", t), ("one sided", one), ("cloud", c),
                  ("curve", cu), ("multi", mu)):
        s.op(f"{n} symmetrize", pd.symmetrize, keep=n != "multi")
        s.op(f"{n} slices", lambda pd=pd: pd.get_slices(at_ws))
        s.op(f"{n} slices full", lambda pd=pd: pd.get_slices(
            at_ws, n_steps=2, full_info=True))
        s.op(f"{n} default slices", lambda pd=pd: pd.get_slices())
        s.op(f"{n} points", lambda pd=pd: pd.get_points(winds))
        if n != "curve" and n != "multi":
            s.op(f"{n} all points", lambda pd=pd: pd.get_points())
        s.op(f"{n} call", lambda pd=pd: pd(float(aws[0]), float(awa[0])))
        s.op(f"{n} call at 0", lambda pd=pd: pd(float(aws[1]), 0.0))
        if n == "curve":
            s.op("curve call array", lambda pd=pd: pd(aws, awa))
        s.op(f"{n} str", lambda pd=pd: (str(pd), repr(pd)))
        s.op(f"{n} convex", lambda pd=pd, n=n: cr.convex_direction(
            pd, float(at_ws[0]) if n != "cloud" else list(c.wind_speeds)[:1],
            float(c.wind_angles[0]) if n == "cloud" else 40))

        def saved(pd=pd, n=n):
            path = os.path.join(d, n.replace(" ", "") + ".csv")
            pd.to_csv(path)
            return pol.from_csv(path)

        if n != "curve" and not (n == "multi" and len(pds) == 3):
            s.op(f"{n} file", saved)
    itp = pc.ArithmeticMeanInterpolator(params=(50,))
    ball = pc.Ball(radius=1)
    s.op("cloud slices interpolated", lambda: c.get_slices(
        at_ws, interpolator=itp, neighbourhood=ball))
    s.op("table slices idw", lambda: t.get_slices(
        at_ws, interpolator=pc.IDWInterpolator()))
    s.op("table call idw", lambda: t(float(aws[0]), float(awa[0]),
                                     pc.IDWInterpolator(), ball))
    own_copy(s, "table", pol.PolarDiagramTable, ws, wa, b)
    own_copy(s, "cloud", pol.PolarDiagramPointcloud, pts)
    own_copy(s, "multi", pol.PolarDiagramMultiSails, pds, names)
    s.ops = some(rng, s.ops, 32)
    s.run()


# -- points and their processing ----------------------------------------------
@check.case(quick=60, thorough=600, budget=40_000_000)
def points(m):
    rng = m.rng
    s = Session(m)
    n = int(rng.integers(6, 20))
    pts = s.own("points", np.column_stack([
        np.round(rng.uniform(4, 14, n), 2), np.round(
            rng.uniform(0, 360, n), 1), rng.uniform(0.5, 9, n)]))
    # the same directions, written differently
    turned = s.own("turned points", pts + np.column_stack([
        np.zeros(n), 360.0 * rng.integers(-1, 3, n), np.zeros(n)]))
    tw = s.own("turned weighted", WeightedPoints(turned, rng.random(n)))
    lst = s.own("points list", pts.tolist())
    weights = s.own("weights", rng.uniform(0, gen.pick(rng, [1, 1, 4]), n))
    wl = s.own("weights list", weights.tolist())
    cols = s.own("columns", {"TWS": pts[:, 0].tolist(),
                             "TWA": pts[:, 1].tolist(),
                             "BSP": pts[:, 2].tolist()})
    data = s.own("data", Data.from_dict(cols))
    wp = s.own("weighted", WeightedPoints(pts, weights))
    wpd = s.own("weighted data", WeightedPoints(data, weights))
    grid = s.own("grid point", pts[0, :2] + 0.3)
    on = s.own("on a point", pts[1, :2].copy())
    near = s.own("differences", pts[:, :2] - grid)
    m.given(points=pts, weights=weights)

    for f in (convert_apparent_wind_to_true, convert_true_wind_to_apparent):
        s.op(f.__name__, lambda f=f: f(pts))
        s.op(f.__name__ + " list", lambda f=f: f(lst))
    s.op("to numpy", lambda: data_dict_to_numpy(data, ["TWA", "BSP"]))
    s.op("dict to numpy", lambda: data_dict_to_numpy(cols, ["TWA", "BSP"]))
    s.op("weigh points", lambda: WeightedPoints(data, wl))
    s.op("weigh equally", lambda: WeightedPoints(pts, 0.5))
    s.op("some points", lambda: wp[weights > 0.3])
    s.op("some records", lambda: wpd[weights > 0.3])
    s.op("slice", lambda: data.get_slice(["TWS", "BSP"]))
    s.op("records", lambda: data.rows())
    s.op("numerical", lambda: data.numerical)
    s.op("concatenate", lambda: Data.concatenate([data, data]))

    tws, twa = (pc.FuzzyVariable(key=k) for k in ("TWS", "TWA"))
    statement = (tws > 6) & (twa < 200) | ~(tws < 9)
    weighers = [
        ("mean", pc.CylindricMeanWeigher()),
        ("wide mean", pc.CylindricMeanWeigher(radius=0.5)),
        ("member", pc.CylindricMemberWeigher(radius=0.3, length=2)),
        ("own dims", pc.CylindricMeanWeigher(
            dimensions=s.own("dims", ["TWS", "TWA", "BSP"]))),
        ("all one", pc.AllOneWeigher()),
        ("combined", pc.CylindricMeanWeigher(radius=0.3)
         * pc.CylindricMemberWeigher(radius=0.3)),
        ("scaled", 0.5 * pc.CylindricMemberWeigher(radius=0.3)),
    ]
    for k, w in weighers:
        s.op(f"weigher {k} array", lambda w=w: w.weigh(pts))
        s.op(f"weigher {k} data", lambda w=w: w.weigh(data))
    s.op("default weigher", lambda: pc.CylindricMeanWeigher().weigh(pts))
    fuzzy = pc.FuzzyWeigher(statement)
    s.op("fuzzy", lambda: fuzzy.weigh(data))
    s.op("fuzzy parts", lambda: [float(((tws > 6) | statement)(r))
                                 for r in data.rows()])
    for k, f in (("quantile", pc.QuantileFilter()),
                 ("bound", pc.BoundFilter(lower_bound=0.2, upper_bound=0.7))):
        s.op(f"filter {k}", lambda f=f: f.filter(weights))
        s.op(f"filter {k} statistics", lambda f=f: (
            f.filter(weights), dict(f.get_latest_statistics()))[1])
    mat = s.own("matrix", np.vstack([np.eye(2), -np.eye(2)]))
    bounds = s.own("bounds", np.array([2.0, 30, 2, 30]))
    lin = s.own("transform", np.array([[1.0, 0.2], [0, 0.5]]))
    for k, nb in (("ball", pc.Ball(0.2)), ("scaling", pc.ScalingBall(4)),
                  ("ellipsoid", pc.Ellipsoid(lin, radius=0.3)),
                  ("cuboid", pc.Cuboid(dimensions=(3, 60))),
                  ("polytope", pc.Polytope(mat, bounds)),
                  ("default ellipsoid", pc.Ellipsoid()),
                  ("default polytope", pc.Polytope())):
        s.op(f"neighbourhood {k}", lambda nb=nb: nb.is_contained_in(near))
    for k, ip in (("idw", pc.IDWInterpolator()),
                  ("mean", pc.ArithmeticMeanInterpolator(params=(50,))),
                  ("improved", pc.ImprovedIDWInterpolator()),
                  ("shepard", ShepardInterpolator(pc.Ball(radius=1)))):
        s.op(f"interpolate {k}", lambda ip=ip: ip.interpolate(wp, grid))
        s.op(f"interpolate {k} on", lambda ip=ip: ip.interpolate(wp, on))
    for k, sa in (("random", pc.UniformRandomSampler(9)),
                  ("fibonacci", pc.FibonacciSampler(9)),
                  ("archimedean", pc.ArchimedeanSampler(9))):
        s.op(f"sample {k}", lambda sa=sa: sa.sample(pts), det=False)
        s.op(f"sample winds {k}", lambda sa=sa: sa.sample(pts[:, :2]),
             det=False)
    zeros = pc.ZeroInjector(7)
    s.op("inject", lambda: zeros.inject(wp))
    guess = s.own("initial guess", [1.0, 0.1, 0.1])

    def law(ws, wa, a, b_, c):
        return a + b_ * ws + c * np.sin(np.deg2rad(wa))

    if n > 6:
        odr = pc.ODRegressor(law, guess)
        lsq = pc.LeastSquareRegressor(law, guess)
        s.op("odr", lambda: (odr.fit(pts), odr.optimal_params)[1])
        s.op("least squares", lambda: (
            lsq.fit(lst), lsq.optimal_params)[1])
        ext = pl.CurveExtension(regressor=pc.LeastSquareRegressor(law, guess))
        s.op("curve extension", lambda: ext.process(wp))
        for k, d in (("turned", turned), ("as given", pts)):
            s.op(f"odr {k}", lambda d=d: (odr.fit(d), odr.optimal_params)[1])
            s.op(f"least squares {k}", lambda d=d: (
                lsq.fit(d), lsq.optimal_params)[1])
        s.op("curve extension turned", lambda: ext.process(tw))
    for k, ext in (("table", pl.TableExtension()),
                   ("coarse", pl.TableExtension(wind_resolution=s.own(
                       "resolution", ([12, 4, 8], [300, 10, 45, 90])))),
                   ("coarse arrays", pl.TableExtension(wind_resolution=s.own(
                       "resolution arrays", (np.array([12.0, 4, 8]),
                                             np.array([300.0, 10, 45]))))),
                   ("auto", pl.TableExtension(wind_resolution="auto",
                                              neighbourhood=pc.Ball(1)))):
        s.op(f"extension {k}", lambda ext=ext: ext.process(wp))
    s.op("cloud extension", lambda: pl.PointcloudExtension(
        sampler=pc.FibonacciSampler(6)).process(wp), det=False)
    for name, k in gen.CURVES.items():
        f = getattr(model, name)
        p = s.own(f"parameters of {name}",
                  np.array(gen.curve_params(rng, name)))
        col_ws, col_wa = pts[:, 0], pts[:, 1]
        s.op(f"function {name}", lambda f=f, p=p: f(col_ws, col_wa, *p))
        s.op(f"function {name} scalar",
             lambda f=f, p=p: float(f(6.0, 0.0, *p)))
    for k, qa in (("minimal", MinimalQualityAssurance()),
                  ("conforming", ComformingQualityAssurance())):
        pd = s.own(f"judged {k}", gen.smooth_table(rng, 3, 8))
        s.op(f"quality {k}", lambda qa=qa, pd=pd: qa.check(pd, pts))
    s.ops = some(rng, s.ops, 45)
    s.run()


# -- records -----------------------------------------------------------------
def journal(rng, n, gaps=True):
    t = datetime(2021, 5, 6, 7)
    times = []
    for _ in range(n):
        t += timedelta(seconds=float(gen.pick(rng, [1, 5, 15, 200, 0])))
        times.append(t)
    cols = {"datetime": times,
            "TWS": [float(x) for x in np.repeat(np.round(
                rng.uniform(3, 12, n), 1), 3)[:n]],
            "TWA": [float(x) for x in np.round(rng.uniform(0, 359, n), 1)],
            "BSP": [float(x) for x in np.round(rng.uniform(0, 9, n), 1)],
            "lat": [float(x) for x in 50 + rng.uniform(0, 1, n)],
            "lon": [float(x) for x in 4 + rng.uniform(0, 1, n)],
            "HDT": [float(x) for x in rng.uniform(0, 360, n)],
            "note": [gen.pick(rng, ["a", "b", "c"]) for _ in range(n)]}
    if gaps:
        for k in cols:
            if k == "datetime":
                continue
            for i in range(n):
                if gen.chance(rng, 0.08):
                    cols[k][i] = None
    return cols


class Sky(WeatherModel):
    def get_weather(self, point):
        if point[1] > 50.9:
            raise ValueError("not here")
        return {"TEMP": round(float(point[1]), 4), "SEA": 2.0}


@check.case(quick=25, thorough=200, budget=40_000_000)
def records(m):
    rng = m.rng
    s = Session(m)
    n = int(rng.integers(3, 16))
    cols = s.own("columns", journal(rng, n))
    data = s.own("data", Data.from_dict(cols))
    full = s.own("complete", Data.from_dict(journal(rng, n, gaps=False)))
    raw = s.own("dictionary", {k: list(full[k]) for k in (
        "TWS", "TWA", "BSP", "HDT")})
    m.given(columns=cols)
    for k, imp in (("remove", pc.RemoveOnlyImputator()),
                   ("fill", pc.FillLocalImputator()),
                   ("fill mid", pc.FillLocalImputator(
                       fill_between=lambda name, left, right, mu:
                       left if isinstance(left, str)
                       else left + (right - left) * mu))):
        s.op(f"impute {k}", lambda imp=imp: imp.impute(data))
        s.op(f"impute complete {k}", lambda imp=imp: imp.impute(full))
        s.op(f"impute {k} statistics", lambda imp=imp: (
            imp.impute(data), dict(imp.get_latest_statistics()))[1])
    affine = pc.AffineSmoother()
    s.op("smooth affine", lambda: affine.smooth(full))
    s.op("smooth gaps", lambda: affine.smooth(data))
    s.op("smooth new", lambda: pc.AffineSmoother().smooth(full))
    s.op("smooth lazy", lambda: pc.LazySmoother().smooth(full))
    attrs, uppers = s.own("attributes", ["TWS", "BSP"]), s.own(
        "bounds", [5, 7])
    fl = pc.FluctuationWeigher(attrs, timedelta(seconds=20), uppers)
    s.op("fluctuation", lambda: fl.weigh(full))
    s.op("expand lazy", lambda: pl.LazyExpander().expand(full))
    ex = pl.WeatherExpander(Sky())
    s.op("expand", lambda: ex.expand(full))
    for k, d in (("data", full), ("dictionary", raw)):
        s.op(f"identity {k}",
             lambda d=d: IdentityInfluenceModel().remove_influence(d))
        im = WindAngleCorrectingInfluenceModel()
        s.op(f"correct {k}", lambda d=d, im=im: im.remove_influence(d))
        s.op(f"fit {k}", lambda d=d:
             (lambda im: (im.fit(d), im.remove_influence(d)))(
                 WindAngleCorrectingInfluenceModel()))
    pd = s.own("diagram", gen.smooth_table(rng, 3, 8))
    winds = s.own("influence data", {"TWS": raw["TWS"][:2],
                                     "TWA": raw["TWA"][:2]})
    s.op("add influence",
         lambda: IdentityInfluenceModel().add_influence(pd, winds))
    s.op("add correction", lambda: WindAngleCorrectingInfluenceModel()
         .add_influence(pd, winds))

    def standard():
        x = Data.from_dict(renamed)
        x.hrosailing_standard_format()
        return x

    renamed = s.own("synonyms", {
        gen.pick(rng, ["True Wind Speed", "wind-speed", "TWS"]): raw["TWS"],
        gen.pick(rng, ["twa", "Wind_Angles"]): raw["TWA"],
        gen.pick(rng, ["Boat Speed", "speed over ground"]): [
            str(x) for x in raw["BSP"]]})
    s.op("standard format", standard)

    def edit():
        x = Data.from_dict(cols)
        y = Data.from_dict(renamed)
        part = x[["TWS", "BSP"]] if gen.chance(
            np.random.default_rng(3), 0.5) else x.get_slice(["TWS"])
        x.extend("TWS", [1.5])
        x.update(extra)
        x.fill()
        x.rename("TWA", "angle")
        x.delete("HDT")
        x.strip("rows")
        y.update({"fresh": [1.0, 2.0]})
        return x, y, part

    extra = s.own("extra columns", {"TWS": [3.0], "more": [1, 2]})
    s.op("edit a copy", edit)
    s.op("column", lambda: list(data["TWS"]))
    s.op("rows", lambda: (data.rows(), data.rows(return_type=list)
                          if False else None))
    names = s.own("names", ["TWS", "TWA", "BSP"])
    arr = s.own("array", np.column_stack([raw[k] for k in names]))
    frame = s.own("frame", pandas.DataFrame(arr, columns=[
        "Wind Speed", "wind angle", "boat-speed"]))
    h = pc.ArrayHandler()
    s.op("handle array", lambda: h.handle((arr, names)))
    s.op("handle frame", lambda: h.handle(frame))
    s.op("handler statistics", lambda: (
        h.handle(frame), dict(h.get_latest_statistics()))[1])
    path = os.path.join(m.scratch(), "x.csv")
    frame.to_csv(path, index=False)
    ch = pc.CsvFileHandler()
    s.op("handle csv", lambda: ch.handle(path))
    log = os.path.join(m.scratch(), "x.nmea")
    with open(log, "w", encoding="utf-8") as f:
        for i in range(4):
            for body in (f"WIMWV,{20 + i}.0,R,{9 + i}.5,N,A",
                         f"IIVHW,,T,{30 + i}.0,M,0{i}.5,N,1.0,K"):
                cs = 0
                for ch_ in body:
                    cs ^= ord(ch_)
                f.write(f"${body}*{cs:02X}\n")
    sent = s.own("sentences", ["MWV", "VHW"])
    nh = pc.NMEAFileHandler(wanted_sentences=sent)
    s.op("handle nmea", lambda: nh.handle(log))
    s.op("handle nmea default", lambda: pc.NMEAFileHandler().handle(log))
    s.ops = some(rng, s.ops, 32)
    s.run()


# -- models and voyages --------------------------------------------------------
@check.case(quick=30, thorough=500, budget=60_000_000)
def voyages(m):
    rng = m.rng
    s = Session(m)
    start = datetime(2021, 5, 6)
    times = s.own("times", [start + timedelta(hours=6 * i)
                            for i in range(-1, 4)])
    lats = s.own("lats", either(rng, [49.0, 50.0, 51.0]))
    lons = s.own("lons", either(rng, [3.0, 4.0, 5.0]))
    attrs = s.own("attrs", ["TWS", "TWA"])
    values = s.own("values", np.stack([
        rng.uniform(5, 12, (5, 3, 3)), rng.uniform(20, 60, (5, 3, 3))], -1))
    wm = s.own("weather", GriddedWeatherModel(values, times, lats, lons,
                                              attrs))
    other = s.own("other weather", GriddedWeatherModel(
        values[..., :1], times, lats, lons, s.own("other attrs", ["SST"])))
    pd = s.own("diagram", gen.smooth_table(rng, 4, 14))
    cu = s.own("curve", gen.lobed_curve(rng))
    p = s.own("start", [49.5, 3.5] if gen.chance(rng, 0.5)
              else np.array([49.5, 3.5]))
    q = s.own("end", (49.6, 3.9))
    wind = s.own("wind", [8.0, 40.0])
    infl = s.own("influence data", {"heel": 3.0})
    subs = s.own("models", [wm, other])
    multi = MultiWeatherModel(*subs)
    m.given(values=values, start=p)

    class Heel(IdentityInfluenceModel):
        def add_influence(self, pd, influence_data):
            return 0.9 * np.array(super().add_influence(pd, influence_data))

    pt = s.own("point", [start + timedelta(hours=1.25), 49.3, 4.4])
    s.op("weather", lambda: wm.get_weather(pt))
    s.op("weather tuple", lambda: wm.get_weather(tuple(pt)))
    s.op("weather outside", lambda: wm.get_weather((start, 10, 10)))
    s.op("multi weather", lambda: multi.get_weather(pt))
    s.op("multi models", lambda: [canon(x) for x in subs])
    s.op("grid", lambda: (wm.grid, wm.data, wm.attrs))
    s.op("model", lambda: GriddedWeatherModel(values, times, lats, lons,
                                              attrs))
    own_copy(s, "weather", GriddedWeatherModel, values, times, lats, lons,
             attrs)
    path = os.path.join(m.scratch(), "w.json")

    def saved():
        wm.to_file(path)
        return GriddedWeatherModel.from_file(path)

    s.op("weather file", saved)
    for k, b in (("table", pd), ("curve", cu)):
        s.op(f"cruise {k}", lambda b=b: cr.cruise(b, p, q, wind))
        s.op(f"cruise {k} uv", lambda b=b: cr.cruise(
            b, p, q, wind, wind_fmt="uv_grd"))
        s.op(f"cruise {k} influence", lambda b=b: cr.cruise(
            b, p, q, wind, im=Heel(), influence_data=infl))
        s.op(f"cost {k}", lambda b=b: cr.cost_cruise(
            b, p, q, start, wm, im=IdentityInfluenceModel()))
        s.op(f"isochrone {k}", lambda b=b: cr.isochrone(
            b, p, start, 70, wm, im=IdentityInfluenceModel(),
            total_time=0.5, min_nodes=10))
        s.op(f"convex {k}", lambda b=b: cr.convex_direction(b, 8.0, 30))
    places = s.own("places", either(rng, np.column_stack(
        [rng.uniform(-80, 80, 4), rng.uniform(-180, 180, 4)])))
    others = s.own("others", either(rng, np.column_stack(
        [rng.uniform(-80, 80, 4), rng.uniform(-180, 180, 4)])))
    for g in (SphericalGlobe(), FlatMercatorProjection()):
        k = type(g).__name__
        s.op(f"{k} project", lambda g=g: g.project(places))
        xyz = s.own(f"{k} projected", np.array(g.project(places)))
        s.op(f"{k} lat_lon", lambda g=g, xyz=xyz: g.lat_lon(xyz))
        s.op(f"{k} distance of two", lambda g=g: g.distance(
            places[0], others[0]))
        s.op(f"{k} path", lambda g=g: g.shortest_path(
            places[0], others[0], res=5))
        s.op(f"{k} projected path", lambda g=g, xyz=xyz:
             g.shortest_projected_path(xyz[0], xyz[1], res=5))
    s.ops = some(rng, s.ops, 20)
    s.run()


# -- pipelines -----------------------------------------------------------------
@check.case(quick=25, thorough=400, budget=60_000_000)
def pipelines(m):
    rng = m.rng
    s = Session(m)
    names = s.own("names", ["TWS", "TWA", "BSP"])

    def arr(n):
        return np.column_stack([
            np.round(rng.uniform(4, 12, n), 1),
            np.round(rng.uniform(0, 359, n)), rng.uniform(0.5, 8, n)])

    train = s.own("training", [(arr(int(rng.integers(4, 15))), names)
                               for _ in range(int(rng.integers(1, 3)))])
    test = s.own("test", (arr(6), names))
    frame = s.own("frame", pandas.DataFrame(arr(7), columns=names))
    timed = s.own("timed frame", pandas.DataFrame({
        "datetime": [datetime(2021, 5, 6) + timedelta(seconds=7 * i)
                     for i in range(9)],
        **dict(zip(names, arr(9).T))}))
    m.given(training=train, test=test)

    def pipe(extension=None, **kw):
        return pl.PolarPipeline(
            data_handler=pc.ArrayHandler(), imputator=pc.RemoveOnlyImputator(),
            injector=pc.ZeroInjector(3), extension=extension
            or pl.TableExtension(wind_resolution=([4, 8, 12], [30, 90, 150])),
            **kw)

    shared = pipe()
    s.op("run", lambda: shared.execute([train[0]]).polardiagram)
    s.op("run all", lambda: shared.execute(train).polardiagram)
    s.op("run statistics", lambda: shared.execute(
        train, [test]).training_statistics)
    s.op("run frame", lambda: shared.execute([frame]).polardiagram)
    s.op("run with test", lambda: shared.execute(train, [test]))
    s.op("run unweighted", lambda: shared.execute(
        train, pre_weighing=False, post_weighing=False).polardiagram)
    s.op("run without injection", lambda: shared.execute(
        train, injecting=False).polardiagram)
    s.op("fresh run", lambda: pipe().execute(train).polardiagram)
    s.op("defaults", lambda: pl.PolarPipeline(
        data_handler=pc.ArrayHandler(), extension=pl.TableExtension(
            wind_resolution=([4, 8], [30, 90]))).execute([timed]).polardiagram)
    s.op("minmax", lambda: pipe(pl.TableExtension(wind_resolution=(
        [5, 10], None))).execute([train[0]]).polardiagram)
    s.op("quality", lambda: pipe(
        quality_assurance=ComformingQualityAssurance()).execute(
            train, [test]).test_statistics)
    s.ops = some(rng, s.ops, 7)
    s.run()


# -- plots ---------------------------------------------------------------------
@check.case(quick=16, thorough=150, budget=60_000_000)
def plots(m):
    rng = m.rng
    s = Session(m)
    ws = s.own("ws", either(rng, [6.0, 9.0]))
    colors = s.own("colors", ["red", "green", "blue"])
    pairs = s.own("pairs", [(6.0, "red"), (9.0, "black")])
    t = s.own("table", gen.smooth_table(rng, 3, 8))
    c = s.own("cloud", gen.cloud(rng, n=9))
    cu = s.own("curve", gen.lobed_curve(rng))
    mu = s.own("multi", pol.PolarDiagramMultiSails(
        [t, cu], s.own("names", ["Jib", "Main"])))
    sl = s.own("slices", [np.array(x) for x in t.get_slices(ws)[1]])

    def drawn(draw, *a, **k):
        try:
            fig = plt.figure()
            draw(fig, *a, **k)
            ax = fig.axes[0]
            return ([np.array(ln.get_xydata()) for ln in ax.lines],
                    [np.array(x.get_offsets()) for x in ax.collections])
        finally:
            plt.close("all")

    def on(kind, method):
        def f(fig, *a, **k):
            getattr(fig.add_subplot(projection=f"hro {kind}"), method)(
                *a, **k)
        return f

    for n, pd in (("table", t), ("cloud", c), ("curve", cu), ("multi", mu)):
        for kind in ("polar", "flat"):
            s.op(f"{kind} {n}", lambda pd=pd, kind=kind: drawn(
                on(kind, gen.pick(np.random.default_rng(1),
                                  ["plot", "scatter"])), pd, ws=ws))
            s.op(f"{kind} {n} colors", lambda pd=pd, kind=kind: drawn(
                on(kind, "plot"), pd, ws=ws, colors=colors,
                show_legend=True))
            s.op(f"{kind} {n} pairs", lambda pd=pd, kind=kind: drawn(
                on(kind, "plot"), pd, ws=ws, colors=pairs))
            s.op(f"{kind} {n} hull", lambda pd=pd, kind=kind: drawn(
                on(kind, "plot"), pd, ws=ws, use_convex_hull=True))
    s.op("gradient", lambda: drawn(on("color gradient", "plot"), t))
    s.op("surface", lambda: drawn(on("3d", "plot_surface"), t)[0])
    for kind in ("polar", "flat"):
        fn = getattr(hplt, f"plot_{kind}", None)
        if fn:
            s.op(f"plot_{kind}", lambda fn=fn: drawn(
                lambda fig: fn(t, ws=ws)))
    s.ops = some(rng, s.ops, 10)
    s.run()
