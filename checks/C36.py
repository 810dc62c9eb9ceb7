"""C36: arguments left out take their documented values."""
import datetime as dt
import os

import matplotlib
import numpy as np

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from scipy.integrate import trapezoid  # noqa: E402

import hrosailing.core.modelfunctions as model  # noqa: E402
from hrosailing.core.data import Data, WeightedPoints  # noqa: E402
from hrosailing import cruising  # noqa: E402
from hrosailing.models import (  # noqa: E402
    FlatMercatorProjection,
    SphericalGlobe,
    WindAngleCorrectingInfluenceModel,
)
from hrosailing.models.weather_model import (  # noqa: E402
    MultiWeatherModel,
    WeatherModel,
)
from hrosailing.pipeline import (  # noqa: E402
    CurveExtension,
    PointcloudExtension,
    TableExtension,
    WeatherExpander,
)
from hrosailing.polardiagram import (  # noqa: E402
    PolarDiagramCurve,
    PolarDiagramPointcloud,
    PolarDiagramTable,
    from_csv,
)
from hrosailing import processing as pc  # noqa: E402
from hrosailing.processing.interpolator import (  # noqa: E402
    ShepardInterpolator,
)
import hrosailing.plotting  # noqa: E402,F401 - registers projections
from hrv import Check, gen  # noqa: E402

check = Check(
    "C36",
    "For every documented default, the call that leaves the argument out and "
    "the call that passes the documented value (norms written out from their "
    "documented formulas) are run on the same generated input; their results "
    "are compared. A third call passes a nearby other value: over the run it "
    "has to differ somewhere, so that the comparison can tell.",
    ["the documented formulas of the norms"],
)


def norm(v):
    """the documented scaled norm"""
    v = np.asarray(v, float)
    s = np.array([1 / 40, 1 / 360, 1 / 20])[: v.shape[1]]
    return np.sqrt(np.sum((v * s) ** 2, axis=1))


def other_norm(v):
    v = np.asarray(v, float)
    s = np.array([1 / 20, 1 / 360, 1 / 20])[: v.shape[1]]
    return np.sqrt(np.sum((v * s) ** 2, axis=1))


ENTRIES = []


def entry(f):
    ENTRIES.append(f)
    return f


def simple(name, make, explicit, others, use):
    """default `make()` against `make(**explicit)`, `use(rng) -> f(obj)`;
    each of `others` replaces some of the explicit arguments"""

    def f(m, rng):
        run = use(rng)
        a, b = run(make()), run(make(**explicit))
        alts = [run(make(**{**explicit, **o})) for o in others]
        return a, b, alts

    f.__name__ = name
    ENTRIES.append(f)


# -- interpolators -----------------------------------------------------------
def wpts(rng, n=None):
    n = n or int(rng.integers(4, 30))
    return WeightedPoints(gen.cloud_points(rng, n), rng.uniform(0.1, 1, n))


def use_interpolator(rng):
    w = wpts(rng)
    at = np.array([rng.uniform(2, 30), rng.uniform(0, 360)])
    return lambda itp: float(itp.interpolate(w, at))


def gauss(dist, old, alpha):
    return np.exp(-alpha * old * dist)


simple("IDWInterpolator", pc.IDWInterpolator, dict(p=2, norm=norm),
       [dict(p=3), dict(p=1), dict(norm=other_norm)], use_interpolator)
simple("ArithmeticMeanInterpolator", pc.ArithmeticMeanInterpolator,
       dict(s=1, norm=norm, distribution=gauss, params=(100,)),
       [dict(s=2), dict(params=(50,)), dict(params=(101,)),
        dict(norm=other_norm)], use_interpolator)
simple("ArithmeticMeanInterpolator(distribution)",
       lambda **k: pc.ArithmeticMeanInterpolator(
           distribution=lambda d, o, *a: o / (1 + len(a) + d), **k),
       dict(params=()), [dict(params=(1,))], use_interpolator)
simple("ImprovedIDWInterpolator", pc.ImprovedIDWInterpolator, dict(norm=norm),
       [dict(norm=other_norm)], use_interpolator)
simple("ShepardInterpolator",
       lambda **k: ShepardInterpolator(pc.Ball(radius=1, norm=norm), **k),
       dict(tol=np.finfo(float).eps, slope=0.1, norm=norm),
       [dict(slope=0.15), dict(slope=0.09), dict(norm=other_norm)],
       use_interpolator)


# -- neighbourhoods ----------------------------------------------------------
def use_scaled(rng):
    p = rng.uniform(-1, 1, (300, 2)) * [4, 36]  # scaled: +- 0.1
    return lambda nb: nb.is_contained_in(p).tolist()


def use_small(rng):
    p = rng.uniform(-0.1, 0.1, (300, 2))
    return lambda nb: nb.is_contained_in(p).tolist()


simple("Ball", pc.Ball, dict(radius=0.05, norm=norm),
       [dict(radius=0.06), dict(radius=0.04), dict(norm=other_norm)],
       use_scaled)
simple("ScalingBall", lambda **k: pc.ScalingBall(5, **k), dict(norm=norm),
       [dict(norm=other_norm)], use_scaled)
simple("Ellipsoid", pc.Ellipsoid,
       dict(lin_trans=np.eye(2), norm=norm, radius=0.05),
       [dict(radius=0.06), dict(radius=0.04), dict(norm=other_norm),
        dict(lin_trans=np.array([[1, 0.2], [0, 1]])),
        dict(lin_trans=np.array([[1.2, 0], [0, 1]]))], use_scaled)
simple("Cuboid", pc.Cuboid, dict(norm=np.abs, dimensions=(0.05, 0.05)),
       [dict(dimensions=(0.05, 0.06)), dict(dimensions=(0.04, 0.05))],
       use_small)
simple("Polytope", pc.Polytope,
       dict(mat=np.vstack([np.eye(2), -np.eye(2)]), b=np.full(4, 0.05)),
       [dict(b=np.array([0.05, 0.06, 0.05, 0.05])),
        dict(b=np.array([0.06, 0.05, 0.05, 0.05])),
        dict(b=np.array([0.05, 0.05, 0.04, 0.05])),
        dict(b=np.array([0.05, 0.05, 0.05, 0.04]))], use_small)


# -- weighers, filters -------------------------------------------------------
def use_weigher(rng):
    n = int(rng.integers(15, 50))
    if gen.chance(rng, 0.5):
        pts = np.column_stack([rng.uniform(5, 7, n), rng.uniform(40, 60, n),
                               np.round(rng.uniform(4, 4.2, n), 2)])
    else:
        pts = Data().from_dict({
            "TWS": rng.uniform(5, 7, n).tolist(),
            "TWA": rng.uniform(40, 60, n).tolist(),
            "BSP": np.round(rng.uniform(4, 4.2, n), 2).tolist()})

    def run(w):
        out = w.weigh(pts)
        return np.asarray(out, float).tolist()

    return run


simple("CylindricMeanWeigher", pc.CylindricMeanWeigher,
       dict(radius=0.05), [dict(radius=0.06), dict(radius=0.04)], use_weigher)
simple("CylindricMemberWeigher", pc.CylindricMemberWeigher,
       dict(radius=0.05, length=0.05),
       [dict(radius=0.06), dict(radius=0.04), dict(length=0.06),
        dict(length=0.04)], use_weigher)


def use_dimensions(rng):
    n = int(rng.integers(10, 30))
    pts = Data().from_dict({k: rng.uniform(0, s, n).tolist()
                            for k, s in (("TWS", 3), ("TWA", 20), ("HDT", 30),
                                         ("BSP", 0.2))})
    return lambda w: np.asarray(w.weigh(pts), float).tolist()


for cls in (pc.CylindricMeanWeigher, pc.CylindricMemberWeigher):
    simple(f"{cls.__name__}(dimensions)", cls, dict(dimensions=None),
           [], use_dimensions)


def use_fuzzy(rng):
    a, p = rng.uniform(-3, 3, 2)
    return lambda x: [float((x < a)(p)), float((x >= a)(p))]


simple("FuzzyVariable", pc.FuzzyVariable, dict(key=None), [], use_fuzzy)


def use_filter(rng):
    w = rng.uniform(-0.5, 1.5, int(rng.integers(20, 200)))
    return lambda f: f.filter(w).tolist()


simple("QuantileFilter", pc.QuantileFilter, dict(percent=50),
       [dict(percent=52), dict(percent=48)], use_filter)
simple("BoundFilter", pc.BoundFilter, dict(lower_bound=0.5, upper_bound=1),
       [dict(lower_bound=0.52), dict(upper_bound=1.02),
        dict(lower_bound=0.48), dict(upper_bound=0.98)], use_filter)


# -- imputator, smoother, handlers -------------------------------------------
START = dt.datetime(2021, 5, 3, 10)


def seconds(s):
    return dt.timedelta(seconds=float(s))


def use_imputator(rng):
    n = int(rng.integers(6, 25))
    gaps = rng.choice([1.0, 20.0, 60.0, 110.0, 115.0, 119.0, 120.0, 121.0,
                       125.0, 400.0], n)
    t = [START + seconds(x) for x in np.cumsum(gaps)]
    bsp = [float(x) if rng.random() < 0.5 else None
           for x in np.round(rng.uniform(0, 9, n), 2)]
    lat = [float(x) if rng.random() < 0.7 else None
           for x in np.round(rng.uniform(0, 9, n), 2)]

    def run(imp):
        data = Data().from_dict({"datetime": list(t), "BSP": list(bsp),
                                 "lat": list(lat)})
        out, _ = imp.impute(data)[:2] if isinstance(
            imp.impute(data), tuple) else (None, None)
        if out is None:
            data = Data().from_dict({"datetime": list(t), "BSP": list(bsp),
                                     "lat": list(lat)})
            out = imp.impute(data)
        return {k: [str(x) for x in out[k]] for k in out.keys()}

    return run


simple("FillLocalImputator", pc.FillLocalImputator,
       dict(fill_before=lambda name, right, mu: right,
            fill_between=lambda name, left, right, mu: left,
            fill_after=lambda name, left, mu: left,
            max_time_diff=dt.timedelta(minutes=2)),
       [dict(fill_before=lambda name, right, mu: right + 1),
        dict(fill_between=lambda name, left, right, mu: right),
        dict(fill_after=lambda name, left, mu: left + 1),
        dict(max_time_diff=seconds(119)), dict(max_time_diff=seconds(121))],
       use_imputator)


def use_smoother(rng):
    n = int(rng.integers(8, 30))
    t = [START + seconds(x) for x in np.cumsum(rng.uniform(5, 25, n))]
    v = np.repeat(np.round(rng.uniform(0, 9, n), 1),
                  rng.integers(1, 5, n))[:n].tolist()

    def run(s):
        data = Data().from_dict({"datetime": list(t), "BSP": list(v)})
        out = s.smooth(data)
        out = out[0] if isinstance(out, tuple) else out
        return np.round(np.array(out["BSP"], float), 9).tolist()

    return run


simple("AffineSmoother", pc.AffineSmoother,
       dict(timespan=dt.timedelta(seconds=30)),
       [dict(timespan=seconds(31)), dict(timespan=seconds(29))],
       use_smoother)


@entry
def CsvFileHandler(m, rng):
    n = int(rng.integers(2, 8))
    rows = [START + seconds(x) for x in rng.uniform(0, 1e6, n)]
    path = os.path.join(m.scratch(), "a.csv")
    with open(path, "w", encoding="utf-8") as f:
        f.write("datetime,TWS\n" + "".join(
            r.strftime("%Y-%m-%d %H:%M:%S.%f") + ",2.5\n" for r in rows))

    def run(h):
        try:
            out = h.handle(path)
        except (ValueError, RuntimeError):
            return "rejected"
        out = out[0] if isinstance(out, tuple) else out
        return [str(x) for x in out["datetime"]]

    a = run(pc.CsvFileHandler())
    m.equal(a, [str(r) for r in rows], "csv-dates")
    return (a, run(pc.CsvFileHandler(date_format="%Y-%m-%d %H:%M:%S.%f")),
            [run(pc.CsvFileHandler(date_format="%Y-%d-%m %H:%M:%S.%f"))])


@entry
def NMEAFileHandler(m, rng):
    path = os.path.join(m.scratch(), "a.nmea")
    lines = []
    for _ in range(int(rng.integers(3, 9))):
        t = f"{rng.integers(0, 24):02}{rng.integers(0, 60):02}30"
        body = gen.pick(rng, [
            f"GPRMC,{t},A,5321.6802,N,00630.3372,W,{rng.uniform(0, 9):.2f},"
            "31.66,280511,,",
            f"WIMWV,{rng.uniform(0, 359):.1f},T,{rng.uniform(0, 20):.1f},N,A",
            f"HCHDT,{rng.uniform(0, 359):.1f},T"])
        c = 0
        for x in body:
            c ^= ord(x)
        lines.append(f"${body}*{c:02X}")
    with open(path, "w", encoding="utf-8") as f:
        f.write("\n".join(lines) + "\n")

    def run(**k):
        out = pc.NMEAFileHandler(**k).handle(path)
        out = out[0] if isinstance(out, tuple) else out
        return {k: [str(x) for x in out[k]] for k in out.keys()}

    types = (float, dt.date, dt.time, dt.datetime)
    return (run(), run(wanted_sentences=None, wanted_attributes=None,
                       unwanted_sentences=None, unwanted_attributes=None,
                       post_filter_types=types),
            [run(post_filter_types=types + (str,)),
             run(post_filter_types=types[1:]),
             run(post_filter_types=(float,))])


@entry
def csv_format(m, rng):
    tab = gen.table(rng, wa_hi=180)
    d = m.scratch()

    def text(name, **k):
        path = os.path.join(d, name)
        tab.to_csv(path, **k)
        with open(path, encoding="utf-8") as f:
            return f.read()

    a, b = text("a", ), text("b", fmt="hro")
    alts = [text("c", fmt="array")]
    ra, rb = from_csv(os.path.join(d, "b")), from_csv(
        os.path.join(d, "b"), fmt="hro")
    m.equal(np.asarray(ra.boat_speeds), np.asarray(rb.boat_speeds),
            "from_csv-format")
    return a, b, alts


# -- regressors, samplers ----------------------------------------------------
@entry
def ODRegressor(m, rng):
    n = 40
    pts = np.column_stack([rng.uniform(1, 10, n), rng.uniform(0, 6, n),
                           np.zeros(n)])
    c = rng.uniform(0.5, 2, 2)
    pts[:, 2] = c[0] * pts[:, 0] + np.sin(c[1] * pts[:, 1]) + rng.normal(
        0, 0.05, n)

    def f(ws, wa, *p):
        return p[0] * ws + np.sin(p[1] * wa)

    def run(**k):
        r = pc.ODRegressor(f, [1.0, 1.0], **k)
        r.fit(pts)
        return [float(x) for x in r.optimal_params]

    return run(), run(max_it=1000), [run(max_it=1)]


# -- influence and weather models --------------------------------------------
@entry
def WindAngleCorrecting(m, rng):
    data = {"TWS": rng.uniform(3, 20, 12).tolist(),
            "TWA": np.concatenate([rng.normal(100, 20, 6),
                                   rng.normal(270, 20, 6)]).tolist(),
            "BSP": rng.uniform(3, 9, 12).tolist()}

    def run(**k):
        im = WindAngleCorrectingInfluenceModel(**k)
        before = np.asarray(im.remove_influence(
            {k: list(v) for k, v in data.items()}), float).tolist()
        im.fit({k: list(v) for k, v in data.items()})
        return before, np.asarray(im.remove_influence(
            {k: list(v) for k, v in data.items()}), float).tolist()

    return (run(), run(wa_shift=0, interval_size=30),
            [run(wa_shift=1, interval_size=30),
             run(wa_shift=0, interval_size=31),
             run(wa_shift=0, interval_size=29)])


class Steady(WeatherModel):
    def __init__(self, ws, frm, refuse=None):
        self.ws, self.frm, self.refuse = ws, frm, refuse

    def get_weather(self, point):
        if self.refuse and self.refuse(point):
            raise ValueError("no weather")
        a = np.deg2rad(self.frm)
        lat = float(point[1])
        return {"UGRID": -(self.ws + 0.3 * lat) * np.sin(a),
                "VGRID": -(self.ws + 0.3 * lat) * np.cos(a)}


@entry
def MultiWeather(m, rng):
    lim = rng.uniform(0, 5)
    a = Steady(8, 30, lambda p: p[1] > lim)
    b = Steady(9, 50)

    def run(**k):
        w = MultiWeatherModel(a, b, **k)
        out = []
        for lat in (lim - 1, lim + 1):
            try:
                d = w.get_weather((START, lat, 0.0))
                out.append(sorted((k, str(v)) for k, v in d.items()))
            except ValueError:
                out.append("refused")
        return out

    return (run(), run(exception_sensitive=False),
            [run(exception_sensitive=True)])


@entry
def Expander(m, rng):
    n = int(rng.integers(4, 12))
    lim = rng.uniform(1, 4)
    cols = {"datetime": [START + seconds(60 * i) for i in range(n)],
            "lat": rng.uniform(0, 5, n).tolist(),
            "lon": rng.uniform(0, 5, n).tolist()}

    def run(**k):
        data = Data().from_dict({k: list(v) for k, v in cols.items()})
        out = WeatherExpander(
            Steady(8, 30, lambda p: p[1] > lim), **k).expand(data)
        out = out[0] if isinstance(out, tuple) else out
        out = data if out is None else out
        return {k: [str(x) for x in out[k]] for k in sorted(out.keys())}

    return (run(), run(exception_handling_mode="delete"),
            [run(exception_handling_mode="ignore")])


# -- globes ------------------------------------------------------------------
@entry
def globe_resolution(m, rng):
    start = (rng.uniform(-50, 50), rng.uniform(-100, 100))
    end = (start[0] + rng.uniform(1, 20), start[1] + rng.uniform(1, 40))
    g = gen.pick(rng, [FlatMercatorProjection(), SphericalGlobe()])

    def run(**k):
        p, q = g.shortest_path(start, end, **k), g.shortest_projected_path(
            g.project(start), g.project(end), **k)
        return np.asarray(p).shape, np.asarray(q).shape, np.asarray(
            p).ravel()[:50].tolist()

    return run(), run(res=1000), [run(res=1001), run(res=999)]


@entry
def mercator_radius(m, rng):
    p = np.column_stack([rng.uniform(-70, 70, 5), rng.uniform(-170, 170, 5)])

    def run(**k):
        return np.asarray(FlatMercatorProjection(**k).project(p)).tolist()

    return (run(), run(earth_radius=3440),
            [run(earth_radius=3441), run(earth_radius=3439)])


# -- cruising ----------------------------------------------------------------
def boat(rng):
    wa = np.arange(0, 360, 15)
    ws = np.array([2.0, 6, 10, 16, 24])
    b = np.abs(np.sin(np.deg2rad(wa)))[:, None] * np.sqrt(ws) * rng.uniform(
        1, 2) + 0.6 + rng.uniform(0, 0.1, (len(wa), len(ws)))
    return PolarDiagramTable(ws, wa, b)


@entry
def convex_direction(m, rng):
    pd, a = boat(rng), rng.uniform(0, 360)

    def run(**k):
        return [(float(d.angle), float(d.proportion)) for d in
                cruising.convex_direction(pd, 8.0, a, **k)]

    return run(), run(im=None, influence_data=None), []


@entry
def cruise_format(m, rng):
    pd = boat(rng)
    start = (rng.uniform(-20, 20), rng.uniform(-20, 20))
    end = (start[0] + rng.uniform(0.1, 1), start[1] + rng.uniform(0.1, 1))
    wind = (float(rng.uniform(3, 20)), float(rng.uniform(0, 360)))

    def run(w=wind, **k):
        return [tuple(float(x) for x in leg) for leg in
                cruising.cruise(pd, start, end, w, **k)]

    return (run(), run(wind_fmt="ws_wan", im=None, influence_data=None),
            [run(w=wind + (77.0,), wind_fmt="ws_wa_hdt"),
             run(w=(wind[0], -7.0), wind_fmt="uv_grd")])


@entry
def cost_cruise(m, rng):
    pd, wm = boat(rng), Steady(rng.uniform(5, 15), rng.uniform(0, 360))
    start = (rng.uniform(-20, 20), rng.uniform(-20, 20))
    end = (start[0] + rng.uniform(0.1, 1), start[1] + rng.uniform(0.1, 1))

    def run(**k):
        return float(cruising.cost_cruise(pd, start, end, START, wm, **k))

    def dens(t, lat, lon, wm):
        return 1 + lat ** 2 + np.sin((t - START).total_seconds() / 3600)

    none = dict(cost_fun_abs=lambda total_t, total_s: 0)
    a = [run(), run(cost_fun_dens=dens, **none)]
    b = [run(cost_fun_dens=None, im=None,
             cost_fun_abs=lambda total_t, total_s: total_t),
         run(cost_fun_dens=dens, integration_method=trapezoid, **none)]
    c = [[run(cost_fun_abs=lambda total_t, total_s: total_s), b[1]],
         [b[0], run(cost_fun_dens=dens, integration_method=lambda y, x: float(
             np.sum(y[1:] * np.diff(x))), **none)]]
    return a, b, c


@entry
def isochrone(m, rng):
    pd, wm = boat(rng), Steady(rng.uniform(5, 15), rng.uniform(0, 360))
    start = (rng.uniform(-20, 20), rng.uniform(-20, 20))
    d = rng.uniform(0, 360)

    def run(**k):
        end, s = cruising.isochrone(pd, start, START, d, wm, **k)
        return float(end[0]), float(end[1]), float(s)

    return (run(), run(total_time=1, min_nodes=100, im=None),
            [run(total_time=1.05, min_nodes=100),
             run(total_time=1, min_nodes=130),
             run(total_time=1, min_nodes=60)])


# -- polar diagrams ----------------------------------------------------------
def arithmetic():
    return pc.ArithmeticMeanInterpolator(params=(50,), norm=norm)


def other_arithmetic():
    return pc.ArithmeticMeanInterpolator(params=(51,), norm=norm)


@entry
def table_resolutions(m, rng):
    pd = PolarDiagramTable()
    m.equal(np.shape(pd.boat_speeds), (72, 20), "table-shape")
    a = [np.asarray(x).tolist() for x in (pd.wind_speeds, pd.wind_angles,
                                          pd.boat_speeds)]
    b = [list(range(2, 42, 2)), list(range(0, 360, 5)),
         [[0] * 20 for _ in range(72)]]
    ws, wa = gen.wind_speeds(rng, 3), gen.wind_angles(rng, 4)
    some = PolarDiagramTable(ws_resolution=ws)
    m.equal(np.asarray(some.wind_angles), np.arange(0, 360, 5), "table-angles")
    m.ok(not np.any(some.boat_speeds), "table-zeros")
    some = PolarDiagramTable(wa_resolution=wa)
    m.equal(np.asarray(some.wind_speeds), np.arange(2, 42, 2), "table-speeds")
    m.ok(not np.any(some.boat_speeds), "table-zeros")
    m.event("default table", 3)
    return a, b, []


def a_call(rng, table):
    """a diagram and a wind whose unit ball ends about the known winds"""
    n = int(rng.integers(1, 5))
    at = np.array([rng.uniform(0.1, 1), rng.uniform(0, 1)])
    d, phi = rng.uniform(0.88, 1.12, n), rng.uniform(0.1, 1.0, n)
    if table:
        phi[:] = phi[0]
        d[:] = d[0] + rng.uniform(-0.02, 0.02, n)
    ws = at[0] + 40 * d * np.cos(phi)
    wa = at[1] + 360 * d * np.sin(phi)
    if table:
        wa = np.unique(wa)
        return PolarDiagramTable(ws[:1], wa, rng.uniform(
            1, 9, (len(wa), 1))), at
    return PolarDiagramPointcloud(np.column_stack(
        [ws, wa, rng.uniform(1, 9, n)])), at


@entry
def table_call(m, rng):
    return a_diagram_call(rng, True)


@entry
def cloud_call(m, rng):
    return a_diagram_call(rng, False)


def a_diagram_call(rng, table):
    pd, (ws, wa) = a_call(rng, table)

    def run(**k):
        try:
            return round(float(pd(ws, wa, **k)), 9)
        except Exception as e:  # noqa: BLE001 - compared below
            return type(e).__name__

    e = dict(interpolator=arithmetic(),
             neighbourhood=pc.Ball(radius=1, norm=norm))
    return run(), run(**e), [
        run(**{**e, "interpolator": other_arithmetic()}),
        run(**{**e, "neighbourhood": pc.Ball(radius=1.05, norm=norm)}),
        run(**{**e, "neighbourhood": pc.Ball(radius=0.95, norm=norm)})]


def slices(got):
    return [np.round(np.asarray(s, float), 9).tolist() for s in got]


@entry
def table_slices(m, rng):
    pd = gen.smooth_table(rng)
    ws = np.sort(rng.uniform(2, 25, 3))

    def run(**k):
        return slices(pd.get_slices(ws, **k)[1])

    return (run(), run(n_steps=None, full_info=False,
                       interpolator=arithmetic()),
            [run(interpolator=other_arithmetic())])


@entry
def cloud_slices(m, rng):
    pts = gen.cloud_points(rng, int(rng.integers(10, 40)))
    pd = PolarDiagramPointcloud(pts)
    ws = [float(pts[0, 0] + gen.pick(rng, [0, 0.97, 1.0, 1.02])),
          float(pts[1, 0])]

    def run(**k):
        try:
            return slices(pd.get_slices(ws, **k)[1])
        except RuntimeError:
            return "empty"

    return (run(), run(range_=1, interpolator=None, full_info=False),
            [run(range_=0.98), run(range_=1.03),
             run(interpolator=pc.IDWInterpolator())])


@entry
def cloud_resolution(m, rng):
    pd = gen.cloud(rng, n=12)

    def run(**k):
        return slices(pd.get_slices([9.0], interpolator=pc.IDWInterpolator(),
                                    **k)[1])

    return run(), run(wa_resolution=100), [run(wa_resolution=101),
                                           run(wa_resolution=99)]


@entry
def curve_resolution(m, rng):
    pd = gen.curve(rng)

    def run(**k):
        return slices(pd.get_slices([9.0, 11.0], **k)[1])

    return run(), run(wa_resolution=100), [run(wa_resolution=101),
                                           run(wa_resolution=99)]


@entry
def curve_own_slices(m, rng):
    pd = gen.curve(rng)

    def run(*a, **k):
        return slices(pd.ws_to_slices([9.0, 11.0], *a, **k))

    return run(), run(100), [run(wa_resolution=101), run(99)]


@entry
def cloud_own_slices(m, rng):
    pts = gen.cloud_points(rng, 12)
    pd = PolarDiagramPointcloud(pts)
    ws = [float(pts[0, 0] + gen.pick(rng, [0, 0.97, 1.0, 1.02])),
          float(pts[1, 0])]

    def run(*a, **k):
        try:
            return slices(pd.ws_to_slices(ws, *a, **k))
        except RuntimeError:
            return "empty"

    return (run(), run(100, 1, None),
            [run(range_=0.98), run(range_=1.03),
             run(interpolator=pc.IDWInterpolator())])


@entry
def cloud_own_resolution(m, rng):
    pd = gen.cloud(rng, n=12)

    def run(**k):
        return slices(pd.ws_to_slices([9.0], interpolator=pc.IDWInterpolator(),
                                      **k))

    return run(), run(wa_resolution=100), [run(wa_resolution=101),
                                           run(wa_resolution=99)]


@entry
def table_own_slices(m, rng):
    pd = gen.smooth_table(rng)
    ws = np.sort(rng.uniform(2, 25, 3))

    def run(**k):
        return slices(pd.ws_to_slices(ws, **k))

    return (run(), run(interpolator=arithmetic()),
            [run(interpolator=other_arithmetic())])


@entry
def curve_unit(m, rng):
    p = rng.uniform(0.1, 1, 2)

    def f(ws, wa, *p):
        return p[0] * ws + p[1] * np.abs(np.sin(wa))

    def run(**k):
        pd = PolarDiagramCurve(f, *p, **k)
        return bool(pd.radians), slices(pd.get_slices([8.0])[1])

    return run(), run(radians=False), [run(radians=True)]


@entry
def slice_speeds(m, rng):
    pd = gen.pick(rng, [lambda: gen.smooth_table(rng),
                        lambda: gen.curve(rng),
                        lambda: gen.cloud(rng, n=20)])()

    def run(**k):
        out = pd.get_slices(**k)
        return len(out), [float(x) for x in out[0]], slices(out[1])

    try:
        e = run(ws=pd.default_slices, n_steps=None, full_info=False)
    except RuntimeError:  # a slice of a cloud without points
        m.raises(RuntimeError, run, "slices-default")
        return None, None, []
    return run(), e, [run(full_info=True)]


@entry
def cloud_wind(m, rng):
    pts = gen.cloud_points(rng, 8, ws_lo=3)
    pts[:, 1] = np.clip(pts[:, 1], 1, 359)

    def run(**k):
        pd = PolarDiagramPointcloud(pts.copy(), **k)
        pd.add_points(pts + [1, 0, 1], **k)
        return np.asarray(pd.points).tolist()

    try:
        alt = run(apparent_wind=True)
    except Exception:  # noqa: BLE001 - no such wind
        alt = None
    return run(), run(apparent_wind=False), [alt]


@entry
def change_entries(m, rng):
    ws, wa, b = gen.table_parts(rng)
    new = rng.uniform(1, 9, b.shape)

    def run(full, **k):
        pd = PolarDiagramTable(ws.copy(), wa.copy(), b.copy())
        s, a = pd.wind_speeds, pd.wind_angles
        if full:
            k = dict(dict(ws=s, wa=a), **k)
        shape = (len(np.atleast_1d(k.get("wa", a))),
                 len(np.atleast_1d(k.get("ws", s))))
        b2 = new[:shape[0], :shape[1]]
        pd.change_entries(b2.ravel() if 1 in shape else b2, **k)
        return np.asarray(pd.boat_speeds).tolist()

    one_s, one_a = [float(ws[0])], [float(wa[0])]
    a = [run(False), run(False, ws=one_s), run(False, wa=one_a)]
    e = [run(True), run(True, ws=one_s), run(True, wa=one_a)]
    return a, e, []


# -- data --------------------------------------------------------------------
@entry
def data_rows(m, rng):
    n = int(rng.integers(1, 6))
    cols = {k: [float(x) if rng.random() < 0.8 else None
                for x in rng.uniform(0, 9, n)] for k in "abc"}

    def make():
        return Data().from_dict({k: list(v) for k, v in cols.items()})

    d = make()
    m.equal(list(d.rows(return_type=tuple)),
            list(d.rows(keys=list(d.keys()), return_type=tuple)),
            "rows-keys")
    m.equal(list(d.rows(keys=["b"])), list(d.rows(["b"], dict)), "rows-type")

    def strip(*a):
        d = make()
        d.strip(*a)
        return {k: list(d[k]) for k in d.keys()}

    m.equal(strip(), strip("all"), "strip-mode")

    def fill(**k):
        d = make()
        d.fill(**k)
        return d.n_rows, {k: list(d[k]) for k in d.keys()}

    m.equal(fill(), fill(len_=n, keys=list("abc")), "fill")
    m.event("data default", 4)
    return (list(d.rows()), list(d.rows(keys=list(d.keys()),
                                        return_type=dict)),
            [list(d.rows(return_type=list)), list(d.rows(keys=["a", "b"]))])


# -- model functions ---------------------------------------------------------
@entry
def concave(m, rng):
    x, p = rng.uniform(0, 9, 12), rng.uniform(0.1, 2, 4)

    def run(**k):
        return model.concave_function(x, *p, **k).tolist() if hasattr(
            model, "concave_function") else None

    try:
        from hrosailing.core.modelfunctions import _models2d as two
        f = two.concave_function
    except (ImportError, AttributeError):
        return None, None, []

    def run(**k):  # noqa: F811
        return f(x, *p, **k).tolist()

    return (run(), run(downturn=True, sat_limit=False),
            [run(downturn=True, sat_limit=True),
             run(downturn=False, sat_limit=True)])


# -- extensions --------------------------------------------------------------
def processed(rng, n=None):
    n = n or int(rng.integers(8, 40))
    pts = np.column_stack([rng.uniform(1, 40, n), rng.uniform(0, 359, n),
                           rng.uniform(1, 9, n)])
    return WeightedPoints(pts, rng.uniform(0.2, 1, n))


@entry
def table_extension(m, rng):
    w = processed(rng, int(rng.integers(5, 14)))

    def run(**k):
        pd = TableExtension(**k).process(w)
        pd = pd[0] if isinstance(pd, tuple) else pd
        return ([float(x) for x in pd.wind_speeds],
                [float(x) for x in pd.wind_angles],
                np.round(np.asarray(pd.boat_speeds, float), 9).tolist())

    e = dict(wind_resolution="min_max", interpolator=arithmetic(),
             neighbourhood=pc.Ball(radius=1, norm=norm))
    return run(), run(**e), [
        run(**{**e, "wind_resolution": "auto"}),
        run(**{**e, "interpolator": other_arithmetic()}),
        run(**{**e, "neighbourhood": pc.Ball(radius=1.1, norm=norm)}),
        run(**{**e, "neighbourhood": pc.Ball(radius=0.9, norm=norm)})]


@entry
def cloud_extension(m, rng):
    w = processed(rng, 6)
    full = gen.chance(rng, 0.2)

    def run(**k):
        if not full:
            k["sampler"] = pc.FibonacciSampler(100)
        pd = PointcloudExtension(**k).process(w)
        pd = pd[0] if isinstance(pd, tuple) else pd
        return np.asarray(pd.points).tolist()

    e = dict(interpolator=arithmetic(),
             neighbourhood=pc.Ball(radius=1, norm=norm))
    if full:
        a = run()
        m.equal(len(a), 2000, "sampler-count")
        m.event("default sampler")
        return None, None, []

    def rnd(x):
        return np.round(np.array(x), 9).tolist()

    return rnd(run()), rnd(run(**e)), [
        rnd(run(**{**e, "interpolator": other_arithmetic()})),
        rnd(run(**{**e, "neighbourhood": pc.Ball(radius=0.3, norm=norm)}))]


@entry
def curve_extension(m, rng):
    n = 60
    pts = np.column_stack([rng.uniform(2, 30, n), rng.uniform(0, 359, n),
                           np.zeros(n)])
    p = np.array([0.2, 0.2, 10, 0.001, 0.3, 110, 2000, 0.3, 250, 2000])
    pts[:, 2] = model.ws_s_wa_gauss_and_square(
        pts[:, 0], pts[:, 1], *p) + rng.normal(0, 0.02, n)
    w = WeightedPoints(pts, np.ones(n))

    def run(**k):
        pd = CurveExtension(**k).process(w)
        pd = pd[0] if isinstance(pd, tuple) else pd
        return (pd.curve.__name__, bool(pd.radians),
                [round(float(x), 7) for x in pd.parameters])

    def reg(init=(0.2, 0.2, 10, 0.001, 0.3, 110, 2000, 0.3, 250, 2000)):
        return pc.ODRegressor(
            model_func=model.ws_s_wa_gauss_and_square, init_values=tuple(init))

    return (run(), run(regressor=reg(), radians=False),
            [run(regressor=reg(p * 1.01)), run(regressor=reg(p + 1))])


# -- plots -------------------------------------------------------------------
@entry
def plots(m, rng):
    pd = gen.smooth_table(rng, 4)
    proj = gen.pick(rng, ["hro polar", "hro flat"])
    ws = [float(x) for x in pd.wind_speeds]

    def run(kind="plot", **k):
        fig = plt.figure()
        try:
            ax = fig.add_subplot(projection=proj)
            getattr(ax, kind)(pd, ws=ws, **k)
            lines = [(str(matplotlib.colors.to_hex(x.get_color())),
                      np.round(x.get_xydata(), 9).tolist())
                     for x in ax.lines]
            dots = [(np.round(c.get_facecolor(), 6).tolist(),
                     np.round(np.asarray(c.get_offsets()), 9).tolist())
                    for c in ax.collections]
            return lines, dots, len(fig.axes), ax.get_legend() is not None
        finally:
            plt.close(fig)

    kind = gen.pick(rng, ["plot", "scatter"])
    return (run(kind), run(kind, colors=("green", "red"), show_legend=False,
                           legend_kw=None),
            [run(kind, colors=("green", "blue")),
             run(kind, colors=("blue", "red")),
             run(kind, show_legend=True)])


@entry
def gradient_plots(m, rng):
    pd = gen.smooth_table(rng, 4)
    three = gen.chance(rng, 0.5)

    def run(**k):
        fig = plt.figure()
        try:
            ax = fig.add_subplot(
                projection="hro 3d" if three else "hro color gradient")
            ax.scatter(pd, **k)
            fig.canvas.draw()
            return [np.round(c.get_facecolor(), 6).tolist()
                    for c in ax.collections], len(fig.axes)
        finally:
            plt.close(fig)

    return (run(), run(colors=("green", "red")),
            [run(colors=("green", "blue")), run(colors=("blue", "red"))])


# ----------------------------------------------------------------------------
TELLS = {}


def near(a, b):
    """equal up to rounding of floats"""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-8 * (1 + abs(a)) or (
            a != a and b != b)
    return type(a) is type(b) and a == b


def compare(m, f):
    m.given(entry=f.__name__, index=m.index)
    a, b, alts = f(m, m.rng)
    m.ok(near(a, b), f"default-{f.__name__}",
         f"{f.__name__}: leaving the argument out differs from passing "
         "the documented value", got=a, want=b)
    m.event("compared")
    m.state("entry", f.__name__)
    tells = TELLS.setdefault(f.__name__, [0] * len(alts))
    if len(tells) < len(alts):
        tells += [0] * (len(alts) - len(tells))
    for k, c in enumerate(alts):
        if not near(c, b):
            tells[k] += 1
            m.state("other value tells", (f.__name__, k))


SLOW = {"cloud_extension", "table_extension", "cost_cruise", "isochrone",
        "plots", "gradient_plots", "curve_extension",
        "ODRegressor", "globe_resolution", "WindAngleCorrecting"}
FAST = [f for f in ENTRIES if f.__name__ not in SLOW]
HEAVY = [f for f in ENTRIES if f.__name__ in SLOW]


@check.case(quick=len(FAST) * 25, thorough=len(FAST) * 120)
def components(m):
    compare(m, FAST[m.index % len(FAST)])


@check.case(quick=len(HEAVY) * 6, thorough=len(HEAVY) * 60,
            budget=30_000_000)
def calls(m):
    compare(m, HEAVY[m.index % len(HEAVY)])
