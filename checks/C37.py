"""C37: answers depend on the values of the arguments, not on the past."""
import copy
import math
import os
import pickle
import random
import select
import signal
import struct
import types
from datetime import date, datetime, time, timedelta

import numpy as np

import hrosailing.cruising as cr
import hrosailing.pipeline as pl
import hrosailing.polardiagram as pol
import hrosailing.processing as pc
from hrosailing.core.computing import (
    convert_apparent_wind_to_true, convert_true_wind_to_apparent)
from hrosailing.core.data import Data, WeightedPoints
from hrosailing.models import (
    FlatMercatorProjection, IdentityInfluenceModel, SphericalGlobe,
    WindAngleCorrectingInfluenceModel)
from hrosailing.models.weather_model import (
    GriddedWeatherModel, MultiWeatherModel)
from hrosailing.pipeline.quality_assurance import (
    ComformingQualityAssurance)
from hrosailing.processing.interpolator import ShepardInterpolator
from hrv import Check, gen

check = Check(
    "C37",
    "One component, model or diagram is used over and over with the same "
    "argument objects while their contents are replaced, changed in a single "
    "entry, changed a little, permuted or changed back in place, given in "
    "other memory layouts or forms, or given after they replaced dead "
    "objects; files are rewritten under the same name; other instances work "
    "in between.  After every call a newly built component gets fresh copies "
    "and has to give the same answer.",
    ["the random sampler, whose answers differ by design, is left out",
     "answers may differ by rounding"],
)

# -- results -------------------------------------------------------------------
def flat(x, depth=0):
    """plain nested lists of numbers and texts"""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return float(x)
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, (datetime, date, time, timedelta)):
        return str(x)
    if isinstance(x, np.ndarray):
        return flat(x.tolist(), depth)
    if isinstance(x, dict):
        return [[str(k), flat(v, depth + 1)] for k, v in x.items()
                if k != "execution time"]
    if isinstance(x, Data):
        return [[k, flat(x[k], depth + 1)] for k in x.keys()]
    if isinstance(x, WeightedPoints):
        return [flat(x.data, depth + 1), flat(x.weights, depth + 1)]
    if isinstance(x, pol.PolarDiagramTable):
        return flat([x.wind_speeds, x.wind_angles, x.boat_speeds])
    if isinstance(x, pol.PolarDiagramPointcloud):
        return flat(x.points)
    if isinstance(x, pol.PolarDiagramCurve):
        return flat([list(x.parameters), x.radians])
    if isinstance(x, pol.PolarDiagramMultiSails):
        return flat([list(x.sails), list(x.diagrams)])
    if isinstance(x, cr.Direction):
        return flat(vars(x), depth + 1)
    if isinstance(x, (list, tuple, types.GeneratorType, set, range, filter)):
        return [flat(v, depth + 1) for v in x]
    if hasattr(x, "__iter__") and depth < 9:
        return [flat(v, depth + 1) for v in x]
    return type(x).__name__


def alike(a, b, rtol):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(
            alike(x, y, rtol) for x, y in zip(a, b))
    if type(a) is float and type(b) is float:
        return a == b or (a != a and b != b) or math.isclose(
            a, b, rel_tol=rtol, abs_tol=1e-9)
    return a == b


def answer(fn, *args):
    np.random.seed(11)
    random.seed(11)
    try:
        return flat(fn(*args))
    except Exception as e:
        return "raised " + type(e).__name__


# -- a past without any call -------------------------------------------------------
class Pristine:
    """answers every question in a process of its own

    The process is split off a process which was split off before the first
    call, so it shares no memory whatsoever with earlier calls, including
    the state of classes and modules.
    """

    def __init__(self, fn):
        ask, self.out = os.pipe()
        self.back, tell = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(ask)
            os.close(tell)
            return
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            os.close(self.out)
            os.close(self.back)
            while True:
                args = self._read(ask)
                if args is None:
                    break
                pid = os.fork()
                if not pid:
                    signal.alarm(60)
                    self._write(tell, answer(fn, *pickle.loads(args)))
                    os._exit(0)
                _, status = os.waitpid(pid, 0)
                if status:
                    break
        finally:
            os._exit(0)

    @staticmethod
    def _write(fd, x):
        x = pickle.dumps(x)
        x = struct.pack("q", len(x)) + x
        while x:
            x = x[os.write(fd, x):]

    @staticmethod
    def _read(fd):
        def exactly(n):
            x = b""
            while len(x) < n:
                got = os.read(fd, min(n - len(x), 1 << 16))
                if not got:
                    return None
                x += got
            return x
        n = exactly(8)
        return None if n is None else exactly(struct.unpack("q", n)[0])

    def ask(self, *args):
        """the answer, None if there is none"""
        try:
            self._write(self.out, args)
        except (pickle.PicklingError, TypeError, AttributeError, OSError):
            return None
        if not select.select([self.back], [], [], 90)[0]:
            return None
        got = self._read(self.back)
        return None if got is None else pickle.loads(got)

    def close(self):
        os.close(self.out)
        os.close(self.back)
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


def pristine(m, fn, always=False):
    """once in a while"""
    return Pristine(fn) if m.tier == "thorough" or always or (
        m.index % 4 == 0) else None


# -- arguments -------------------------------------------------------------------
def overwrite(old, new):
    """the contents of new in the place of old; whether that is possible"""
    if isinstance(old, np.ndarray):
        if old.shape != new.shape or not old.flags.writeable:
            return False
        old[...] = new
        return True
    if isinstance(old, list):
        old[:] = new
        return True
    if isinstance(old, Data):
        if list(old.keys()) != list(new.keys()) or old.n_rows != new.n_rows:
            return False
        for k in old.keys():
            old[k][:] = new[k]
        return True
    if isinstance(old, WeightedPoints):
        return (overwrite(old.data, new.data)
                and overwrite(old.weights, new.weights))
    if isinstance(old, dict):
        for k in old:
            if isinstance(old[k], (list, np.ndarray)):
                overwrite(old[k], new[k])
            else:
                old[k] = new[k]
        return True
    if isinstance(old, tuple):
        return all([overwrite(o, n) for o, n in zip(old, new)])
    return False


def arrays(x):
    """the arrays in an argument"""
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "f" and x.size:
            yield x
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays(v)
    elif isinstance(x, WeightedPoints):
        yield from arrays(x.data)
        yield from arrays(x.weights)


def lists(x):
    """the lists of numbers in an argument"""
    if isinstance(x, list):
        if x and all(type(v) is float for v in x):
            yield x
        else:
            for v in x:
                yield from lists(v)
    elif isinstance(x, tuple):
        for v in x:
            yield from lists(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from lists(v)
    elif isinstance(x, Data):
        for k in x.keys():
            yield from lists(x[k])
    elif isinstance(x, WeightedPoints):
        yield from lists(x.data)


def relayout(rng, x):
    """the same numbers somewhere else in memory"""
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        k = int(rng.integers(5))
        if k == 0:
            return np.asfortranarray(x)
        if k == 1:
            big = np.full((2 * len(x),) + x.shape[1:], 1e6)
            big[::2] = x
            return big[::2]
        if k == 2:
            y = x.copy()
            y.flags.writeable = False
            return y
        if k == 3:
            return x[::-1].copy()[::-1]
        return np.concatenate([x, x])[len(x):]
    if isinstance(x, tuple):
        return tuple(relayout(rng, v) for v in x)
    if isinstance(x, WeightedPoints) and isinstance(x.data, np.ndarray):
        return WeightedPoints(relayout(rng, x.data),
                              relayout(rng, x.weights))
    return copy.deepcopy(x)


def nudge(rng, args):
    """one entry or all entries changed, a little or a lot"""
    some = [a for x in args for a in arrays(x) if a.flags.writeable]
    some += [a for x in args for a in lists(x)]
    if not some:
        return "nothing to nudge"
    a = gen.pick(rng, some)
    far = gen.pick(rng, [1e-5, 1e-3, 0.1, 2.0])
    if isinstance(a, list):
        i = int(rng.integers(len(a)))
        a[i] = abs(a[i] + far)
        return f"list entry by {far}"
    k = int(rng.integers(3))
    if k == 0:
        i = int(rng.integers(a.size))
        a.flat[i] = abs(a.flat[i] + far)
    elif k == 1:
        a += far
    elif a.ndim == 1:
        a[:] = np.roll(a, 1)
    elif a.ndim == 2 and a.shape[0] > 1:
        # the same sums, sizes and extremes
        j = int(rng.integers(a.shape[1]))
        a[:, j] = np.roll(a[:, j], 1)
    return f"array {k} by {far}"


def session(m, name, build, make, call, others=(), rounds=None, rtol=1e-6,
            always=False):
    """build() a component, make() arguments, call(component, *args)"""
    rng = m.rng
    used = build()
    args = make()
    first = copy.deepcopy(args)
    log = []
    m.given(subject=name, log=log, salt=float(rng.random()))
    alone = pristine(m, lambda *a: call(build(), *a), always)
    try:
        _session(m, name, build, make, call, others, rounds, rtol, used, args,
                 first, log, alone)
    finally:
        if alone:
            alone.close()


def _session(m, name, build, make, call, others, rounds, rtol, used, args,
             first, log, alone):
    rng = m.rng
    for k in range(rounds or int(rng.integers(4, 9))):
        how = gen.pick(rng, ["replace", "nudge", "nudge", "back", "layout",
                             "new", "other", "same"]) if k else "first"
        given = args
        if how == "replace":
            new = make()
            if not all([overwrite(o, n) for o, n in zip(args, new)]):
                args = given = new
                how = "new"
        elif how == "nudge":
            how = nudge(rng, args)
        elif how == "back":
            old = copy.deepcopy(first)
            if not all([overwrite(o, n) for o, n in zip(args, old)]):
                args = given = old
        elif how == "layout":
            given = tuple(relayout(rng, a) for a in args)
        elif how == "new":
            del args, given  # ids may be used again
            args = given = make()
        elif how == "other" and others:
            answer(call, gen.pick(rng, others)(), *copy.deepcopy(args))
        log.append(how)
        fresh = copy.deepcopy(given)
        got = answer(call, used, *given)
        want = alone.ask(*fresh) if alone else None
        if want is not None:
            m.ok(alike(got, want, rtol), "as-if-never-used",
                 f"{name}: after {log} the answer is not that of a process "
                 "without earlier calls",
                 got=repr(got)[:500], want=repr(want)[:500])
            m.event("compared with a process of its own")
        want = answer(call, build(), *fresh)
        m.ok(alike(got, want, rtol), "as-if-new",
             f"{name}: after {log} the answer is not that of a new one",
             got=repr(got)[:500], want=repr(want)[:500])
        m.event("raised" if isinstance(got, str) and got.startswith("raised")
                else "answer compared")
    m.state("subject", (name, tuple(log[:4])))


def points(rng, n=None):
    n = n or int(rng.integers(6, 16))
    return np.column_stack([rng.uniform(4, 14, n), rng.uniform(0, 359, n),
                            rng.uniform(0.5, 9, n)])


# -- points ------------------------------------------------------------------------
@check.case(quick=150, thorough=2500, budget=40_000_000)
def interpolators(m):
    rng = m.rng
    alpha = float(gen.pick(rng, [0.5, 5, 50]))
    builds = {
        "idw": pc.IDWInterpolator, "idw1": lambda: pc.IDWInterpolator(p=1),
        "mean": lambda: pc.ArithmeticMeanInterpolator(params=(alpha,)),
        "improved": pc.ImprovedIDWInterpolator,
        "shepard": lambda: ShepardInterpolator(pc.Ball(radius=1)),
        "bilinear": pc.BilinearGridInterpolator
        if hasattr(pc, "BilinearGridInterpolator") else pc.IDWInterpolator,
    }
    name = gen.pick(rng, sorted(builds))
    n = int(rng.integers(4, 12))

    def make():
        p = points(rng, n)
        if name == "bilinear":
            g = np.array([(a, b) for a in (4.0, 9.0) for b in (20.0, 90.0)])
            p = np.column_stack([g + rng.uniform(-1, 1, 2),
                                 rng.uniform(1, 9, 4)])
        return (WeightedPoints(p, rng.uniform(0.1, 1, len(p))),
                np.array([rng.uniform(5, 8), rng.uniform(30, 80)]))

    session(m, name, builds[name], make, lambda c, w, g: c.interpolate(w, g),
            list(builds.values()))


@check.case(quick=120, thorough=2000, budget=40_000_000)
def neighbourhoods(m):
    rng = m.rng
    builds = {
        "ball": lambda: pc.Ball(radius=0.2), "scaling": lambda:
        pc.ScalingBall(4), "ellipsoid": lambda: pc.Ellipsoid(
            np.array([[1.0, 0.2], [0, 0.5]]), radius=3),
        "cuboid": lambda: pc.Cuboid(dimensions=(3, 60)),
        "polytope": lambda: pc.Polytope(
            np.vstack([np.eye(2), -np.eye(2)]), np.array([2.0, 30, 2, 30])),
    }
    name = gen.pick(rng, sorted(builds))
    n = int(rng.integers(5, 20))
    session(m, name, builds[name], lambda: (
        rng.normal(size=(n, 2)) * [3, 30],),
        lambda c, p: c.is_contained_in(p), list(builds.values()))


def journal(rng, n, gaps=False):
    t = datetime(2021, 5, 6, 7)
    times = []
    for _ in range(n):
        t += timedelta(seconds=float(gen.pick(rng, [1, 5, 15, 40])))
        times.append(t)
    p = np.round(points(rng, n), 2)
    cols = {"datetime": times, "TWS": p[:, 0].tolist(),
            "TWA": p[:, 1].tolist(), "BSP": p[:, 2].tolist()}
    if gaps:
        for k in ("TWS", "TWA", "BSP"):
            for i in range(n):
                if gen.chance(rng, 0.15):
                    cols[k][i] = None
            cols[k][0] = 1.5
    return Data.from_dict(cols)


@check.case(quick=150, thorough=2500, budget=40_000_000)
def weighers(m):
    rng = m.rng
    v = pc.FuzzyVariable
    both = {
        "mean": lambda: pc.CylindricMeanWeigher(radius=0.5),
        "member": lambda: pc.CylindricMemberWeigher(radius=0.5, length=2),
        "one": pc.AllOneWeigher,
        "product": lambda: pc.CylindricMeanWeigher(radius=0.5)
        * pc.CylindricMemberWeigher(radius=0.5, length=2) + 0.1,
    }
    recorded = {
        "fuzzy": lambda: pc.FuzzyWeigher(
            (v(key="TWS") > 8) & (v(key="TWA") < 200)),
        "fluctuation": lambda: pc.FluctuationWeigher(
            ["TWS", "BSP"], timedelta(seconds=20), [5, 7]),
    }
    name = gen.pick(rng, sorted(both) + sorted(recorded))
    n = int(rng.integers(4, 14))
    arr = name in both and gen.chance(rng, 0.5)
    keys = list(journal(rng, 2).keys()) if name in recorded else [
        "TWS", "TWA", "BSP"]

    def make():
        if arr:
            return (points(rng, n),)
        return (journal(rng, n)[keys],)

    def call(c, p):
        w = c.weigh(p)
        return [list(w), c.get_latest_statistics()]

    session(m, name, (both.get(name) or recorded[name]), make, call,
            list(both.values()))


@check.case(quick=60, thorough=1000, budget=40_000_000)
def filters(m):
    rng = m.rng
    builds = {
        "quantile": pc.QuantileFilter, "quantile70": lambda:
        pc.QuantileFilter(70), "bound": lambda: pc.BoundFilter(
            lower_bound=0.2, upper_bound=0.7),
    }
    name = gen.pick(rng, sorted(builds))
    n = int(rng.integers(4, 30))

    def call(c, w):
        return [c.filter(w), c.get_latest_statistics()]

    session(m, name, builds[name], lambda: (rng.uniform(0, 1, n),), call,
            list(builds.values()))


@check.case(quick=60, thorough=1000, budget=60_000_000)
def samplers(m):
    rng = m.rng
    S = gen.pick(rng, [pc.FibonacciSampler, pc.ArchimedeanSampler])
    k, n = int(rng.integers(4, 30)), int(rng.integers(5, 15))
    wide = int(rng.integers(2, 4))
    session(m, S.__name__, lambda: S(k), lambda: (points(rng, n)[:, :wide],),
            lambda c, p: c.sample(p), [lambda: S(k + 1)], rounds=4)


@check.case(quick=120, thorough=2000, budget=40_000_000)
def records(m):
    rng = m.rng
    builds = {
        "remove": (pc.RemoveOnlyImputator, "impute"),
        "fill": (pc.FillLocalImputator, "impute"),
        "affine": (pc.AffineSmoother, "smooth"),
        "affine7": (lambda: pc.AffineSmoother(timedelta(seconds=7)),
                    "smooth"),
        "lazy": (pc.LazySmoother, "smooth"),
        "identity": (IdentityInfluenceModel, "remove_influence"),
        "correct": (lambda: WindAngleCorrectingInfluenceModel(
            wa_shift=7), "remove_influence"),
        "expand": (lambda: pl.LazyExpander(), "expand"),
        "weather": (lambda: pl.WeatherExpander(grid(values)), "expand"),
        "quality": (ComformingQualityAssurance, "check"),
    }
    name = gen.pick(rng, sorted(builds))
    build, method = builds[name]
    n = int(rng.integers(3, 12))
    pd = gen.smooth_table(rng, 3, 8)
    values = rng.uniform(5, 90, (3, 3, 3, 2))

    def make():
        if name == "weather":
            d = journal(rng, n)[["datetime", "BSP"]]
            d = Data.from_dict({
                "datetime": [t - timedelta(hours=6) for t in d["datetime"]],
                "BSP": d["BSP"],
                "lat": rng.uniform(49, 50.9, n).tolist(),
                "lon": rng.uniform(3, 4.9, n).tolist()})
            return (d,)
        if name == "quality":
            return (points(rng, n),)
        return (journal(rng, n, name in ("remove", "fill", "affine")),)

    def call(c, d):
        if name == "quality":
            return c.check(pd, d)
        # the container itself may be worked on
        return [getattr(c, method)(copy.copy(d)), c.get_latest_statistics()
                if hasattr(c, "get_latest_statistics") else None]

    session(m, name, build, make, call)


@check.case(quick=40, thorough=500, budget=40_000_000)
def influence(m):
    rng = m.rng
    shift = float(rng.uniform(0, 40))
    build = gen.pick(rng, [IdentityInfluenceModel, lambda:
                           WindAngleCorrectingInfluenceModel(wa_shift=shift)])
    pd = gen.pick(rng, [gen.smooth_table(rng, 3, 8), gen.lobed_curve(rng)])
    n = int(rng.integers(1, 6))
    one = gen.chance(rng, 0.3)

    def make():
        p = points(rng, n)
        if one:
            return ({"TWS": float(p[0, 0]), "TWA": float(p[0, 1])},)
        return ({"TWS": p[:, 0].tolist(), "TWA": p[:, 1].tolist()},)

    session(m, "add", build, make, lambda c, d: c.add_influence(pd, d))


def line(ws, wa, a, b, c):
    return a * ws + b * wa / 100 + c


@check.case(quick=50, thorough=600, budget=60_000_000)
def fits(m):
    rng = m.rng
    builds = {
        "least": lambda: pc.LeastSquareRegressor(line, (1, 1, 1)),
        "least0": lambda: pc.LeastSquareRegressor(line),
        "odr": lambda: pc.ODRegressor(line, (1, 1, 1)),
    }
    name = gen.pick(rng, sorted(builds))

    def make():
        p = points(rng, 14)
        p[:, 2] = line(p[:, 0], p[:, 1], *rng.uniform(0.2, 2, 3))
        return (p,)

    def call(c, p):
        exact = p.copy()  # the model is behind the data
        if np.linalg.matrix_rank(np.column_stack(
                [p[:, :2], np.ones(len(p))])) == 3:
            c.fit(p)
            return np.round(c.optimal_params, 3)
        return exact

    session(m, name, builds[name], make, call, rounds=4, rtol=5e-3)


@check.case(quick=40, thorough=500, budget=60_000_000)
def angle_fits(m):
    rng = m.rng
    n = int(rng.integers(2, 6))

    def make():
        p = points(rng, n)
        return ({"TWS": p[:, 0].tolist(), "TWA": p[:, 1].tolist(),
                 "BSP": p[:, 2].tolist()},)

    def call(c, d):
        c.fit(d)
        return [c.remove_influence(d), c.get_latest_statistics()]

    session(m, "correction", WindAngleCorrectingInfluenceModel, make, call,
            rounds=3)


@check.case(quick=60, thorough=800, budget=40_000_000)
def conversions(m):
    rng = m.rng
    f = gen.pick(rng, [convert_apparent_wind_to_true,
                       convert_true_wind_to_apparent])
    n = int(rng.integers(1, 9))

    def make():
        p = points(rng, n)
        return (p.tolist() if as_list else p,)

    as_list = gen.chance(rng, 0.3)
    session(m, f.__name__, lambda: f, make, lambda c, p: c(p))


# -- models ------------------------------------------------------------------------
@check.case(quick=120, thorough=2000, budget=40_000_000)
def globes(m):
    rng = m.rng
    build = gen.pick(rng, [SphericalGlobe, FlatMercatorProjection])
    what = gen.pick(rng, ["distance", "shortest_path", "project", "lat_lon"])
    as_list = gen.chance(rng, 0.3)

    def spot(k=None):
        p = np.column_stack([rng.uniform(1, 70, k or 1),
                             rng.uniform(1, 150, k or 1)])
        p = p if k else p[0]
        return p.tolist() if as_list else p

    def make():
        if what in ("project", "lat_lon"):
            return (spot(4),)
        return spot(), spot()

    def call(c, *args):
        if what == "lat_lon":
            return c.lat_lon(np.asarray(c.project(*args)))
        if what == "shortest_path":
            return c.shortest_path(*args, res=5)
        return getattr(c, what)(*args)

    session(m, f"{build.__name__} {what}", build, make, call,
            [lambda: build(earth_radius=1.0)], always=True)


def grid(values):
    start = datetime(2021, 5, 6)
    return GriddedWeatherModel(
        values, [start + timedelta(hours=6 * i) for i in range(3)],
        [49.0, 50.0, 51.0], [3.0, 4.0, 5.0], ["TWS", "TWA"])


@check.case(quick=60, thorough=1000, budget=40_000_000)
def skies(m):
    rng = m.rng
    values = rng.uniform(5, 90, (3, 3, 3, 2))
    multi = gen.chance(rng, 0.3)

    def build():
        return MultiWeatherModel(grid(values)) if multi else grid(values)

    def make():
        return ([datetime(2021, 5, 6) + timedelta(
            seconds=float(rng.integers(0, 40000))),
            float(rng.uniform(49, 50.9)), float(rng.uniform(3, 4.9))],)

    def call(c, p):
        return c.get_weather(p if gen.chance(rng, 0.5) else tuple(p))

    def near(p):
        p[1 + int(rng.integers(2))] += gen.pick(rng, [
            1e-7, 1e-6, 1e-5, 1e-4, 1e-3])

    used, new = build(), make()[0]
    m.given(values=values, multi=multi)
    alone = pristine(m, lambda p: build().get_weather(p))
    try:
        _skies(m, used, build, new, make, call, near, alone)
    finally:
        if alone:
            alone.close()
    m.state("subject", ("weather", multi))


def _skies(m, used, build, new, make, call, near, alone):
    rng = m.rng
    for k in range(12):
        if k % 4 == 0:
            new[:] = make()[0]
        elif k % 4 == 3:
            new[0] += timedelta(microseconds=int(gen.pick(rng, [
                1, 1000, 10**6, 60 * 10**6])))
        else:
            near(new)
        got, want = answer(call, used, new), answer(
            call, build(), copy.deepcopy(new))
        m.ok(alike(got, want, 1e-13), "as-if-new",
             f"weather at {new} depends on earlier questions", got=got,
             want=want)
        m.event("answer compared")
        want = alone.ask(new) if alone else None
        if want is not None:
            m.ok(alike(got, want, 1e-13), "as-if-never-used",
                 f"weather at {new} depends on earlier questions", got=got,
                 want=want)
            m.event("compared with a process of its own")


# -- diagrams ----------------------------------------------------------------------
@check.case(quick=80, thorough=1200, budget=60_000_000)
def diagrams(m):
    rng = m.rng
    kind = gen.pick(rng, ["table", "cloud", "curve", "multi"])
    ws, wa, b = gen.table_parts(rng, 4, 6)
    p = gen.cloud_points(rng, 8)
    cu = gen.lobed_curve(rng)

    def build():
        if kind == "table":
            return pol.PolarDiagramTable(ws, wa, b)
        if kind == "cloud":
            return pol.PolarDiagramPointcloud(p)
        if kind == "curve":
            return copy.deepcopy(cu)
        return pol.PolarDiagramMultiSails(
            [pol.PolarDiagramTable(ws, wa, b), copy.deepcopy(cu)])

    what = gen.pick(rng, ["call", "slices", "points", "symmetrize", "idw"])

    def make():
        if what == "points":
            return (points(rng, 4)[:, :2],)
        if what == "slices":
            return (rng.uniform(3, 15, 2).tolist(),)
        return ([float(rng.uniform(3, 15)), float(rng.uniform(0, 359))],)

    def call(c, x):
        if what == "points":
            return c.get_points(x)
        if what == "slices":
            return c.get_slices(x, n_steps=1)
        if what == "symmetrize":
            return c.symmetrize()
        if what == "idw" and kind in ("table", "cloud"):
            return c(x[0], x[1], pc.IDWInterpolator(), pc.Ball(radius=9))
        return c(x[0], x[1])

    session(m, f"{kind} {what}", build, make, call)


@check.case(quick=40, thorough=600, budget=60_000_000)
def edited_diagrams(m):
    """a diagram which was used before its change is like one which was not"""
    rng = m.rng
    ws, wa, b = gen.table_parts(rng, 4, 6)
    b = b + 1.0
    p = gen.cloud_points(rng, 8)
    table = gen.chance(rng, 0.5)
    at = [float(rng.uniform(3, 15)), float(rng.uniform(0, 359))]
    m.given(ws=ws, wa=wa, b=b, p=p, table=table, at=at)
    views = [
        lambda d: d(*at), lambda d: d.get_slices([at[0], 9.0]),
        lambda d: d.get_slices(), lambda d: d.get_points(),
        lambda d: d.get_points([at]), lambda d: d.symmetrize(),
        lambda d: [d.wind_speeds, d.wind_angles, d.boat_speeds],
        lambda d: str(d), lambda d: d.default_slices,
        lambda d: d.default_points,
        lambda d: pol.PolarDiagramMultiSails([d]).get_slices([at[0]]),
        lambda d: cr.convex_direction(d, list(d.wind_speeds)[:1], 50)
        if not table else cr.convex_direction(d, at[0], 50),
    ]
    used = pol.PolarDiagramTable(ws, wa, b) if table else \
        pol.PolarDiagramPointcloud(p)
    for k in range(4):
        for i in rng.permutation(len(views))[:7]:
            answer(views[i], used)
        if table:
            i, j = int(rng.integers(len(wa))), int(rng.integers(len(ws)))
            b = b.copy()
            b[i, j] = float(rng.uniform(1, 30))
            used.change_entries(b[i, j], ws=float(ws[j]), wa=float(wa[i]))
            new = pol.PolarDiagramTable(ws, wa, b)
        else:
            more = gen.cloud_points(rng, int(rng.integers(1, 4)))
            used.add_points(more.copy())
            p = np.vstack([p, more])
            new = pol.PolarDiagramPointcloud(p)
        for i in rng.permutation(len(views)):
            got, want = answer(views[i], used), answer(views[i], new)
            m.ok(alike(got, want, 1e-7), "as-if-new",
                 f"view {i} of the changed diagram is not that of a new one",
                 got=repr(got)[:500], want=repr(want)[:500])
            m.event("answer compared")
    m.state("subject", ("edited", table))


@check.case(quick=40, thorough=500, budget=100_000_000)
def voyages(m):
    rng = m.rng
    pd = gen.pick(rng, [gen.smooth_table(rng, 3, 10), gen.lobed_curve(rng)])
    values = np.stack([rng.uniform(5, 12, (3, 3, 3)),
                       rng.uniform(20, 60, (3, 3, 3))], -1)
    wm = grid(values)
    what = gen.pick(rng, ["convex", "cruise", "cost", "isochrone"])

    def make():
        if what == "convex":
            return ([float(rng.uniform(5, 14)), float(rng.uniform(0, 359))],)
        return (np.array([rng.uniform(49.3, 49.6), rng.uniform(3.3, 3.6)]),
                np.array([rng.uniform(49.6, 49.9), rng.uniform(3.6, 3.9)]),
                [float(rng.uniform(5, 14)), float(rng.uniform(0, 90))])

    def call(c, *args):
        if what == "convex":
            return cr.convex_direction(c[0], *args[0])
        p, q, wind = args
        if what == "cruise":
            return cr.cruise(c[0], p, q, wind)
        t = datetime(2021, 5, 6, 1)
        if what == "cost":
            return cr.cost_cruise(c[0], p, q, t, c[1],
                                  im=IdentityInfluenceModel())
        return cr.isochrone(c[0], p, t, wind[1], c[1],
                            im=IdentityInfluenceModel(), total_time=0.5,
                            min_nodes=10)

    session(m, f"{type(pd).__name__} {what}", lambda: (
        copy.deepcopy(pd), grid(values)) if what != "same" else (pd, wm),
        make, call, rounds=4)


# -- pipelines ---------------------------------------------------------------------
class Listed:
    """stands for a sampler"""

    def __init__(self, s):
        self.s = s

    def sample(self, pts):
        return self.s.copy()


@check.case(quick=50, thorough=800, budget=60_000_000)
def extensions(m):
    rng = m.rng
    s = points(rng, 5)[:, :2]
    builds = {
        "auto": lambda: pl.TableExtension("auto"),
        "min_max": lambda: pl.TableExtension("min_max"),
        "half": lambda: pl.TableExtension((None, 30)),
        "default": pl.TableExtension,
        "cloud": lambda: pl.PointcloudExtension(sampler=Listed(s)),
        "curve": lambda: pl.CurveExtension(
            regressor=pc.LeastSquareRegressor(line, (1, 1, 1))),
    }
    name = gen.pick(rng, sorted(builds))
    n = int(rng.integers(6, 30))

    def make():
        p = points(rng, n)
        p[:, :2] = p[:, :2] * rng.uniform(0.3, 1, 2)
        if name == "curve":
            p[:, 2] = line(p[:, 0], p[:, 1], *rng.uniform(0.2, 2, 3))
        return (WeightedPoints(p, rng.uniform(0.1, 1, n)),)

    def call(c, w):
        d = c.process(w)
        return d if name != "curve" else d(9.0, np.array([40.0, 90.0]))

    session(m, name, builds[name], make, call, rounds=4,
            rtol=1e-3 if name == "curve" else 1e-6)


@check.case(quick=40, thorough=500, budget=100_000_000)
def pipelines(m):
    rng = m.rng
    names = ["TWS", "TWA", "BSP"]

    def build():
        return pl.PolarPipeline(
            data_handler=pc.ArrayHandler(),
            imputator=pc.RemoveOnlyImputator(), injector=pc.ZeroInjector(3),
            extension=pl.TableExtension(
                wind_resolution=([4, 8, 12], [30, 90, 150])))

    n, k = int(rng.integers(4, 15)), int(rng.integers(1, 3))
    tested = gen.chance(rng, 0.4)

    def make():
        flags = {f: bool(rng.integers(2)) for f in (
            "pre_weighing", "pre_filtering", "post_weighing", "injecting",
            "testing") if gen.chance(rng, 0.3)}
        return [points(rng, n) for _ in range(k)], points(rng, 6), [flags]

    def call(c, train, test, flags):
        out = c.execute([(a, names) for a in train],
                        [(test, names)] if tested else None, **flags[0])
        return [out.polardiagram, vars(out.training_statistics)
                if hasattr(out.training_statistics, "__dict__")
                else out.training_statistics]

    session(m, "pipeline", build, make, call, rounds=4)


# -- files -------------------------------------------------------------------------
def sentence(body):
    cs = 0
    for ch in body:
        cs ^= ord(ch)
    return f"${body}*{cs:02X}\n"


@check.case(quick=80, thorough=1000, budget=60_000_000)
def files(m):
    """files rewritten under the same name"""
    rng = m.rng
    d = m.scratch()
    kind = gen.pick(rng, ["csv", "nmea", "weather", "table", "cloud",
                          "multi", "frame", "array", "orc", "opencpn"])
    path = os.path.join(d, "x.csv")
    n = int(rng.integers(1, 6))

    def write(path, seed):
        r = np.random.default_rng(seed)
        if kind == "csv":
            with open(path, "w", encoding="utf-8") as f:
                f.write("TWS,TWA,BSP\n")
                for p in np.round(points(r, n), 2):
                    f.write(",".join(f"{x:05.2f}" for x in p) + "\n")
        elif kind == "nmea":
            with open(path, "w", encoding="utf-8") as f:
                for _ in range(n):
                    a, b, c = r.integers(10, 99, 3)
                    f.write(sentence(f"WIMWV,{a}.0,R,{b}.5,N,A"))
                    f.write(sentence(
                        f"IIVHW,,T,{c}.0,M,{a % 10}.5,N,1.0,K"))
        elif kind == "weather":
            grid(np.round(r.uniform(10, 90, (3, 3, 3, 2)))).to_file(path)
        elif kind == "multi":
            pol.PolarDiagramMultiSails([pol.PolarDiagramTable(
                [5, 9], [30, 90], np.round(r.uniform(1, 9, (2, 2)), 1))
                for _ in range(2)], ["a", "b"]).to_csv(path)
        elif kind in ("array", "orc", "opencpn"):
            sep = {"array": " ", "orc": ";", "opencpn": ","}[kind]
            rows = [["0" if kind == "array" else "twa/tws", "5", "9"]]
            if kind == "orc":
                rows.append(["0", "0", "0"])
            rows += [[str(a)] + [f"{x:.1f}" for x in r.uniform(1, 9, 2)]
                     for a in (30, 60, 90)]
            with open(path, "w", encoding="utf-8") as f:
                f.write("".join(sep.join(row) + "\n" for row in rows))
        elif kind == "table":
            pol.PolarDiagramTable([5, 9], [30, 90], np.round(
                r.uniform(1, 9, (2, 2)), 1)).to_csv(path)
        else:
            pol.PolarDiagramPointcloud(np.round(points(r, n), 1) + 0.0
                                       ).to_csv(path)
        # an old date or a new one
        stamp = float(r.choice([1e9, 1.5e9]))
        os.utime(path, (stamp, stamp))

    def build():
        if kind == "csv":
            return pc.CsvFileHandler()
        if kind == "nmea":
            return pc.NMEAFileHandler()
        return None

    def read(c, path):
        if c is not None:
            return [c.handle(path), c.get_latest_statistics()]
        if kind == "weather":
            w = GriddedWeatherModel.from_file(path)
            return [w.data, [str(t) for t in w.grid[0]], w.attrs]
        if kind in ("array", "orc", "opencpn"):
            return pol.from_csv(path, kind)
        return pol.from_csv(path)

    seeds = [int(x) for x in rng.integers(0, 2**31, 4)]
    m.given(kind=kind, seeds=seeds)
    used = build()
    for k, seed in enumerate(seeds + seeds[:1]):
        write(path, seed)
        other = os.path.join(d, f"fresh{k}.csv")
        write(other, seed)
        got, want = answer(read, used, path), answer(read, build(), other)
        m.ok(not (isinstance(want, str) and want.startswith("raised")),
             "readable", f"{kind}: {want}")
        m.ok(alike(got, want, 1e-12), "as-if-new",
             f"{kind}: reading a rewritten file", got=repr(got)[:500],
             want=repr(want)[:500])
        m.event("answer compared")
    m.state("subject", ("file", kind))


# -- instances ---------------------------------------------------------------------
@check.case(quick=150, thorough=1500, budget=40_000_000)
def instances(m):
    """configuring one component changes no other one"""
    rng = m.rng
    p = points(rng, 9)
    w = WeightedPoints(p, np.ones(9))
    g = np.array([7.0, 50.0])
    d = p[:, :2] - g
    log, gaps = journal(rng, 9), journal(rng, 9, True)
    makers = {
        "Ball": (lambda r: pc.Ball(radius=r), lambda c: c.is_contained_in(d)),
        "ScalingBall": (lambda r: pc.ScalingBall(1 + int(r) % 5),
                        lambda c: c.is_contained_in(d)),
        "Cuboid": (lambda r: pc.Cuboid(dimensions=(r, 9 * r)),
                   lambda c: c.is_contained_in(d)),
        "IDW": (lambda r: pc.IDWInterpolator(p=1 + int(r) % 4),
                lambda c: c.interpolate(w, g)),
        "Mean": (lambda r: pc.ArithmeticMeanInterpolator(params=(r,)),
                 lambda c: c.interpolate(w, g)),
        "Quantile": (lambda r: pc.QuantileFilter(r),
                     lambda c: c.filter(p[:, 2])),
        "Bound": (lambda r: pc.BoundFilter(
            lower_bound=r / 9, upper_bound=9),
                  lambda c: c.filter(p[:, 2])),
        "MeanWeigher": (lambda r: pc.CylindricMeanWeigher(radius=r / 20),
                        lambda c: c.weigh(p)),
        "Member": (lambda r: pc.CylindricMemberWeigher(
            radius=r / 20, length=r / 3), lambda c: c.weigh(p)),
        "Globe": (lambda r: SphericalGlobe(earth_radius=r),
                  lambda c: c.distance(p[0, :2], p[1, :2])),
        "Flat": (lambda r: FlatMercatorProjection(
            (90 - r, r), (-r, 0), earth_radius=r),
                 lambda c: [c.distance(p[0, :2], p[1, :2]),
                            c.project(p[:, :2]),
                            c.lat_lon(p[:, :2] / 20),
                            c.shortest_path(p[0, :2], p[1, :2], 4)]),
        "GlobePath": (lambda r: SphericalGlobe(earth_radius=r),
                      lambda c: [c.project(p[:, :2]), c.shortest_path(
                          p[0, :2], p[1, :2], 4)]),
        "Fluctuation": (lambda r: pc.FluctuationWeigher(
            ["TWS", "BSP"], timedelta(seconds=2 * r), [r / 4, r / 3]),
                        lambda c: c.weigh(log)),
        "Attributes": (lambda r: pc.FluctuationWeigher(
            [["TWS"], ["TWA"], ["BSP"]][int(r) % 3], timedelta(seconds=20),
            [5]), lambda c: c.weigh(log)),
        "Dimensions": (lambda r: pc.CylindricMeanWeigher(
            radius=0.3, dimensions=[["TWS"], ["TWA"], ["TWS", "TWA"]][
                int(r) % 3]), lambda c: c.weigh(log[["TWS", "TWA", "BSP"]])),
        "Smoother": (lambda r: pc.AffineSmoother(timedelta(seconds=r)),
                     lambda c: c.smooth(log)),
        "Imputator": (lambda r: pc.FillLocalImputator(
            max_time_diff=timedelta(seconds=3 * r),
            fill_before=lambda k, b, mu: b + r), lambda c: c.impute(gaps)),
        "Least": (lambda r: pc.LeastSquareRegressor(line, (r, 1, 1)),
                  lambda c: (c.fit(p), np.round(c.optimal_params, 2))),
        "Ellipsoid": (lambda r: pc.Ellipsoid(
            lin_trans=np.array([[1, r / 9], [0, 1]]), radius=r / 3),
                      lambda c: c.is_contained_in(d / 9)),
        "Polytope": (lambda r: pc.Polytope(b=r * np.ones(4)),
                     lambda c: c.is_contained_in(d)),
        "Shepard": (lambda r: ShepardInterpolator(
            pc.Ball(radius=r / 20), slope=r / 40),
                    lambda c: c.interpolate(w, g)),
        "Fuzzy": (lambda r: pc.FuzzyWeigher(
            pc.FuzzyVariable(sharpness=r, key="TWS") > r),
                  lambda c: c.weigh(log)),
        "Sky": (lambda r: grid(np.full((3, 3, 3, 2), r)),
                lambda c: c.get_weather(
                    (datetime(2021, 5, 6, 3), 49.5, 3.5))),
        "Table": (lambda r: pol.PolarDiagramTable(
            [4, 8, 12], [30, 90, 150], r + np.arange(9.0).reshape(3, 3)),
                  lambda c: [c, c(7, 50), c.get_slices([5.0])]),
        "Cloud": (lambda r: pol.PolarDiagramPointcloud(
            p * [1, 1, r]), lambda c: [c, c(7, 50, pc.IDWInterpolator(),
                                            pc.Ball(radius=9))]),
        "Curve": (lambda r: pol.PolarDiagramCurve(line, r, 1, 1),
                  lambda c: [c(7, 50), c.get_slices([5.0]),
                             c.default_points[:9]]),
        "Extension": (lambda r: pl.TableExtension(
            ([4, 4 + r], [30, 30 + r])), lambda c: c.process(w)),
        "Expander": (lambda r: pl.WeatherExpander(
            grid(np.full((3, 3, 3, 2), r))), lambda c: c.expand(
                Data.from_dict({
                    "datetime": [datetime(2021, 5, 6, 3)], "lat": [49.5],
                    "lon": [3.5], "BSP": [5.0]}))),
        "Fibonacci": (lambda r: pc.FibonacciSampler(3 + int(r)),
                      lambda c: c.sample(p)),
        "Zero": (lambda r: pc.ZeroInjector(2 + int(r)),
                 lambda c: c.inject(w)),
        "Correction": (lambda r: WindAngleCorrectingInfluenceModel(
            wa_shift=r), lambda c: c.remove_influence(
                {"TWS": p[:, 0].tolist(), "TWA": p[:, 1].tolist(),
                 "BSP": p[:, 2].tolist()})),
    }
    name = gen.pick(rng, sorted(makers))
    make, use = makers[name]
    rs = [float(x) for x in rng.uniform(0.5, 20, 4)]
    m.given(name=name, rs=rs, p=p)
    alone = [answer(use, make(r)) for r in rs]
    together = [make(r) for r in rs]
    for i in rng.permutation(8) % 4:
        got = answer(use, together[i])
        m.ok(alike(got, alone[i], 1e-7), "as-if-alone",
             f"{name}: another instance changes the answer",
             got=repr(got)[:400], want=repr(alone[i])[:400])
        m.event("answer compared")
    m.state("subject", ("instances", name))
