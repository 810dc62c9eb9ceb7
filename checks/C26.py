"""C26: influence models and weather expansion."""
import datetime as dt
import math

import numpy as np

from hrosailing.core.data import Data
from hrosailing.models import (IdentityInfluenceModel,
                               WindAngleCorrectingInfluenceModel)
from hrosailing.models.weather_model import WeatherModel
from hrosailing.pipeline import LazyExpander, WeatherExpander
from hrv import Check, gen

check = Check(
    "C26",
    "Records with all combinations of wind and speed columns, in data "
    "containers, dictionaries of lists and of arrays, are sent through both "
    "influence models and compared with the columns, with an independent "
    "vector computation of the true wind and with the diagram's own values; "
    "fitted corrections are judged against an independent circular density; "
    "weather expansion is driven by weather models that answer by a function "
    "of time and place, refuse some records and record what they are asked.",
    ["the wind speed weighting of the fitted density is not documented: the "
     "fit is compared with the density for equal wind speeds only"],
)


def columns(rng, n, kinds):
    c = {}
    for k in kinds:
        if k in ("TWS", "AWS"):
            c[k] = rng.uniform(0.5, 30, n)
        elif k in ("TWA", "AWA"):
            c[k] = np.round(rng.uniform(0, 360, n), int(rng.integers(0, 9)))
        elif k in ("BSP", "SOG"):
            c[k] = rng.uniform(0, 15, n)
        else:
            c[k] = rng.uniform(-50, 50, n)
    if gen.chance(rng, 0.3):  # calms, a boat at rest, round angles
        for k in c:
            some = rng.random(n) < gen.pick(rng, [0.3, 1.0])
            c[k] = np.where(some, gen.pick(rng, [0.0, 0.0, 180.0, 360.0])
                            if k.endswith("A") else
                            0.0 if k in ("BSP", "SOG", "TWS") else c[k],
                            c[k])
    if gen.chance(rng, 0.25) and n > 1:  # records that are there twice
        back = rng.integers(0, n, n)
        where = rng.random(n) < 0.4
        for k in c:
            c[k] = np.where(where, c[k][back], c[k])
    return {k: [float(x) for x in v] for k, v in c.items()}


def count(rng, hi):
    """a number of records, sometimes many"""
    return gen.scaled(rng, rng.integers(100, 260) if gen.chance(
        rng, 0.04) else rng.integers(1, hi))


def contain(rng, cols):
    kind = int(rng.integers(4))
    if kind == 0:
        return {k: list(v) for k, v in cols.items()}, "dict of lists"
    if kind == 1:
        return {k: np.array(v) for k, v in cols.items()}, "dict of arrays"
    return Data.from_dict(cols), "data"


def raw(obj):
    d = obj.data if isinstance(obj, Data) else obj
    return {k: list(v) for k, v in d.items()}


def true_wind(aws, awa, bsp):
    """vectors: true wind = apparent wind minus head wind of the boat"""
    a = math.radians(awa)
    along, across = aws * math.cos(a) - bsp, aws * math.sin(a)
    return math.hypot(along, across), math.degrees(
        math.atan2(across, along)) % 360


def expected(cols):
    speed = cols["BSP"] if "BSP" in cols else cols["SOG"]
    if "TWS" in cols and "TWA" in cols:
        return list(zip(cols["TWS"], cols["TWA"], speed))
    out = []
    for s, a, b in zip(cols["AWS"], cols["AWA"], speed):
        out.append((*true_wind(s, a, b), b))
    return out


WINDS = [("TWS", "TWA"), ("AWS", "AWA"), ("TWS", "TWA", "AWS", "AWA"),
         ("AWS", "AWA", "TWS"), ("AWA", "AWS", "TWA")]
SPEEDS = [("BSP",), ("SOG",), ("SOG", "BSP"), ("BSP", "SOG")]
OTHERS = [(), ("lat",), ("HDT", "lat")]


def any_columns(rng, n):
    kinds = [*gen.pick(rng, WINDS), *gen.pick(rng, SPEEDS),
             *gen.pick(rng, OTHERS)]
    kinds = [kinds[i] for i in rng.permutation(len(kinds))]
    return columns(rng, n, kinds)


@check.case(quick=250, thorough=5000)
def removing(m):
    rng = m.rng
    n = count(rng, 40)
    cols = any_columns(rng, n)
    shift = gen.pick(rng, [0, 5, -20, 355, 12.25, float(
        rng.uniform(-400, 400))])
    for k in ("TWA", "AWA"):
        if k in cols and gen.chance(rng, 0.3):  # just at the correction
            cols[k][int(rng.integers(n))] = float(shift % 360)
    data, kind = contain(rng, cols)
    m.given(columns=cols, container=kind, shift=shift)
    want = np.array(expected(cols))
    for model, s, name in [
            (IdentityInfluenceModel(), 0, "identity"),
            (WindAngleCorrectingInfluenceModel(wa_shift=shift), shift,
             "correcting")]:
        before = raw(data)
        out = np.asarray(model.remove_influence(data))
        m.event("removed")
        m.equal(out.shape, (n, 3), f"{name}-records",
                "one row per record")
        m.equal(raw(data), before, f"{name}-data-unchanged",
                "the data given was modified")
        m.close(out[:, 0], want[:, 0], f"{name}-wind-speed", atol=1e-7)
        m.close(out[:, 2], want[:, 2], f"{name}-boat-speed", atol=1e-12)
        # converted angles are ill conditioned in calms
        given = "TWS" in cols and "TWA" in cols
        calm = want[:, 0] < (0 if given else 0.1)
        m.close_angle(out[~calm, 1], want[~calm, 1] - s,
                      f"{name}-wind-angle", atol=1e-9 if given else 2e-3)
        if name == "identity" and "TWA" in cols and "TWS" in cols:
            m.equal(out[:, 1], want[:, 1], "identity-angle-exact")
        if name == "correcting":
            m.ok(np.all((out[:, 1] >= 0) & (out[:, 1] <= 360)),
                 "angles-in-circle", out=out[:, 1])
        # the caller may use the result as his own
        out[:] = -1
        m.equal(raw(data), before, f"{name}-result-owned",
                "writing in the result modified the data")
        again = np.asarray(model.remove_influence(data))
        m.close(again[:, 0], want[:, 0], f"{name}-again", atol=1e-7)
    m.state("columns", (sorted(cols), kind))


@check.case(quick=40, thorough=400)
def insufficient(m):
    rng = m.rng
    n = int(rng.integers(1, 5))
    kinds = [*gen.pick(rng, [("TWS",), ("TWA",), ("AWS",), ("AWA",),
                             ("TWS", "AWA"), ("AWS", "TWA"), ()]),
             "BSP", "lat"]
    cols = columns(rng, n, kinds)
    data, kind = contain(rng, cols)
    m.given(columns=cols, container=kind)
    for model in (IdentityInfluenceModel(),
                  WindAngleCorrectingInfluenceModel(wa_shift=3)):
        m.raises(ValueError, lambda: model.remove_influence(data),
                 "insufficient-wind", f"columns {kinds}")
        m.event("rejected")


def diagram(rng):
    return gen.pick(rng, [gen.table, gen.cloud, gen.curve,
                          gen.lobed_curve])(rng)


@check.case(quick=150, thorough=2000)
def adding(m):
    rng = m.rng
    pd = diagram(rng)
    shift = float(gen.pick(rng, [0, 7, -30, 350, rng.uniform(-400, 400)]))
    n = int(rng.integers(1, 7))
    ws = [float(x) for x in rng.uniform(2, 20, n)]
    wa = [float(x) for x in rng.uniform(0, 360, n)]
    if gen.chance(rng, 0.3):
        wa[int(rng.integers(n))] = float(gen.pick(
            rng, [0, 180, 360, -shift % 360]))
    if gen.chance(rng, 0.3):  # the same wind again
        for i in range(n):
            j = int(rng.integers(n))
            if gen.chance(rng, 0.5):
                ws[i], wa[i] = ws[j], wa[j]
    m.given(diagram=repr(pd)[:400], shift=shift, ws=ws, wa=wa)

    def values(s):
        out = []
        for w, a in zip(ws, wa):
            try:
                out.append(float(gen.at(pd, w, (a + s) % 360)))
            except (ValueError, ZeroDivisionError):  # no value there
                return None
        return out

    for model, s, name in [
            (IdentityInfluenceModel(), 0.0, "identity"),
            (WindAngleCorrectingInfluenceModel(wa_shift=shift), shift,
             "correcting")]:
        want = values(s)
        if want is None:
            m.event("no value")
            continue
        for kind in ("lists", "arrays", "data"):
            conv = {"lists": list, "arrays": np.array, "data": list}[kind]
            given = {"TWS": conv(ws), "TWA": conv(wa), "HDT": conv(wa)}
            if kind == "data":
                given = Data.from_dict(given)
            before = raw(given)
            got = model.add_influence(pd, given)
            m.event("added")
            m.equal(len(got), n, f"{name}-add-count")
            m.close([float(g) for g in got], want, f"{name}-add", kind=kind,
                    atol=1e-7)
            m.equal(raw(given), before, f"{name}-add-unchanged")
        one = model.add_influence(pd, {"TWS": ws[0], "TWA": wa[0]})
        m.event("added one")
        m.ok(np.ndim(one) == 0, f"{name}-add-single-shape",
             "values give one value", got=one)
        m.close(float(one), want[0], f"{name}-add-single", atol=1e-7)


@check.case(quick=60, thorough=600)
def inverse(m):
    """what is removed from a record is what adding puts back"""
    rng = m.rng
    shift = float(rng.uniform(-180, 180))

    seen = []

    class Asked(type(gen.table(rng))):
        def __call__(self, ws, wa, interpolator=None):
            seen.append((float(ws), float(wa)))
            return 1.0

    t = gen.table(rng)
    pd = Asked(t.wind_speeds, t.wind_angles, t.boat_speeds)
    model = WindAngleCorrectingInfluenceModel(wa_shift=shift)
    cols = columns(rng, int(rng.integers(1, 20)), ["TWS", "TWA", "BSP"])
    m.given(columns=cols, shift=shift)
    free = np.asarray(model.remove_influence(Data.from_dict(cols)))
    model.add_influence(pd, {"TWS": list(free[:, 0]),
                             "TWA": list(free[:, 1])})
    m.event("round trips", len(seen))
    m.equal([s for s, _ in seen], cols["TWS"], "round-trip-speed")
    m.close_angle([a for _, a in seen], cols["TWA"], "round-trip-angle",
                  atol=1e-7)


def density(at, wa, size):
    d = np.abs(at[:, None] - np.asarray(wa)[None, :]) % 360
    d = np.minimum(d, 360 - d)
    return np.exp(-(d / size) ** 2).sum(axis=1)


@check.case(quick=14, thorough=120, budget=30_000_000)
def fitting(m):
    rng = m.rng
    n = int(rng.integers(3, 60))
    gap, half = rng.uniform(0, 360), rng.uniform(15, 90)
    if gen.chance(rng, 0.4):  # the gap is around the given zero
        gap = gen.pick(rng, [0.0, 3.0, 350.0, 358.0])
    wa = (gap + rng.uniform(half, 360 - half, n)) % 360
    size = float(gen.pick(rng, [10, 30, 30, 60]))
    data = Data.from_dict({
        "TWS": [float(gen.pick(rng, [1.0, 8.0]))] * n,
        "TWA": [float(x) for x in wa],
        "BSP": [float(x) for x in rng.uniform(0, 10, n)]})
    start = gen.pick(rng, [0, 40])
    m.given(wa=wa, interval_size=size, start=start)
    model = (WindAngleCorrectingInfluenceModel(wa_shift=start)
             if size == 30 else WindAngleCorrectingInfluenceModel(
                 interval_size=size, wa_shift=start))
    before = raw(data)
    model.fit(data)
    m.event("fitted")
    m.equal(raw(data), before, "fit-data-unchanged")
    probe = Data.from_dict({"TWS": [5.0], "TWA": [100.0], "BSP": [3.0]})
    shift = 100.0 - float(np.asarray(model.remove_influence(probe))[0, 1])
    shift %= 360
    grid = np.linspace(0, 359, 3591)
    dens = density(grid, wa, size)
    at = float(density(np.array([shift]), wa, size)[0])
    m.ok(at <= dens.min() + 1e-3 * (dens.max() - dens.min()) + 1e-12,
         "fit-lowest-density",
         "the correction is not the angle of lowest density",
         shift=shift, density=at, lowest=dens.min(),
         at=grid[dens.argmin()])
    stats = model.get_latest_statistics()
    m.ok("wa_shift" in stats, "fit-statistics", stats=stats)
    m.close_angle(float(stats["wa_shift"]), shift, "fit-statistics-value",
                  atol=1e-6)
    free = np.asarray(model.remove_influence(data))
    m.close_angle(free[:, 1], wa - shift, "fit-remove", atol=1e-6)
    # fitting again replaces the correction
    model.fit(Data.from_dict({
        "TWS": [5.0] * n, "TWA": [float(x) for x in (wa + 90) % 360],
        "BSP": [1.0] * n}))
    shift2 = (100.0 - float(
        np.asarray(model.remove_influence(probe))[0, 1])) % 360
    at2 = float(density(np.array([shift2 - 90]), wa, size)[0])
    m.ok(at2 <= dens.min() + 5e-3 * (dens.max() - dens.min()) + 1e-12,
         "refit", "a second fit does not give the new data's correction",
         shift=shift2)
    # whatever the data, earlier fits are forgotten
    k = int(rng.integers(3))
    odd = Data.from_dict({
        "TWS": [0.0] * n if k == 0 else [5.0] * n,
        "TWA": [float(x) for x in wa] if k != 1 else [float(wa[0])] * n,
        "BSP": [0.0] * n if k == 2 else [1.0] * n})
    fresh = WindAngleCorrectingInfluenceModel(interval_size=size)
    fresh.fit(odd)
    model.fit(odd)
    m.equal(model.remove_influence(probe), fresh.remove_influence(probe),
            "refit-fresh", "a second fit differs from a first one", kind=k)


# -- weather ---------------------------------------------------------------
T0 = dt.datetime(2021, 5, 5)


def weather_at(t, lat, lon, keys):
    h = (t - T0).total_seconds() / 3600
    out = {k: (i + 1) * 100 + h + lat * 3 + lon * 0.1
           for i, k in enumerate(keys)}
    pick = int(abs(lat) * 1e6)
    if pick % 5 == 0:  # a calm
        out[keys[pick % len(keys)]] = 0.0
    return out


class Sky(WeatherModel):
    def __init__(self, keys, refused, shared, lacking):
        self.keys, self.refused, self.asked = keys, refused, []
        self.lacking = lacking
        self.shared = {} if shared else None

    def get_weather(self, point):
        t, lat, lon = point
        self.asked.append((t, lat, lon))
        if (t, lat, lon) in self.refused:
            raise ValueError("nothing known")
        w = weather_at(t, lat, lon, self.keys)
        for k in self.lacking.get((t, lat, lon), ()):
            del w[k]
        if self.shared is None:
            return w
        self.shared.update(w)  # one answer object for all
        return dict(self.shared)


STANDARD = {"wind speed": "TWS", "wind angle": "TWA", "TWS": "TWS",
            "TWA": "TWA"}


@check.case(quick=250, thorough=4000)
def weather(m):
    rng = m.rng
    n = count(rng, 15)
    pool = max(1, n // int(gen.pick(rng, [1, 1, 2])))  # repeated places
    places = [(T0 + dt.timedelta(minutes=int(rng.integers(0, 5000))),
               float(rng.uniform(-60, 60)), float(rng.uniform(-170, 170)))
              for _ in range(pool)]
    for i in range(1, pool):  # neighbours in time or space
        if gen.chance(rng, 0.15):
            t, lat, lon = places[i - 1]
            step = dt.timedelta(microseconds=int(gen.pick(
                rng, [1, 1000, 400_000, 10**6, 5 * 10**6, 60 * 10**6])))
            off = float(gen.pick(rng, [0.0, 1e-6, 1e-4, 0.01, 0.4]))
            places[i] = (t + step, lat + off, lon - off)
    rec = [places[int(rng.integers(pool))] for _ in range(n)]
    part = gen.pick(rng, [0, 0, 0.3, 0.8, 1])
    refused = {p for p in places if rng.uniform() < part}
    keys = gen.pick(rng, [
        ["TWS", "TWA"], ["wind speed", "wave height"], ["gust"],
        ["gust", "TWA", "wave height"], ["TWS", "gust"]])
    cols = {"datetime": [p[0] for p in rec], "lat": [p[1] for p in rec],
            "lon": [p[2] for p in rec]}
    extra = gen.pick(rng, [
        ["BSP"], ["BSP", "TWS"], ["TWS", "TWA", "BSP"],
        ["TWS", "TWS(duplicate)", "BSP"], ["TWA(duplicate)"], ["gust"],
        ["SOG", "gust", "gust(duplicate)"]])
    for k in extra:
        cols[k] = [float(x) for x in rng.uniform(0, 30, n)]
    if gen.chance(rng, 0.3):
        cols["name"] = [f"s{i}" for i in range(n)]
    if gen.chance(rng, 0.2) and n > 1:
        cols["BSP"] = [None if i == n // 2 else x for i, x in enumerate(
            cols.get("BSP", [1.0] * n))]
    order = list(rng.permutation(len(cols)))
    cols = {list(cols)[i]: cols[list(cols)[i]] for i in order}
    mode = gen.pick(rng, ["delete", "ignore", None])
    m.given(columns=cols, weather_keys=keys, refused=sorted(refused),
            mode=mode)
    # at some places only some attributes are known
    lacking = {}
    if len(keys) > 1 and gen.chance(rng, 0.3):
        lacking = {p: [gen.pick(rng, keys)] for p in places
                   if gen.chance(rng, 0.4)}
    m.given(columns=cols, weather_keys=keys, refused=sorted(refused),
            mode=mode, lacking=lacking)
    sky = Sky(keys, refused, not lacking and gen.chance(rng, 0.3), lacking)
    ex = WeatherExpander(sky) if mode is None else WeatherExpander(sky, mode)
    mode = mode or "delete"
    data = Data.from_dict({k: list(v) for k, v in cols.items()})
    before = raw(data)
    out = ex.expand(data)
    m.event("expanded")
    m.event("refused records", sum(p in refused for p in rec))
    m.equal(raw(data), before, "expand-data-unchanged",
            "the data given was modified")
    m.equal(sorted(set(sky.asked)), sorted(set(rec)), "asked-places",
            "the weather of other times or places was asked")
    kept = [i for i in range(n)
            if mode == "ignore" or rec[i] not in refused]
    m.equal(out.n_rows, len(kept), "expand-rows",
            "number of records")
    got = raw(out)
    for k, v in got.items():
        m.equal(len(v), len(kept), "expand-column-length", column=k)
    for k in cols:
        m.ok(k in got, "expand-keeps-columns", column=k)
        m.equal(got[k], [cols[k][i] for i in kept], "expand-keeps-values",
                "a present column changed", column=k)
    new = [k for k in got if k not in cols]
    known = [i for i in range(n) if rec[i] not in refused]
    if not known:
        # nothing to tell the columns' names from
        m.ok(all(v is None for k in new for v in got[k]),
             "nothing-known", columns=new)
        m.event("nothing known")
    else:
        told = [k for k in keys if any(
            k not in lacking.get(rec[i], ()) for i in known)]
        m.equal(len(new), len(told), "expand-new-columns", columns=new)
        for k in told:
            std = STANDARD.get(k, k)
            mine = [c for c in new if c.startswith(std)]
            m.equal(len(mine), 1, "expand-column-name", key=k, columns=new)
            if std not in cols:
                m.equal(mine[0], std, "expand-standard-name")
            want = [weather_at(*rec[i], keys)[k]
                    if rec[i] not in refused
                    and k not in lacking.get(rec[i], ()) else None
                    for i in kept]
            m.ok(all((g is None) == (w is None) for g, w in zip(
                got[mine[0]], want)), "expand-filled", got=got[mine[0]],
                want=want)
            m.close([g for g in got[mine[0]] if g is not None],
                    [w for w in want if w is not None], "expand-weather",
                    "not the weather of the record's time and place", key=k)
    stats = ex.get_latest_statistics()
    m.equal((stats.get("n_rows"), stats.get("n_cols")),
            (out.n_rows, out.n_cols), "expand-statistics")
    m.state("situation", (sorted(keys), sorted(extra), mode, part))


@check.case(quick=30, thorough=300)
def lazy(m):
    rng = m.rng
    cols = any_columns(rng, int(rng.integers(1, 20)))
    data = Data.from_dict(cols)
    m.given(columns=cols)
    ex = LazyExpander()
    out = ex.expand(data)
    m.event("lazy")
    m.equal(raw(out), cols, "lazy-identity")
    stats = ex.get_latest_statistics()
    m.equal((stats.get("n_rows"), stats.get("n_cols")),
            (data.n_rows, data.n_cols), "lazy-statistics")


gen.large_case(check, removing, 3000)
gen.large_case(check, weather, 800)
