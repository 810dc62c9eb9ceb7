"""C20: weather models combine and persist without changing the weather."""
import os
import pathlib
from datetime import datetime, timedelta

import numpy as np

import hrosailing.models.weather_model as wmod
from hrosailing.models import (GriddedWeatherModel, MultiWeatherModel,
                               WeatherModel)
from hrv import Check, gen
from hrv.weather import FakeMeteostat, Grid

check = Check(
    "C20",
    "Gridded models with all kinds of times and values are saved, loaded and "
    "asked at the same points; models are built from station tables through "
    "a stand-in of the meteostat module; combinations of recording models "
    "with overlapping and missing coverage and all kinds of failures are "
    "compared with the merge of their single answers.",
    ["meteostat is not installed: its tables are generated",
     "times are datetimes (with or without zone, fractions) or numbers"],
)


def model_of(g):
    return GriddedWeatherModel(g.data, g.times, g.lats, g.lons, g.attrs)


@check.case(quick=400, thorough=6000)
def persistence(m):
    rng = m.rng
    g = Grid(rng)
    if gen.chance(rng, 0.2):
        g.data = g.data.astype(int)
    if gen.chance(rng, 0.2):
        g.data = g.data * 10.0 ** int(rng.integers(-9, 9))
    m.given(times=[str(t) for t in g.times], lats=g.lats, lons=g.lons,
            data=g.data, kind=g.kind)
    model = model_of(g)
    path = os.path.join(m.scratch(), "w.json")
    path = pathlib.Path(path) if gen.chance(rng, 0.3) else path
    model.to_file(path)
    again = GriddedWeatherModel.from_file(path)
    m.equal([list(x) for x in again.grid], [list(x) for x in model.grid],
            "same-grid")
    m.equal(list(again.attrs), list(model.attrs), "same-attributes")
    m.equal(again.data, model.data, "same-data")
    for _ in range(4):
        pt, where = g.point(rng)
        a, b = model.get_weather(pt), again.get_weather(pt)
        m.equal({k: float(v) for k, v in b.items()},
                {k: float(v) for k, v in a.items()}, "same-weather",
                str(pt))
        m.event("answer compared")
    pt = g.outside(rng)
    m.raises(ValueError, lambda: again.get_weather(pt), "same-coverage")
    # saving what was loaded gives the same again
    path2 = os.path.join(m.scratch(), "w2.json")
    again.to_file(path2)
    third = GriddedWeatherModel.from_file(path2)
    m.equal(third.data, model.data, "same-data")
    m.equal([list(x) for x in third.grid], [list(x) for x in model.grid],
            "same-grid")


@check.case(quick=60, thorough=600)
def stations(m):
    """weather fetched per station ends up at its place"""
    import pandas as pd

    rng = m.rng
    g = Grid(rng, kind="datetime", n=[int(rng.integers(1, 6)),
                                      int(rng.integers(1, 4)),
                                      int(rng.integers(1, 4))])
    start = datetime(2024, 3, 30, 5)
    times = [start + timedelta(hours=i) for i in range(g.n[0])]
    g.times = times
    keys = [a.replace(" ", "_") for a in g.attrs]
    g.attrs = keys
    table, empty = {}, []
    for j, lat in enumerate(g.lats):
        for k, lon in enumerate(g.lons):
            frame = pd.DataFrame(g.data[:, j, k], index=pd.DatetimeIndex(
                times), columns=keys)
            frame["other"] = -1.0
            frame = frame[list(rng.permutation(frame.columns))]
            if gen.chance(rng, 0.15) and k and not any(
                    e[0] == j for e in empty):  # no latitude without data
                empty.append((j, k))
                frame = frame.iloc[:0]
            table[(lat, lon)] = frame
    m.given(lats=g.lats, lons=g.lons, keys=keys, data=g.data, empty=empty)
    fake = FakeMeteostat(table)
    old = getattr(wmod, "meteostat", None), wmod.installed_meteostat
    wmod.meteostat, wmod.installed_meteostat = fake, True
    try:
        model = GriddedWeatherModel.from_meteostat(
            g.lats, g.lons, times[0], times[-1], keys)
    finally:
        wmod.meteostat, wmod.installed_meteostat = old
        if old[0] is None:
            del wmod.meteostat
    m.equal(sorted(a[0] for a in fake.asked), sorted(table), "asked-stations")
    m.ok(all(a[1:] == (times[0], times[-1]) for a in fake.asked),
         "asked-times")
    m.equal([list(x) for x in model.grid], [times, g.lats, g.lons],
            "station-grid")
    for j, lat in enumerate(g.lats):
        for k, lon in enumerate(g.lons):
            if (j, k) in empty:
                continue
            for i, t in enumerate(times):
                got = model.get_weather((t, lat, lon))
                m.equal({a: float(got[a]) for a in keys},
                        dict(zip(keys, g.data[i, j, k].tolist())),
                        "station-weather")
                m.event("station record")


class Recorder(WeatherModel):
    def __init__(self, answer):
        self.answer = answer
        self.asked = []

    def get_weather(self, point):
        self.asked.append(point)
        if isinstance(self.answer, Exception):
            raise self.answer
        return self.answer


class Other(Exception):
    pass


@check.case(quick=400, thorough=6000)
def combinations(m):
    rng = m.rng
    names = ["TWS", "TWA", "gust", "pressure"]
    answers = []
    for _ in range(gen.size(rng, 0, 6, 20)):
        if gen.chance(rng, 0.35):
            answers.append(gen.pick(rng, [
                ValueError("outside"), TypeError("x"), KeyError("y"),
                NotImplementedError("z")]))
        else:
            answers.append({k: 0.0 if gen.chance(rng, 0.2) else
                            None if gen.chance(rng, 0.1) else
                            gen.pick(rng, ["", "rain", float("nan")])
                            if gen.chance(rng, 0.1) else
                            float(np.round(rng.uniform(0, 30), 2))
                            for k in names if gen.chance(rng, 0.5)})
    point = (datetime(2024, 1, 1), 54.0, 12.0)
    m.given(answers=[repr(a) for a in answers])
    subs = [Recorder(dict(a) if isinstance(a, dict) else a) for a in answers]
    if subs and gen.chance(rng, 0.3):  # the same model once more
        for _ in range(int(rng.integers(1, 3))):
            i, j = int(rng.integers(len(subs))), int(rng.integers(
                len(subs) + 1))
            subs.insert(j, subs[i])
            answers.insert(j, answers[i])
    good = [a for a in answers if isinstance(a, dict)]
    want = {}
    for a in good:
        want.update(a)
    multi = MultiWeatherModel(*subs)
    for _ in range(2):
        m.equal({k: v for k, v in sorted(multi.get_weather(point).items())},
                {k: v for k, v in sorted(want.items())}, "merged")
    for s, a in zip(subs, answers):
        m.ok(all(p == point for p in s.asked) and len(s.asked) >= 1,
             "asked-at-point", str(s.asked))
        if isinstance(a, dict):
            m.equal(s.answer, a, "answers-kept")
    # what one call returned is not changed by the next one
    first = multi.get_weather(point)
    first["TWS"] = "spoiled"
    m.equal({k: v for k, v in sorted(multi.get_weather(point).items())},
            {k: v for k, v in sorted(want.items())}, "answers-kept")
    sensitive = MultiWeatherModel(*subs, exception_sensitive=True)
    errors = [a for a in answers if isinstance(a, Exception)]
    if errors:
        m.raises(type(errors[0]), lambda: sensitive.get_weather(point),
                 "sensitive")
    else:
        m.equal({k: v for k, v in sorted(
            sensitive.get_weather(point).items())},
            {k: v for k, v in sorted(want.items())}, "merged")
    # errors of other kinds are never swallowed
    broken = MultiWeatherModel(*subs, Recorder(Other("bug")))
    m.raises(Other, lambda: broken.get_weather(point), "other-errors")
    m.event("combination", len(answers))


@check.case(quick=150, thorough=2000)
def overlapping_grids(m):
    """combined gridded models cover the union of their grids"""
    rng = m.rng
    grids = [Grid(rng, kind="datetime") for _ in range(int(
        rng.integers(1, 4)))]
    multi = MultiWeatherModel(*[model_of(g) for g in grids])
    # nested combinations are the same as flat ones
    nested = MultiWeatherModel(*[MultiWeatherModel(model_of(g))
                                 for g in grids])
    m.given(grids=[(g.lats, g.lons) for g in grids])
    for g in grids:
        for pt in (g.point(rng)[0], g.outside(rng)):
            want = {}
            for h in grids:
                try:
                    want.update(model_of(h).get_weather(pt))
                except ValueError:
                    m.event("not covered")
            got = multi.get_weather(pt)
            m.equal({k: float(got[k]) for k in sorted(got)},
                    {k: float(want[k]) for k in sorted(want)}, "merged")
            got = nested.get_weather(pt)
            m.equal({k: float(got[k]) for k in sorted(got)},
                    {k: float(want[k]) for k in sorted(want)}, "merged")
            m.event("combined answer")


gen.large_case(check, persistence, 16)
