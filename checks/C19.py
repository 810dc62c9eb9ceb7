"""C19: gridded weather is exact on the grid, multilinear between."""
from datetime import datetime, timedelta

import numpy as np

import hrosailing.models.weather_model as wmod
from hrosailing.models import GriddedWeatherModel, NetCDFWeatherModel
from hrv import Check, gen
from hrv.weather import FakeDataset, FakeNetCDF, FakeVariable, Grid

check = Check(
    "C19",
    "Grids of one to four times, latitudes and longitudes (irregular, in "
    "every kind of time) are asked on grid points, edges, faces, inside, "
    "next to grid lines and outside; the answers are compared with an "
    "independent multilinear interpolation. The same is done for grids read "
    "through a stand-in of the netCDF4 module (axes ascending or descending, "
    "any order of dimensions).",
    ["grid axes are sorted and distinct, as documented",
     "netCDF4 is not installed: its Dataset is a stand-in"],
)


def ask(m, model, g, mode=None, tag="", tol=1e-9):
    pt, where = g.point(m.rng, mode)
    want, low, high = g.value(where)
    got = model.get_weather(pt)
    m.equal(list(got), list(g.attrs), "attributes", tag)
    vals = np.array([float(got[a]) for a in g.attrs])
    mech = "on-grid" if all(len(w) == 1 for w in where) else "interpolation"
    if mech == "on-grid":
        m.close(vals, want, mech, tag, rtol=tol, atol=tol, point=pt)
    else:
        m.close(vals, want, mech, tag, rtol=tol, atol=1e3 * tol, point=pt)
    slack = 1e3 * tol * (1 + np.abs(high) + np.abs(low))
    m.ok(bool(np.all(np.isnan(want) | (vals >= low - slack) & (vals <= high + slack))),
         "within-range", tag, got=vals, low=low, high=high)
    m.state("cell", tuple(len(w) for w in where))
    m.event("answer " + mech)


@check.case(quick=600, thorough=12000)
def grids(m):
    rng = m.rng
    g = Grid(rng)
    if gen.chance(rng, 0.15):  # no weather known there
        g.data[rng.random(g.data.shape) < 0.2] = np.nan
    m.given(times=[str(t) for t in g.times], lats=g.lats, lons=g.lons,
            data=g.data)
    form = gen.pick(rng, ["array", "list"])
    data = g.data.copy() if form == "array" else g.data.tolist()
    lats = np.array(g.lats) if gen.chance(rng, 0.5) else list(g.lats)
    lons = np.array(g.lons) if gen.chance(rng, 0.5) else list(g.lons)
    with m.unmutated("caller-grid", data=data, lats=lats, lons=lons,
                     times=g.times, attrs=g.attrs):
        model = GriddedWeatherModel(data, g.times, lats, lons, g.attrs)
        for _ in range(5):
            ask(m, model, g)
        ask(m, model, g, "on")
        ask(m, model, g, "in")
        for _ in range(2):
            pt = g.outside(rng)
            m.raises(ValueError, lambda: model.get_weather(pt),
                     "rejects-outside", str(pt))
    m.equal(model.data, g.data, "stored-data")
    m.equal([list(x) for x in model.grid],
            [g.times, g.lats, g.lons], "stored-grid")
    m.equal(list(model.attrs), g.attrs, "stored-grid")
    # the model is its own
    if form == "array":
        data[:] = -999.0
    if isinstance(lats, np.ndarray):
        lats += 1.0
    if isinstance(lons, np.ndarray):
        lons -= 1.0
    for _ in range(2):
        ask(m, model, g, tag="after the caller's data changed")
    # continuous across grid lines
    if g.n[1] > 1 and not np.isnan(g.data).any():
        pt, _ = g.point(rng)
        i = int(rng.integers(len(g.lats)))
        vals = []
        for eps in (-1e-7, 0, 1e-7):
            lat = min(max(g.lats[i] + eps, g.lats[0]), g.lats[-1])
            w = model.get_weather((pt[0], lat, pt[2]))
            vals.append([float(w[a]) for a in g.attrs])
        gap = min(np.diff(g.lats))
        m.close(vals[0], vals[2], "continuous", rtol=0,
                atol=400 * 2e-7 / gap * 1.01 + 1e-9)
        m.close(vals[1], vals[2], "continuous", rtol=0,
                atol=400 * 2e-7 / gap * 1.01 + 1e-9)


@check.case(quick=150, thorough=2500)
def netcdf(m):
    rng = m.rng
    g = Grid(rng, kind="datetime", n=[int(rng.integers(1, 4)),
                                      int(rng.integers(1, 5)),
                                      int(rng.integers(1, 5))])
    start = datetime(2024, 3, 30, 0, 0, 0)
    unit, fmt = gen.pick(rng, [("hours", "%Y-%m-%d %H:%M"),
                               ("seconds", "%Y-%m-%d %H:%M:%S"),
                               ("hours", "%Y-%m-%d %H:%M:%S")])
    # whole and fractional numbers of units
    per = 3600 if unit == "hours" else 1
    step = gen.pick(rng, [1, 0.5, 0.25]) if unit == "hours" else 1
    plain = np.cumsum(rng.integers(1, 9, g.n[0])) * step * (
        1 if unit == "hours" else 600)
    if step == 1 and gen.chance(rng, 0.5):
        plain = plain.astype(np.int32)
    g.times = [start + timedelta(seconds=float(p) * per) for p in plain]
    names = gen.pick(rng, [
        {"lat": "latitude", "lon": "longitude", "datetime": "time"},
        {"lat": "nav_lat", "lon": "nav_lon", "datetime": "t"}])
    flip = [gen.chance(rng, 0.5), gen.chance(rng, 0.5)]
    lats = np.array(g.lats)[::-1] if flip[0] else np.array(g.lats)
    lons = np.array(g.lons)[::-1] if flip[1] else np.array(g.lons)
    raw = g.data
    if flip[0]:
        raw = raw[:, ::-1]
    if flip[1]:
        raw = raw[:, :, ::-1]
    g.attrs = [a.replace(" ", "_") for a in g.attrs]
    dims = [names["datetime"], names["lat"], names["lon"]]
    variables = {
        names["datetime"]: FakeVariable(
            names["datetime"], plain, [dims[0]],
            f"{unit} since {start.strftime(fmt)}"),
        names["lat"]: FakeVariable(names["lat"], lats, [dims[1]]),
        names["lon"]: FakeVariable(names["lon"], lons, [dims[2]]),
    }
    order = [int(i) for i in rng.permutation(3)]
    extra = gen.chance(rng, 0.3)
    level = int(rng.integers(3))
    for i, a in enumerate(g.attrs):
        v, d = raw[..., i].transpose(order), [dims[k] for k in order]
        if extra:
            v = np.stack([v + 1000 * (k - level) for k in range(3)], axis=-1)
            d = d + ["level"]
        variables[a] = FakeVariable(a, v, d)
    keys = list(variables)
    variables = {k: variables[k] for k in
                 [keys[i] for i in rng.permutation(len(keys))]}
    g2_attrs = [k for k in variables if k in g.attrs]
    g.data = g.data[..., [g.attrs.index(a) for a in g2_attrs]]
    g.attrs = g2_attrs
    m.given(times=[str(t) for t in g.times], lats=g.lats, lons=g.lons,
            flip=flip, order=order, unit=unit)
    fake = FakeNetCDF()
    fake.files["w.nc"] = FakeDataset(variables)
    kwargs = {} if names["lat"] == "latitude" and gen.chance(rng, 0.5) \
        else {"aliases": names}
    if extra:
        kwargs["further_indices"] = {"level": level}
    old = getattr(wmod, "nc", None), wmod.installed_netcdf
    wmod.nc, wmod.installed_netcdf = fake, True
    try:
        model = NetCDFWeatherModel("w.nc", **kwargs)
        got_axes = model.grid
        for got, want in zip(got_axes, g.axes):
            m.equal(list(got), list(want), "netcdf-axes")
        for _ in range(4):
            ask(m, model, g, tag="netcdf")
        ask(m, model, g, "on", "netcdf")
        pt = g.outside(rng)
        m.raises(ValueError, lambda: model.get_weather(pt),
                 "rejects-outside", str(pt))
        bad = dict(variables)
        t = names["datetime"]
        bad[t] = FakeVariable(t, plain, [dims[0]], "fortnights since 2024")
        fake.files["bad.nc"] = FakeDataset(bad)
        m.raises(NotImplementedError,
                 lambda: NetCDFWeatherModel("bad.nc", **kwargs),
                 "rejects-units")
    finally:
        wmod.nc, wmod.installed_netcdf = old
        if old[0] is None:
            del wmod.nc
    m.event("netcdf grid")


gen.large_case(check, grids, 24)
