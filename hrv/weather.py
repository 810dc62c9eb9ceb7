"""Stand-ins and the reference model for the weather checks."""
from datetime import datetime, timedelta, timezone

import numpy as np

from hrv import gen

T0 = datetime(2024, 3, 30, 21, 17, 0)


def axis(rng, n, lo, hi):
    if gen.chance(rng, 0.3):
        start = float(rng.integers(int(lo), int(hi) - n))
        return (start + np.arange(n) * gen.pick(rng, [0.25, 0.5, 1.0])
                ).tolist()
    return np.sort(gen.distinct(rng, lo, hi, n)).tolist()


def times(rng, n, kind=None):
    kind = kind or gen.pick(rng, ["datetime", "datetime", "micro", "utc",
                                  "float", "timestamp"])
    if kind == "float":
        return kind, np.sort(gen.distinct(rng, 0, 100, n)).tolist()
    out, t = [], T0
    for _ in range(n):
        t += timedelta(minutes=int(rng.integers(1, 400)))
        if kind == "micro":
            t += timedelta(microseconds=int(rng.integers(1, 10 ** 6)))
        out.append(t)
    if kind == "utc":
        out = [x.replace(tzinfo=timezone.utc) for x in out]
    if kind == "timestamp":
        import pandas as pd

        out = [pd.Timestamp(x) for x in out]
    return kind, out


ATTRS = ["TWS", "TWA", "gust", "pressure", "a b"]


class Grid:
    def __init__(self, rng, kind=None, n=None):
        self.n = n or [
            gen.scaled(rng, gen.pick(rng, [1, 2, 2, 3, 4] * 15 + [12, 40]))
            for _ in range(3)]
        self.kind, self.times = times(rng, self.n[0], kind)
        self.lats = axis(rng, self.n[1], -85, 85)
        self.lons = axis(rng, self.n[2], -180, 180)
        k = int(rng.integers(1, 5))
        self.attrs = [ATTRS[i] for i in rng.permutation(len(ATTRS))[:k]]
        self.data = np.round(
            rng.uniform(-30, 360, (*self.n, k)), int(rng.integers(0, 6)))
        if gen.chance(rng, 0.3):
            self.data[rng.random(self.data.shape) < 0.3] = 0.0

    @property
    def axes(self):
        return [self.times, self.lats, self.lons]

    def point(self, rng, mode=None):
        """a point of the grid's hull and its (index, weight) per axis"""
        pt, where = [], []
        for ax in self.axes:
            n = len(ax)
            mode_ = mode or gen.pick(rng, ["on", "in", "in", "near", "ends"])
            if n == 1 or mode_ == "on":
                i = int(rng.integers(n))
                pt.append(ax[i])
                where.append([(i, 1.0)])
                continue
            if mode_ == "ends":
                i = int(gen.pick(rng, [0, n - 1]))
                pt.append(ax[i])
                where.append([(i, 1.0)])
                continue
            i = int(rng.integers(n - 1))
            f = float(rng.random()) if mode_ == "in" else float(
                gen.pick(rng, [1e-9, 1e-6, 1 - 1e-9, 1 - 1e-6, 0.5]))
            x = ax[i] + (ax[i + 1] - ax[i]) * f
            x = min(max(x, ax[i]), ax[i + 1])
            f = (x - ax[i]) / (ax[i + 1] - ax[i])
            pt.append(x)
            where.append([(i, 1 - f), (i + 1, f)])
        return tuple(pt), where

    def value(self, where):
        """independent multilinear interpolation"""
        out = np.zeros(len(self.attrs))
        low = np.full(len(self.attrs), np.inf)
        high = -low
        for i, a in where[0]:
            for j, b in where[1]:
                for k, c in where[2]:
                    v = self.data[i, j, k]
                    if a * b * c == 0:
                        continue
                    out += a * b * c * v
                    low, high = np.fmin(low, v), np.fmax(high, v)
        return out, low, high

    def outside(self, rng):
        pt, _ = self.point(rng)
        pt = list(pt)
        d = int(rng.integers(3))
        ax = self.axes[d]
        by = gen.pick(rng, [1e-6, 0.1, 50.0])
        step = by if d or self.kind == "float" else timedelta(seconds=by)
        pt[d] = ax[0] - step if gen.chance(rng, 0.5) else ax[-1] + step
        return tuple(pt)


class FakeVariable:
    """a netCDF variable as far as it is used"""

    def __init__(self, name, values, dims, units=None):
        self._v = np.asarray(values)
        self._name, self._dims = name, dims
        if units is not None:
            self.units = units

    def __getitem__(self, i):
        return self._v[i]

    def __len__(self):
        return len(self._v)

    def __array__(self, dtype=None, copy=None):
        return np.array(self._v, dtype=dtype)

    @property
    def shape(self):
        return self._v.shape

    @property
    def ndim(self):
        return self._v.ndim

    @property
    def dimensions(self):
        return tuple(self._dims)

    def __repr__(self):
        return (f"<class 'netCDF4._netCDF4.Variable'>\n{self._v.dtype} "
                f"{self._name}({', '.join(self._dims)})\n    units: 1\n"
                "unlimited dimensions: \n"
                f"current shape = {self._v.shape}\nfilling off")

    __str__ = __repr__


class FakeNetCDF:
    """module stand-in: Dataset(path)"""

    def __init__(self):
        self.files = {}

    def Dataset(self, path):  # noqa: N802
        return self.files[path]


class FakeDataset:
    def __init__(self, variables):
        self.variables = variables

    def __getitem__(self, k):
        return self.variables[k]


class FakeMeteostat:
    """module stand-in: Point(lat, lon, alt), Hourly(...).fetch()"""

    def __init__(self, table):
        self.table = table
        self.asked = []

    def Point(self, lat, lon, alt=0):  # noqa: N802
        return (float(lat), float(lon))

    def Hourly(self, loc, start, end):  # noqa: N802
        self.asked.append((loc, start, end))
        return _Fetch(self.table[loc])


class _Fetch:
    def __init__(self, frame):
        self.frame = frame

    def fetch(self):
        return self.frame.copy()
