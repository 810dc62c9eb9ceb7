"""Generators of realistic and hostile inputs (all seeded by ``m.rng``)."""

import contextlib

import numpy as np

import hrosailing.core.modelfunctions as model
from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)

ANGLES_NICE = np.arange(0, 360, 5)


def chance(rng, p):
    return bool(rng.random() < p)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


_large = [None]


@contextlib.contextmanager
def huge(n):
    """sizes of about `n` from all generators inside"""
    _large[0] = n
    try:
        yield
    finally:
        _large[0] = None


def scaled(rng, n):
    """the size `n`, but a large one inside of `huge`"""
    if _large[0] is None:
        return int(n)
    return int(rng.integers(_large[0] // 2, _large[0] + 1))


def large_case(check, fn, n, quick=4, thorough=40, budget=300_000_000):
    """registers case `fn` at a size of about `n`, too"""
    def run(m):
        with huge(n):
            fn(m)

    run.__name__ = fn.__name__ + "_large"
    check.case(quick=quick, thorough=thorough, budget=budget)(run)


def size(rng, lo, hi, big, p=0.04):
    """a size in [lo, hi), once in a while one in [hi, big)"""
    if _large[0] is not None:
        return scaled(rng, lo)
    return int(rng.integers(hi, big) if chance(rng, p) else
               rng.integers(lo, hi))


def floats(rng, lo, hi, n):
    """n floats in [lo, hi]: rounded, integral or full precision."""
    x = rng.uniform(lo, hi, n)
    mode = int(rng.integers(3))
    if mode == 0:
        x = np.round(x, 1)
    elif mode == 1:
        x = np.round(x)
    return np.clip(x, lo, hi)


def distinct(rng, lo, hi, n):
    """n distinct floats in [lo, hi), shuffled, sometimes very close."""
    if chance(rng, 0.5) and hi - lo >= 2 * n:
        x = rng.choice(np.arange(int(np.ceil(lo)), int(hi)), n, replace=False)
        x = x.astype(float)
    else:
        grid = np.arange(n) + rng.uniform(0.05, 0.9, n)
        x = lo + grid * (hi - lo) / (n + 0.01)
        if chance(rng, 0.3):
            r = np.round(x, 2)
            if len(set(r)) == n and r.max() < hi:
                x = r
    if n > 1 and chance(rng, 0.12):
        i = int(rng.integers(n - 1))
        y = x[i] + pick(rng, [1e-2, 4e-3, 1e-4, 1e-6, 1e-9])
        if y < hi and y not in x:
            x[i + 1] = y
    rng.shuffle(x)
    return x


def wind_speeds(rng, n=None, lo=0, hi=40):
    n = int(rng.integers(1, 9)) if n is None else n
    x = distinct(rng, lo, hi, n)
    if lo == 0 and 0.0 not in x and chance(rng, 0.15):
        x[int(rng.integers(n))] = 0.0
    return x


def wind_angles(rng, n=None, lo=0, hi=360, special=True):
    n = int(rng.integers(1, 12)) if n is None else n
    x = distinct(rng, lo, hi, n)
    if special:
        for a in (0.0, 180.0):
            if lo <= a < hi and chance(rng, 0.3) and a not in x:
                x[int(rng.integers(n))] = a
        if hi > 180 and chance(rng, 0.1) and 180.0 not in x and hi == 181:
            x[int(rng.integers(n))] = 180.0
    return np.array(sorted(set(x)))[rng.permutation(len(set(x)))]


def bsps(rng, n, m, zero=True):
    b = floats(rng, 0, 25, n * m).reshape(n, m)
    if zero and chance(rng, 0.3):
        b[rng.random((n, m)) < 0.2] = 0
    return b


def table_parts(rng, nmax=8, amax=12, wa_lo=0, wa_hi=360, ws_lo=0):
    ws = wind_speeds(rng, int(rng.integers(1, nmax + 1)), lo=ws_lo)
    wa = wind_angles(rng, int(rng.integers(1, amax + 1)), wa_lo, wa_hi)
    return ws, wa, bsps(rng, len(wa), len(ws))


def table(rng, **kw):
    ws, wa, b = table_parts(rng, **kw)
    return PolarDiagramTable(ws.copy(), wa.copy(), b.copy())


def smooth_table(rng, n_ws=None, n_wa=None):
    """A realistic table: smooth in ws and wa, zero head to wind."""
    n_ws = n_ws or int(rng.integers(3, 7))
    n_wa = n_wa or int(rng.integers(8, 25))
    ws = np.sort(distinct(rng, 2, 30, n_ws))
    wa = np.sort(distinct(rng, 0, 360, n_wa))
    k = rng.uniform(0.3, 0.8)
    a, b = rng.uniform(0.2, 1.5, 2)
    th = np.deg2rad(wa)[:, None]
    bsp = k * np.sqrt(ws)[None, :] * 3 * (
        np.abs(np.sin(th)) ** a + 0.5 * np.abs(np.sin(th / 2)) ** b
    )
    bsp = bsp * rng.uniform(0.9, 1.1, bsp.shape)
    return PolarDiagramTable(ws, wa, bsp)


def cloud_points(rng, n=None, ws_lo=0.5, ws_hi=40, wa_lo=0, wa_hi=360):
    n = int(rng.integers(1, 40)) if n is None else n
    pts = np.column_stack(
        [floats(rng, ws_lo, ws_hi, n),
         np.minimum(floats(rng, wa_lo, wa_hi, n), np.nextafter(wa_hi, 0)),
         floats(rng, 0, 25, n)]
    )
    if n > 1 and chance(rng, 0.2):  # nearly the same wind
        i = int(rng.integers(n - 1))
        near = pts[i, :2].copy()
        near[int(rng.integers(2))] += pick(rng, [4e-3, 1e-4, 1e-6, 1e-9])
        if near[0] <= ws_hi and near[1] < wa_hi:
            pts[i + 1, :2] = near
    return pts


def cloud(rng, **kw):
    return PolarDiagramPointcloud(cloud_points(rng, **kw))


CURVES = {
    "ws_times_wa": 1,
    "ws_concave_dt_wa": 11,
    "ws_wa_s_dt": 14,
    "ws_s_dt_wa_gauss": 10,
    "ws_s_s_dt_wa_gauss_comb": 12,
    "ws_s_wa_gauss": 9,
    "ws_s_wa_gauss_and_square": 10,
}


def curve_params(rng, name, small=True):
    n = CURVES[name]
    p = rng.uniform(0.05, 1.0, n)
    if "gauss" in name:
        # widths of the gaussians (third parameter of each) well away from 0
        p = rng.uniform(0.05, 1.0, n)
    if chance(rng, 0.4):
        p = np.round(p, 2) + 0.01
    return [float(x) for x in p]


def curve(rng, radians=None, name=None):
    name = name or pick(rng, sorted(CURVES))
    rad = chance(rng, 0.5) if radians is None else radians
    return PolarDiagramCurve(
        getattr(model, name), *curve_params(rng, name), radians=rad
    )


def at(pd, ws, wa):
    """The speed of a diagram at a wind angle in degrees."""
    if isinstance(pd, PolarDiagramCurve):
        a = np.asarray(wa, float) % 360
        return pd.curve(ws, np.deg2rad(a) if pd.radians else a,
                        *pd.parameters)
    return pd(ws, wa)


def multisails(rng, kinds=("table", "cloud", "curve"), n=None, names=None):
    n = int(rng.integers(1, 5)) if n is None else n
    make = {
        "table": lambda: table(rng),
        "cloud": lambda: cloud(rng),
        "curve": lambda: curve(rng),
    }
    pds = [make[pick(rng, kinds)]() for _ in range(n)]
    return PolarDiagramMultiSails(pds, names)


SAIL_CHARS = "abcXYZ 0189:,;'\"#-_.äß°\t"


def sail_names(rng, n):
    names = []
    while len(names) < n:
        k = int(rng.integers(1, 9))
        s = "".join(pick(rng, SAIL_CHARS) for _ in range(k))
        if s not in names:
            names.append(s)
    return names


def _lobes(ws, wa, a, b, c):
    """positive speeds with lobes, angles in degrees"""
    th = np.deg2rad(wa)
    return np.sqrt(ws) * (a * np.abs(np.sin(th)) + b * (1 - np.cos(th))
                          + c * np.abs(np.cos(2 * th)))


def _lobes_rad(ws, wa, a, b, c):
    return _lobes(ws, np.rad2deg(wa), a, b, c)


def lobed_curve(rng):
    """A curve with realistic speeds everywhere."""
    rad = chance(rng, 0.5)
    return PolarDiagramCurve(
        _lobes_rad if rad else _lobes,
        *(float(x) for x in rng.uniform(0, 2, 3)), radians=rad)
