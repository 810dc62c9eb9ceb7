"""C02: polar tables keep every speed with its wind, in sorted order."""
import warnings

import numpy as np

from hrosailing.polardiagram import PolarDiagramTable
from hrv import Check, gen

check = Check(
    "C02",
    "Tables are built from shuffled, wrapped, integer/float/list/array/step "
    "resolutions with pairwise different speeds; every entry is looked up "
    "through the public views and compared with the dictionary "
    "{(ws, wa mod 360): speed} the input describes.",
    ["resolutions without duplicates (duplicates only warn)"],
)


def container(rng, x):
    k = int(rng.integers(5))
    if k == 0:
        return [float(v) for v in x]
    if k == 1:
        return tuple(float(v) for v in x)
    if k == 2 and np.all(x == np.round(x)):
        return [int(v) for v in x]
    if k == 3 and np.all(x == np.round(x)):
        return x.astype(int)
    return np.array(x)


@check.case(quick=1500, thorough=20000)
def build_and_lookup(m):
    rng = m.rng
    ws, wa, _ = gen.table_parts(rng, nmax=12, amax=25)
    # wrap angles: multiples of 360 keep eighths exact
    parts = 8 if gen.chance(rng, 0.7) else 2.0 ** 20
    wa = np.round(wa * parts) / parts
    wa = np.array(list(dict.fromkeys(wa % 360)))
    shift = rng.integers(-2, 3, len(wa)) * (360 if gen.chance(rng, 0.5) else 0)
    given_wa = wa + shift
    n, k = len(wa), len(ws)
    # unambiguous speeds: every entry carries its own identity
    b = (rng.permutation(n * k).reshape(n, k) + 1) / 8.0
    if gen.chance(rng, 0.1):
        b = -b
    m.given(ws=ws, wa=given_wa, b=b)
    rows = gen.pick(rng, [b, b.tolist(), tuple(map(tuple, b))])
    order = int(rng.integers(3))
    if order == 0:
        t = PolarDiagramTable(container(rng, ws), container(rng, given_wa),
                              rows)
    elif order == 1:
        t = PolarDiagramTable(bsps=rows, ws_resolution=container(rng, ws),
                              wa_resolution=container(rng, given_wa))
    else:
        t = PolarDiagramTable(ws, given_wa, bsps=rows)
    m.event("table-built")
    m.state("shape", b.shape)
    m.equal(t.wind_speeds, np.sort(ws), "sorted-wind-speeds")
    m.equal(t.wind_angles, np.sort(wa), "sorted-wind-angles")
    m.ok(bool(np.all(t.wind_angles >= 0) and np.all(t.wind_angles < 360)),
         "angle-range")
    oi, oj = np.argsort(wa), np.argsort(ws)
    m.equal(t.boat_speeds, b[oi][:, oj], "entries-follow-winds")
    for _ in range(min(n * k, 12)):
        i, j = int(rng.integers(n)), int(rng.integers(k))
        a = float(wa[i] + 360 * int(rng.integers(-2, 3)))
        w = float(ws[j])
        if w == int(w) and a == int(a) and gen.chance(rng, 0.5):
            w, a = int(w), int(a)
        m.equal(t[w, a], b[i, j], "lookup", f"table[{w}, {a}]")
        m.equal(t(w, a), b[i, j], "call-lookup", f"table({w}, {a})")
        m.event("lookup", 2)
    # winds the table does not store are not looked up
    w = float(ws.max() + 0.37)
    m.raises(ValueError, lambda: t[w, float(wa[0])], "unknown-wind")
    m.raises(ValueError, lambda: t[float(ws[0]), float(wa[0]) + 0.013],
             "unknown-wind")


@check.case(quick=300, thorough=3000)
def steps_and_defaults(m):
    rng = m.rng
    s = float(gen.pick(rng, [0.5, 1, 2, 3.7, 7, 13, 39])) if gen.chance(
        rng, 0.6) else round(float(rng.uniform(0.3, 39)), 2)
    a = float(gen.pick(rng, [1, 5, 7.5, 45, 90, 359])) if gen.chance(
        rng, 0.6) else round(float(rng.uniform(2, 359)), 2)
    use = int(rng.integers(4))
    m.given(ws_step=s, wa_step=a, use=use)
    ws_arg = s if use in (0, 1) else None
    wa_arg = a if use in (0, 2) else None
    ws = np.arange(s, 40, s) if ws_arg is not None else np.arange(2, 42, 2)
    wa = np.arange(a, 360, a) if wa_arg is not None else np.arange(0, 360, 5)
    t = PolarDiagramTable(ws_arg, wa_arg)
    m.equal(t.wind_speeds, ws, "step-wind-speeds")
    m.equal(t.wind_angles, wa, "step-wind-angles")
    m.equal(t.boat_speeds, np.zeros((len(wa), len(ws))), "zero-table")
    b = rng.permutation(len(wa) * len(ws)).reshape(len(wa), len(ws)) / 4
    t = PolarDiagramTable(ws_arg, wa_arg, b)
    m.equal(t.wind_speeds, ws, "step-wind-speeds")
    m.equal(t.wind_angles, wa, "step-wind-angles")
    m.equal(t.boat_speeds, b, "entries-follow-winds")
    i, j = int(rng.integers(len(wa))), int(rng.integers(len(ws)))
    m.equal(t[ws[j], wa[i]], b[i, j], "lookup")
    m.event("table-built", 2)
    # defaults are not shared between tables
    t2 = PolarDiagramTable(ws_arg, wa_arg)
    m.equal(t2.wind_speeds, ws, "step-wind-speeds")
    m.equal(t2.boat_speeds, np.zeros((len(wa), len(ws))), "zero-table")


@check.case(quick=25, thorough=250)
def large(m):
    """tables of up to some ten thousand entries of full precision"""
    rng = m.rng
    ws = np.unique(np.round(rng.uniform(0, 60, int(rng.integers(2, 200))),
                            int(rng.integers(1, 12))))
    wa = np.unique(np.round(rng.uniform(0, 359.9, int(rng.integers(20, 400))),
                            int(rng.integers(1, 12))))
    b = rng.uniform(-1, 30, (len(wa), len(ws)))
    pa, ps = rng.permutation(len(wa)), rng.permutation(len(ws))
    m.given(ws=ws, wa=wa, pa=pa, ps=ps)
    t = PolarDiagramTable(ws[ps], wa[pa], b[pa][:, ps])
    m.equal(t.wind_speeds, ws, "sorted-wind-speeds")
    m.equal(t.wind_angles, wa, "sorted-wind-angles")
    m.equal(t.boat_speeds, b, "entries-follow-winds")
    for _ in range(5):
        i, j = int(rng.integers(len(wa))), int(rng.integers(len(ws)))
        m.equal(t[ws[j], wa[i]], b[i, j], "lookup")
    m.event("large-table")


@check.case(quick=300, thorough=3000)
def zero_tables_unsorted(m):
    rng = m.rng
    ws, wa, _ = gen.table_parts(rng)
    m.given(ws=ws, wa=wa)
    t = PolarDiagramTable(container(rng, ws), container(rng, wa))
    m.equal(t.wind_speeds, np.sort(ws), "sorted-wind-speeds")
    m.equal(t.wind_angles, np.sort(wa), "sorted-wind-angles")
    m.equal(t.boat_speeds, np.zeros((len(wa), len(ws))), "zero-table")
    m.equal(t[float(ws[0]), float(wa[0])], 0.0, "lookup")
    m.event("table-built")


@check.case(quick=200, thorough=2000)
def duplicates(m):
    """angles given twice (also as 0 and 360) keep all their speeds"""
    rng = m.rng
    ws, wa, _ = gen.table_parts(rng, nmax=6, amax=30)
    wa = np.round(wa)
    wa = np.append(wa, wa[rng.integers(0, len(wa), int(rng.integers(1, 5)))]
                   + 360 * rng.integers(-1, 2))
    wa = wa[rng.permutation(len(wa))]
    n, k = len(wa), len(ws)
    b = (rng.permutation(n * k).reshape(n, k) + 1) / 8.0
    m.given(ws=ws, wa=wa, b=b)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = PolarDiagramTable(ws, wa, b)
    a = np.asarray(t.wind_angles)
    m.equal(a, np.sort(wa % 360), "sorted-wind-angles")
    m.equal(t.wind_speeds, np.sort(ws), "sorted-wind-speeds")
    got = sorted((w, x, float(t.boat_speeds[i, j])) for i, x in enumerate(
        a.tolist()) for j, w in enumerate(t.wind_speeds.tolist()))
    want = sorted((float(ws[j]), float(wa[i] % 360), float(b[i, j]))
                  for i in range(n) for j in range(k))
    m.equal(got, want, "entries-follow-winds", "angles given twice")
    order = [int(b[:, 0].tolist().index(v)) for v in t.boat_speeds[
        :, int(np.argsort(np.argsort(ws))[0])]]
    m.equal(sorted(order), list(range(n)), "entries-follow-winds")
    m.equal(t.boat_speeds, b[order][:, np.argsort(ws)],
            "entries-follow-winds", "rows stay together")
    m.event("angles given twice")


@check.case(quick=500, thorough=5000)
def rejections(m):
    rng = m.rng
    ws, wa, b = gen.table_parts(rng)
    kind = gen.pick(rng, [
        "nan-ws", "nan-wa", "inf-ws", "neg-ws", "empty-ws", "empty-wa",
        "2d-ws", "2d-wa", "nan-b", "inf-b", "shape-t", "shape-row",
        "shape-col", "shape-1d", "step0", "step-neg", "wa-step0",
        "step-big", "wa-step-big",
    ])
    v = float(gen.pick(rng, [np.nan, np.inf, -np.inf]))
    m.given(kind=kind, ws=ws, wa=wa)
    args = [ws.copy(), wa.copy(), b.copy()]
    if kind in ("nan-ws", "inf-ws"):
        args[0][int(rng.integers(len(ws)))] = np.nan if kind[0] == "n" else v
    elif kind == "nan-wa":
        args[1][int(rng.integers(len(wa)))] = v
    elif kind == "neg-ws":
        args[0][int(rng.integers(len(ws)))] = -float(rng.uniform(0.01, 5))
    elif kind == "empty-ws":
        args[0] = []
    elif kind == "empty-wa":
        args[1] = np.array([])
    elif kind == "2d-ws":
        args[0] = ws[None, :]
    elif kind == "2d-wa":
        args[1] = wa[:, None]
    elif kind in ("nan-b", "inf-b"):
        args[2][int(rng.integers(len(wa))), int(rng.integers(len(ws)))] = v
    elif kind == "shape-t":
        args[2] = b.T if b.shape[0] != b.shape[1] else b[:-1]
    elif kind == "shape-row":
        args[2] = np.row_stack([b, b[:1]])
    elif kind == "shape-col":
        args[2] = np.column_stack([b, b[:, :1]])
    elif kind == "shape-1d":
        args[2] = b.ravel()
    else:
        args = [args[0], args[1], None]
        x = {"step0": 0, "step-neg": -2.5, "wa-step0": 0,
             "step-big": 40.5, "wa-step-big": 360.5}[kind]
        args[1 if kind.startswith("wa") else 0] = x
    if gen.chance(rng, 0.3) and kind.endswith(("ws", "wa")):
        args[2] = None  # also when no speeds are given
    m.raises((ValueError, TypeError), lambda: PolarDiagramTable(*args),
             "rejects-" + kind, kind)
    m.event("rejected")
    m.state("rejection", kind)
