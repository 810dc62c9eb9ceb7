"""C29: model functions equal their documented formulas everywhere."""
import math

import numpy as np

import hrosailing.core.modelfunctions as model
from hrosailing.core.modelfunctions import _models2d as blocks
from hrv import Check, gen

check = Check(
    "C29",
    "Every library model function and every documented building block is "
    "evaluated with random, whole, zero, negative and extreme winds and "
    "parameters, in scalars, arrays of all shapes and orders, and compared "
    "value by value with its documented formula written out with Python's "
    "own scalar arithmetic.",
    ["values are compared where the formula is finite in double precision"],
)


def ex(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


# every formula as (value, possible rounding) of its terms
def sig(x, a0, a1, a2):
    return a2 / (1 + ex(a0 - a1 * x)), 0.0


def gauss(a, y, mu, two):
    return a * ex(-(y - mu) ** 2 / (2 * two)), 0.0


def par(a, y, mu):
    """rounding errors if the square is multiplied out"""
    return a * (y - mu) ** 2, abs(a) * 1e-3 * (abs(y) + abs(mu)) * (
        1 + abs(y) + abs(mu))


def mon(a, *xs):
    return math.prod((a, *xs)), 0.0


def times(terms, factor):
    return [(t * factor, r * abs(factor)) for t, r in terms]


def mirrored(a, x, y, k):
    """a x (360 - y), x being 1 or a wind speed"""
    return a * x * (360 - y), abs(a * x) * k


FORMULAS = {
    "ws_times_wa": (1, lambda x, y, a: [mon(a[0], x, y)]),
    "ws_concave_dt_wa": (11, lambda x, y, a: [
        mon(a[0]), mon(a[1], x), mon(-a[2], x, x), mon(a[3], y),
        par(a[5], y, a[4]), mon(a[6], x, y), mirrored(a[7], 1, y, 1),
        par(a[9], 360 - y, a[8]), mirrored(a[10], x, y, 1)]),
    "ws_wa_s_dt": (14, lambda x, y, a: [
        sig(x, a[0], a[1], a[2]), mon(-a[3], x, x),
        sig(y, a[4], a[5], a[6]), mon(-a[7], y, y), mon(a[8], x, y),
        sig(360 - y, a[9], a[10], a[11]), par(-a[12], 360 - y, 0),
        mirrored(a[13], x, y, 1)]),
    "ws_s_dt_wa_gauss": (10, lambda x, y, a: [
        sig(x, a[0], a[1], a[2]), mon(-a[3], x, x),
        gauss(a[4], y, a[5], a[6]), gauss(a[7], 360 - y, a[8], a[9])]),
    "ws_s_s_dt_wa_gauss_comb": (12, lambda x, y, a: [
        sig(x, a[0], a[1], a[2]), mon(-a[3], x, x),
        gauss(a[4], y, a[5], a[6]), mon(a[7], x, y),
        gauss(a[8], 360 - y, a[9], a[10]), mirrored(a[11], x, y, 1)]),
    "ws_s_wa_gauss": (9, lambda x, y, a: [
        sig(x, a[0], a[1], a[2]), gauss(a[3], y, a[4], a[5]),
        gauss(a[6], 360 - y, a[7], a[8])]),
    "ws_s_wa_gauss_and_square": (10, lambda x, y, a: times([
        sig(x, a[0], a[1], a[2]), mon(-a[3], x, x),
        *times([gauss(a[4], y, a[5], a[6]),
                gauss(a[7], 360 - y, a[8], a[9])], x)], y * (360 - y))),
}


def value(terms):
    """the value of a formula and how far rounding may take it"""
    try:
        return math.fsum(t for t, _ in terms), 1e-8 * math.fsum(
            abs(t) + 1e-3 * r for t, r in terms) + 1e-300
    except (OverflowError, ValueError):
        return math.inf, 0.0


WIDTHS = {"ws_s_dt_wa_gauss": (6, 9), "ws_s_s_dt_wa_gauss_comb": (6, 10),
          "ws_s_wa_gauss": (5, 8), "ws_s_wa_gauss_and_square": (6, 9)}


def parameters(rng, n, widths):
    kind = int(rng.integers(4))
    p = [rng.uniform(-2, 2, n), rng.uniform(0, 1, n),
         np.round(rng.uniform(-9, 9, n)), rng.normal(0, 50, n)][kind]
    if gen.chance(rng, 0.2):
        p[int(rng.integers(n))] = 0
    for w in widths:
        p[w] = float(gen.pick(rng, [0.5, 20, 400, 2000])) * rng.uniform(
            0.5, 2)
    for w in widths:  # centres within the circle, to be seen
        if gen.chance(rng, 0.6):
            p[w - 1] = rng.uniform(0, 360)
    out = [float(x) for x in p]
    if kind == 2 and gen.chance(rng, 0.5):
        out = [int(x) if i not in widths else x for i, x in enumerate(out)]
    return out


def winds(rng, n):
    ws, wa = rng.uniform(0, 40, n), rng.uniform(0, 360, n)
    for arr, special in ((ws, [0, 1, 40, 1e-9]),
                         (wa, [0, 360, 180, 359.999, 1e-9])):
        for i in range(n):
            if rng.uniform() < 0.2:
                arr[i] = gen.pick(rng, special)
    return ws, wa


def finite(values):
    v = np.asarray(values, float)
    return bool(np.all(np.isfinite(v)) and np.all(np.abs(v) < 1e200))


def compare(m, got, want, mech, **kw):
    """want: (value, tolerance)"""
    g, w = np.asarray(got, float), np.asarray(want, float)
    m.equal(g.shape, w.shape[:-1], mech + "-shape", **kw)
    m.ok(bool(np.all(np.abs(g - w[..., 0]) <= w[..., 1])), mech,
         "not the value of the documented formula", got=g, want=w[..., 0],
         **kw)


@check.case(quick=1000, thorough=20000)
def formulas(m):
    rng = m.rng
    name = gen.pick(rng, sorted(FORMULAS))
    n, formula = FORMULAS[name]
    p = parameters(rng, n, WIDTHS.get(name, ()))
    k = gen.scaled(rng, rng.integers(100, 300) if gen.chance(
        rng, 0.02) else rng.integers(1, 12))
    ws, wa = winds(rng, k)
    for arr in (ws, wa):  # close to a centre or threshold
        if gen.chance(rng, 0.3):
            c = abs(p[int(rng.integers(n))]) + gen.pick(
                rng, [0, 1e-6, -1e-3, 1e-2])
            arr[int(rng.integers(k))] = gen.pick(rng, [c, 360 - c]) % 360
    whole = gen.chance(rng, 0.25)
    if whole:
        ws, wa = np.round(ws).astype(int), np.round(wa).astype(int)
    func = getattr(model, name)
    m.given(function=name, params=p, ws=ws, wa=wa)

    def at(x, y):
        return value(formula(float(x), float(y), p))

    want = np.array([at(x, y) for x, y in zip(ws, wa)])
    if not finite(want):
        m.event("not finite")
        return
    ws0, wa0, p0 = ws.copy(), wa.copy(), list(p)
    with np.errstate(all="ignore"):
        got = func(ws, wa, *p)
        m.event("values", k)
        compare(m, got, want, f"formula-{name}")
        m.equal(ws, ws0, "arguments-unchanged")
        m.equal(wa, wa0, "arguments-unchanged")
        m.equal(p, p0, "arguments-unchanged")
        ones = [float(func(x, y, *p))
                for x, y in zip(ws.tolist(), wa.tolist())]
        m.event("scalars", k)
        compare(m, ones, want, f"scalar-{name}")
        perm = rng.permutation(k)
        compare(m, func(ws[perm], wa[perm], *p), want[perm],
                f"order-{name}")
        # one wind speed with many angles and grids
        line = np.array([at(ws[0], y) for y in wa])
        g1, g2 = np.meshgrid(ws[:4], wa[:5])
        grid = np.array([[at(x, y) for x, y in zip(r, q)]
                         for r, q in zip(g1, g2)])
        if finite(line):
            compare(m, func(ws[0], wa, *p), line, f"one-speed-{name}")
        if finite(grid):
            compare(m, func(g1, g2, *p), grid, f"grid-{name}")
        m.equal(np.asarray(func(ws, wa, *p)), np.asarray(got),
                "again-the-same")
    m.state("function", (name, whole, k > 1))


BLOCKS = {
    "polynomial_function": [
        ({}, 2, lambda x, a: [mon(a[0]), mon(a[1], x)]),
        ({"deg": 0}, 1, lambda x, a: [mon(a[0])]),
        ({"deg": 3}, 4, lambda x, a: [
            mon(a[0]), mon(a[1], x), mon(a[2], x, x), mon(a[3], x, x, x)]),
        ({"deg": 6}, 7, lambda x, a: [
            mon(c, *[x] * i) for i, c in enumerate(a)]),
    ],
    "inverted_parabola": [
        ({}, 3, lambda x, a: [mon(a[1]), par(a[2], x, a[0])])],
    "inverted_shifted_parabola": [
        ({}, 3, lambda x, a: [mon(a[0], x), par(a[2], x, a[1])])],
    "concave_function": [
        ({}, 3, lambda x, a: [mon(a[0]), mon(a[1], x), mon(-a[2], x, x)]),
        ({"downturn": True, "sat_limit": False}, 3,
         lambda x, a: [mon(a[0]), mon(a[1], x), mon(-a[2], x, x)]),
        ({"sat_limit": True}, 4,
         lambda x, a: [mon(a[2]), mon(-a[0], ex(a[1] - x)),
                       mon(-a[3], x, x)]),
        ({"downturn": False, "sat_limit": True}, 3,
         lambda x, a: [mon(a[2]), mon(-a[0], ex(a[1] - x))]),
    ],
    "s_shaped": [
        ({}, 4, lambda x, a: [sig(x, *a[:3]), mon(-a[3], x, x)]),
        ({"downturn": False}, 4, lambda x, a: [sig(x, *a[:3])]),
        ({"downturn": False}, 3, lambda x, a: [sig(x, *a[:3])]),
    ],
    "gaussian_model": [
        ({}, 3, lambda x, a: [gauss(a[0], x, a[1], a[2])]),
        ({"offset": False}, 4, lambda x, a: [gauss(a[0], x, a[1], a[2])]),
        ({"offset": True}, 4,
         lambda x, a: [gauss(a[0], x, a[1], a[2]), mon(a[3])]),
    ],
}


@check.case(quick=1500, thorough=20000)
def building_blocks(m):
    rng = m.rng
    name = gen.pick(rng, sorted(BLOCKS))
    i = int(rng.integers(len(BLOCKS[name])))
    kw, n, formula = BLOCKS[name][i]
    func = getattr(blocks, name)
    p = [float(x) for x in rng.uniform(-5, 5, n)]
    for j in range(n):
        if gen.chance(rng, 0.15):
            p[j] = float(gen.pick(rng, [0, 1, 30, 1e6, 1e-6]))
    if name == "gaussian_model":
        p[2] = float(rng.uniform(0.5, 50))
    k = int(rng.integers(100, 300)) if gen.chance(
        rng, 0.02) else int(rng.integers(1, 10))
    x = rng.uniform(-20, 40, k)
    if gen.chance(rng, 0.3):
        x = np.round(x)
    if gen.chance(rng, 0.3):  # close to a centre or threshold
        x[int(rng.integers(k))] = gen.pick(rng, p) + gen.pick(
            rng, [0, 1e-6, -1e-4, 5e-4, 1e-2])
    if gen.chance(rng, 0.2):
        x[int(rng.integers(k))] = gen.pick(rng, [0, 360, 200])
    m.given(function=name, options=kw, params=p, x=x)
    want = np.array([value(formula(float(v), p)) for v in x])
    if not finite(want):
        return
    keep = x.copy()
    with np.errstate(all="ignore"):
        got = func(x, *p, **kw)
        if np.ndim(got) == 0 and name == "polynomial_function":
            got = np.broadcast_to(got, x.shape)  # degree 0
        m.event("values", k)
        compare(m, got, want, f"block-{name}-{i}")
        m.equal(x, keep, "block-arguments-unchanged")
        compare(m, [float(func(float(v), *p, **kw)) for v in x], want,
                f"block-scalar-{name}")
    m.state("block", (name, i))


@check.case(quick=10, thorough=40)
def neither(m):
    x = m.rng.uniform(0, 1, 3)
    m.given(x=x)
    m.raises(ValueError, lambda: blocks.concave_function(
        x, 1, 2, 3, 4, downturn=False, sat_limit=False), "neither-rejected")
    m.event("rejected")


gen.large_case(check, formulas, 20000)
